from .. import catalog as C
from .. import ref, world as W
import numpy as np


class C12(W.PropBase):
    id = 'C12'
    runs = {'quick': 1000, 'thorough': 60000}
    long = 0
    stubs = ['deterministic signal generators in the non-random snapshot operations']
    real = W.PropBase.real + ['numpy.random global generator']

    def gen(self, rng):
        spec = C.gen_world(rng)
        gens = []
        for _ in range(rng.randint(1, 3)):
            d = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 40)
            gens.append({'type': rng.choice(['cs', 'cs', 'rp']), 'dim': d,
                         'form': rng.choice(['scalar', 'default', 'vector', 'matrix']), 'seed': rng.randrange(999)})
            if gens[-1]['type'] == 'rp' and gens[-1]['form'] == 'matrix':
                gens[-1]['form'] = 'vector'
        # Sources and noise of the snapshot calls.
        k = len(spec['srcs'][0]['locs'])
        gens.append({'type': 'cs', 'dim': k, 'form': 'default', 'seed': 1})
        gens.append({'type': 'cs', 'dim': W.n_elements(spec['arr'][0]), 'form': 'scalar', 'seed': 2})

        def draw():
            if rng.random() < 0.3:
                return {'kind': 'rsnap', 'n': rng.choice([1, 2, 5, 64, 100, 256, 2000, 6000, rng.randint(1, 300)]), 'noise': rng.random() < 0.7}
            return {'kind': 'emit', 'g': rng.randrange(len(gens)), 'n': rng.choice([1, 1, 2, 3, 7, 16, 16, 64, 100, 128, 256, 500, 1000, 1024, rng.randint(1, 400), 1500, 5000, 5000])}
        seq = [draw() for _ in range(rng.randint(2, 7))]
        ops = [draw() for _ in range(rng.randint(0, 4))]          # the history before the seeding
        ops.append({'kind': 'seed', 'seed': rng.randrange(2 ** 31), 'no_fault': True})
        for n, op in enumerate(seq):
            if rng.random() < 0.4:
                # Non-random operations of the emitting caller itself.
                q = C.gen_op(rng, spec)
                q['det'] = True
                ops.append(q)
            ops.append(dict(op, step=n, no_fault=True))
        clients = [ops]
        for _ in range(rng.randint(0, 2)):
            clients.append([dict(C.gen_op(rng, spec), det=True) for _ in range(rng.randint(1, 4))])
        return {'spec': spec, 'gens': gens, 'seq': seq, 'clients': clients, 'redo': 0}

    @staticmethod
    def make_gen(g):
        rs = np.random.RandomState(g['seed'])
        d = g['dim']
        if g['form'] == 'default':
            a = ()
        elif g['form'] == 'scalar':
            a = (2.5,)
        elif g['form'] == 'vector':
            a = (rs.uniform(.5, 2, d),)
        else:
            H = rs.randn(d, d) + 1j * rs.randn(d, d)
            a = (H @ H.conj().T + np.eye(d),)
        return (W.SIG.ComplexStochasticSignal if g['type'] == 'cs' else W.SIG.RandomPhaseSignal)(d, *a)

    def draw(self, w, gens, op):
        if op['kind'] == 'emit':
            return gens[op['g']].emit(op['n'])
        kw = {'noise_signal': gens[-1]} if op['noise'] else {}
        return W.SNP.get_narrowband_snapshots(w.arr[0], w.srcs[0], w.wl, gens[-2], n_snapshots=op['n'],
                                              return_covariance=True, **kw)

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.w = C.World(plan['spec'], len(plan['clients']))
        # The stream a fresh process would produce.
        state = np.random.get_state()
        seed = [op['seed'] for op in plan['clients'][0] if op['kind'] == 'seed'][0]
        gens = [self.make_gen(g) for g in plan['gens']]
        np.random.seed(seed)
        ctx.exp = [C.plain(self.draw(ctx.w, gens, op)) for op in plan['seq']]
        ctx.exp_state = np.random.get_state()
        np.random.set_state(state)
        ctx.gens = [self.make_gen(g) for g in plan['gens']]
        ctx.last = -1
        ctx.pre = {}
        return ctx

    def run_op(self, ctx, c, op):
        if op['kind'] == 'seed':
            np.random.seed(op['seed'])
            return None
        if op.get('det'):
            ctx.pre[c.idx] = (np.random.get_state(), len(ctx.sim.switch_sig))
            return C.run(ctx.w, op, c.idx % len(ctx.w.own))
        return self.draw(ctx.w, ctx.gens, op)

    def check(self, ctx, c, op, out):
        if op.get('det'):
            if c.idx in ctx.pre:
                st, sw = ctx.pre[c.idx]
                if sw == len(ctx.sim.switch_sig) and not self.state_eq(st, np.random.get_state()):
                    raise W.Violation('rng-touched', 'non-random operation %s changed the global random '
                                      'state' % op['kind'])
            return
        if not out.ok or 'step' not in op:
            return
        got = C.plain(out.value)
        exp = ctx.exp[op['step']]
        if not self.bits(got, exp):
            raise W.Violation('stream-changed', 'step %d (%s) after seeding is not bit-identical to the '
                              'same step of a fresh process: got %s, expected %s'
                              % (op['step'], op['kind'], str(got)[:300], str(exp)[:300]))
        ctx.last = op['step']
        ctx.sim.probe('steps-compared')

    @classmethod
    def bits(cls, a, b):
        if isinstance(b, list):
            return isinstance(a, list) and len(a) == len(b) and all(cls.bits(x, y) for x, y in zip(a, b))
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()

    @staticmethod
    def state_eq(a, b):
        return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]

    def final(self, ctx):
        if ctx.last == len(ctx.exp) - 1 and not self.state_eq(np.random.get_state(), ctx.exp_state):
            raise W.Violation('rng-touched', 'the random state after the sequence differs from that of a '
                              'fresh process')
        # Fresh draws: no phase occurs in two emissions.
        seen = {}
        for n, op in enumerate(ctx.plan['seq']):
            if op['kind'] != 'emit':
                continue
            g = ctx.plan['gens'][op['g']]
            if g['form'] == 'matrix':
                continue
            # (nor does the phase between two consecutive samples)
            ph = np.angle(ctx.exp[n])
            for j, v in enumerate((ph, np.mod(np.diff(ph, axis=1), 2 * np.pi))):
                v = np.round(v, 11 - j).reshape(-1)
                for m, u in seen.get(j, []):
                    few = 1 if u.size * v.size < 1e4 else 5      # coincidences
                    if np.intersect1d(u, v).size >= few:
                        raise W.Violation('stale-draws', 'emissions %d and %d share samples' % (m, n))
                seen.setdefault(j, []).append((n, v))


PROP = C12()
