from .. import ref, world as W
import numpy as np


class GenFailure(Exception):
    pass


class Gen(W.SIG.SignalGenerator):
    """Adversarial signal generator: the running operation says how it behaves."""

    def __init__(self, ctx, dim, gid, seed):
        self.ctx, self._dim, self.gid = ctx, dim, gid
        self.rs = np.random.RandomState(seed)
        self.bufs = {}

    @property
    def dim(self):
        return self._dim

    def emit(self, n):
        ctx = self.ctx
        c = ctx.sim.current
        op = c.cur_op
        rec = ctx.rec[c.idx]
        role = 'src' if self.gid == op['src'] else 'noise'
        depth = rec['depth']
        beh = op[role + '_beh'] if depth == 0 else 'fresh'
        rec['emits'].append([role, n, depth, None])
        slot = rec['emits'][-1]
        if beh == 'raise' and not op.get('redo'):
            e = GenFailure('generator failed')
            ctx.sim.seam_fault('generator-raises', e)
            raise e
        if beh == 'reenter':
            ctx.sim.probe('reentrant-generator')
            rec['depth'] += 1
            try:
                o = dict(op, n=op['n2'], src_beh='fresh', noise_beh='fresh')
                rec['inner_from'] = len(rec['emits'])
                rec['inner'] = ctx.prop.snap(ctx, o)
                rec['inner_to'] = len(rec['emits'])
            finally:
                rec['depth'] -= 1
        X = self.rs.randn(self._dim, n) + 1j * self.rs.randn(self._dim, n)
        dt = op['dtype']
        if dt == 'real':
            X = X.real.copy()
        elif dt == 'int':
            X = np.round(3 * X.real).astype(int)
        elif dt == 'c64':
            X = X.astype(np.complex64)
        if op.get('amp') and dt in ('complex', 'real'):
            X = X * op['amp']       # any unit of the signals
        if op.get('silent') and n > 1:
            X[:, self.rs.rand(n) < 0.4] = 0     # nothing is sent at times
        slot[3] = X.copy()
        if beh == 'buffer':
            # One buffer per client: a generator shared by two clients must not
            # hand the same memory to both.
            key = (c.idx, n, X.dtype.str)
            b = self.bufs.get(key)
            if b is None:
                b = self.bufs[key] = np.empty_like(X)
            b[...] = X
            rec['lent'].append((b, X.copy()))
            return b
        if beh == 'readonly':
            X.setflags(write=False)
            return X
        if beh == 'fortran':
            return np.asfortranarray(X)
        if beh == 'view':
            big = np.zeros((self._dim * 2, n * 2), dtype=X.dtype)
            v = big[::2, ::2]
            v[...] = X
            rec['lent'].append((v, X.copy()))
            return v
        rec['lent'].append((X, X.copy()))
        return X


class FalsyGen(Gen):
    """A generator that looks empty."""

    def __len__(self):
        return 0


class Recorded(W.SIG.ComplexStochasticSignal):
    """The real generator, with its emissions recorded."""

    def __init__(self, ctx, dim, gid, C):
        super().__init__(dim, C)
        self.ctx, self.gid = ctx, gid

    def emit(self, n):
        ctx = self.ctx
        c = ctx.sim.current
        rec = ctx.rec[c.idx]
        role = 'src' if self.gid == c.cur_op['src'] else 'noise'
        slot = [role, n, rec['depth'], None]
        rec['emits'].append(slot)
        r = super().emit(n)
        slot[3] = np.array(r)
        return r


class C11(W.PropBase):
    id = 'C11'
    runs = {'quick': 2000, 'thorough': 100000}
    stubs = ['signal generators (adversarial: reused buffers, read-only data, failures, re-entry); the '
             'library\'s own generators in some operations']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        arrays = [W.gen_array(rng, wl, max_m=rng.choice([6, 6, 8]), elems=['iso'] * 3 + ['cos', 'complex'], custom=0.2) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        srcs = [W.gen_sources(rng, wl, kmax=rng.choice([3, 3, 3, 12])) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.4:
            srcs.append(W.twin_sources(rng, srcs[0]))
        gens, clients = [], []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                ops.append(self.gen_op(rng, wl, arrays, srcs, gens))
            clients.append(ops)
        return {'arrays': arrays, 'srcs': srcs, 'wl': wl, 'gens': gens, 'clients': clients}

    def pick_gen(self, rng, gens, dim, real):
        cand = [i for i, g in enumerate(gens) if g['dim'] == dim and g['real'] == real]
        if cand and rng.random() < 0.6:
            return rng.choice(cand)
        gens.append({'dim': dim, 'seed': rng.randrange(10 ** 6), 'real': real, 'falsy': rng.random() < 0.2})
        return len(gens) - 1

    def gen_op(self, rng, wl, arrays, srcs, gens):
        ai, si = rng.randrange(len(arrays)), rng.randrange(len(srcs))
        a = arrays[ai]
        if rng.random() < 0.12:
            return {'kind': 'derive', 'a': ai, 'perts': [W.gen_pert(rng, 'loc', W.n_elements(a), wl)]}
        rows = W.n_elements(a) * ref.RESP_SIZE[a['elem']]
        real = rng.random() < 0.15
        op = {'kind': 'snap', 'a': ai, 's': si, 'n': rng.choice([1, 1, 2, 3, 5, 17, 17, 130, 1100, rng.choice([2, 3, 4096, 10000]) + rng.randint(-1, 1) + 2 ** rng.randint(8, 13)]), 'n2': rng.randint(1, 6),
              'cov': rng.random() < 0.5, 'wl': rng.choice([wl, wl, W.f(1.3 * wl)]), 'defn': False,
              'src': self.pick_gen(rng, gens, len(srcs[si]['locs']), real), 'noise': None,
              'dtype': rng.choice(['complex', 'complex', 'real', 'int', 'c64']),
              'scribble': rng.random() < 0.3}
        behs = ['fresh', 'buffer', 'buffer', 'readonly', 'fortran', 'view']
        op['src_beh'], op['noise_beh'] = rng.choice(behs), rng.choice(behs)
        if rng.random() < 0.7:
            op['noise'] = self.pick_gen(rng, gens, rows, real)
            if op['noise'] == op['src']:
                op['noise'] = None
        u = rng.random()
        if u < 0.1:
            op['amp'] = rng.choice([1e-12, 1e-8, 1e-3, 1e5, 1e9])
        elif u < 0.2:
            op['silent'] = True
        d = len(srcs[si]['locs'])
        if not real and rows == d and rng.random() < 0.5:
            # One generator, asked for two sets of samples.
            op['noise'] = op['src']
            op['src_beh'] = op['noise_beh'] = rng.choice(['fresh', 'readonly', 'fortran', 'view'])
        elif not real:
            u = rng.random()
            role = rng.choice(['src', 'noise'] if op['noise'] is not None else ['src'])
            if u < 0.15:
                op[role + '_beh'] = 'raise'
                op['expect_exc'] = True
                op['seam_fault'] = True
            elif u < 0.3:
                op[role + '_beh'] = 'reenter'
            elif u < 0.35:
                # One signal too many: there is no product to return.
                d = len(srcs[si]['locs'])
                op['src'] = self.pick_gen(rng, gens, d + rng.choice([1, 2] if d < 2 else [1, 2, -1]), False)
                op['src_beh'] = op['noise_beh'] = 'fresh'
                op['mismatch'] = op['expect_exc'] = True
                if op['noise'] == op['src']:
                    op['noise'] = None
        if op['n'] == 1 and rng.random() < 0.5:
            op['defn'] = True
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.prop = self
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.srcs = [W.make_sources(s) for s in plan['srcs']]
        ctx.gens = [Recorded(ctx, g['dim'], i, 1.5) if g['real'] else (FalsyGen if g.get('falsy') else Gen)(ctx, g['dim'], i, g['seed'])
                    for i, g in enumerate(plan['gens'])]
        ctx.rec = {}
        ctx.kept = []
        return ctx

    def snap(self, ctx, op):
        kw = {}
        if op['noise'] is not None:
            kw['noise_signal'] = ctx.gens[op['noise']]
        if not op['defn'] or op['n'] != 1:
            kw['n_snapshots'] = op['n']
        if op['cov']:
            kw['return_covariance'] = True
        return W.SNP.get_narrowband_snapshots(ctx.arrays[op['a']], ctx.srcs[op['s']], op['wl'],
                                              ctx.gens[op['src']], **kw)

    def run_op(self, ctx, c, op):
        if op['kind'] == 'derive':
            return ctx.arrays[op['a']].get_perturbed_copy(W.make_perts(op['perts']))
        ctx.rec[c.idx] = {'emits': [], 'lent': [], 'depth': 0}
        return self.snap(ctx, op)

    def check(self, ctx, c, op, out):
        if op['kind'] == 'derive':
            return
        rec = ctx.rec[c.idx]
        for b, orig in rec['lent']:
            if not np.array_equal(b, orig):
                raise W.Violation('buffer-modified', 'a buffer owned by a signal generator was modified')
        bad = [r for r in ('src', 'noise') if op[r + '_beh'] == 'raise' and (r == 'src' or op['noise'] is not None)]
        if not out.ok:
            if out.faulted and isinstance(out.fired[0], GenFailure) and out.exc not in out.fired:
                raise W.Violation('exception-replaced', 'generator raised, caller got %r' % out.exc)
            if not out.faulted and not op.get('mismatch'):
                raise W.Violation('unexpected-exception', repr(out.exc))
            return
        if op.get('mismatch'):
            raise W.Violation('bad-accepted', 'the dimension of the source generator does not match the '
                              'number of sources but the call returned')
        if bad and not op.get('redo'):
            raise W.Violation('error-swallowed', 'a generator raised but the call returned')
        outer = [e for e in rec['emits'] if e[2] == 0]
        self.one(ctx, op, out.value, outer, op['n'])
        if 'inner' in rec:
            inner = rec['emits'][rec['inner_from']:rec['inner_to']]
            self.one(ctx, op, rec['inner'], inner, op['n2'])
        # Generators refill their buffers: results must not change.
        Y = out.value[0] if op['cov'] else out.value
        for b, _ in rec['lent']:
            if b.flags.writeable:
                if np.may_share_memory(b, Y):
                    raise W.Violation('buffer-retained', 'the snapshots share memory with a generator buffer')
        ctx.kept.append((Y, np.array(Y), op['id']))
        if op['scribble'] and Y.flags.writeable:
            Y[...] = 5
            ctx.kept.pop()

    def one(self, ctx, op, res, emits, n):
        plan = ctx.plan
        a = plan['arrays'][op['a']]
        want = ['src'] + (['noise'] if op['noise'] is not None else [])
        twice = op['noise'] == op['src']
        if twice:
            want = ['src', 'src']
        W.same(sorted(e[0] for e in emits), sorted(want), 'generators drawn from (once each)')
        for e in emits:
            W.same(int(e[1]), n, 'number of samples drawn from the %s generator' % e[0])
        by = {e[0]: e[3] for e in emits}
        if op['cov']:
            W.expect(isinstance(res, tuple) and len(res) == 2, 'result is not (snapshots, covariance)')
            Y, R = res
        else:
            Y, R = res, None
        A = ref.steering(a, a['perts'], plan['srcs'][op['s']], op['wl'], 'all')
        exp = A @ by['src']
        if twice:
            ctx.sim.probe('one-generator-twice')
            s, v = emits[0][3], emits[1][3]
            exp = A @ s + v
            if np.max(np.abs(Y - exp)) > np.max(np.abs(Y - (A @ v + s))):
                exp = A @ v + s         # the order is not laid down
        if 'noise' in by:
            exp = exp + by['noise']
        tol = 1e-7 if op['dtype'] != 'c64' else 2e-5
        W.close(Y, exp, 'snapshots', rtol=tol, atol=0)
        if R is not None:
            Yc = np.asarray(Y)
            W.close(R, Yc @ Yc.conj().T / n, 'sample covariance', rtol=tol, atol=0)

    def final(self, ctx):
        for Y, b, i in ctx.kept:
            if not np.array_equal(Y, b):
                raise W.Violation('result-changed', 'snapshots returned by op %d changed later' % i)


PROP = C11()
