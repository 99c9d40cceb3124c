from ..world import *  # noqa: F401,F403
from .. import ref, world as W
import numpy as np


class C01(W.PropBase):
    id = 'C01'
    runs = {'quick': 1200, 'thorough': 60000}
    stubs = ['sensor-response callbacks (test doubles, re-entrant in some runs)']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        elems = ['iso'] * 3 + ['cos', 'complex', 'near', 'vec2', 'vec3', 'own', 'ivec', 'vec6']
        arrays = [W.gen_array(rng, wl, elems=elems, custom=0.3, min_m=1) for _ in range(rng.randint(1, 3))]
        sources = [W.gen_sources(rng, wl) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            # The same directions in another unit, and one placement twice as long.
            s = sources[0]
            if s['kind'] == 'ff1d' and s['unit'] == 'rad':
                sources.append({'kind': 'ff1d', 'unit': 'deg',
                                'locs': [float(np.clip(np.rad2deg(x), -90, 90)) for x in s['locs']]})
        if rng.random() < 0.3:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        if rng.random() < 0.3:
            sources.append(W.twin_sources(rng, sources[0]))
        if rng.random() < 0.04:
            sources.append(W.gen_sources(rng, wl, kmin=10, kmax=70))
        wls = [wl, W.f(wl * rng.uniform(0.5, 2)), wl]
        clients = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                ai, si = rng.randrange(len(arrays)), rng.randrange(len(sources))
                a, s = arrays[ai], sources[si]
                scalar_iso = a['elem'] == 'iso'
                op = {'kind': 'steer', 'a': ai, 's': si, 'wl': rng.choice(wls),
                      'which': rng.choice(['all', 'all', 'known', 'none', 'default']),
                      'deriv': s['kind'] == 'ff1d' and scalar_iso and rng.random() < 0.5}
                u = rng.random()
                if u < 0.12 and a['perts'] is not None:
                    m = W.n_elements(a)
                    types = ['loc'] + (['gain', 'phase', 'coupling'] if ref.RESP_SIZE[a['elem']] == 1 else [])
                    op['derive'] = [W.gen_pert(rng, t, m, wl) for t in
                                    rng.sample(types, rng.randint(1, min(2, len(types))))]
                    op['derive_form'] = rng.choice(['list', 'dict'])
                elif u < 0.2:
                    op['free'] = True
                elif u < 0.3:
                    op['kind'] = 'mutate'
                    op['s2'] = W.gen_sources(rng, wl, (s['kind'],), kmin=len(s['locs']), kmax=len(s['locs']))
                    if s['kind'] != 'nf2d':
                        op['s2']['locs'] = [self._conv(x, op['s2']['unit'], s['unit']) for x in op['s2']['locs']]
                        op['s2']['unit'] = s['unit']
                elif u < 0.4:
                    op['kind'] = 'bad'
                    op['expect_exc'] = True
                    opts = ['which']
                    if not scalar_iso or s['kind'] != 'ff1d':
                        opts += ['deriv', 'deriv']
                    op['bad'] = rng.choice(opts)
                elif u < 0.43:
                    op['kind'] = 'resp'
                    op['shape'] = rng.choice([[], [1], [5], [3, 4], [2, 1, 3], [0]])
                    op['pol'] = rng.choice([0, 0, 1, 2])
                    op['seed'] = rng.randrange(999)
                    op['mis'] = rng.choice([None, None, None, 'az', 'el', 'pol'])
                    if a['elem'] == 'vec2':
                        op['pol'] = rng.choice([1, 2])
                        op['mis'] = rng.choice([None, 'pol', 'pol', 'az', 'el'])
                    op['expect_exc'] = True
                elif u < 0.5 and ref.RESP_SIZE[a['elem']] > 1:
                    op['unflat'] = True
                if (a['elem'] != 'iso' or any(p['type'] == 'custom' for p in a['perts'])) and rng.random() < 0.5:
                    op['reenter'] = {'a': rng.randrange(len(arrays)), 's': rng.randrange(len(sources)),
                                     'wl': rng.choice(wls), 'which': rng.choice(['all', 'known', 'none'])}
                ops.append(op)
            clients.append(ops)
        return {'arrays': arrays, 'sources': sources, 'clients': clients}

    @staticmethod
    def _conv(x, u, v):
        if isinstance(x, list):
            return [C01._conv(y, u, v) for y in x]
        r = float(ref.to_rad(x, u))
        return W.f({'rad': r, 'deg': np.rad2deg(r), 'sin': 0.97 * np.sin(r)}[v])

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.hooks = []
        ctx.arrays = [W.make_array(a, ctx.hooks) for a in plan['arrays']]
        ctx.sources = [W.make_sources(s) for s in plan['sources']]
        ctx.nested = {}
        for h in ctx.hooks:
            h.hook = lambda: self.reenter(ctx)
        return ctx

    def reenter(self, ctx):
        sim = ctx.sim
        if sim is None or sim.current is None or not sim.current.in_op:
            return
        c = sim.current
        op = c.cur_op
        q = op.get('reenter')
        if q is None or op['id'] in ctx.nested.get('active', ()):
            return
        ctx.nested.setdefault('active', set()).add(op['id'])
        try:
            A = ctx.arrays[q['a']].steering_matrix(ctx.sources[q['s']], q['wl'], perturbations=q['which'])
            ctx.nested[op['id']] = A
            sim.probe('reentrant-call')
        finally:
            ctx.nested['active'].discard(op['id'])

    def run_op(self, ctx, c, op):
        arr, src = ctx.arrays[op['a']], ctx.sources[op['s']]
        kw = {}
        if op['kind'] == 'resp':
            return arr.element.calc_spatial_response(*self.directions(op))
        if op['kind'] == 'bad':
            if op['bad'] == 'which':
                return arr.steering_matrix(src, op['wl'], perturbations='bogus')
            return arr.steering_matrix(src, op['wl'], True)
        if op['which'] != 'default':
            kw['perturbations'] = op['which']
        if op.get('unflat'):
            kw['flatten'] = False
        if op.get('derive'):
            arr = arr.get_perturbed_copy(W.make_perts(op['derive'], op['derive_form']), 'derived')
        if op.get('free'):
            arr = arr.get_perturbation_free_copy()
        if op['kind'] == 'mutate':
            p = src[:]
            A1 = arr.steering_matrix(p, op['wl'], op['deriv'], **kw)
            p.locations[:] = np.array(op['s2']['locs'])
            A2 = arr.steering_matrix(p, op['wl'], op['deriv'], **kw)
            return A1, A2
        return arr.steering_matrix(src, op['wl'], op['deriv'], **kw)

    @staticmethod
    def directions(op):
        rs = np.random.RandomState(op['seed'])
        v = [rs.uniform(0.5, 5, op['shape']), rs.uniform(-3, 3, op['shape']), rs.uniform(-1.5, 1.5, op['shape'])]
        if op['mis'] in ('az', 'el'):
            v[1 if op['mis'] == 'az' else 2] = np.zeros(op['shape'] + [2])
        if op['pol']:
            v.append(rs.uniform(-1, 1, (op['shape'] if op['mis'] != 'pol' else op['shape'] + [3]) + [op['pol']]))
        return v

    def check_response(self, ctx, op, out):
        a = ctx.plan['arrays'][op['a']]
        bad = op['mis'] in ('az', 'el') or op['pol'] and (a['elem'] != 'vec2' or op['mis'])
        if bad:
            W.expect(not out.ok, 'accepted directions %r' % op)
            W.expect(out.faulted or isinstance(out.exc, ValueError), 'rejected with %r' % out.exc)
            return
        if out.faulted and not out.ok:
            return
        if not out.ok:
            raise W.Violation('unexpected-exception', repr(out.exc))
        v = self.directions(op)
        want = np.ones(op['shape']) if a['elem'] == 'iso' else ref.response(a['elem'], *v[:3])
        if op['pol']:
            want = want * (1 + v[3][..., -1])
        W.same(np.shape(out.value), np.shape(want), 'shape of the response')
        W.close(np.asarray(out.value), want, 'response')

    def check(self, ctx, c, op, out):
        plan = ctx.plan
        n = ctx.nested.pop(op['id'], None)
        if n is not None:
            q = op['reenter']
            a = plan['arrays'][q['a']]
            W.close(n, ref.steering(a, a['perts'], plan['sources'][q['s']], q['wl'], q['which']),
                    'nested steering matrix')
        if op['kind'] == 'resp':
            return self.check_response(ctx, op, out)
        if not out.ok:
            return
        if op['kind'] == 'bad':
            raise W.Violation('unsupported-accepted', 'unsupported request %r returned a matrix' % op)
        a, s = plan['arrays'][op['a']], plan['sources'][op['s']]
        which = 'all' if op['which'] == 'default' else op['which']
        perts = a['perts']
        if op.get('derive'):
            perts = ref.derive(perts, op['derive'])
        if op.get('free'):
            perts = []
        if op['kind'] == 'mutate':
            self.cmp(out.value[0], a, perts, s, op, which)
            self.cmp(out.value[1], a, perts, op['s2'], op, which)
        else:
            self.cmp(out.value, a, perts, s, op, which)

    def cmp(self, got, a, perts, s, op, which):
        exp = ref.steering(a, perts, s, op['wl'], which, op['deriv'])
        if op['deriv']:
            W.expect(isinstance(got, tuple) and len(got) == 2, 'derivatives requested: expected (A, DA)')
            W.close(got[0], exp[0], 'steering matrix')
            W.close(got[1], exp[1], 'derivative matrix')
            return
        if op.get('unflat'):
            L = ref.RESP_SIZE[a['elem']]
            exp = exp.reshape((L, -1, exp.shape[1]))
        W.close(got, exp, 'steering matrix')


PROP = C01()
