from .. import ref, world as W
from . import spec as S
import numpy as np


class C05(W.PropBase):
    id = 'C05'
    runs = {'quick': 800, 'thorough': 50000}

    def gen(self, rng):
        wl = W.gen_wl(rng)
        na = rng.randint(1, 2)
        arrays = [W.gen_array(rng, wl, min_m=3, max_m=8, elems=['iso'] * 4 + ['cos', 'complex', 'near'], custom=0.2)
                  for _ in range(na)]
        if na == 2 and rng.random() < 0.3:
            # Same design, other perturbations.
            m = W.n_elements(arrays[0])
            arrays[1] = dict(arrays[0], perts=W.gen_perts(rng, m, 1, wl=wl))
        grids = [W.gen_grid(rng, wl, large=0.09, tiny=0.06) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.25:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        if rng.random() < 0.25:
            grids.append(W.twin_grid(rng, grids[0]))
        ests = S.gen_estimators(rng, wl, grids, arrays, rng.randint(1, 3))
        covs = {}
        for i, a in enumerate(arrays):
            m = W.n_elements(a)
            covs[str(i)] = [W.gen_cov(rng, m, a, wl) for _ in range(rng.randint(1, 3))]
            for c in covs[str(i)]:
                if c['mode'] == 'model' and rng.random() < 0.25:
                    # Hardly any noise.
                    c['sigma'] = 10.0 ** rng.uniform(-8, -3)
            if m > 1 and rng.random() < 0.5:
                # Sources very close to grid points.
                g = rng.choice(grids)
                sp = W.grid_sources_spec(g)
                k0 = rng.randint(1, min(m - 1, 3, len(sp['locs'])))
                top = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0, 'm': np.inf}[sp['unit']]
                off = 10.0 ** rng.uniform(-8, -3)

                def near(x):
                    x = x + rng.choice([-1, 1]) * off
                    return x if abs(x) <= top else x / 1.01
                locs = [x if rng.random() < 0.3 else [near(y) for y in x] if isinstance(x, list) else near(x)
                        for x in rng.sample(sp['locs'], k0)]
                covs[str(i)].append(dict(W.gen_cov(rng, m, a, wl, dict(sp, locs=locs), modes=('model',)), k0=k0, n=0))
        clients = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                ops.append(self.gen_op(rng, wl, arrays, grids, ests, covs))
            clients.append(ops)
        return {'arrays': arrays, 'grids': grids, 'ests': ests, 'covs': covs, 'clients': clients}

    def gen_op(self, rng, wl, arrays, grids, ests, covs):
        ei = rng.randrange(len(ests))
        e = ests[ei]
        m = W.n_elements(arrays[e['a']])
        op = {'kind': 'est', 'e': ei, 'R': rng.randrange(len(covs[str(e['a'])])),
              'k': rng.randint(1, m - 1), 'scribble': rng.random() < 0.3}
        k0 = covs[str(e['a'])][op['R']].get('k0')
        if k0 and rng.random() < 0.8:
            op['k'] = k0
        u = rng.random()
        if u < 0.12:
            op['kind'] = 'bad'
            op['expect_exc'] = True
            opts = ['k0', 'kneg', 'big', 'rows', 'cols', 'vector', 'small', 'scalarish']
            if e['type'] in ('music', 'minnorm'):
                opts += ['k', 'k']
            op['bad'] = rng.choice(opts)
        elif u < 0.2:
            op['kind'] = 'derive'
            a = arrays[e['a']]
            op['perts'] = [W.gen_pert(rng, 'loc', m, wl)]
        elif u < 0.35:
            op['kind'] = 'stream'
            op['R2'] = W.gen_cov(rng, m, arrays[e['a']], wl)
            op['k2'] = rng.randint(1, m - 1)
        elif u < 0.5:
            op['refine'] = {'refinement_density': rng.choice([2, 3, 4]), 'refinement_iters': rng.choice([1, 2])}
        if rng.random() < 0.15:
            op['nosp'] = True
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.grids = [W.make_grid(g) for g in plan['grids']]
        ctx.ests = [S.make_estimator(e, ctx.arrays, ctx.grids) for e in plan['ests']]
        ctx.covs = {k: [W.cov(c) for c in v] for k, v in plan['covs'].items()}
        ctx.orig = {k: [c.copy() for c in v] for k, v in ctx.covs.items()}
        return ctx

    def run_op(self, ctx, c, op):
        e = ctx.plan['ests'][op['e']]
        est = ctx.ests[op['e']]
        R = ctx.covs[str(e['a'])][op['R']]
        m = len(R)
        k = op['k']
        kw = dict(op.get('refine') or {})
        if kw:
            kw['refine_estimates'] = True
        if op['kind'] == 'bad':
            b = op['bad']
            if b == 'k':
                return est.estimate(R, m)
            if b in ('k0', 'kneg'):
                return est.estimate(R, 0 if b == 'k0' else -1)
            X = {'big': np.eye(m + 1), 'rows': np.ones((m + 1, m)), 'cols': np.ones((m, m + 1)),
                 'vector': np.ones(m), 'small': np.eye(m - 1), 'scalarish': np.ones((m, 1))}[b]
            return est.estimate(X, 1)
        if op['kind'] == 'derive':
            arr = ctx.arrays[e['a']]
            return arr.get_perturbed_copy(W.make_perts(op['perts']))
        if op['kind'] == 'stream':
            # One caller-owned buffer, refilled between two calls.
            buf = R.astype(complex)
            r1 = est.estimate(buf, k, return_spectrum=True)
            s1 = np.array(r1[-1])
            buf[:] = W.cov(op['R2'])
            r2 = est.estimate(buf, op['k2'], return_spectrum=True)
            return (r1[0], r1[1], s1), r2
        if op.get('nosp'):
            return est.estimate(R, k, **kw)
        return est.estimate(R, k, return_spectrum=True, **kw)

    def check(self, ctx, c, op, out):
        if not out.ok:
            return
        plan = ctx.plan
        e = plan['ests'][op['e']]
        a, g = plan['arrays'][e['a']], plan['grids'][e['g']]
        R = ctx.orig[str(e['a'])][op['R']]
        if op['kind'] == 'bad':
            raise W.Violation('bad-accepted', 'estimator accepted %s for %d elements' % (op['bad'], len(R)))
        if op['kind'] == 'derive':
            return
        if op['kind'] == 'stream':
            self.one(ctx, e, a, g, R, op['k'], out.value[0], None, False)
            self.one(ctx, e, a, g, W.cov(op['R2']), op['k2'], out.value[1], None, op['scribble'])
            return
        self.one(ctx, e, a, g, R, op['k'], out.value, op.get('refine'), op['scribble'], op.get('nosp'))

    def one(self, ctx, e, a, g, R, k, res, refine, scribble, nosp=False):
        W.expect(isinstance(res, tuple) and len(res) >= 2, 'result is not a tuple')
        resolved, est = res[0], res[1]
        if resolved:
            S.check_estimates(est, g['kind'], g.get('unit', 'm'), k)
        else:
            W.expect(est is None, 'unresolved but estimates given')
        if nosp:
            W.same(len(res), 2, 'length of the result without spectrum')
        else:
            W.same(len(res), 3, 'length of the result with spectrum')
            sp = res[2]
            wp = S.check_spectrum(e['type'], sp, a, g, e['wl'], R, k, '%s spectrum' % e['type'])
            ctx.sim.probe('spectrum-compared' if wp else 'spectrum-ill-posed')
            if resolved and not refine:
                peaks = S.find_peaks_simple(np.array(sp))
                flat = np.ravel_multi_index(peaks, sp.shape)
                S.check_selection(sp, list(flat), S.locate(est, g), k)
            if scribble:
                sp[...] = -1.0
        if scribble and resolved:
            est.locations[...] = 0.0


    def final(self, ctx):
        S.check_grids(ctx.grids, ctx.plan['grids'])


PROP = C05()
