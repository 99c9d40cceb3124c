"""Cramer-Rao bounds and asymptotic error covariances on shared objects."""
from .. import perf, ref, world as W
import numpy as np

import doatools.performance.crb as CRB
import doatools.performance.mse as MSE

FNS = {'sto': CRB.crb_sto_farfield_1d, 'det': CRB.crb_det_farfield_1d, 'uc': CRB.crb_stouc_farfield_1d,
       'music': MSE.ecov_music_1d, 'coarray': MSE.ecov_coarray_music_1d}


class C16(W.PropBase):
    id = 'C16'
    runs = {'quick': 1500, 'thorough': 80000}
    assumptions = W.PropBase.assumptions + [
        'bounds are compared within the rounding error that the conditioning of R and of the (scaled) Fisher information '
        'admits, and only where that is below 1e-3']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        arrays = []
        for _ in range(rng.randint(1, 2)):
            arrays.append(W.gen_array(rng, wl, kinds=['ula', 'nested', 'coprime', 'mrla', 'uca', 'grid', 'custom',
                                                      'custom3', 'ura'], min_m=3, max_m=rng.choice([7, 7, 7, 9])))
        while True:
            lin = W.gen_array(rng, wl, kinds=['ula', 'nested', 'coprime', 'mrla', 'grid', 'grid'], min_m=3, max_m=6,
                              perts=False)
            if lin['kind'] != 'grid' or len(lin['indices'][0]) == 1:
                break
        lin.update(perts=[], lin=True)
        if rng.random() < 0.3:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        arrays.append(lin)
        if rng.random() < 0.4:
            arrays.append(W.twin_array(rng, lin, wl))
        srcs, powers = [], []
        for _ in range(rng.randint(1, 3)):
            u = rng.choice(['rad', 'deg', 'sin'])
            k = rng.randint(1, 5 if rng.random() < 0.9 else 8)
            while True:
                x = [rng.uniform(-0.95, 0.95) for _ in range(k)]
                if all(abs(a - b) > 0.18 for i, a in enumerate(x) for b in x[:i]):
                    break
            loc = [W.f({'sin': v, 'rad': float(np.arcsin(v)), 'deg': float(np.rad2deg(np.arcsin(v)))}[u]) for v in x]
            srcs.append({'kind': 'ff1d', 'unit': u, 'locs': loc})
            if srcs[1:] and rng.random() < 0.4:
                srcs[-1] = W.twin_sources(rng, srcs[0])
                k = len(srcs[0]['locs'])
            scale = 1.0 if rng.random() < 0.7 else 10.0 ** rng.randint(-8, 6)
            powers.append([self.gen_power(rng, k) for _ in range(3)] +
                          [{'form': 'matrix', 'k': k, 'seed': rng.randrange(10 ** 6)}])
            for q in powers[-1]:
                q['scale'] = scale
        pd = [W.gen_pert(rng, rng.choice(['loc', 'gain', 'phase', 'coupling']), W.n_elements(a), wl)
              for a in arrays]
        clients = [[self.gen_op(rng, wl, arrays, srcs, powers) for _ in range(rng.randint(1, 5))]
                   for _ in range(rng.randint(1, 3))]
        return {'wl': wl, 'arrays': arrays, 'srcs': srcs, 'powers': powers, 'pd': pd, 'clients': clients,
                'ro': rng.random() < 0.3}

    def gen_power(self, rng, k):
        return {'form': rng.choice(['scalar', 'int', 'list', 'vector', 'matrix', 'realmatrix']), 'k': k,
                'seed': rng.randrange(10 ** 6)}

    @classmethod
    def power(cls, q):
        s, p = q.get('scale', 1.0), cls.power1(q)
        return p if s == 1 else [s * x for x in p] if isinstance(p, list) else s * p

    @staticmethod
    def power1(q):
        rs = np.random.RandomState(q['seed'])
        k = q['k']
        if q['form'] == 'scalar':
            return float(rs.uniform(0.5, 3))
        if q['form'] == 'int':
            return int(rs.randint(1, 5))
        v = rs.uniform(0.5, 3, k)
        if q['form'] == 'list':
            return v.tolist()
        if q['form'] == 'vector':
            return v
        H = rs.randn(k, k) * 0.5
        if q['form'] == 'matrix':
            H = H + 0.5j * rs.randn(k, k)
        return H @ H.conj().T + np.diag(v)

    def gen_op(self, rng, wl, arrays, srcs, powers):
        u = rng.random()
        if u < 0.12:
            return {'kind': 'derive', 'a': rng.randrange(len(arrays))}
        fn = rng.choice(['sto', 'det', 'uc', 'music', 'coarray'])
        s = rng.randrange(len(srcs))
        op = {'kind': fn, 'a': rng.choice([i for i, a in enumerate(arrays) if a.get('lin')]) if fn == 'coarray' else rng.randrange(len(arrays)), 's': s,
              'p': 3 if fn == 'det' else rng.randrange(4), 'wl': rng.choice([wl, wl, W.f(1.3 * wl)]), 'sigma': rng.choice([0.01, 0.1, 1, 2.0, 1e-4, 1e-6, 30.0]),
              'n': rng.choice([None, 1, 10, 500]), 'mode': rng.choice([None, 'full', 'diag', 'mean_diag'])}
        op['sigma'] *= powers[s][0]['scale']
        if fn == 'music':
            op['sel'] = rng.choice([None, 'all', 'known', 'none'])
        if u < 0.22:
            op['bad'] = rng.choice(['mode', 'psize', 'sources', 'toomany', 'perturbed'])
            op['expect_exc'] = True
            op['bv'], op['bf'] = rng.randrange(8), rng.randrange(7)
            if op['bad'] == 'toomany' and fn not in ('music', 'coarray'):
                op['bad'] = 'mode'
            if op['bad'] == 'perturbed' and fn != 'coarray':
                op['bad'] = 'psize'
        elif fn == 'music' and len(srcs[s]['locs']) >= W.n_elements(arrays[op['a']]):
            op['expect_exc'] = True
        else:
            op['expect_exc'] = True      # singular problems, see check
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.srcs = [W.make_sources(s) for s in plan['srcs']]
        ctx.powers = [[self.power(q) for q in x] for x in plan['powers']]
        ctx.priv = [[self.power(q) for q in x] for x in plan['powers']]
        ctx.newp = [ref.pert_values(p) for p in plan['pd']]
        ctx.bad = W.SRC.NearField2DSourcePlacement(np.array([[1.0, 2.0]]))
        if plan['ro']:
            for x in ctx.powers:
                for p in x:
                    if isinstance(p, np.ndarray):
                        p.setflags(write=False)
        return ctx

    def run_op(self, ctx, c, op):
        plan = ctx.plan
        a = ctx.arrays[op['a']]
        if op['kind'] == 'derive':
            p = plan['pd'][op['a']]
            b = a.get_perturbed_copy({W.PKEY[p['type']]: (ctx.newp[op['a']], p['known'])})
            return b.is_perturbed
        s = ctx.srcs[op['s']]
        p = ctx.powers[op['s']][op['p']]
        kw = {}
        if op['mode']:
            kw['return_mode'] = op['mode']
        if op.get('sel'):
            kw['perturbations'] = op['sel']
        if op['n']:
            kw['n_snapshots'] = op['n']
        bad = op.get('bad')
        if bad == 'mode':
            kw['return_mode'] = 'trace'
        elif bad == 'psize':
            k = len(s)
            n = 1 if k > 1 and op['bv'] < 3 else k + 1 if op['bv'] < 6 or k < 3 else k - 1
            p = [np.eye(n), np.ones(n), [2.0] * n, np.ones((n, k)), np.ones((k, n)), np.ones((1, 1, n)), np.ones((k, k, 1))][op['bf']]
        elif bad == 'sources':
            s = ctx.bad
        elif bad == 'toomany':
            s = W.SRC.FarField1DSourcePlacement(np.linspace(-1.2, 1.2, 40))
            p = 1.0
        elif bad == 'perturbed':
            a = a.get_perturbed_copy({'gain_errors': (np.full(a.size, 0.1), True)})
        return FNS[op['kind']](a, s, op['wl'], p, op['sigma'], **kw)

    def expected(self, ctx, op):
        plan = ctx.plan
        a, s = plan['arrays'][op['a']], plan['srcs'][op['s']]
        p = ctx.priv[op['s']][op['p']]
        k = len(s['locs'])
        wl, sigma, n = op['wl'], op['sigma'], op['n'] or 1
        sel = op.get('sel') or 'all'
        A, D = ref.steering(a, a['perts'], s, wl, sel, True)
        P = perf.p_matrix(p, k)
        if np.linalg.norm(D, axis=0).min() < 1e-6 * np.linalg.norm(D):
            return None
        if op['kind'] == 'uc':
            if k > 2 * len(A):
                return None
            return perf.crb_stouc(A, D, np.diag(P).real, sigma, n)
        if op['kind'] == 'coarray':
            idx = [i[0] for i in ref.indices(a)]
            w = 2 * np.pi * a['d0'] / wl
            v = np.array(s['locs'], float)
            om = w * (v if s['unit'] == 'sin' else np.sin(ref.to_rad(v, s['unit'])))
            ds = w * np.ones(k) if s['unit'] == 'sin' else w * np.cos(ref.to_rad(v, s['unit']))
            if s['unit'] == 'deg':
                ds = ds * np.pi / 180
            return perf.ecov_coarray(idx, A, np.diag(P).real, sigma, n, om, ds)
        if k >= len(A) or np.linalg.cond(A) > 1e3:
            return None
        if op['kind'] == 'sto':
            return perf.crb_sto(A, D, P, sigma, n)
        if op['kind'] == 'det':
            return perf.crb_det(A, D, P, sigma, n)
        return perf.ecov_music(A, D, P, sigma, n)

    def check(self, ctx, c, op, out):
        if op['kind'] == 'derive':
            if not out.ok and not out.faulted:
                raise W.Violation('unexpected-exception', repr(out.exc))
            return
        if op.get('bad'):
            if out.ok:
                raise W.Violation('bad-accepted', '%s accepted a call with bad %s' % (op['kind'], op['bad']))
            return
        if not out.ok and out.faulted:
            return
        plan = ctx.plan
        k = len(plan['srcs'][op['s']]['locs'])
        a = plan['arrays'][op['a']]
        if op['kind'] == 'music' and k >= W.n_elements(a) or op['kind'] == 'coarray' and \
                k >= perf.virtual_size([i[0] for i in ref.indices(a)]):
            if out.ok:
                raise W.Violation('bad-accepted', '%s accepted too many sources' % op['kind'])
            return
        exp = self.expected(ctx, op)
        if exp is None:
            ctx.sim.probe('ill-conditioned')
            return
        if not out.ok:
            raise W.Violation('unexpected-exception', '%r in %s' % (out.exc, op))
        exp, tol = exp
        mode = op['mode'] or 'full'
        v = np.asarray(out.value)
        W.expect(np.isrealobj(v), 'the result is complex')
        # In correlation-like units, so that small entries count.
        s = 1.0 / np.sqrt(np.diag(exp))
        if mode == 'full':
            W.same(v.shape, exp.shape, 'shape of the result')
            W.close(v * np.outer(s, s), exp * np.outer(s, s), '%s of %s' % (op['kind'], op), rtol=tol, atol=max(1e-7, tol))
        elif mode == 'diag':
            W.same(v.shape, (k,), 'shape of the result')
            W.close(v * s * s, np.ones(k), '%s of %s' % (op['kind'], op), rtol=tol)
        else:
            W.close(v, np.mean(np.diag(exp)), '%s of %s' % (op['kind'], op), rtol=tol, atol=0)
        ctx.sim.probe('decided-' + op['kind'])


PROP = C16()
