import math

from .. import ref, world as W
import numpy as np
from scipy.optimize import OptimizeResult

import doatools.estimation.ml as ML

TYPES = {'aml': ML.AMLEstimator, 'cml': ML.CMLEstimator, 'wsf': ML.WSFEstimator}
RANGE = {('ff1d', 'rad'): [(-math.pi / 2, math.pi / 2)], ('ff1d', 'deg'): [(-90.0, 90.0)],
         ('ff1d', 'sin'): [(-1.0, 1.0)],
         ('ff2d', 'rad'): [(-math.pi, math.pi), (-math.pi / 2, math.pi / 2)],
         ('ff2d', 'deg'): [(-180.0, 180.0), (-90.0, 90.0)],
         ('nf2d', 'm'): [(-math.inf, math.inf)] * 2}


class OptimiserFailure(Exception):
    pass


def objective(typ, array, spec, x, wl, R):
    """Documented objective at x, or None when it is numerically undefined."""
    m = len(R)
    k = len(spec['locs'])
    x = np.asarray(x, float)
    locs = x.tolist() if spec['kind'] == 'ff1d' else x.reshape(k, 2).tolist()
    A = ref.steering(array, array['perts'], dict(spec, locs=locs, nd=True), wl, 'known')
    s = np.linalg.svd(A, compute_uv=False)
    if not np.all(np.isfinite(s)) or s[-1] < 1e-4 * s[0]:
        return None
    Q, _ = np.linalg.qr(A)
    P = Q @ Q.conj().T
    N = np.eye(m) - P
    if typ == 'cml':
        return float(np.trace(N @ R).real), float(np.trace(R).real)
    w, E = np.linalg.eigh(R)
    if typ == 'wsf':
        if w[m - k] - w[m - k - 1] < 1e-4 * w[-1]:
            return None
        sig = np.sum(w[:m - k]) / (m - k)
        d = (w[m - k:] - sig) ** 2 / w[m - k:]
        Es = E[:, m - k:]
        M = (Es * d) @ Es.conj().T
        return float(np.trace(N @ M).real), float(np.sum(d))
    H = P @ R @ P + np.trace(N @ R).real / (m - k) * N
    h = np.linalg.eigvalsh(0.5 * (H + H.conj().T))
    if h[0] <= 1e-6 * h[-1]:
        return None
    return float(np.sum(np.log(h))), 1.0


class C08(W.PropBase):
    id = 'C08'
    runs = {'quick': 1000, 'thorough': 60000}
    stubs = ['scipy.optimize.minimize (scripted evaluation order, final point and outcome in most '
             'operations; the real optimiser in the others)']
    assumptions = W.PropBase.assumptions + [
        'one ML estimator object is used by one client at a time (distinct estimators interleave)',
        'objective values are compared where the steering matrix and the matrices involved are not '
        'numerically singular']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        large = rng.random() < 0.06
        arrays = [W.gen_array(rng, wl, min_m=8, max_m=12, custom=0.2) if large else
                  W.gen_array(rng, wl, min_m=3, max_m=7, custom=0.2) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.25:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        guesses = {}
        covs = {}
        for i, a in enumerate(arrays):
            m = W.n_elements(a)
            guesses[str(i)] = [W.gen_sources(rng, wl, kmax=min(8 if large else 3, m - 1)) for _ in range(2)]
            if rng.random() < 0.3:
                guesses[str(i)][1] = W.twin_sources(rng, guesses[str(i)][0])
            covs[str(i)] = [W.gen_cov(rng, m, a, wl) for _ in range(2)]
            if rng.random() < 0.08:
                # Any unit of power.
                covs[str(i)][0].update(scale=rng.choice([1e-100, 1e-30, 1e-20, 1e-12, 1e12, 1e25]))
                covs[str(i)][0].pop('int', None)
        nc = rng.randint(1, 3)
        ests, clients = [], []
        for c in range(nc):
            own = []
            for _ in range(rng.randint(1, 2)):
                own.append(len(ests))
                ests.append({'type': rng.choice(['aml', 'cml', 'wsf']), 'a': rng.randrange(len(arrays)),
                             'wl': rng.choice([wl, wl, W.f(1.3 * wl)]), 'owner': c})
            clients.append([self.gen_op(rng, rng.choice(own), ests, arrays, guesses)
                            for _ in range(rng.randint(1, 5))])
        return {'arrays': arrays, 'guesses': guesses, 'covs': covs, 'ests': ests, 'clients': clients}

    def gen_op(self, rng, ei, ests, arrays, guesses):
        e = ests[ei]
        m = W.n_elements(arrays[e['a']])
        gi = rng.randrange(2)
        g = guesses[str(e['a'])][gi]
        op = {'kind': 'est', 'e': ei, 'R': rng.randrange(2), 'g': gi}
        u = rng.random()
        if u < 0.12:
            return {'kind': 'last', 'e': ei, 'scribble': rng.random() < 0.5, 'expect_exc': True}
        if u < 0.2:
            op['kind'] = 'bad'
            op['bad'] = rng.choice(['k', 'shape', 'vector'])
            op['expect_exc'] = True
            return op
        if u > 0.93:
            k = len(g['locs'])
            s = 10.0 ** rng.randint(-9, 6) if rng.random() < 0.5 else 1.0
            return {'kind': 'nll', 'e': ei, 'R': op['R'], 'g': gi, 'p': [s * rng.uniform(0.2, 3) for _ in range(k)],
                    'sigma': s * rng.uniform(0.05, 2)}
        op['scribble'] = rng.random() < 0.25
        op['opts'] = rng.choice([None, None, {'tol': 1e-6}, {'options': {'maxiter': 5}}])
        if rng.random() < 0.25:
            op['script'] = None
            op['opts'] = {'options': {'maxiter': rng.choice([1, 3, 8])}}
            return op
        rgs = RANGE[(g['kind'], g['unit'])]
        k = len(g['locs'])

        def point():
            x = []
            for _ in range(k):
                for lo, hi in rgs:
                    if math.isinf(lo):
                        x.append(W.f(rng.uniform(-9, 9)))
                    elif rng.random() < 0.06:
                        x.append(rng.choice([lo, hi]))
                    else:
                        x.append(rng.uniform(lo, hi))
            return x
        pts = [point() for _ in range(rng.randint(1, 4))]
        seq = ['x0'] if rng.random() < 0.7 else []
        seq += pts
        seq += [rng.choice(pts) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.4:
            rng.shuffle(seq)
        op['script'] = seq
        op['final'] = rng.choice([pts[0], pts[-1], point(), 'x0'])
        u = rng.random()
        op['outcome'] = 'ok' if u < 0.7 else 'fail' if u < 0.85 else 'raise'
        if op['outcome'] == 'raise':
            op['expect_exc'] = True
            op['seam_fault'] = True
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.guesses = {k: [W.make_sources(s) for s in v] for k, v in plan['guesses'].items()}
        ctx.gbytes = {k: [np.array(s.locations) for s in v] for k, v in ctx.guesses.items()}
        ctx.covs = {k: [W.cov(c) for c in v] for k, v in plan['covs'].items()}
        ctx.ests = [TYPES[e['type']](ctx.arrays[e['a']], e['wl']) for e in plan['ests']]
        ctx.rec = {}
        ctx.kept = []
        ctx.state = ['none' for _ in plan['ests']]
        W.set_minimize_hook(lambda real, *a, **k: self.minimise(ctx, real, *a, **k))
        return ctx

    def teardown(self, ctx):
        W.set_minimize_hook(None)

    def minimise(self, ctx, real, fun, x0, *args, **kw):
        c = ctx.sim.current
        op = c.cur_op
        rec = ctx.rec[c.idx]
        rec['calls'] += 1
        rec['x0'] = np.array(x0, float)
        rec['bounds'] = kw.get('bounds')
        rec['kw'] = {k: v for k, v in kw.items() if k in ('tol', 'options')}
        extra = kw.get('args', args[0] if args else ())
        if not isinstance(extra, tuple):
            extra = (extra,)

        def ev(x):
            v = fun(x, *extra)
            if isinstance(v, tuple):
                v = v[0]
            return v
        script = op.get('script')
        if script is None:
            def watched(x, *a):
                v = fun(x, *a)
                rec['n'] += 1
                if rec['n'] % 7 == 1 and len(rec['evals']) < 12:
                    rec['evals'].append((np.array(x), v[0] if isinstance(v, tuple) else v))
                return v
            res = real(watched, x0, *args, **kw)
            rec['final'] = np.array(res.x)
            rec['success'] = bool(res.success)
            rec['real'] = True
            return res
        buf = np.array(x0, float).ravel()
        start = buf.copy()
        for p in script:
            p = start if p == 'x0' else np.array(p, float)
            buf[:] = p       # optimisers reuse their buffers
            rec['evals'].append((p.copy(), ev(buf)))
        if op['outcome'] == 'raise' and not op.get('redo'):
            e = OptimiserFailure('optimiser failed')
            ctx.sim.seam_fault('optimiser-raises', e)
            raise e
        fin = start if op['final'] == 'x0' else np.array(op['final'], float)
        rec['final'] = fin.copy()
        rec['success'] = op['outcome'] != 'fail'
        if not rec['success']:
            ctx.sim.seam_fault('optimiser-reports-failure')
        buf[:] = fin
        return OptimizeResult(x=buf, success=rec['success'], fun=0.0, status=0, message='scripted',
                              nit=1, nfev=len(script))

    def run_op(self, ctx, c, op):
        e = ctx.plan['ests'][op['e']]
        est = ctx.ests[op['e']]
        if op['kind'] == 'last':
            return est.get_last_estimates()
        ctx.rec[c.idx] = {'calls': 0, 'evals': [], 'n': 0}
        R = ctx.covs[str(e['a'])][op['R']]
        g = ctx.guesses[str(e['a'])][op['g']]
        m = len(R)
        if op['kind'] == 'nll':
            return ML.f_nll_stouc(R, ctx.arrays[e['a']], g, e['wl'], np.array(op['p']), op['sigma'])
        if op['kind'] == 'bad':
            if op['bad'] == 'k':
                return est.estimate(R, W.SRC.FarField1DSourcePlacement(np.linspace(-1, 1, m)))
            return est.estimate(np.eye(m + 1) if op['bad'] == 'shape' else np.ones(m), g)
        ctx.state[op['e']] = 'unknown'
        return est.estimate(R, g, **(op['opts'] or {}))

    def check(self, ctx, c, op, out):
        plan = ctx.plan
        e = plan['ests'][op['e']]
        if op['kind'] == 'nll':
            return self.check_nll(ctx, e, op, out)
        if op['kind'] == 'bad':
            if out.ok:
                raise W.Violation('bad-accepted', 'accepted %s' % op['bad'])
            # A rejected call happens before the estimator does anything; the
            # last-estimates copy is only specified after the next success.
            if not isinstance(ctx.state[op['e']], str) or ctx.state[op['e']] != 'none':
                ctx.state[op['e']] = 'unknown'
            else:
                ctx.state[op['e']] = 'maybe'
            return
        if op['kind'] == 'last':
            st = ctx.state[op['e']]
            if out.faulted:
                return
            if isinstance(st, np.ndarray):
                W.expect(out.ok, 'get_last_estimates failed after a successful call: %r' % out.exc)
                W.same(np.array_equal(out.value.locations, st), True, 'last estimates')
                self.keep(ctx, out.value, op)
            elif st == 'none':
                W.expect(not out.ok, 'last estimates before any estimation')
            return
        a = plan['arrays'][e['a']]
        g = plan['guesses'][str(e['a'])][op['g']]
        R = ctx.covs[str(e['a'])][op['R']]
        rec = ctx.rec[c.idx]
        k = len(g['locs'])
        if out.faulted and not out.ok:
            if isinstance(out.fired[0], OptimiserFailure) and out.exc not in out.fired:
                raise W.Violation('exception-replaced', 'optimiser raised, caller got %r' % out.exc)
            if rec['calls']:
                self.check_problem(ctx, e, a, g, R, rec, op)
            return
        if not out.ok:
            raise W.Violation('unexpected-exception', repr(out.exc))
        if op.get('outcome') == 'raise' and not op.get('redo'):
            raise W.Violation('error-swallowed', 'the optimiser raised but the call returned %r' % (out.value,))
        W.same(rec['calls'], 1, 'number of optimiser runs')
        self.check_problem(ctx, e, a, g, R, rec, op)
        W.expect(isinstance(out.value, tuple) and len(out.value) == 2, 'result is not a pair')
        ok, est = out.value
        W.same(bool(ok), rec['success'], 'resolved')
        if not ok:
            W.expect(est is None, 'unresolved but estimates given')
            return
        W.same(type(est).__name__, {'ff1d': 'FarField1DSourcePlacement', 'ff2d': 'FarField2DSourcePlacement',
                                    'nf2d': 'NearField2DSourcePlacement'}[g['kind']], 'estimate type')
        W.same(tuple(est.units), (g['unit'],) * (1 if g['kind'] == 'ff1d' else 2), 'estimate units')
        want = rec['final'].reshape((k,) if g['kind'] == 'ff1d' else (k, 2))
        W.same(np.shape(est.locations), want.shape, 'shape of the estimates')
        W.expect(np.array_equal(est.locations, want),
                 'estimates %r are not the optimiser\'s final point %r' % (est.locations.tolist(), want.tolist()))
        if rec.get('real'):
            v0 = objective(e['type'], a, g, rec['x0'], e['wl'], R)
            v1 = objective(e['type'], a, g, rec['final'], e['wl'], R)
            if v0 and v1:
                W.expect(v1[0] <= v0[0] + 1e-6 * v0[1] + 1e-9, 'the objective rose from %r to %r' % (v0, v1))
        ctx.state[op['e']] = want
        self.keep(ctx, est, op)

    def check_nll(self, ctx, e, op, out):
        if out.faulted and not out.ok:
            return
        if not out.ok:
            raise W.Violation('unexpected-exception', repr(out.exc))
        a = ctx.plan['arrays'][e['a']]
        R = ctx.covs[str(e['a'])][op['R']]
        A = ref.steering(a, a['perts'], ctx.plan['guesses'][str(e['a'])][op['g']], e['wl'], 'all')
        if not np.all(np.isfinite(A)):
            return
        S = (A * np.array(op['p'])) @ A.conj().T + op['sigma'] * np.eye(len(R))
        w, U = np.linalg.eigh(0.5 * (S + S.conj().T))
        if w[0] <= 1e-7 * w[-1]:
            return
        t = np.sum((U.conj() * (R @ U)).sum(0).real / w)
        want = np.sum(np.log(w)) + t
        v = np.asarray(out.value)
        W.expect(v.size == 1, 'likelihood is not a scalar')
        d = abs(complex(v.reshape(-1)[0]) - want)
        if not d <= 1e-7 * (1 + abs(want) + np.abs(R).max() / w[0]):
            raise W.Violation('wrong-likelihood', 'stochastic likelihood %r, expected %r' % (out.value, want))
        ctx.sim.probe('likelihoods-compared')

    def keep(self, ctx, est, op):
        if op.get('scribble'):
            est.locations[...] = 0.123
        ctx.kept.append((est, np.array(est.locations), op['id']))

    def check_problem(self, ctx, e, a, g, R, rec, op):
        x0 = np.asarray(g['locs'], float).ravel()
        W.close(rec['x0'].ravel(), x0, 'starting point', rtol=1e-12, atol=0)
        k = len(g['locs'])
        rg = RANGE[(g['kind'], g['unit'])] * k
        b = rec['bounds']
        lim = []
        if hasattr(b, 'lb'):
            n = len(rg)
            lim = list(zip(np.broadcast_to(b.lb, n), np.broadcast_to(b.ub, n)))
        elif b is None:
            lim = [(-math.inf, math.inf)] * len(rg)
        else:
            lim = [(-math.inf if lo is None else lo, math.inf if hi is None else hi) for lo, hi in b]
        W.same(len(lim), len(rg), 'number of bounds')
        for (l1, h1), (l2, h2) in zip(lim, rg):
            W.expect(abs(l1 - l2) < 1e-9 or l1 == l2, 'bounds %r, expected %r' % (lim, rg))
            W.expect(abs(h1 - h2) < 1e-9 or h1 == h2, 'bounds %r, expected %r' % (lim, rg))
        for kk, vv in (op['opts'] or {}).items():
            W.same(rec['kw'].get(kk), vv, 'solver option ' + kk)
        n = 0
        for x, v in rec['evals']:
            exp = objective(e['type'], a, g, x, e['wl'], R)
            if exp is None:
                continue
            n += 1
            v = np.asarray(v)
            W.expect(v.size == 1, 'objective is not a scalar')
            d = abs(complex(v.reshape(-1)[0]) - exp[0])
            if not d <= 1e-6 * max(abs(exp[0]), exp[1]):
                raise W.Violation('wrong-objective', '%s objective at %r is %r, expected %r'
                                  % (e['type'], x.tolist(), v, exp[0]))
        ctx.sim.probe('objective-values-compared', n)

    def invariant(self, ctx):
        for k, v in ctx.guesses.items():
            for s, b in zip(v, ctx.gbytes[k]):
                if not np.array_equal(s.locations, b):
                    raise W.Violation('input-modified', 'an initial guess changed from %r to %r'
                                      % (b.tolist(), s.locations.tolist()))
        for est, b, i in ctx.kept:
            if not np.array_equal(est.locations, b):
                raise W.Violation('result-changed', 'a placement returned by op %d changed from %r to %r'
                                  % (i, b.tolist(), est.locations.tolist()))

    def final(self, ctx):
        self.invariant(ctx)


PROP = C08()
