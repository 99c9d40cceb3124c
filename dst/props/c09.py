from .. import cvx, ref, world as W
from . import spec as S
import numpy as np
from scipy.optimize import nnls

import doatools.estimation.sparse as SP
import doatools.optim.l1lsq as L1

FORMS = ['penalizedl1', 'constrainedl1', 'constrainedl2']
# What a solver may do instead of returning an optimal point.
BAD_STATUS = ['optimal_inaccurate', 'infeasible', 'infeasible_inaccurate', 'unbounded', 'user_limit',
              'solver_error', None]


class SolverFailure(Exception):
    pass


def l1_gap(form, A, b, l, x, nonneg):
    """(violation of the constraints, duality gap, scale) of a real point."""
    x = np.asarray(x, float).ravel()
    b = np.asarray(b, float).ravel()
    r = b - A @ x
    neg = max(0.0, -float(x.min())) if nonneg else 0.0
    c = A.T @ r
    top = float(np.max(c) if nonneg else np.max(np.abs(c)))
    n1 = float(np.sum(np.abs(x)))
    xs = 1e-9 + n1 + float(b @ b) / (1e-12 + float(np.max(np.abs(A.T @ b))))
    if form == 'penalizedl1':
        if l == 0:
            best = nnls(A, b)[1] if nonneg else np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0])
            return neg / xs, 0.5 * (float(r @ r) - float(best) ** 2), 0.5 * float(b @ b)
        p = 0.5 * float(r @ r) + l * n1
        s = min(1.0, l / top) if top > 0 else 1.0
        d = s * float(b @ r) - 0.5 * s * s * float(r @ r)
        return neg / xs, p - d, 0.5 * float(b @ b)
    if form == 'constrainedl1':
        if l == 0:
            return n1 / (1e-9 + xs), 0.0, 1.0
        # gradient -2c of ||r||^2; the linear minorant over the feasible set
        return max(neg, n1 - l) / xs, 2.0 * (l * max(top, 0.0) - float(c @ x)), float(b @ b)
    rn = float(np.sqrt(r @ r))
    if top <= 0:
        # No dual certificate from this residual; only x = 0 can be optimal.
        return max(neg / xs, (rn - l) / np.sqrt(b @ b)), n1, xs
    d = (float(b @ r) - l * rn) / top
    return max(neg / xs, (rn - l) / np.sqrt(b @ b)), n1 - max(d, 0.0), xs


def ill_conditioned(A, b, l, x, nonneg):
    """No usable dual certificate: the bound on the residual is (almost) zero or
    the smallest that can be attained."""
    b = np.asarray(b, float).ravel()
    r = b - A @ np.asarray(x, float).ravel()
    c = A.T @ r
    top = float(np.max(c) if nonneg else np.max(np.abs(c)))
    return l < 0.05 * float(np.linalg.norm(b)) or \
        top < 0.05 * np.linalg.norm(r) * np.max(np.linalg.norm(A, axis=0))


def l21_gap(A, B, l, X):
    R = B - A @ X
    if l == 0:
        best = B - A @ np.linalg.lstsq(A, B, rcond=None)[0]
        return float(0.5 * np.sum(np.abs(R) ** 2) - 0.5 * np.sum(np.abs(best) ** 2)), 0.5 * float(np.sum(np.abs(B) ** 2))
    P = 0.5 * np.sum(np.abs(R) ** 2) + l * np.sum(np.linalg.norm(X, axis=1))
    top = np.max(np.linalg.norm(A.conj().T @ R, axis=1))
    s = min(1.0, l / top) if top > 0 else 1.0
    D = s * np.sum(R.conj() * B).real - 0.5 * s * s * np.sum(np.abs(R) ** 2)
    return float(P - D), 0.5 * float(np.sum(np.abs(B) ** 2))


class C09(W.PropBase):
    id = 'C09'
    runs = {'quick': 800, 'thorough': 40000}
    real = W.PropBase.real + ['cvxpy and its solvers (OSQP, CLARABEL) except where a solver fault is injected']
    stubs = ['cvxpy.Problem.solve fails, stops early or leaves a wrong point in the operations that inject '
             'a solver fault']
    assumptions = W.PropBase.assumptions + [
        'one estimator or problem object is used by one client at a time (distinct objects interleave)',
        'optimality is certified by a duality gap; "solver accuracy" is a relative gap of 2e-3',
        'the default peak finder is used']
    GAP = 2e-3

    def gen(self, rng):
        wl = W.gen_wl(rng)
        objs, clients = [], []
        for c in range(rng.choice([1, 1, 2, 2, 3])):
            own = []
            for _ in range(rng.choice([1, 1, 2])):
                own.append(len(objs))
                objs.append(self.gen_obj(rng, wl))
            clients.append([self.gen_op(rng, i, objs[i]) for i in
                            [rng.choice(own) for _ in range(rng.randint(2, 5))]])
        return {'wl': wl, 'objs': objs, 'clients': clients}

    def gen_obj(self, rng, wl):
        t = rng.choice(['scm', 'scm', 'group', 'l1', 'l1', 'l21'])
        o = {'t': t, 'seed': rng.randrange(10 ** 6)}
        if t in ('scm', 'group'):
            o['a'] = W.gen_array(rng, wl, kinds=['ula', 'ula', 'coprime', 'uca', 'ura', 'custom'], min_m=3,
                                 max_m=5, elems=['iso', 'iso', 'complex'])
            o['g'] = W.gen_grid(rng, wl, n1=(8, 20), n2=(3, 4), small=False)
        if t in ('scm', 'l1'):
            o['form'] = rng.choice(FORMS)
            o['nn'] = True if t == 'scm' else rng.random() < 0.5
            o['noise_known'] = rng.random() < 0.4
        if t == 'group':
            o['n'] = rng.randint(1, 4) if rng.random() < 0.9 else rng.randint(5, 12)
        if t in ('l1', 'l21'):
            o['m'], o['k'], o['n'] = rng.randint(3, 8), rng.randint(2, 12), rng.randint(1, 3)
            if rng.random() < 0.08:
                o['m'], o['k'], o['n'] = rng.randint(8, 14), rng.randint(12, 40), rng.randint(3, 8)
            o['cplx'] = t == 'l21' and rng.random() < 0.6
        return o

    def gen_op(self, rng, i, o):
        op = {'kind': o['t'], 'o': i, 'd': rng.randrange(3), 'c': rng.choice([0.03, 0.1, 0.3, 0.6]),
              'k': rng.choice([1, 1, 2]), 'rs': rng.random() < 0.75, 'solver': rng.choice([None, 'CLARABEL'])}
        u = rng.random()
        op['outcome'] = 'real'
        if rng.random() < 0.15:
            # Options of this call only: loose ones of one solver, or far too
            # few iterations.
            qp = o.get('form', 'penalizedl1') != 'constrainedl2' and o['t'] in ('scm', 'l1')
            op['so'] = rng.choice([{'solver': 'OSQP' if qp else 'CLARABEL', 'max_iter': 1},
                                   {'max_iter': 2}, {'solver': 'CLARABEL', 'verbose': False}, {'verbose': False}])
        if rng.random() < 0.08 and o.get('form') != 'constrainedl2':
            op['c'] = 0.0           # a parameter of exactly zero is a regular one
        if u < 0.12:
            op.update(outcome='raise', after=rng.random() < 0.5, seam_fault=True, expect_exc=True)
        elif u < 0.32:
            op.update(outcome='status', status=rng.choice(BAD_STATUS), seam_fault=True, expect_exc=True,
                      fill=rng.choice(['none', 'garbage', 'garbage', 'nan', 'keep']))
        elif u < 0.38:
            op.update(outcome='early', solver='OSQP' if o.get('form', 'penalizedl1') != 'constrainedl2'
                      and o['t'] in ('scm', 'l1') else 'CLARABEL', seam_fault=True, expect_exc=True)
        elif u < 0.43 and o.get('form') == 'constrainedl2':
            op['c'] = 1e-4          # usually infeasible
            op['expect_exc'] = True
        elif u < 0.48:
            op.update(outcome='badarg', expect_exc=True)
        return op

    def data(self, o, d, wl):
        """(A, b or Y, R, sigma) of data set d of an object."""
        rs = np.random.RandomState(o['seed'] + 7919 * d)
        if o['t'] in ('l1', 'l21'):
            A = rs.randn(o['m'], o['k'])
            B = rs.randn(o['m'], 1 if o['t'] == 'l1' else o['n'])
            if o['cplx']:
                A = A + 1j * rs.randn(*A.shape)
                B = B + 1j * rs.randn(*B.shape)
            return A, B * rs.uniform(0.5, 3), None, None
        gp = W.grid_sources_spec(o['g'])
        A = ref.steering(o['a'], o['a']['perts'], gp, wl, 'known')
        idx = rs.choice(A.shape[1], min(A.shape[1], rs.randint(1, 3)), replace=False)
        m = A.shape[0]
        if o['t'] == 'group':
            Y = A[:, idx] @ (rs.randn(len(idx), o['n']) + 1j * rs.randn(len(idx), o['n']))
            Y = Y + 0.1 * (rs.randn(m, o['n']) + 1j * rs.randn(m, o['n']))
            return A, Y, None, None
        R = (A[:, idx] * rs.uniform(0.5, 2, len(idx))) @ A[:, idx].conj().T
        N = 0.1 * (rs.randn(m, m) + 1j * rs.randn(m, m))
        sigma = rs.uniform(0.05, 0.3)
        R = R + sigma * np.eye(m) + 0.3 * (N @ N.conj().T)
        if o.get('form') != 'constrainedl2':
            # The noise power assumed by the caller, possibly far too large.
            sigma *= rs.choice([1.0, 1.0, 1.0, 3.0, 30.0])
        Phi = np.array([np.outer(A[:, i], A[:, i].conj()).T.reshape(-1) for i in range(A.shape[1])]).T
        return Phi, None, R, sigma

    def problem(self, ctx, op):
        """Reference data of the convex program of an op: dict."""
        key = (op['o'], op['d'])
        if key not in ctx.cache:
            o = ctx.plan['objs'][op['o']]
            A, b, R, sigma = self.data(o, op['d'], ctx.plan['wl'])
            q = {'A': A, 'b': b, 'R': R, 'sigma': sigma}
            if o['t'] == 'scm':
                T = R - sigma * np.eye(len(R)) if o['noise_known'] else R
                r = T.T.reshape(-1)          # column stacking
                q['b'] = np.concatenate((r.real, r.imag))
                P = A
                if not o['noise_known']:
                    P = np.hstack((A, np.eye(len(R)).reshape(-1, 1)))
                q['A'] = np.vstack((P.real, P.imag))
            ctx.cache[key] = q
        q = ctx.cache[key]
        o = ctx.plan['objs'][op['o']]
        A, b = q['A'], q['b']
        if o['t'] in ('group', 'l21'):
            l = op['c'] * float(np.max(np.linalg.norm(A.conj().T @ b, axis=1)))
        elif o['form'] == 'penalizedl1':
            l = op['c'] * float(np.max(np.abs(A.T @ b.ravel())))
        elif o['form'] == 'constrainedl1':
            l = 3 * op['c'] * float(np.linalg.norm(b) / np.linalg.norm(A[:, 0]))
        else:
            l = (op['c'] + 0.25 if op['c'] > 0.01 else op['c']) * float(np.linalg.norm(b))
        return o, q, W.f(l) if l > 1e-3 else l

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.cache = {}
        ctx.objs = []
        for o in plan['objs']:
            if o['t'] in ('scm', 'group'):
                a, g = W.make_array(o['a']), W.make_grid(o['g'])
            if o['t'] == 'scm':
                x = SP.SparseCovarianceMatching(a, plan['wl'], g, noise_known=o['noise_known'],
                                                formulation=o['form'])
            elif o['t'] == 'group':
                x = SP.GroupSparseEstimator(a, plan['wl'], g, o['n'])
            elif o['t'] == 'l1':
                x = L1.L1RegularizedLeastSquaresProblem(o['m'], o['k'], o['form'], o['nn'])
            else:
                x = L1.L21RegularizedLeastSquaresProblem(o['m'], o['k'], o['n'], o['cplx'])
            ctx.objs.append(x)
        for ops in plan['clients']:
            for op in ops:
                self.problem(ctx, op)
        ctx.captured = [[] for _ in plan['objs']]
        ctx.kept = []
        ctx.bad = {}
        ctx.options = {}
        ctx.wrong = None
        cvx.set_hook(lambda *a: self.hook(ctx, *a))
        return ctx

    def teardown(self, ctx):
        cvx.set_hook(None)

    def hook(self, ctx, real, problem, args, kw):
        op = ctx.sim.current.cur_op
        out = 'real' if op.get('redo') else op['outcome']
        ctx.sim.probe('solver-calls')
        # The solver runs with the options of this call.
        so = {} if op['outcome'] == 'badarg' and not op.get('redo') else self.options(op)
        for k, v in so.items():
            if kw.get(k) != v:
                ctx.wrong = 'option %s=%r of the call did not reach the solver: %r' % (k, v, kw)
        for k, v in kw.items():
            if k not in so and ctx.options.get((op['o'], k)) == v:
                ctx.wrong = 'the solver got %s=%r, an option of an earlier call' % (k, v)
        ctx.options.update({(op['o'], k): v for k, v in so.items()})
        if out == 'raise':
            if op['after']:
                self.fill(op, problem, 'garbage', 'optimal')
            e = SolverFailure('solver failed')
            ctx.sim.seam_fault('solver-raises', e)
            raise e
        if out == 'status':
            self.fill(op, problem, op['fill'], op['status'])
            ctx.sim.seam_fault('solver-status-%s' % op['status'])
            return None
        if out == 'early':
            kw = dict(kw)
            kw['max_iter'] = 1
            try:
                r = real(*args, **kw)
            except Exception as e:
                ctx.sim.seam_fault('solver-stops-early', e)
                raise
            if problem.status != 'optimal':
                ctx.sim.seam_fault('solver-stops-early')
                ctx.bad[op['id']] = True
            return r
        try:
            r = real(*args, **kw)
        except cvx.cvxpy.error.SolverError:
            if 'max_iter' not in so:
                raise
            # Too few iterations, as requested.
            ctx.bad[op['id']] = True
            ctx.sim.probe('genuine-solver-error')
            raise
        if problem.status != 'optimal':
            ctx.bad[op['id']] = True
            ctx.sim.probe('genuine-' + problem.status)
        else:
            v = problem.variables()[0].value
            ctx.captured[op['o']].append(None if v is None else np.array(v))
        return r

    def fill(self, op, problem, fill, status):
        for v in problem.variables():
            if fill == 'garbage':
                rs = np.random.RandomState(op['id'] + 1)
                v.save_value(np.abs(rs.randn(*v.shape)) * 10 + 0.125)
            elif fill == 'nan':
                v.save_value(np.full(v.shape, np.nan))
            elif fill == 'none':
                v.save_value(None)
        problem._status = status

    @staticmethod
    def options(op):
        if op.get('so') and op['outcome'] == 'real':
            return dict(op['so'])
        return {} if op['solver'] is None else {'solver': op['solver']}

    def run_op(self, ctx, c, op):
        o, q, l = self.problem(ctx, op)
        x = ctx.objs[op['o']]
        so = self.options(op)
        if op['outcome'] == 'badarg' and not op.get('redo'):
            if o['t'] in ('l1', 'l21'):
                return x.solve(q['A'][:, :1] if q['A'].shape[1] > 1 else q['A'][:1], q['b'], l)
            if o['t'] == 'scm':
                return x.estimate(q['R'][:-1, :-1], 1, l)
            return x.estimate(q['b'][:-1], 1, l)
        if o['t'] == 'l1':
            return x.solve(q['A'], q['b'], l, **so)
        if o['t'] == 'l21':
            return x.solve(q['A'], q['b'], l, **so)
        kw = {'return_spectrum': True} if op['rs'] else {}
        if o['t'] == 'scm':
            if o['noise_known']:
                kw['sigma'] = q['sigma']
            return x.estimate(q['R'], op['k'], l, solver_options=so, **kw)
        return x.estimate(q['b'], op['k'], l, solver_options=so, **kw)

    def check(self, ctx, c, op, out):
        o, q, l = self.problem(ctx, op)
        failed = not op.get('redo') and (op['outcome'] in ('raise', 'status') or ctx.bad.get(op['id']))
        failed = failed or ctx.bad.get(op['id'])
        if ctx.wrong:
            raise W.Violation('stale-options', ctx.wrong)
        ctx.bad.pop(op['id'], None)
        if op['outcome'] == 'badarg' and not op.get('redo'):
            if out.ok:
                raise W.Violation('bad-accepted', 'data of the wrong shape was accepted')
            return
        if not out.ok:
            if out.faulted or failed:
                return
            raise W.Violation('unexpected-exception', '%r for a solvable problem' % out.exc)
        if op['outcome'] == 'raise' and not op.get('redo'):
            raise W.Violation('error-swallowed', 'the solver raised but the call returned %r' % (out.value,))
        if o['t'] in ('l1', 'l21'):
            x = np.array(out.value)
            ctx.kept.append((out.value, x, op['id']))
            if failed:
                if np.any(x != 0):
                    raise W.Violation('failed-solution', 'the solver failed (%s) but %r was returned'
                                      % (op.get('status', 'real failure'), x.tolist()))
                ctx.sim.probe('failure-reported')
                return
            shape = (o['k'], 1) if o['t'] == 'l1' else (o['k'], o['n'])
            W.same(x.size, int(np.prod(shape)), 'size of the solution')
            x = x.reshape(shape)
            self.certify(ctx, o, q, l, x)
            return
        g = o['g']
        if op['rs']:
            W.same(len(out.value), 3, 'number of results')
            ok, est, sp = out.value
            sp = np.array(sp)
            ctx.kept.append((out.value[2], sp, op['id']))
            W.same(sp.shape, W.grid_shape(g), 'spectrum shape')
        else:
            ok, est = out.value
            sp = None
        if failed:
            if ok or est is not None:
                raise W.Violation('failed-solution', 'the solver failed (%s) but the call is resolved with %r'
                                  % (op.get('status', 'real failure'), est.locations.tolist()))
            if sp is not None and np.any(np.nan_to_num(sp) != 0):
                raise W.Violation('failed-solution', 'the solver failed (%s) but a spectrum %r was returned'
                                  % (op.get('status', 'real failure'), sp.tolist()))
            ctx.sim.probe('failure-reported')
            return
        if ok:
            S.check_estimates(est, g['kind'], g.get('unit', 'm'), op['k'])
            ctx.kept.append((est.locations, np.array(est.locations), op['id']))
            idx = S.locate(est, g)
        else:
            W.same(est, None, 'estimates of an unresolved call')
        if sp is None:
            return
        self.certify_spectrum(ctx, op, o, q, l, sp.reshape(-1))
        pk = S.ref_peaks(sp)
        if pk is not None:
            if ok:
                W.expect(len(pk) >= op['k'], 'resolved with only %d peaks' % len(pk))
                S.check_selection(sp, pk, idx, op['k'])
            else:
                W.expect(len(pk) < op['k'], 'unresolved although the spectrum has %d peaks' % len(pk))

    def certify(self, ctx, o, q, l, x):
        if o['t'] in ('group', 'l21'):
            gap, scale = l21_gap(q['A'], q['b'], l, x)
            inf = 0.0
        else:
            inf, gap, scale = l1_gap(o['form'], q['A'], q['b'], l, x, o['nn'])
            if o['form'] == 'constrainedl2' and ill_conditioned(q['A'], q['b'], l, x, o['nn']):
                gap = 0.0
        if not (inf <= self.GAP and gap <= self.GAP * scale):
            raise W.Violation('not-optimal', '%s %s solution for l=%r: constraint violation %.3g, duality gap '
                              '%.3g (scale %.3g): %r' % (o['t'], o.get('form', ''), l, inf, gap, scale,
                                                         np.asarray(x).tolist()))
        ctx.sim.probe('certified')

    def certify_spectrum(self, ctx, op, o, q, l, sp):
        if o['t'] == 'group':
            # The spectrum holds the row norms of the solution; find it.
            for X in reversed(ctx.captured[op['o']]):
                if X is not None and np.allclose(np.linalg.norm(X, axis=1), sp, rtol=1e-9, atol=1e-12):
                    return self.certify(ctx, o, q, l, X)
            raise W.Violation('not-optimal', 'the spectrum %r is not that of a solution' % sp.tolist())
        if o['noise_known']:
            return self.certify(ctx, o, q, l, sp)
        # The noise power is optimal for the other components.
        A, b = q['A'], q['b']
        a, r = A[:, -1], b - A[:, :-1] @ sp
        aa, ar = float(a @ a), float(a @ r)
        if o['form'] == 'penalizedl1':
            n = max(0.0, (ar - l) / aa)
        elif o['form'] == 'constrainedl1':
            n = min(max(0.0, ar / aa), max(0.0, l - float(np.abs(sp).sum())))
        else:
            h = float(r @ r) - l * l
            disc = ar * ar - aa * h
            n = 0.0 if h <= 0 else ar / aa if disc <= 0 else (ar - np.sqrt(disc)) / aa
            n = max(0.0, n)
        self.certify(ctx, o, q, l, np.concatenate((sp, [n])))

    def invariant(self, ctx):
        for v, b, i in ctx.kept:
            if not np.array_equal(v, b, equal_nan=True):
                raise W.Violation('result-changed', 'the result of op %d changed later' % i)

    def final(self, ctx):
        self.invariant(ctx)


PROP = C09()
