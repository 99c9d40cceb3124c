"""Monte-Carlo campaigns against the library's own performance predictions."""
import math

from .. import perf, ref, world as W
import numpy as np

import doatools.estimation.coarray as CE
import doatools.estimation.esprit as ES
import doatools.estimation.ml as ML
import doatools.estimation.music as MU
import doatools.performance.crb as CRB
import doatools.performance.mse as MSE

TRIALS = {'rm': 1200, 'es': 700, 'co': 900, 'mu': 300, 'aml': 120, 'wsf': 120, 'cml': 120}
UNIT = {'sin': lambda s: s, 'rad': np.arcsin, 'deg': lambda s: np.rad2deg(np.arcsin(s))}


class Fixed(W.SIG.SignalGenerator):
    """The deterministic signal of the conditional model."""

    def __init__(self, S):
        self.S = S

    @property
    def dim(self):
        return self.S.shape[0]

    def emit(self, n):
        return self.S[:, :n]


class C17(W.PropBase):
    id = 'C17'
    runs = {'quick': 160, 'thorough': 6000}
    long = 0
    real = W.PropBase.real + ['numpy.random global generator (seeded by the simulator)']
    stubs = ['a fixed signal for the conditional (deterministic) model']
    assumptions = W.PropBase.assumptions + [
        'scenarios are well inside the asymptotic region (predicted deviation below 2% of a beamwidth)',
        'empirical covariances are decided at 6 standard errors plus 6%']

    def gen(self, rng):
        while True:
            p = self.scenario(rng)
            if p is not None:
                break
        n = {'mu': 4, 'aml': 2, 'wsf': 2, 'cml': 2, 'co': 10}.get(p['what'], 20)
        clients = []
        for _ in range(rng.randint(1, 3)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < 0.25:
                    ops.append({'kind': 'predict', 'mode': rng.choice(['full', 'diag', 'mean_diag'])})
                else:
                    ops.append({'kind': 'batch', 'n': rng.randint(1, n)})
            clients.append(ops)
        if rng.random() < 0.4:
            # Predictions for look-alikes of the array and of the sources, made
            # before and between those that count.
            p['decoy'] = self.other_coarray(rng, p['array']) or W.twin_array(rng, p['array'], p['wl'])
            p['dsrc'] = W.twin_sources(rng, p['src'])
            clients[0].insert(0, {'kind': 'decoy', 'expect_exc': True})
            clients[rng.randrange(len(clients))].append({'kind': 'decoy', 'expect_exc': True})
        p.update(clients=clients, redo=2)
        return p

    @staticmethod
    def other_coarray(rng, a):
        """The same class and size, but another difference coarray."""
        if a['kind'] == 'nested' and rng.random() < 0.8:
            n = a['n1'] + a['n2']
            return dict(a, **rng.choice([{'n1': i, 'n2': n - i} for i in range(1, n) if i != a['n1']]))
        if a['kind'] == 'coprime' and rng.random() < 0.8:
            if a['mode'] == '2m':
                # 2m + n - 1 = 6 elements
                return dict(a, m=3, n=4, mode='m')
            return dict(a, m=3, n=2)
        return None

    def scenario(self, rng):
        wl = W.gen_wl(rng)
        what = rng.choice(['rm', 'rm', 'es', 'co', 'co', 'co', 'mu', 'aml', 'aml', 'wsf', 'wsf', 'cml'])
        d0 = W.f(rng.choice([0.5, 0.5, 0.4, 0.3]) * wl)
        if what in ('rm', 'es'):
            a = {'kind': 'ula', 'n': rng.randint(3, 9), 'd0': d0}
        elif what == 'co':
            a = rng.choice([{'kind': 'nested', 'n1': 2, 'n2': 2}, {'kind': 'nested', 'n1': 2, 'n2': 3},
                            {'kind': 'coprime', 'm': 2, 'n': 3, 'mode': '2m'}, {'kind': 'mrla', 'n': 4},
                            {'kind': 'coprime', 'm': 2, 'n': 3, 'mode': 'm'}, {'kind': 'mrla', 'n': 5},
                            {'kind': 'ula', 'n': 5}])
            a = dict(a, d0=d0)
        else:
            a = W.gen_array(rng, wl, kinds=['ula', 'nested', 'uca', 'mrla'], min_m=4, max_m=7, perts=False, half=True)
        a = dict(a, elem='iso', perts=[], form='list')
        m = W.n_elements(a)
        if what in ('mu', 'aml', 'wsf', 'cml') and rng.random() < 0.5:
            a['perts'] = [dict(W.gen_pert(rng, t, m, wl, 0.3), known=True)
                          for t in rng.sample(['gain', 'phase', 'loc'], rng.randint(1, 2))]
        # Longest aperture in wavelengths decides what is well separated.
        L = ref.locations(a)
        ap = max(np.linalg.norm(x - y) for x in L for y in L) / wl
        hard = False
        if what == 'co':
            idx = [i[0] for i in ref.indices(a)]
            mv = perf.virtual_size(idx)
            k = rng.randint(1, min(mv - 2, m + 1))
            sep = 1.0 / (mv * d0 / wl)
        else:
            k = rng.randint(1, min(3, m - 1) if what != 'es' else min(3, m - 2))
            # Strongly correlated sources: where the way the signal subspace
            # is weighted decides how efficient the estimates are.
            hard = what in ('wsf', 'aml') and rng.random() < 0.85
            if hard:
                k = rng.randint(2, min(3, m - 1))
            sep = 1.2 / ap if a['kind'] != 'uca' else 1.0
        for _ in range(100):
            s = sorted(rng.uniform(-.8, .8) for _ in range(k))
            if all(y - x > sep for x, y in zip(s, s[1:])):
                break
        else:
            return None
        unit = rng.choice(list(UNIT))
        src = {'kind': 'ff1d', 'unit': unit, 'locs': [float(x) for x in UNIT[unit](np.array(s))]}
        A, D = ref.steering(a, a['perts'], src, wl, 'all', True)
        if what != 'co' and np.linalg.cond(A) > 4:
            return None
        if what == 'mu':
            # No direction may look almost like a source.
            g = np.linspace(-np.pi / 2, np.pi / 2, 1801)
            B = ref.steering(a, a['perts'], {'kind': 'ff1d', 'unit': 'rad', 'locs': g.tolist()}, wl)
            Q, _ = np.linalg.qr(A)
            f = np.linalg.norm(B - Q @ (Q.conj().T @ B), axis=0) ** 2
            # Other minima of the null spectrum (both ends count) have to be shallow.
            e = np.concatenate(([np.inf], f, [np.inf]))
            low = [i for i in range(len(f)) if f[i] <= e[i] and f[i] <= e[i + 2] and f[i] < 0.15 * m]
            if len(low) != k or any(np.min(np.abs(g[low] - math.asin(y))) > 0.01 for y in s):
                return None
        rs = np.random.RandomState(rng.randrange(10 ** 6))
        p = rs.uniform(0.7, 2, k)
        form = rng.choice(['scalar', 'vector', 'matrix']) if what != 'co' else rng.choice(['scalar', 'vector'])
        if hard:
            form = 'matrix'
        if form == 'matrix':
            Lp = np.tril((0.4 if not hard else 1.5) * (rs.randn(k, k) + 1j * rs.randn(k, k)), -1) + np.eye(k)
            P = (np.sqrt(p)[:, None] * Lp) @ (np.sqrt(p)[:, None] * Lp).conj().T
            if np.linalg.cond(P) > (10 if not hard else 50):
                return None
        else:
            P = np.diag(p if form == 'vector' else p[0] * np.ones(k)) + 0j
        sigma = rng.choice([0.05, 0.2, 0.5])
        if what == 'cml':
            sigma = 0.02
        q = {'wl': wl, 'array': a, 'src': src, 'what': what, 'form': form, 'sigma': sigma,
             'P_re': P.real.tolist(), 'P_im': P.imag.tolist(), 'sseed': rng.randrange(10 ** 6),
             'method': rng.choice(['ss', 'da'])}
        if hard and not self.inefficiency(A, D, P, sigma) > 2:
            return None
        for n in (100, 300, 1000, 3000):
            C = self.reference(q, n)
            if C is None:
                return None
            # In sines, relative to the beamwidth.
            x = np.array(src['locs'])
            g = {'sin': np.ones(k), 'rad': np.cos(x), 'deg': np.pi / 180 * np.cos(np.deg2rad(x))}[unit]
            sd = np.sqrt(np.diag(C)) * g
            if np.max(sd) < (0.02 if what != 'co' else 0.012) * (1.0 / ap if what != 'co' else sep):
                break
        else:
            return None
        if hard:
            q['hard'] = True
        q['n'] = max(n, 300) if what not in ('aml', 'wsf') else max(n, 600 if hard else 200)
        return q

    @staticmethod
    def inefficiency(A, D, P, sigma):
        """Variance of subspace fitting without weights, relative to the bound."""
        k = len(P)
        v, E = np.linalg.eigh(A @ P @ A.conj().T + sigma * np.eye(len(A)))
        Ap = np.linalg.pinv(A)
        H = D.conj().T @ (np.eye(len(A)) - A @ Ap) @ D
        B = Ap @ E[:, -k:]

        def var(w):
            V, U = (B * w) @ B.conj().T, (B * (w * w * v[-k:] / (v[-k:] - sigma) ** 2)) @ B.conj().T
            i = np.linalg.inv((H * V.T).real)
            return np.diag(i @ (H * U.T).real @ i)
        return np.max(var(np.ones(k)) / var((v[-k:] - sigma) ** 2 / v[-k:]))

    @classmethod
    def reference(cls, q, n):
        x = cls.reference_tol(q, n)
        return None if x is None else x[0]

    @staticmethod
    def reference_tol(q, n):
        """Only steers the generator towards the asymptotic region."""
        a, s, wl = q['array'], q['src'], q['wl']
        A, D = ref.steering(a, a['perts'], s, wl, 'all', True)
        P = np.array(q['P_re']) + 1j * np.array(q['P_im'])
        if q['what'] == 'co':
            idx = [i[0] for i in ref.indices(a)]
            w = 2 * np.pi * a['d0'] / wl
            v = np.array(s['locs'], float)
            om = w * (v if s['unit'] == 'sin' else np.sin(ref.to_rad(v, s['unit'])))
            ds = w * np.ones(len(v)) if s['unit'] == 'sin' else w * np.cos(ref.to_rad(v, s['unit']))
            if s['unit'] == 'deg':
                ds = ds * np.pi / 180
            return perf.ecov_coarray(idx, A, np.diag(P).real, q['sigma'], n, om, ds)
        if q['what'] == 'cml':
            return perf.crb_det(A, D, P, q['sigma'], n)
        if q['what'] in ('aml', 'wsf'):
            return perf.crb_sto(A, D, P, q['sigma'], n)
        return perf.ecov_music(A, D, P, q['sigma'], n)

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        wl = plan['wl']
        ctx.array = W.make_array(plan['array'])
        ctx.src = W.make_sources(plan['src'])
        if 'decoy' in plan:
            ctx.decoy, ctx.dsrc = W.make_array(plan['decoy']), W.make_sources(plan['dsrc'])
        ctx.true = np.array(plan['src']['locs'])
        P = np.array(plan['P_re']) + 1j * np.array(plan['P_im'])
        ctx.P = {'scalar': float(P[0, 0].real), 'vector': np.diag(P).real.copy(), 'matrix': P}[plan['form']]
        k = len(ctx.true)
        m = ctx.array.size
        if plan['what'] == 'cml':
            rs = np.random.RandomState(plan['sseed'])
            n = plan['n']
            X = rs.randn(k, n) + 1j * rs.randn(k, n)
            X = np.linalg.inv(np.linalg.cholesky(X @ X.conj().T / n)) @ X
            ctx.gen = Fixed(np.linalg.cholesky(P) @ X)
            ctx.P = P
        else:
            ctx.gen = W.SIG.ComplexStochasticSignal(k, ctx.P)
        ctx.noise = W.SIG.ComplexStochasticSignal(m, plan['sigma'])
        ctx.grid = None
        if plan['what'] == 'mu':
            u = plan['src']['unit']
            hi = {'rad': np.pi / 2, 'deg': 90, 'sin': 1.0}[u]
            ctx.grid = W.GRID.FarField1DSearchGrid(-hi, hi, 181, u)
            ctx.est = [MU.MUSIC(ctx.array, wl, ctx.grid)]
        elif plan['what'] in ('rm', 'co'):
            ctx.est = [MU.RootMUSIC1D(wl)]
        elif plan['what'] == 'es':
            ctx.est = [ES.Esprit1D(wl)]
        else:
            # These hold the data of the running call: one for each client.
            t = {'aml': ML.AMLEstimator, 'cml': ML.CMLEstimator, 'wsf': ML.WSFEstimator}[plan['what']]
            ctx.est = [t(ctx.array, wl) for _ in range(len(plan['clients']) + 1)]
        if plan['what'] == 'co':
            ctx.acm = CE.CoarrayACMBuilder1D(ctx.array)
        ctx.err = []
        ctx.lost = 0
        ctx.pred = []
        return ctx

    def trial(self, ctx, owner):
        plan = ctx.plan
        k = len(ctx.true)
        u = plan['src']['unit']
        _, R = W.SNP.get_narrowband_snapshots(ctx.array, ctx.src, plan['wl'], ctx.gen, ctx.noise, plan['n'], True)
        e = ctx.est[owner % len(ctx.est)]
        w = plan['what']
        if w == 'mu':
            return e.estimate(R, k, refine_estimates=True, refinement_density=10, refinement_iters=3)
        if w == 'co':
            return e.estimate(ctx.acm(R, plan['method']), k, d0=plan['array']['d0'], unit=u)
        if w in ('rm', 'es'):
            return e.estimate(R, k, d0=plan['array']['d0'], unit=u)
        return e.estimate(R, ctx.src)

    def predict(self, ctx, mode, array=None, src=None):
        plan = ctx.plan
        f = {'co': MSE.ecov_coarray_music_1d, 'cml': CRB.crb_det_farfield_1d, 'aml': CRB.crb_sto_farfield_1d,
             'wsf': CRB.crb_sto_farfield_1d}.get(plan['what'], MSE.ecov_music_1d)
        args = (array or ctx.array, src or ctx.src, plan['wl'], ctx.P, plan['sigma'])
        bound = {'co': CRB.crb_stouc_farfield_1d, 'cml': CRB.crb_det_farfield_1d}.get(
            plan['what'], CRB.crb_sto_farfield_1d)
        return f(*args, n_snapshots=plan['n'], return_mode=mode), bound(*args, n_snapshots=plan['n'])

    def run_op(self, ctx, c, op):
        if op['kind'] == 'predict':
            return self.predict(ctx, op['mode'])
        if op['kind'] == 'decoy':
            self.predict(ctx, 'full', ctx.decoy)
            return self.predict(ctx, 'full', ctx.array, ctx.dsrc)
        return [self.trial(ctx, c.idx) for _ in range(op['n'])]

    def check(self, ctx, c, op, out):
        if not out.ok or op['kind'] == 'decoy':
            return
        if op['kind'] == 'predict':
            ctx.pred.append((op['mode'], out.value[0]))
            return
        for r in out.value:
            self.take(ctx, r)

    def take(self, ctx, r):
        W.expect(isinstance(r, tuple) and len(r) == 2, 'result is not a pair')
        if not r[0]:
            ctx.lost += 1
            return
        loc = np.asarray(r[1].locations, float)
        W.same(loc.shape, ctx.true.shape, 'shape of the estimates')
        W.same(tuple(r[1].units), (ctx.plan['src']['unit'],), 'estimate units')
        ctx.err.append(np.sort(loc) - ctx.true)

    def final(self, ctx):
        plan = ctx.plan
        w = plan['what']
        T = TRIALS[w] * (2 if plan.get('hard') else 1)
        n = 0
        while len(ctx.err) < T and n < T + 50:
            self.take(ctx, self.trial(ctx, len(plan['clients'])))
            n += 1
        if ctx.lost > (0.02 if w in ('rm', 'es', 'co', 'mu') else 0.15) * T:
            raise W.Violation('wrong-statistics', '%d of %d trials unresolved' % (ctx.lost, ctx.lost + len(ctx.err)))
        C, B = self.predict(ctx, 'full')
        for mode, v in ctx.pred:
            W.close(v, perf.reduce(C, mode), 'prediction (%s) of an earlier call' % mode, rtol=1e-8)
        E = np.array(ctx.err)
        T, k = E.shape
        Li = np.linalg.inv(np.linalg.cholesky(C))
        if w in ('aml', 'wsf', 'cml'):
            # A local optimiser may walk into another optimum now and then: a
            # distinct outcome, far away from the asymptotic law.
            far = np.max(np.abs(E @ Li.T), axis=1) > 12
            if np.sum(far) > 0.05 * T:
                raise W.Violation('wrong-statistics', '%s: %d of %d trials end more than 12 predicted deviations '
                                  'away' % (w, np.sum(far), T))
            if np.any(far):
                ctx.sim.probe('other-optimum', int(np.sum(far)))
            E = E[~far]
            T = len(E)
        tol = 6 * math.sqrt(2.0 / T) + 0.06
        # The bound holds for every unbiased estimator.
        S = E.T @ E / T
        lo = np.diag(S) / np.diag(B)
        if not np.min(lo) > 1 - tol:
            raise W.Violation('wrong-statistics', '%s beats the Cramer-Rao bound: variance ratios %r'
                              % (w, lo.tolist()))
        ctx.sim.probe('bound-' + w)
        if w == 'es':
            return
        if w in ('rm', 'mu', 'co'):
            s = np.sqrt(np.diag(C))
            g = np.linalg.eigvalsh((C - B) / np.outer(s, s))[0]
            if not g > -1e-6:
                raise W.Violation('wrong-statistics', 'the predicted covariance beats the bound: %r' % g)
        Z = E @ Li.T
        G = Z.T @ Z / T
        if not np.max(np.abs(G - np.eye(k))) <= tol:
            raise W.Violation('wrong-statistics', '%s: empirical covariance over %d trials, whitened by the '
                              'prediction: %r (tolerance %.2f)' % (w, T, G.round(3).tolist(), tol))
        ctx.sim.probe('decided-' + w)
        ctx.sim.probe('trials', T)
        ctx.sim.emit('dev', w, round(float(np.max(np.abs(G - np.eye(k)))), 3), round(tol, 3))


PROP = C17()
