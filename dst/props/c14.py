"""Root-MUSIC and ESPRIT: each call answers for its own arguments."""
import math

from .. import ref, world as W
import numpy as np

import doatools.estimation.music as MU
import doatools.estimation.esprit as ES

UNITS = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}


def ref_rootmusic(R, k):
    """The k roots inside the unit circle that are closest to it, or None when
    the choice is numerically ambiguous."""
    m = len(R)
    w, E = np.linalg.eigh(R)
    if w[m - k] - w[m - k - 1] < 1e-4 * abs(w[-1]):
        return None
    C = E[:, :m - k] @ E[:, :m - k].conj().T
    # sum over l of c_l z^l with c_l = sum of C[i, i + l], times z^(m - 1)
    p = np.zeros(2 * m - 1, dtype=complex)
    for i in range(m):
        for j in range(m):
            p[(j - i) + m - 1] += C[i, j]
    z = np.roots(p[::-1])
    r = np.abs(z)
    # Roots come in conjugate-reciprocal pairs.
    z = z[np.argsort(r)][:m - 1]
    r = np.abs(z)
    if np.max(r) > 1 - 1e-7 or len(z) != m - 1:
        return None
    o = np.argsort(1 - r)
    z, r = z[o], r[o]
    if k < len(z) and r[k - 1] - r[k] < 1e-6:
        return None
    return z[:k]


def ref_esprit(R, k, disp, form, weights):
    m = len(R)
    w, E = np.linalg.eigh(R)
    if w[m - k] - w[m - k - 1] < 1e-3 * abs(w[-1]):
        return None
    Es = E[:, m - k:]
    n = m - disp
    if isinstance(weights, str):
        wt = [1.0] * n if weights == 'none' else [math.sqrt(min(i + 1, n - i)) for i in range(n)]
    else:
        wt = list(weights)
    D = np.diag(wt)
    E1, E2 = D @ Es[:n], D @ Es[disp:]
    if form == 'ls':
        s = np.linalg.svd(E1, compute_uv=False)
        if s[-1] < 1e-3 * s[0]:
            return None
        Phi = np.linalg.lstsq(E1, E2, rcond=None)[0]
    else:
        U, s, Vh = np.linalg.svd(np.hstack((E1, E2)))
        s = np.concatenate((s, np.zeros(2 * k - len(s))))
        if s[k - 1] - s[k] < 1e-3 * s[0]:
            return None
        V = Vh.conj().T
        V12, V22 = V[:k, k:], V[k:, k:]
        if np.linalg.cond(V22) > 1e3:
            return None
        Phi = -V12 @ np.linalg.inv(V22)
    z, X = np.linalg.eig(Phi)
    if np.linalg.cond(X) > 1e3 or np.min(np.abs(z)) < 1e-6:
        return None
    return z


class C14(W.PropBase):
    id = 'C14'
    runs = {'quick': 1500, 'thorough': 100000}

    def gen(self, rng):
        wls = [W.gen_wl(rng) for _ in range(rng.choice([1, 2]))]
        covs = [self.gen_cov(rng) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.35:
            # The mirror image: the same trace, diagonal and eigenvalues, other directions.
            c = covs[0]
            covs.append(dict(c, conj=not c.get('conj'), w=[-x for x in c['w']]))
        weights = [{'n': c['m'] - d, 'seed': rng.randrange(10 ** 6), 'form': rng.choice(['plain', 'plain', 'zeros', 'signed', 'int'])} for c in covs for d in (1, 2)]
        clients = [[self.gen_op(rng, wls, covs) for _ in range(rng.randint(1, 5))]
                   for _ in range(rng.randint(1, 3))]
        return {'wls': wls, 'covs': covs, 'weights': weights, 'clients': clients,
                'ro': rng.random() < 0.3}

    def gen_cov(self, rng):
        m = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, rng.randint(10, 20) if rng.random() < 0.7 else rng.randint(20, 40)])
        mode = rng.choice(['exact', 'exact', 'noisy', 'noisy', 'random'])
        k = rng.randint(1, min(m - 1, 4 if m < 12 or rng.random() < 0.6 else 8))
        # Electrical angles per unit spacing; |w| < pi / reach stays unambiguous.
        reach = rng.choice([1, 1, 1, 2, 3])
        lim = 0.97 * math.pi / reach
        sep = 0.8 * 2 * math.pi / m
        if mode != 'exact':
            sep *= 0.7
        for _ in range(60):
            w = [rng.uniform(-lim, lim) for _ in range(k)]
            if rng.random() < 0.15:
                w[0] = 0.0
            if all(abs(np.exp(1j * a) - np.exp(1j * b)) > 2 * math.sin(min(sep, math.pi) / 2)
                   for i, a in enumerate(w) for b in w[:i]):
                break
        else:
            k, w = 1, w[:1]
        if mode == 'exact' and rng.random() < 0.15:
            # A real matrix: pairs of sources of the same power, one at broadside.
            w = [0.0] if k == 1 or m < 5 else [-0.3 * lim, 0.3 * lim] + ([0.0] if k == 3 and m > 10 else [])
            mode = 'exactreal'
        return {'m': m, 'mode': mode, 'w': w, 'seed': rng.randrange(10 ** 6), 'sigma': rng.choice([0.0, 0.01, .3]),
                'n': rng.choice([30, 200]), 'full': rng.random() < 0.4, 'order': rng.choice(['C', 'F', 'view']),
                'scale': rng.choice([1.0, 1.0, 1e-6, 1e5])}

    def cov(self, c):
        rs = np.random.RandomState(c['seed'])
        m, k = c['m'], len(c['w'])
        if c.get('conj'):
            R = self.cov(dict(c, conj=False, w=[-x for x in c['w']]))
            return R.conj() if c['order'] == 'C' else np.asfortranarray(R.conj())
        if c['mode'] == 'exactreal':
            A = np.exp(1j * np.outer(np.arange(m), c['w']))
            return ((A @ A.conj().T).real + c['sigma'] * np.eye(m)) * c['scale']
        if c['mode'] == 'random':
            return W.cov({'m': m, 'seed': c['seed'], 'mode': 'random', 'order': c['order'], 'scale': c['scale']})
        A = np.exp(1j * np.outer(np.arange(m), c['w']))
        if c['full']:
            H = rs.randn(k, k) + 1j * rs.randn(k, k)
            P = 0.3 * H @ H.conj().T + np.eye(k)
        else:
            P = np.diag(rs.uniform(0.5, 3, k)) + 0j
        R = A @ P @ A.conj().T + c['sigma'] * np.eye(m)
        if c['mode'] == 'noisy':
            L = np.linalg.cholesky(R + 0.05 * np.eye(m))
            X = L @ (rs.randn(m, c['n']) + 1j * rs.randn(m, c['n']))
            R = X @ X.conj().T / (2 * c['n'])
        R = 0.5 * (R + R.conj().T) * c['scale']
        if c['order'] == 'F':
            R = np.asfortranarray(R)
        elif c['order'] == 'view':
            big = np.zeros((2 * m, 2 * m), dtype=complex)
            big[::2, ::2] = R
            R = big[::2, ::2]
        return R

    def gen_op(self, rng, wls, covs):
        ci = rng.randrange(len(covs))
        c = covs[ci]
        if rng.random() < 0.05:
            # Noise-free covariances of two sensors: roots on the unit circle, up to rounding.
            return {'kind': 'pairs', 'wl': rng.randrange(len(wls)), 'seed': rng.randrange(10 ** 6), 'n': 30,
                    'sigma': rng.choice([0.0, 0.01, 0.3])}
        k = len(c['w']) if rng.random() < 0.8 else rng.randint(1, c['m'] - 1)
        op = {'kind': rng.choice(['rm', 'es', 'es']), 'wl': rng.randrange(len(wls)), 'c': ci, 'k': k,
              'unit': rng.choice(list(UNITS) + [None]),
              # spacing in wavelengths; None is the default, one half
              'd': rng.choice([None, None, 0.5, W.f(rng.uniform(0.15, 0.5)), W.f(rng.uniform(0.5, 1.2))])}
        if op['kind'] == 'es':
            op['expect_exc'] = True       # singular for degenerate data only, see check
            op['disp'] = rng.choice([None, 1, 1, 2, 3])
            op['form'] = rng.choice([None, 'ls', 'tls'])
            op['rw'] = rng.choice([None, 'default', 'none', 'array'])
            dd = op['disp'] or 1
            if k > c['m'] - dd or (op['rw'] == 'array' and dd > 2):
                op['disp'], dd = 1, 1
            if k > c['m'] - dd:
                op['k'] = c['m'] - dd
        if rng.random() < 0.1:
            op['bad'] = rng.choice(['k', 'k0', 'kneg', 'square', 'weights', 'wlen', 'form', 'disp']
                                   if op['kind'] == 'es' else ['k', 'k0', 'kneg', 'square'])
            op['expect_exc'] = True
        return op

    @staticmethod
    def pairs(op):
        rs = np.random.RandomState(op['seed'])
        return [(rs.uniform(-3.0, 3.0), rs.uniform(0.5, 3)) for _ in range(op['n'])]

    @staticmethod
    def pair_cov(w, p, sigma):
        a = np.exp(1j * w * np.arange(2))
        return p * np.outer(a, a.conj()) + sigma * np.eye(2)

    @staticmethod
    def weights(q):
        rs = np.random.RandomState(q['seed'])
        w = rs.uniform(0.5, 2, q['n'])
        if q['form'] == 'zeros' and q['n'] >= 3:
            w[rs.choice(q['n'], rs.randint(1, 1 + q['n'] // 3), replace=False)] = 0.0
        elif q['form'] == 'signed':
            w *= rs.choice([-1, 1], q['n'])
        elif q['form'] == 'int':
            w = rs.randint(1, 4, q['n'])
        return w

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.rm = [MU.RootMUSIC1D(w) for w in plan['wls']]
        ctx.es = [ES.Esprit1D(w) for w in plan['wls']]
        ctx.covs = [self.cov(c) for c in plan['covs']]
        ctx.weights = [self.weights(w) for w in plan['weights']]
        ctx.priv = [np.array(R) for R in ctx.covs]
        ctx.privw = [np.array(w) for w in ctx.weights]
        if plan['ro']:
            for x in ctx.covs + ctx.weights:
                x.setflags(write=False)
        ctx.kept = []
        return ctx

    def run_op(self, ctx, c, op):
        wl = ctx.plan['wls'][op['wl']]
        if op['kind'] == 'pairs':
            return [ctx.rm[op['wl']].estimate(self.pair_cov(w, p, op['sigma']), 1, unit='sin')
                    for w, p in self.pairs(op)]
        R = ctx.covs[op['c']]
        k = op['k']
        kw = {}
        if op['unit']:
            kw['unit'] = op['unit']
        if op['d']:
            kw['d0'] = op['d'] * wl
        bad = op.get('bad')
        if bad == 'k':
            k = len(R)
        elif bad in ('k0', 'kneg'):
            k = 0 if bad == 'k0' else -1
        elif bad == 'square':
            R = R[:, :-1]
        if op['kind'] == 'rm':
            return ctx.rm[op['wl']].estimate(R, k, **kw)
        if op['disp']:
            kw['displacement'] = op['disp']
        if op['form']:
            kw['formulation'] = op['form']
        if op['rw'] == 'array':
            kw['row_weights'] = ctx.weights[2 * op['c'] + (op['disp'] or 1) - 1]
        elif op['rw']:
            kw['row_weights'] = op['rw']
        if bad == 'weights':
            kw['row_weights'] = 'hamming'
        elif bad == 'wlen':
            kw['row_weights'] = np.ones(len(R) + 1)
        elif bad == 'form':
            kw['formulation'] = 'xls'
        elif bad == 'disp':
            kw['displacement'] = 0
        return ctx.es[op['wl']].estimate(R, k, **kw)

    def check(self, ctx, c, op, out):
        if op.get('bad'):
            if out.ok:
                raise W.Violation('bad-accepted', 'accepted a call with bad %s' % op['bad'])
            return
        if out.faulted and not out.ok:
            return
        plan = ctx.plan
        if op['kind'] == 'pairs':
            if not out.ok:
                raise W.Violation('unexpected-exception', '%r in %s' % (out.exc, op))
            for (w, p), (ok, est) in zip(self.pairs(op), out.value):
                W.expect(ok, 'a noise-free source at %r is not resolved by two sensors' % w)
                W.close(est.locations, [w / math.pi], 'noise-free source and two sensors', rtol=0, atol=1e-3)
            ctx.sim.probe('pairs-decided')
            return
        cs = plan['covs'][op['c']]
        R = ctx.priv[op['c']]
        if not out.ok:
            if self.reference(ctx, op, R) is None and isinstance(out.exc, np.linalg.LinAlgError):
                ctx.sim.probe('singular')
                return
            raise W.Violation('unexpected-exception', '%r in %s' % (out.exc, op))
        unit = op['unit'] or 'rad'
        W.expect(isinstance(out.value, tuple) and len(out.value) == 2, 'result is not a pair')
        ok, est = out.value
        got = None
        if ok:
            W.same(type(est).__name__, 'FarField1DSourcePlacement', 'estimate type')
            W.same(tuple(est.units), (unit,), 'estimate units')
            loc = np.asarray(est.locations, float)
            W.same(loc.shape, (op['k'],), 'shape of the estimates')
            W.expect(np.all(np.isfinite(loc)) and np.all(np.abs(loc) <= UNITS[unit] * (1 + 1e-12)),
                     'resolved with %r (%s)' % (loc.tolist(), unit))
            ctx.kept.append((est, loc.copy(), op['id']))
            got = np.sin(ref.to_rad(loc, unit))
        else:
            W.same(est, None, 'estimates of an unresolved call')
        disp = (op.get('disp') or 1) if op['kind'] == 'es' else 1
        step = (op['d'] or 0.5) * disp           # spacing of the rotation, in wavelengths
        exact = cs['mode'] in ('exact', 'exactreal') and op['k'] == len(cs['w'])
        z = None
        if op['kind'] == 'es':
            z = self.reference(ctx, op, R)
            tol = 1e-6
        elif not exact:
            z = ref_rootmusic(R, op['k'])
            tol = 1e-5
        if exact:
            w = np.array(cs['w']) * disp
            zz = np.exp(1j * w)
            gap = np.min(np.abs(zz[:, None] - zz[None, :]) + 9 * np.eye(len(w)))
            # Sources coincide in the rotated subarray beyond this.
            if op['kind'] == 'es' and op['rw'] == 'array' and z is None:
                ctx.sim.probe('rank-deficient-weights')
            elif gap > 0.3:
                z, tol = zz, (2e-3 if op['kind'] == 'rm' else 1e-5)
                ctx.sim.probe('exact-decided')
            elif op['kind'] == 'es':
                z = None
        if z is None:
            return
        s = np.sort(np.angle(z) / (2 * math.pi * step))
        edge = np.min(np.abs(np.abs(np.angle(z)) - math.pi))
        if edge < 1e-2 or np.min(np.abs(np.abs(s) - 1)) < 1e-3:
            return
        want = bool(np.all(np.abs(s) <= 1))
        if bool(ok) != want:
            raise W.Violation('wrong-result', '%s: resolved=%r, but the roots give sin(theta)=%r'
                              % (op, ok, s.tolist()))
        if ok:
            # sines compare well except towards endfire, where the mapping is flat
            W.expect(np.all(np.diff(got) >= 0), 'the estimates are not in ascending order: %r' % got)
            W.close(got, s, 'directions (sines) of %s' % op, rtol=0, atol=tol / step)
        ctx.sim.probe('decided')

    @staticmethod
    def reference(ctx, op, R):
        disp = op.get('disp') or 1
        if op['kind'] == 'rm':
            return ref_rootmusic(R, op['k'])
        return ref_esprit(R, op['k'], disp, op['form'] or 'ls', 'default' if op['rw'] is None else
                          ctx.privw[2 * op['c'] + disp - 1] if op['rw'] == 'array' else op['rw'])

    def invariant(self, ctx):
        for est, b, i in ctx.kept:
            if not np.array_equal(est.locations, b):
                raise W.Violation('result-changed', 'a placement returned by op %d changed' % i)

    def final(self, ctx):
        self.invariant(ctx)


PROP = C14()
