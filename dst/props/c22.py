"""End-to-end campaigns: simulated measurements to source locations."""
import math

from .. import ref, world as W
import numpy as np

import doatools.estimation.beamforming as BF
import doatools.estimation.coarray as CE
import doatools.estimation.esprit as ES
import doatools.estimation.min_norm as MN
import doatools.estimation.ml as ML
import doatools.estimation.music as MU
import doatools.estimation.preprocessing as PP

UNIT = {'sin': lambda s: s, 'rad': np.arcsin, 'deg': lambda s: np.rad2deg(np.arcsin(s))}
HI = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}
SPEC = {'music': MU.MUSIC, 'mvdr': BF.MVDRBeamformer, 'bartlett': BF.BartlettBeamformer, 'minnorm': MN.MinNorm}
INV = {'music': ref.music_inv, 'minnorm': ref.minnorm_inv}


def reference_spectrum(t, A, R, k):
    if t == 'bartlett':
        return ref.bartlett(A, R)
    if t == 'mvdr':
        return 1.0 / ref.mvdr_inv(A, R)
    return 1.0 / (INV[t](A, R, k) + 1e-9)


def local_maxima(sp):
    """Grid points not below any of their neighbours, strictly above one."""
    out = []
    for i in np.ndindex(*sp.shape):
        sl = tuple(slice(max(0, a - 1), a + 2) for a in i)
        nb = sp[sl]
        if sp[i] >= nb.max() and sp[i] > nb.min():
            out.append(i)
    return out


def scaled_perts(rng, m, wl, ndim):
    out = []
    for t in rng.sample(['loc', 'gain', 'phase', 'coupling'], rng.randint(1, 2)):
        p = dict(W.gen_pert(rng, t, m, wl, 0.4), known=True)
        out.append(p)
    return out


class C22(W.PropBase):
    id = 'C22'
    runs = {'quick': 600, 'thorough': 30000}
    long = 0
    real = W.PropBase.real + ['numpy.random global generator (seeded by the simulator)', 'cvxpy solvers']
    assumptions = W.PropBase.assumptions + [
        '"resolvable" means: the spectrum of the exact covariance shows the sources as its highest peaks with a '
        'margin; accuracy is two grid steps (0.6 after refinement) plus 5% of a beamwidth; a wrong answer only counts when '
        '5 of 5 independent draws are wrong']

    # -- scenarios -------------------------------------------------------
    def gen(self, rng):
        while True:
            p = self.scenario(rng)
            if p is not None:
                break
        clients = []
        heavy = p['what'] in ('scm', 'group', 'ml')
        for _ in range(rng.randint(1, 3)):
            ops = [self.gen_op(rng, p) for _ in range(rng.randint(1, 2 if heavy else 4))]
            clients.append(ops)
        p.update(clients=clients, redo=3)
        if p['what'] == 'group' and rng.random() < 0.4:
            p['scale'] = rng.choice([1e2, 1e4, 1e6])
        if p['what'] in ('grid', 'rm', 'coarray', 'coherent') and rng.random() < 0.2:
            p['scale'] = rng.choice([1e-18, 1e-9, 1e-4, 1e6])      # any unit of power
        return p

    def gen_op(self, rng, p):
        op = {'kind': p['what'], 'sp': rng.random() < 0.4, 'e': rng.randrange(8)}
        if p['what'] == 'grid':
            op['refine'] = rng.random() < 0.4
        if p['what'] in ('rm', 'coarray', 'coherent'):
            op['unit'] = rng.choice(list(UNIT))
            op['alg'] = rng.choice(['rm', 'rm', 'es'] if p['what'] == 'rm' else ['rm', 'rm', 'es', 'grid'])
            op['form'] = rng.choice([None, 'ls', 'tls'])
            op['method'] = rng.choice(['ss', 'ss', 'da', None])
            op['fb'] = rng.random() < 0.5
            op['disp'] = rng.randint(1, max(1, int(0.5 * p['wl'] / p['array']['d0'] + 1e-9)))
            op['d0'] = rng.random() < 0.5       # whether to leave out a default spacing
        if p['what'] == 'ml':
            op['alg'] = rng.choice(['aml', 'cml', 'wsf'])
            op['off'] = [W.f(rng.uniform(-.15, .15)) for _ in range(4)]
        if p['what'] in ('scm', 'group'):
            op['lf'] = rng.choice([0.05, 0.1, 0.2])
        return op

    def scenario(self, rng):
        what = rng.choice(['grid', 'grid', 'grid', 'grid', 'rm', 'coarray', 'coherent', 'ml', 'scm', 'group'])
        wl = W.gen_wl(rng)
        sigma = rng.choice([0.01, 0.05, 0.1])
        n = rng.choice([500, 1000])
        p = {'what': what, 'wl': wl, 'sigma': sigma, 'n': n, 'noise': rng.choice(['scalar', 'vector', 'matrix'])}
        d0 = W.f(rng.choice([0.5, 0.5, 0.5, 0.4, 0.25]) * wl)
        if what == 'grid':
            return self.grid_scenario(rng, p)
        if what == 'ml' and rng.random() < 0.4:
            return self.ml_scenario(rng, p)
        if what == 'rm':
            a = {'kind': 'ula', 'n': rng.randint(4, 9), 'd0': d0}
            kmax = min(3, a['n'] - 2)
        elif what == 'coarray':
            a = dict(rng.choice([{'kind': 'nested', 'n1': 2, 'n2': 2}, {'kind': 'nested', 'n1': 3, 'n2': 3},
                                 {'kind': 'coprime', 'm': 2, 'n': 3, 'mode': '2m'}, {'kind': 'mrla', 'n': 5},
                                 {'kind': 'coprime', 'm': 3, 'n': 5, 'mode': '2m'}, {'kind': 'mrla', 'n': 6}]), d0=d0)
            kmax = W.n_elements(a) + 1
            p['n'] = 4000
        elif what == 'coherent':
            a = {'kind': 'ula', 'n': rng.randint(8, 11), 'd0': d0}
            kmax = 2
            p['l'] = rng.randint(2, 3)
        else:
            a = W.gen_array(rng, wl, kinds=['ula', 'nested', 'mrla', 'coprime'], min_m=5, max_m=8, perts=False, half=True)
            kmax = 2
        a = dict(a, elem='iso', perts=[], form='list')
        m = W.n_elements(a)
        if what in ('ml', 'scm', 'group') and rng.random() < 0.5:
            a['perts'] = scaled_perts(rng, m, wl, 1)
        p['array'] = a
        L = ref.locations(a)
        ap = max(np.linalg.norm(x - y) for x in L for y in L) / wl
        if what == 'coarray':
            from ..perf import virtual_size
            mv = virtual_size([i[0] for i in ref.indices(a)])
            ap = (mv - 1) * a['d0'] / wl
            kmax = min(kmax, mv - 2)
        if what == 'coherent':
            ap = (a['n'] - p['l']) * a['d0'] / wl
        k = rng.randint(min(2, kmax), kmax) if what == 'coherent' else rng.randint(1, kmax)
        if what == 'coarray' and rng.random() < 0.6:
            k = kmax
        p['bw'] = 1.0 / ap
        sep = {'rm': 1.3, 'coarray': 1.1, 'coherent': 1.6, 'ml': 1.3, 'scm': 2.2, 'group': 2.2}[what] * p['bw']
        lim = 0.85
        for _ in range(200):
            s = sorted(rng.uniform(-lim, lim) for _ in range(k))
            if all(y - x > sep for x, y in zip(s, s[1:])):
                break
        else:
            return None
        unit = rng.choice(list(UNIT))
        if what in ('scm', 'group'):
            # Sources on the grid points.
            unit = 'sin' if rng.random() < 0.6 else unit
            G = max(24, int(2 * HI[unit] / (p['bw'] / 4.0 * HI[unit])))
            p['grid'] = {'kind': 'ff1d', 'unit': unit, 'start': -HI[unit], 'stop': HI[unit], 'size': G}
            x = W.grid_axes(p['grid'])[0]
            if G > (60 if what == 'group' else 90):
                return None
            idx = [int(np.argmin(np.abs(x - UNIT[unit](np.array(v))))) for v in s]
            if len(set(idx)) < k or any(b - a_ < 4 for a_, b in zip(idx, idx[1:])):
                return None
            p['src'] = {'kind': 'ff1d', 'unit': unit, 'locs': [float(x[i]) for i in idx]}
            p['idx'] = idx
            p['form'] = rng.choice(['penalizedl1', 'penalizedl1', 'constrainedl1', 'constrainedl2'])
            p['known'] = rng.random() < 0.5
            p['n'] = 2000
            p['r'] = rng.choice([0, 1]) if what == 'group' else 0
            p['ns'] = rng.choice([3, 4, 12, 60]) if p['r'] else rng.randint(3, 4)
        else:
            p['src'] = {'kind': 'ff1d', 'unit': unit, 'locs': [float(v) for v in UNIT[unit](np.array(s))]}
        A = ref.steering(a, a['perts'], p['src'], wl)
        if what != 'coarray' and np.linalg.cond(A) > 4 and what != 'coherent':
            return None
        if what in ('scm', 'group'):
            # No grid point far away resembles a source.
            B = ref.steering(a, a['perts'], W.grid_sources_spec(p['grid']), wl)
            C = np.abs((B / np.linalg.norm(B, axis=0)).conj().T @ (A / np.linalg.norm(A, axis=0)))
            for j, i in enumerate(p['idx']):
                far = [q for q in range(len(C)) if abs(q - i) > 3 and
                       abs(self.sines(B, p, q) - self.sines(B, p, i)) > 1.2 * p['bw']]
                if far and C[far, j].max() > 0.6:
                    return None
        if what == 'coarray':
            p['grid'] = {'kind': 'ff1d', 'unit': unit, 'start': -HI[unit], 'stop': HI[unit],
                         'size': int(2 / (p['bw'] / 12)) + 1}
        if what == 'coherent':
            p['grid'] = {'kind': 'ff1d', 'unit': unit, 'start': -HI[unit], 'stop': HI[unit], 'size': 361}
            ph = [rng.uniform(-3, 3) for _ in range(k)]
            p['ph'] = ph
            # The smoothed source covariance must have full rank with margin.
            for fb in (False, True):
                Rs = self.smoothed(p, fb)
                w = np.linalg.eigvalsh(Rs)
                if k > 1 and w[-k] < 20 * (sigma + w[-1] / math.sqrt(p['n'])):
                    return None
                if not self.resolvable('music', p, Rs, k, {'kind': 'ula', 'n': len(Rs), 'd0': a['d0'], 'elem': 'iso',
                                                           'perts': []}):
                    return None
        rs = np.random.RandomState(rng.randrange(10 ** 6))
        p['p'] = rs.uniform(0.8, 1.6, k).tolist() if what != 'coarray' else [1.0] * k
        if what == 'ml':
            self.weaken(rng, p)
        if what in ('rm', 'ml'):
            self.correlate(rng, p)
        return p

    @staticmethod
    def weaken(rng, p):
        """Now and then, a weak source besides the others."""
        if len(p['p']) > 1 and rng.random() < 0.25:
            p['p'][rng.randrange(len(p['p']))] *= rng.choice([0.06, 0.1, 0.3])

    @staticmethod
    def correlate(rng, p):
        """Now and then, sources that know of each other."""
        k = len(p['p'])
        if k == 1 or rng.random() < 0.6:
            return
        L = np.eye(k) + 0j
        for i in range(k):
            for j in range(i):
                L[i, j] = rng.uniform(-.5, .5) + 1j * rng.uniform(-.5, .5)
        L = np.sqrt(p['p'])[:, None] * L
        P = L @ L.conj().T
        if np.linalg.cond(P) < 8:
            p['P_re'], p['P_im'] = P.real.tolist(), P.imag.tolist()

    @staticmethod
    def power(p):
        return np.array(p['P_re']) + 1j * np.array(p['P_im']) if 'P_re' in p else np.diag(p['p'])

    def ml_scenario(self, rng, p):
        """Maximum likelihood beyond one angle."""
        wl = p['wl']
        kind = rng.choice(['ff2d', 'nf2d'])
        a = W.gen_array(rng, wl, kinds={'ff2d': ['uca', 'ura', 'custom3'], 'nf2d': ['ula', 'uca', 'custom', 'nested']}[kind],
                        min_m=6, max_m=9, half=True, perts=False, elems=['iso', 'iso', 'complex'])
        m = W.n_elements(a)
        if m < 6:
            return None
        a['perts'] = scaled_perts(rng, m, wl, 1) if rng.random() < 0.5 else []
        k = rng.randint(1, 2)
        if kind == 'ff2d':
            unit = rng.choice(['rad', 'deg'])
            s = 1.0 if unit == 'rad' else 180 / math.pi
            lo, hi = [-2.5 * s, .3 * s], [2.5 * s, 1.2 * s]
            p['lim'] = [[-3 * s, .1 * s], [3 * s, 1.4 * s]]
        else:
            unit = 'm'
            lo, hi = [-2.5 * wl, 1.2 * wl], [2.5 * wl, 4 * wl]
            p['lim'] = [[-4 * wl, .5 * wl], [4 * wl, 6 * wl]]
        p['array'] = a
        p['src'] = {'kind': kind, 'unit': unit,
                    'locs': [[rng.uniform(x, y) for x, y in zip(lo, hi)] for _ in range(k)]}
        p['p'] = [rng.uniform(0.8, 1.6) for _ in range(k)]
        self.weaken(rng, p)
        self.correlate(rng, p)
        x = np.array(p['src']['locs'])
        A = ref.steering(a, a['perts'], p['src'], wl)
        if k > 1 and np.linalg.cond(A) > 3 or np.min(np.linalg.norm(A, axis=0)) ** 2 < 0.3 * m:
            return None
        # How much the response changes with each coordinate, and how well the
        # coordinates can be told from each other.
        D = []
        for i in range(k):
            for j in range(2):
                h = 1e-5 * (hi[j] - lo[j])
                y, z = x.copy(), x.copy()
                y[i, j] += h
                z[i, j] -= h
                D.append((ref.steering(a, a['perts'], dict(p['src'], locs=y.tolist()), wl)[:, i] -
                          ref.steering(a, a['perts'], dict(p['src'], locs=z.tolist()), wl)[:, i]) / (2 * h))
        D = np.array(D).T
        H = D.conj().T @ (D - A @ np.linalg.lstsq(A, D, rcond=None)[0])
        F = (H * np.kron(self.power(p).T, np.ones((2, 2)))).real
        s = 1 / np.sqrt(np.diag(F))
        if np.linalg.cond(F * np.outer(s, s)) > 30:
            return None
        p['sd'] = np.sqrt(np.diag(np.linalg.inv(F)) * p['sigma'] / p['n'] / 2).reshape(k, 2).tolist()
        p['step'] = (1 / np.sqrt(np.diag(H).real)).reshape(k, 2).tolist()
        if np.any(np.array(p['sd']) > 0.05 * np.array(p['step'])):
            return None
        return p

    @staticmethod
    def sines(B, p, i):
        x = W.grid_axes(p['grid'])[0][i]
        return float(np.sin(ref.to_rad(np.array([x]), p['grid']['unit']))[0]) if p['grid']['unit'] != 'sin' else x

    @staticmethod
    def smoothed(p, fb):
        a = p['array']
        A = ref.steering(a, [], p['src'], p['wl'])
        g = np.exp(1j * np.array(p['ph']))
        x = A @ g
        R = np.outer(x, x.conj()) + p['sigma'] * np.eye(len(x))
        l = p['l']
        n = len(R) - l + 1
        S = sum(R[i:i + n, i:i + n] for i in range(l)) / l
        if fb:
            S = 0.5 * (S + S[::-1, ::-1].conj())
        return S

    @staticmethod
    def resolvable(t, p, R, k, array=None, grid=None, margin=2.0):
        """The k highest peaks of the exact spectrum are next to the sources."""
        a = array or p['array']
        g = grid or p['grid']
        B = ref.steering(a, a['perts'], W.grid_sources_spec(g), p['wl'])
        sp = reference_spectrum(t, B, R, k).reshape(W.grid_shape(g))
        pk = sorted(local_maxima(sp), key=lambda i: -sp[i])
        if len(pk) < k:
            return False
        if len(pk) > k and sp[pk[k]] * margin > sp[pk[k - 1]]:
            return False
        # One peak of its own for every source, one local grid step away at most.
        loc = np.array(p['src']['locs'], float).reshape(k, -1)
        ax = W.grid_axes(g)
        left = list(pk[:k])
        for x in loc:
            step = []
            for d in range(len(ax)):
                q = int(np.clip(np.searchsorted(ax[d], x[d]), 1, len(ax[d]) - 1))
                step.append((ax[d][q] - ax[d][q - 1]) * 1.0001)
            near = [i for i in left if all(abs(ax[d][i[d]] - x[d]) <= step[d] for d in range(len(ax)))]
            if len(near) != 1:
                return False
            left.remove(near[0])
        return True

    def grid_scenario(self, rng, p):
        wl = p['wl']
        kind = rng.choice(['ff1d', 'ff1d', 'ff1d', 'ff2d', 'nf2d'])
        kinds = {'ff1d': ['ula', 'nested', 'coprime', 'mrla', 'uca', 'custom', 'grid'], 'ff2d': ['uca', 'ura', 'custom3'],
                 'nf2d': ['ula', 'uca', 'custom', 'nested']}[kind]
        a = W.gen_array(rng, wl, kinds=kinds, min_m=5 if kind != 'ff2d' else 6, max_m=9, half=True, perts=False,
                        elems=['iso', 'iso', 'iso', 'complex', 'cos'])
        if W.n_elements(a) < 5:
            return None
        a['perts'] = []
        if rng.random() < 0.5:
            m = W.n_elements(a)
            a['perts'] = scaled_perts(rng, m, wl, 1)
        a['form'] = rng.choice(['list', 'dict'])
        p['array'] = a
        L = ref.locations(a)
        ap = max(np.linalg.norm(x - y) for x in L for y in L) / wl
        k = rng.randint(1, 2 if kind != 'ff1d' else 3)
        if kind == 'ff1d':
            unit = rng.choice(list(HI))
            G = int(rng.choice([6, 10]) * 2 * ap) + 24
            u = rng.random()
            g = {'kind': kind, 'unit': unit, 'start': -HI[unit], 'stop': HI[unit], 'size': G}
            if u < 0.2:
                x = sorted({W.f(HI[unit] * (i / (G / 2.0) - 1 + rng.uniform(-.2, .2) / G)) for i in range(1, G)})
                g = {'kind': kind, 'unit': unit, 'axes': [x]}
            elif u < 0.35:
                g = {'kind': kind, 'unit': unit, 'start': [W.f(-HI[unit] * .9), W.f(.1 * HI[unit])],
                     'stop': [W.f(-.1 * HI[unit]), W.f(.95 * HI[unit])], 'size': [G // 2, G // 2]}
            ax = W.grid_axes(g)[0]
            locs = []
            for _ in range(k):
                i = rng.randrange(2, len(ax) - 2)
                if ax[i + 1] - ax[i] > 3 * (ax[1] - ax[0]):
                    return None
                locs.append(float(ax[i] + rng.uniform(0, 1) * (ax[i + 1] - ax[i])))
            if max(abs(np.sin(ref.to_rad(np.array(locs), unit)) if unit != 'sin' else np.abs(locs))) > .9:
                return None
        else:
            sz = [rng.randint(14, 24), rng.randint(10, 18)]
            if kind == 'ff2d':
                unit = rng.choice(['rad', 'deg'])
                s = 1.0 if unit == 'rad' else 180 / math.pi
                g = {'kind': kind, 'unit': unit, 'start': [W.f(-1.5 * s), W.f(.1 * s)],
                     'stop': [W.f(1.5 * s), W.f(1.3 * s)], 'size': sz}
            else:
                unit = 'm'
                g = {'kind': kind, 'unit': unit, 'start': [W.f(-2.5 * wl), W.f(1.2 * wl)],
                     'stop': [W.f(2.5 * wl), W.f(4 * wl)], 'size': sz}
            ax = W.grid_axes(g)
            locs = [[float(x[2] + rng.uniform(0, 1) * (x[-3] - x[2])) for x in ax] for _ in range(k)]
        p['grid'] = g
        p['src'] = {'kind': kind, 'unit': unit, 'locs': locs}
        p['bw'] = 1.0 / ap
        rs = np.random.RandomState(rng.randrange(10 ** 6))
        p['p'] = rs.uniform(0.8, 1.6, k).tolist()
        A = ref.steering(a, a['perts'], p['src'], wl)
        if k > 1 and np.linalg.cond(A) > 3:
            return None
        if np.min(np.linalg.norm(A, axis=0)) ** 2 < 0.3 * len(A):
            return None
        # sigma and n with the elements' gains
        self.weaken(rng, p)
        self.correlate(rng, p)
        R = A @ self.power(p) @ A.conj().T + p['sigma'] * np.eye(len(A))
        p['types'] = [t for t in SPEC if self.robust(t, p, R, k)]
        return p if p['types'] else None

    def robust(self, t, p, R, k):
        """Resolvable on this grid, for the exact and for perturbed covariances."""
        if not self.resolvable(t, p, R, k, margin=1.6):
            return False
        rs = np.random.RandomState(1)
        L = np.linalg.cholesky(R)
        for _ in range(4):
            n = p['n'] // 3
            X = L @ (rs.randn(len(R), n) + 1j * rs.randn(len(R), n)) / math.sqrt(2 * n)
            if not self.resolvable(t, p, X @ X.conj().T, k, margin=1.4):
                return False
        return True

    # -- the world -------------------------------------------------------
    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        wl = plan['wl']
        ctx.array = W.make_array(plan['array'])
        ctx.src = W.make_sources(plan['src'])
        k = len(ctx.src)
        m = ctx.array.output_size
        rs = np.random.RandomState(plan['n'] + k)
        P = np.array(plan['p'])
        if plan['what'] == 'coherent':
            g = np.exp(1j * np.array(plan['ph']))
            P = np.outer(g, g.conj())
        elif 'P_re' in plan:
            P = self.power(plan)
        elif len(set(plan['p'])) == 1:
            P = float(P[0])
        if plan['what'] == 'group':
            ctx.gen = W.SIG.RandomPhaseSignal(k, np.sqrt(np.array(plan['p']) * plan.get('scale', 1.0)))  # few snapshots: no source may fade out
        else:
            ctx.gen = W.SIG.ComplexStochasticSignal(k, P)
        if 'scale' in plan and plan['what'] != 'group':
            ctx.gen = W.SIG.ComplexStochasticSignal(k, P * plan['scale'])
        s = plan['sigma'] * plan.get('scale', 1.0)
        N = {'scalar': s, 'vector': np.full(m, s), 'matrix': s * np.eye(m)}[plan['noise']]
        ctx.noise = W.SIG.ComplexStochasticSignal(m, N)
        w = plan['what']
        ctx.grid = W.make_grid(plan['grid']) if 'grid' in plan else None
        ctx.rm, ctx.es = MU.RootMUSIC1D(wl), ES.Esprit1D(wl)
        if w == 'grid':
            ctx.est = [SPEC[t](ctx.array, wl, ctx.grid, **({'enable_caching': False} if i else {}))
                       for t in plan['types'] for i in (0, 1)]
        elif w == 'coarray':
            ctx.acm = CE.CoarrayACMBuilder1D(ctx.array)
            ctx.est = [MU.MUSIC(ctx.acm.get_virtual_ula(), wl, ctx.grid)]
        elif w == 'coherent':
            sub = W.ARR.UniformLinearArray(ctx.array.size - plan['l'] + 1, plan['array']['d0'])
            ctx.est = [MU.MUSIC(sub, wl, ctx.grid)]
        elif w == 'ml':
            t = {'aml': ML.AMLEstimator, 'cml': ML.CMLEstimator, 'wsf': ML.WSFEstimator}
            ctx.est = [{n: c(ctx.array, wl) for n, c in t.items()} for _ in range(len(plan['clients']) + 1)]
        elif w == 'scm':
            import doatools.estimation.sparse as SP
            ctx.est = [SP.SparseCovarianceMatching(ctx.array, wl, ctx.grid, noise_known=plan['known'],
                                                   formulation=plan['form'])
                       for _ in range(len(plan['clients']) + 1)]
        elif w == 'group':
            import doatools.estimation.sparse as SP
            ns = k if plan['r'] else plan['ns']
            ctx.est = [SP.GroupSparseEstimator(ctx.array, wl, ctx.grid, ns) for _ in range(len(plan['clients']) + 1)]
        return ctx

    def run_op(self, ctx, c, op):
        p = ctx.plan
        w = p['what']
        k = len(ctx.src)
        n = p['ns'] if w == 'group' else p['n']
        Y, R = W.SNP.get_narrowband_snapshots(ctx.array, ctx.src, p['wl'], ctx.gen, ctx.noise, n, True)
        kw = {'return_spectrum': True} if op['sp'] else {}
        if w == 'grid':
            e = ctx.est[op['e'] % len(ctx.est)]
            if op['refine']:
                kw.update(refine_estimates=True, refinement_density=5, refinement_iters=2)
            return e.estimate(R, k, **kw)
        d0 = p['array'].get('d0')
        if w in ('rm', 'coarray', 'coherent'):
            if w == 'coarray':
                R = ctx.acm(R, op['method']) if op['method'] else ctx.acm(R)
            elif w == 'coherent':
                R = PP.spatial_smooth(R, p['l'], op['fb'])
            if op['alg'] == 'grid':
                return ctx.est[0].estimate(R, k, **kw)
            if op['alg'] == 'es':
                kw = {'formulation': op['form']} if op['form'] else {}
                if op['disp'] > 1 and k < len(R) - op['disp']:
                    kw['displacement'] = op['disp']
            else:
                kw = {}
            if not (op['d0'] and d0 == p['wl'] / 2):
                kw['d0'] = d0
            if not (op['d0'] and op['unit'] == 'rad'):
                kw['unit'] = op['unit']
            return (ctx.es if op['alg'] == 'es' else ctx.rm).estimate(R, k, **kw)
        e = ctx.est[min(c.idx, len(ctx.est) - 1)]
        if w == 'ml':
            return e[op['alg']].estimate(R, self.guess(ctx, op))
        if w == 'scm':
            A = ref.steering(p['array'], p['array']['perts'], p['src'], p['wl'])
            b = max(ref.bartlett(A, R))
            l = {'penalizedl1': op['lf'] * b, 'constrainedl1': sum(p['p']) * (1 - op['lf'] / 2),
                 'constrainedl2': np.linalg.norm(R) * (0.15 + op['lf'])}[p['form']]
            x = {'sigma': p['sigma']} if p['known'] else {}
            if p['form'] == 'constrainedl1':
                x['solver_options'] = {'solver': 'CLARABEL'}  # OSQP often gives up
            return e.estimate(R, k, l, **x, **kw)
        if p['r']:
            Y = PP.l1_svd(Y, k)
        A = ref.steering(p['array'], p['array']['perts'], p['src'], p['wl'])
        l = (op['lf'] + 0.05) * np.max(np.linalg.norm(A.conj().T @ Y, axis=1))
        return e.estimate(Y, k, l, **kw)

    def guess(self, ctx, op):
        p = ctx.plan
        u = p['src']['unit']
        x = np.array(p['src']['locs'])
        if 'step' in p:
            o = np.array(op['off'][:x.size]).reshape(x.shape)
            return type(ctx.src)(np.clip(x + 3 * o * np.array(p['step']), *p['lim']), *([u] if u != 'm' else []))
        s = x if u == 'sin' else np.sin(ref.to_rad(x, u))
        s = np.clip(s + np.array(op['off'][:len(s)]) * p['bw'], -.97, .97)
        return W.SRC.FarField1DSourcePlacement(UNIT[u](s), u)

    # -- oracle ----------------------------------------------------------
    def check(self, ctx, c, op, out):
        if not out.ok:
            return
        try:
            self.judge(ctx, c, op, out.value)
        except W.Violation as first:
            # A finite sample may be unlucky: the claim is about what happens reliably.  Draw again, from the
            # world as the run has left it.
            state = np.random.get_state()
            bad = 1
            try:
                for i in range(4):
                    np.random.seed((ctx.plan['n'] * 7919 + 31 * op['id'] + i) % 2 ** 31)
                    op2 = dict(op)
                    if 'off' in op:
                        # L-BFGS-B also stops early or in a local minimum: start elsewhere, and closer.
                        # Yet not so close that doing nothing would do.
                        op2['off'] = (np.random.uniform(.06, .1, 4) * np.random.choice([-1, 1], 4)).tolist()
                    try:
                        self.judge(ctx, c, op2, self.run_op(ctx, c, op2))
                    except W.Violation:
                        bad += 1
            finally:
                np.random.set_state(state)
            ctx.sim.probe('redrawn')
            if bad == 5:
                raise W.Violation(first.kind, '%s [5 of 5 draws]' % first.msg)

    def judge(self, ctx, c, op, v):
        p = ctx.plan
        w = p['what']
        W.expect(isinstance(v, tuple) and len(v) in (2, 3), 'result is not a tuple of two or three')
        ok, est = v[0], v[1]
        name = w if w not in ('grid',) else p['types'][(op['e'] % len(ctx.est)) // 2]
        what = '%s (%s)' % (name, op.get('alg') or p.get('form') or p['src']['kind'])
        if not ok:
            if w == 'ml':
                ctx.sim.probe('optimiser-gave-up')
            raise W.Violation('wrong-result', '%s did not resolve resolvable sources at %r' % (what, p['src']['locs']))
        if 'step' in p:
            self.compare_ml2d(p, est, what)
        elif w != 'grid' and not (op.get('alg') == 'grid' or w in ('scm', 'group')):
            u = op.get('unit', p['src']['unit'])
            W.same(tuple(est.units), (u,), 'estimate units')
            self.compare1d(p, est, 0.05 * p['bw'] if w != 'coherent' else 0.15 * p['bw'], what)
        else:
            g = p['grid']
            W.same(tuple(est.units), tuple(ctx.grid.units), 'estimate units')
            if g['kind'] == 'ff1d':
                self.compare_grid1d(p, est, bool(op.get('refine')), what)
            else:
                self.compare_grid2d(p, est, bool(op.get('refine')), what)
        ctx.sim.probe('recovered-' + (name if w not in ('grid', 'ml') else name + '-' + p['src']['kind']))

    @staticmethod
    def sin_of(x, u):
        x = np.asarray(x, float)
        return x if u == 'sin' else np.sin(ref.to_rad(x, u))

    def compare1d(self, p, est, tol, what):
        t = np.sort(self.sin_of(p['src']['locs'], p['src']['unit']))
        e = np.sort(self.sin_of(est.locations, est.units[0]))
        W.same(e.shape, t.shape, 'number of estimates')
        d = np.max(np.abs(t - e))
        if not d <= tol:
            raise W.Violation('wrong-result', '%s: sines %r for sources at %r (off by %.4f, tolerance %.4f)'
                              % (what, e.tolist(), t.tolist(), d, tol))

    def compare_grid1d(self, p, est, refine, what):
        ax = W.grid_axes(p['grid'])[0]
        t = np.sort(np.asarray(p['src']['locs'], float))
        u, v = p['src']['unit'], p['grid']['unit']
        if u != v:
            raise W.HarnessError('units')
        e = np.sort(np.asarray(est.locations, float))
        W.same(e.shape, t.shape, 'number of estimates')
        for x, y in zip(e, t):
            i = np.clip(np.searchsorted(ax, y), 1, len(ax) - 1)
            step = ax[i] - ax[i - 1]
            loc = abs(self.sin_of(x, u) - self.sin_of(y, u))
            lo, hi = self.sin_of([ax[i - 1], ax[i]], u)
            tol = (0.6 if refine and not what.startswith('bartlett') else 2.05) * abs(hi - lo) + (0.6 if p['what'] in ('scm', 'group') else 0.05) * p['bw']
            if not loc <= tol:
                raise W.Violation('wrong-result', '%s: estimate %r for a source at %r (sine off by %.4f, tolerance '
                                  '%.4f, grid step %.4g)' % (what, x, y, loc, tol, step))

    def compare_ml2d(self, p, est, what):
        t = np.asarray(p['src']['locs'], float)
        e = np.asarray(est.locations, float)
        W.same(e.shape, t.shape, 'number of estimates')
        W.same(est.units[0], p['src']['unit'], 'estimate units')
        tol = 8 * np.array(p['sd']) + 0.01 * np.array(p['step'])
        if not min(np.max(np.abs(e[o] - t) / tol) for o in ([[0, 1], [1, 0]] if len(t) == 2 else [[0]])) <= 1:
            raise W.Violation('wrong-result', '%s: estimates %r for sources at %r (tolerance %r)'
                              % (what, e.tolist(), t.tolist(), tol.tolist()))

    def compare_grid2d(self, p, est, refine, what):
        ax = W.grid_axes(p['grid'])
        t = np.asarray(p['src']['locs'], float)
        e = np.asarray(est.locations, float)
        W.same(e.shape, t.shape, 'number of estimates')
        left = list(range(len(e)))
        for y in t:
            best = None
            for i in left:
                d = max(abs(e[i][q] - y[q]) / np.max(np.diff(ax[q])) for q in range(2))
                if best is None or d < best[0]:
                    best = (d, i)
            left.remove(best[1])
            if not best[0] <= (2.2 if refine else 2.6):
                raise W.Violation('wrong-result', '%s: estimates %r for sources at %r (off by %.2f grid steps)'
                                  % (what, e.tolist(), t.tolist(), best[0]))


PROP = C22()
