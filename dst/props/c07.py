import math

from .. import world as W
from . import spec as S
from .. import ref
import numpy as np


class FixedPeaks:
    """Caller-supplied peak finder reporting the points the operation names."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, sp):
        op = self.ctx.sim.current.cur_op
        if op.get('peaks') is None:
            return S.find_peaks_simple(sp)
        n = int(np.prod(sp.shape))
        return tuple(np.array(x) for x in np.unravel_index(np.array([i % n for i in op['peaks']]), sp.shape))


class C07(W.PropBase):
    id = 'C07'
    runs = {'quick': 700, 'thorough': 40000}
    stubs = ['peak finder (for half of the operations: grid points named by the plan)']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        arrays = [W.gen_array(rng, wl, min_m=3, max_m=6, custom=0.2) for _ in range(rng.randint(1, 2))]
        grids = [W.gen_grid(rng, wl, n1=(6, 24), n2=(3, 5), large=0.03, tiny=0.06) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.15:
            grids[0] = W.gen_grid(rng, wl, n1=(2, 5), n2=(1, 3))
        if rng.random() < 0.2:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        if rng.random() < 0.2:
            grids.append(W.twin_grid(rng, grids[0]))
        ests = S.gen_estimators(rng, wl, grids, arrays, rng.randint(1, 3))
        covs = {str(i): [W.gen_cov(rng, W.n_elements(a), a, wl) for _ in range(2)]
                for i, a in enumerate(arrays)}
        clients = [[self.gen_op(rng, rng.randrange(len(ests)), ests, arrays, grids)
                    for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
        return {'arrays': arrays, 'grids': grids, 'ests': ests, 'covs': covs, 'clients': clients}

    def gen_op(self, rng, ei, ests, arrays, grids):
        e = ests[ei]
        m = W.n_elements(arrays[e['a']])
        shape = W.grid_shape(grids[e['g']])
        n = int(np.prod(shape))
        k = rng.randint(1, min(3, m - 1))
        op = {'kind': 'refine', 'e': ei, 'R': rng.randrange(2), 'k': k, 'peaks': None}
        if n <= 6 and e['type'] == 'bartlett' and rng.random() < 0.6:
            op['peaks'] = rng.sample(range(n), n)       # every grid point is a source
            op['k'] = n
        elif rng.random() < 0.5:
            cand = rng.sample(range(n), min(n, k + rng.choice([0, 0, 1, 2])))
            if rng.random() < 0.4:
                cand[0] = rng.choice([0, n - 1, shape[-1] - 1])
                cand = list(dict.fromkeys(cand))
            op['peaks'] = cand
        if rng.random() < 0.15:
            op['kind'] = 'plain'
        elif rng.random() < 0.1 and len(shape) == 1:
            op['opts'] = {}
        else:
            op['opts'] = {'refinement_density': rng.choice([1, 2, 3, 5]) if len(shape) == 1 else rng.choice([2, 3]),
                          'refinement_iters': rng.choice([1, 2, 3] if len(shape) == 1 else [1, 2])}
            if rng.random() < 0.15:
                # Many small steps.
                den = rng.choice([1, 2, 2, 3])
                op['opts'] = {'refinement_density': den,
                              'refinement_iters': rng.randint(4, {1: 12, 2: 12, 3: 8}[den] if len(shape) == 1 else 5)}
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.grids = [W.make_grid(g) for g in plan['grids']]
        pf = FixedPeaks(ctx)
        ctx.ests = [S.make_estimator(e, ctx.arrays, ctx.grids, pf) for e in plan['ests']]
        ctx.covs = {k: [W.cov(c) for c in v] for k, v in plan['covs'].items()}
        return ctx

    def run_op(self, ctx, c, op):
        e = ctx.plan['ests'][op['e']]
        est, R = ctx.ests[op['e']], ctx.covs[str(e['a'])][op['R']]
        if op['kind'] == 'plain':
            return est.estimate(R, op['k'], return_spectrum=True)
        return est.estimate(R, op['k'], return_spectrum=True, refine_estimates=True, **op['opts'])

    def check(self, ctx, c, op, out):
        if not out.ok:
            return
        plan = ctx.plan
        e = plan['ests'][op['e']]
        a, g = plan['arrays'][e['a']], plan['grids'][e['g']]
        R = ctx.covs[str(e['a'])][op['R']]
        k = op['k']
        resolved, est, sp = out.value
        wp = S.check_spectrum(e['type'], sp, a, g, e['wl'], R, k, 'reported spectrum')
        if op['peaks'] is None:
            peaks = S.ref_peaks(sp)
        else:
            n = int(np.prod(sp.shape))
            peaks = sorted(i % n for i in op['peaks'])
        if peaks is not None:
            W.same(bool(resolved), len(peaks) >= k, 'resolved')
        if not resolved:
            W.expect(est is None, 'unresolved but estimates given')
            return
        S.check_estimates(est, g['kind'], g.get('unit', 'm'), k)
        if peaks is None:
            return
        flat = np.asarray(sp).reshape(-1)
        order = sorted(peaks, key=lambda i: flat[i])
        if len(order) > k and flat[order[-k]] - flat[order[-k - 1]] <= 1e-9 * np.max(np.abs(flat)):
            return
        top = sorted(order[-k:])
        if op['kind'] == 'plain':
            W.same(S.locate(est, g), top, 'unrefined estimates (grid indices)')
            return
        if not wp:
            return
        ctx.sim.probe('refinement-checked')
        cost = self.cost(e, a, g, R, k)
        axes = W.grid_axes(g)
        opts = op['opts']
        den = opts.get('refinement_density', 10)
        its = opts.get('refinement_iters', 3)
        loc = np.asarray(est.locations, float).reshape(k, len(axes))
        for i in range(k):
            coord = np.unravel_index(top[i], sp.shape)
            self.check_one(ctx, loc[i], coord, axes, cost, den, its, 'estimate %d' % i)

    def final(self, ctx):
        S.check_grids(ctx.grids, ctx.plan['grids'])

    def cost(self, e, a, g, R, k):
        kind, unit = g['kind'], g.get('unit', 'm')

        def f(pts):
            pts = np.asarray(pts, float)
            locs = pts[:, 0].tolist() if kind == 'ff1d' else pts.tolist()
            A = ref.steering(a, a['perts'], {'kind': kind, 'unit': unit, 'locs': locs}, e['wl'], 'known')
            return S.ref_cost(e['type'], A, R, k)
        return f

    def check_one(self, ctx, x, coord, axes, cost, den, its, what):
        lb, ub, h, uniform = [], [], [], True
        for ax, i in zip(axes, coord):
            lo, hi = max(0, i - 1), min(len(ax) - 1, i + 1)
            lb.append(ax[lo])
            ub.append(ax[hi])
            h.append((ax[hi] - ax[lo]) / ((hi - lo) * den ** its) if hi > lo else 0.0)
            d = np.diff(ax[lo:hi + 1])
            if len(d) and np.max(np.abs(d - d[0])) > 1e-9 * abs(d[0]):
                uniform = False
        lb, ub, h = np.array(lb), np.array(ub), np.array(h)
        eps = 1e-9 * (np.abs(lb) + np.abs(ub) + (ub - lb))
        peak = np.array([ax[i] for ax, i in zip(axes, coord)])
        W.expect(np.all(x >= lb - eps) and np.all(x <= ub + eps),
                 '%s at %r is more than one cell from its peak %r (cell %r..%r)' % (what, x, peak, lb, ub))
        for j in range(len(x)):
            if h[j] > 0:
                q = (x[j] - lb[j]) / h[j]
                W.expect(abs(q - round(q)) < 1e-4, '%s: coordinate %d = %r is not at the resolution '
                         '%r of density %d, %d iterations' % (what, j, x[j], h[j], den, its))
        pts = [x, peak]
        for j in range(len(x)):
            for s in (-1, 1):
                y = x.copy()
                y[j] += s * h[j]
                if h[j] > 0 and lb[j] - eps[j] <= y[j] <= ub[j] + eps[j]:
                    pts.append(np.clip(y, lb, ub))
        v = cost(pts)
        tol = 1e-9 * (abs(v[0]) + np.max(np.abs(v))) + 1e-14
        if uniform:
            W.expect(v[0] <= v[1] + tol, '%s at %r is worse than the peak %r it refines (%r > %r)'
                     % (what, x, peak, v[0], v[1]))
        if np.all(v[0] <= v[2:] + tol):
            return
        # An argmax on the rim of a refinement grid has neighbours outside it:
        # accept it only if it is what exhaustive search over the nested grids
        # (keeping every near-tie) arrives at.
        ctx.sim.probe('rim-argmax')
        if not self.chain(x, coord, axes, cost, den, its, h):
            raise W.Violation('wrong-result', '%s at %r (cost %r) has better neighbours: %r at %r'
                              % (what, x, v[0], v[2:].tolist(), [p.tolist() for p in pts[2:]]))

    def chain(self, x, coord, axes, cost, den, its, h):
        states = [([np.asarray(a) for a in axes], tuple(int(i) for i in coord))]
        for _ in range(its):
            nxt = []
            for axs, co in states:
                sub = []
                for ax, i in zip(axs, co):
                    lo, hi = max(0, i - 1), min(len(ax) - 1, i + 1)
                    n = (hi - lo) * den
                    sub.append(np.array([ax[lo] + (ax[hi] - ax[lo]) * t / n for t in range(n + 1)])
                               if n else np.array([ax[lo]]))
                pts = [[p] for p in sub[0]] if len(sub) == 1 else [[p, q] for p in sub[0] for q in sub[1]]
                v = cost(pts)
                b = np.min(v)
                tol = 1e-8 * (abs(b) + np.median(np.abs(v))) + 1e-13
                shape = tuple(len(s) for s in sub)
                for i in np.flatnonzero(v <= b + tol)[:12]:
                    nxt.append((sub, tuple(int(t) for t in np.unravel_index(int(i), shape))))
            states = nxt[:60]
        for sub, co in states:
            y = np.array([s[i] for s, i in zip(sub, co)])
            if np.all(np.abs(y - x) <= np.maximum(h, 1e-12) * 0.01):
                return True
        return len(states) >= 60


PROP = C07()
