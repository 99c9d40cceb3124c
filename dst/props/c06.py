from .. import world as W
from .. import cvx
from . import spec as S
import numpy as np

import doatools.estimation.sparse as SP


class PeakFailure(Exception):
    """Raised by a caller-supplied peak finder."""


class PeakFinder:
    """Caller-supplied peak finder; behaves as the running operation says."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, sp):
        ctx = self.ctx
        c = ctx.sim.current
        op = c.cur_op
        st = ctx.calls[c.idx]
        pf = op['pf'][min(len(st), len(op['pf']) - 1)]
        rec = {'shape': tuple(np.shape(sp)), 'sp': np.array(sp), 'mode': pf['mode']}
        st.append(rec)
        mode = pf['mode']
        if mode == 'raise':
            if not op.get('redo'):
                e = PeakFailure('peak finder failed')
                ctx.sim.seam_fault('peak-finder-raises', e)
                raise e
            mode = 'default'
        if mode == 'reenter':
            ctx.sim.probe('reentrant-peak-finder')
            rec['inner'] = ctx.prop.estimate(ctx, op, pf['R'], pf['k'])
            mode = 'default'
        if mode == 'default':
            r = S.find_peaks_simple(sp)
            rec['peaks'] = [int(i) for i in np.ravel_multi_index(r, rec['shape'])]
            want = S.ref_peaks(sp)
            if want is not None:
                ctx.sim.probe('default-peaks-compared')
                W.same(sorted(rec['peaks']), want, 'peaks found by the default peak finder')
            return r
        n = int(np.prod(rec['shape']))
        flat = np.array([i % n for i in pf['idx']], dtype=pf.get('dtype', 'int64'))
        rec['peaks'] = [int(i) for i in flat]
        r = tuple(np.array(x) for x in np.unravel_index(flat, rec['shape']))
        return r


class C06(W.PropBase):
    id = 'C06'
    runs = {'quick': 900, 'thorough': 60000}
    stubs = ['peak finder (adversarial caller callback)',
             'convex solver for the sparse estimators (arbitrary optimal spectra with ties)']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        arrays = [W.gen_array(rng, wl, min_m=3, max_m=6, custom=0.2) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.06:
            arrays[0] = {'kind': 'ula', 'n': rng.randint(12, 40), 'd0': wl / 2, 'elem': 'iso', 'perts': [], 'form': 'list'}
        grids = [W.gen_grid(rng, wl, n1=(6, 24), n2=(3, 6), large=0.04, tiny=0.06) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.2:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        if rng.random() < 0.2:
            grids.append(W.twin_grid(rng, grids[0]))
        ests = S.gen_estimators(rng, wl, grids, arrays, rng.randint(1, 3))
        nc = rng.randint(1, 3)
        for i in range(nc):
            # A sparse estimator belongs to one client (its problem object holds
            # the data of the running call).
            if rng.random() < 0.4:
                e = S.gen_estimators(rng, wl, grids, arrays, 1)[0]
                e['type'] = rng.choice(['sparse', 'group'])
                e['owner'] = i
                e['formulation'] = rng.choice(['penalizedl1', 'constrainedl1', 'constrainedl2'])
                ests.append(e)
        covs = {str(i): [W.gen_cov(rng, W.n_elements(a), a, wl) for _ in range(2)]
                for i, a in enumerate(arrays)}
        clients = []
        for c in range(nc):
            own = [i for i, e in enumerate(ests) if e.get('owner', c) == c]
            clients.append([self.gen_op(rng, rng.choice(own), ests, arrays, grids)
                            for _ in range(rng.randint(1, 4))])
        return {'arrays': arrays, 'grids': grids, 'ests': ests, 'covs': covs, 'clients': clients}

    def gen_op(self, rng, ei, ests, arrays, grids):
        e = ests[ei]
        m = W.n_elements(arrays[e['a']])
        n = int(np.prod(W.grid_shape(grids[e['g']])))
        kmax = m - 1 if e['type'] in ('music', 'minnorm') else min(n, m + 2)
        if e['type'] not in ('music', 'minnorm') and rng.random() < 0.15:
            kmax = min(n, 60)
        k = rng.randint(1, kmax)
        op = {'kind': 'est', 'e': ei, 'R': rng.randrange(2), 'k': k, 'pf': [], 'nosp': rng.random() < .2}
        u = rng.random()
        if u < 0.55:
            cnt = max(0, rng.choice([k - 1, k, k, k + 1, k + 2, 2 * k + 1, rng.randint(0, n)]))
            cnt = min(cnt, n)
            idx = rng.sample(range(n), cnt)
            if rng.random() < 0.4:
                idx.sort(reverse=rng.random() < 0.5)
            if idx and rng.random() < 0.15:
                idx = idx + [rng.choice(idx) for _ in range(rng.randint(1, 2))]      # a point reported twice
            op['pf'].append({'mode': 'fixed', 'idx': idx, 'dtype': rng.choice(['int64', 'int64', 'int32'])})
        elif u < 0.7:
            op['pf'].append({'mode': 'default'})
        elif u < 0.85:
            op['pf'].append({'mode': 'raise'})
            op['expect_exc'] = True
            op['seam_fault'] = True
        else:
            op['pf'].append({'mode': 'reenter', 'R': rng.randrange(2), 'k': rng.randint(1, kmax)})
            op['pf'].append({'mode': 'default'})
        if e['type'] in ('sparse', 'group'):
            op['vals'] = [rng.choice([0.0, 0.0, 1.0, 1.0, 2.0, W.f(rng.random())]) for _ in range(n)]
            if rng.random() < 0.3:
                # Peaks of very different heights.
                op['vals'] = [W.f(10.0 ** rng.uniform(-7, 9)) for _ in range(n)]
                if rng.random() < 0.7:
                    op['pf'] = [{'mode': 'default'}]
                    op.pop('expect_exc', None)
                    op.pop('seam_fault', None)
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.prop = self
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.grids = [W.make_grid(g) for g in plan['grids']]
        ctx.calls = {}
        pf = PeakFinder(ctx)
        ctx.ests = []
        for e in plan['ests']:
            if e['type'] in S.TYPES:
                ctx.ests.append(S.make_estimator(e, ctx.arrays, ctx.grids, pf))
            elif e['type'] == 'sparse':
                ctx.ests.append(SP.SparseCovarianceMatching(
                    ctx.arrays[e['a']], e['wl'], ctx.grids[e['g']], formulation=e['formulation'],
                    noise_known=False, peak_finder=pf))
            else:
                ctx.ests.append(SP.GroupSparseEstimator(
                    ctx.arrays[e['a']], e['wl'], ctx.grids[e['g']], 3, peak_finder=pf))
        ctx.covs = {k: [W.cov(c) for c in v] for k, v in plan['covs'].items()}

        def solve(real, problem, a, k):
            v = ctx.sim.current.cur_op['vals']
            shape = problem.variables()[0].shape
            if len(v) < shape[0]:
                v = list(v) + [5.0] * (shape[0] - len(v))
            x = np.zeros(shape, dtype=complex if problem.variables()[0].is_complex() else float)
            x[:, -1] = v
            cvx.set_solution(problem, x)
        cvx.set_hook(solve)
        return ctx

    def teardown(self, ctx):
        cvx.set_hook(None)

    def estimate(self, ctx, op, ri, k, **kw):
        e = ctx.plan['ests'][op['e']]
        est = ctx.ests[op['e']]
        R = ctx.covs[str(e['a'])][ri]
        if not op.get('nosp'):
            kw['return_spectrum'] = True
        if e['type'] == 'sparse':
            return est.estimate(R, k, 0.1, **kw)
        if e['type'] == 'group':
            return est.estimate(R[:, :3].astype(complex), k, 0.1, **kw)
        return est.estimate(R, k, **kw)

    def run_op(self, ctx, c, op):
        ctx.calls[c.idx] = []
        return self.estimate(ctx, op, op['R'], op['k'])

    def check(self, ctx, c, op, out):
        recs = ctx.calls[c.idx]
        if not out.ok:
            if not out.faulted and op['pf'][0]['mode'] == 'raise':
                raise W.Violation('wrong-exception', 'the peak finder did not fail but the call did: %r' % out.exc)
            if out.faulted and out.exc not in out.fired and isinstance(out.fired[0], PeakFailure):
                raise W.Violation('exception-replaced', 'peak finder raised PeakFailure, caller got %r' % out.exc)
            return
        if op['pf'][0]['mode'] == 'raise' and not op.get('redo'):
            raise W.Violation('error-swallowed', 'the peak finder raised but the call returned %r' % (out.value,))
        e = ctx.plan['ests'][op['e']]
        g = ctx.plan['grids'][e['g']]
        W.expect(recs, 'the peak finder was not called')
        rec = recs[0]
        W.same(rec['shape'], W.grid_shape(g), 'shape of the spectrum given to the peak finder')
        if 'vals' in op:
            W.close(rec['sp'].reshape(-1), np.array(op['vals']), 'sparse spectrum')
        else:
            S.check_spectrum(e['type'], rec['sp'], ctx.plan['arrays'][e['a']], g, e['wl'],
                             ctx.covs[str(e['a'])][op['R']], op['k'])
        self.one(g, rec, out.value, op['k'], op)
        if 'inner' in rec:
            self.one(g, recs[1], rec['inner'], op['pf'][0]['k'], op)

    def one(self, g, rec, res, k, op):
        W.expect(isinstance(res, tuple), 'result is not a tuple')
        W.same(len(res), 2 if op.get('nosp') else 3, 'length of the result')
        want = len(rec['peaks']) >= k
        W.same(bool(res[0]), want, 'resolved (%d peaks, %d sources)' % (len(rec['peaks']), k))
        if not op.get('nosp') and res[2] is not None:
            # NaN where the documented spectrum is undefined (0/0).
            W.same(np.shape(res[2]), np.shape(rec['sp']), 'shape of the returned spectrum')
            W.expect(np.array_equal(res[2], rec['sp'], equal_nan=True),
                     'the returned spectrum is not the one the peak finder was given')
        elif want and not op.get('nosp'):
            W.expect(False, 'no spectrum returned')
        if not want:
            W.expect(res[1] is None, 'unresolved, but estimates are %r' % (res[1],))
            return
        S.check_estimates(res[1], g['kind'], g.get('unit', 'm'), k)
        idx = S.locate(res[1], g)
        S.check_selection(rec['sp'], rec['peaks'], idx, k)


    def final(self, ctx):
        S.check_grids(ctx.grids, ctx.plan['grids'])


PROP = C06()
