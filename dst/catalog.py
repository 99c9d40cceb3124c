"""A catalogue of library operations over one set of shared objects.

Used by the properties that quantify over every operation (C12, C18, C19, C21).
gen_world/gen_op produce JSON; World builds the objects; run(world, op) performs
one operation and returns its result as plain data.  Every operation is a
deterministic function of (spec, op).
"""
import math

import numpy as np

from . import ref, world as W
from .core import Violation

import doatools.estimation.beamforming as BF
import doatools.estimation.music as MU
import doatools.estimation.min_norm as MN
import doatools.estimation.esprit as ES
import doatools.estimation.ml as ML
import doatools.estimation.coarray as CE
import doatools.estimation.preprocessing as PP
import doatools.estimation.source_number as SN
import doatools.performance.crb as CRB
import doatools.performance.mse as MSE
import doatools.utils.conversion as CV
import doatools.utils.math as UM
import doatools.plotting as PLT

SPEC = {'bartlett': BF.BartlettBeamformer, 'mvdr': BF.MVDRBeamformer, 'music': MU.MUSIC,
        'minnorm': MN.MinNorm}
MLT = {'aml': ML.AMLEstimator, 'cml': ML.CMLEstimator, 'wsf': ML.WSFEstimator}
KINDS = ['steer', 'steer', 'derive', 'free', 'geometry', 'src', 'grid', 'refine', 'spectrum', 'spectrum',
         'spectrum', 'rootmusic', 'esprit', 'ml', 'weight', 'acm', 'snap', 'detect', 'smooth',
         'svd', 'crb', 'crb', 'ecov', 'ecovco', 'fromz', 'convert', 'uniq', 'sparse', 'group', 'plotsp',
         'plotarr', 'newarray', 'newsrc', 'newgrid', 'newsig', 'newpert', 'mathops', 'refines', 'slices']


class FixedGen(W.SIG.SignalGenerator):
    """Deterministic generator; hands out its own buffer."""

    def __init__(self, X):
        self.X = X

    @property
    def dim(self):
        return self.X.shape[0]

    def emit(self, n):
        return self.X[:, :n]


def far(rng, k, unit, lim=55):
    """k well separated 1D directions."""
    while True:
        d = sorted(rng.uniform(-lim, lim) for _ in range(k))
        if all(b - a > 12 for a, b in zip(d, d[1:])):
            break
    if rng.random() < 0.5:
        rng.shuffle(d)
    return [W.f({'deg': x, 'rad': np.deg2rad(x), 'sin': np.sin(np.deg2rad(x))}[unit]) for x in d]


def gen_world(rng):
    wl = W.gen_wl(rng)
    ula = {'kind': 'ula', 'n': rng.randint(4, 7), 'd0': wl / 2, 'elem': 'iso', 'perts': [], 'form': 'list'}
    lin = rng.choice([{'kind': 'coprime', 'm': 2, 'n': 3, 'mode': rng.choice(['m', '2m'])},
                      {'kind': 'nested', 'n1': 2, 'n2': 3}, {'kind': 'mrla', 'n': 4}])
    lin = dict(lin, d0=wl / 2, elem='iso', perts=[], form='list')
    arr = [W.gen_array(rng, wl, min_m=3, max_m=5, elems=['iso']),
           W.gen_array(rng, wl, min_m=3, max_m=5, elems=['iso', 'cos', 'complex'])]
    src1 = []
    for _ in range(2):
        u = rng.choice(['rad', 'deg', 'sin'])
        src1.append({'kind': 'ff1d', 'unit': u, 'locs': far(rng, rng.randint(1, 2), u)})
    if rng.random() < 0.2 and src1[1]['unit'] != 'sin':
        # Exactly at the end of the valid range.
        src1[1]['locs'][0] = rng.choice([-1, 1]) * {'rad': math.pi / 2, 'deg': 90.0}[src1[1]['unit']]
    srcs = [W.gen_sources(rng, wl, kmax=3) for _ in range(2)]
    grids = [W.gen_grid(rng, wl, kinds=['ff1d'], n1=(6, 16), small=False),
             W.gen_grid(rng, wl, kinds=['ff2d', 'nf2d'], n2=(3, 5), small=False)]
    covs = {'ula': [dict(W.gen_cov(rng, ula['n'], ula, wl, src1[0], modes=('model',)), n=400, sigma=0.1)] +
                   [W.gen_cov(rng, ula['n'], modes=('random',))],
            'lin': [W.gen_cov(rng, W.n_elements(lin), lin, wl, src1[0], modes=('model', 'random'))],
            '0': [W.gen_cov(rng, W.n_elements(arr[0]), modes=('random', 'real'))],
            '1': [W.gen_cov(rng, W.n_elements(arr[1]), modes=('random', 'real'))]}
    for c in [x for v in covs.values() for x in v]:
        if rng.random() < 0.4:
            c['skew'] = True
    pd = []
    for i in range(2):
        m = W.n_elements(arr[i])
        t = rng.sample(['loc', 'gain', 'phase', 'coupling'] if i == 0 else ['loc'], 1)
        pd.append([W.gen_pert(rng, x, m, wl) for x in t])
    return {'wl': wl, 'ula': ula, 'lin': lin, 'arr': arr, 'src1': src1, 'srcs': srcs, 'grids': grids,
            'covs': covs, 'pd': pd, 'nknown': rng.random() < 0.4, 'wseed': rng.randrange(10 ** 6), 'ro': rng.random() < 0.4,
            'sparse': rng.choice(['penalizedl1', 'constrainedl1', 'constrainedl2'])}


def gen_op(rng, spec, kinds=KINDS):
    k = rng.choice(kinds)
    op = {'kind': k, 'i': rng.randrange(2), 'j': rng.randrange(2), 'k': rng.randint(1, 2),
          'v': rng.randrange(12), 'b': rng.random() < 0.5}
    return op


class World:
    def __init__(self, spec, nowners=1):
        self.spec = s = spec
        self.wl = s['wl']
        rs = np.random.RandomState(s['wseed'])
        self.data = {}        # name -> caller-owned array
        D = self.data
        self.ula = W.make_array(s['ula'])
        self.lin = W.make_array(s['lin'])
        self.arr = []
        for i, a in enumerate(s['arr']):
            # Perturbation parameters stay in the hands of the caller.
            vals = [ref.pert_values(p) for p in a['perts']]
            for j, v in enumerate(vals):
                D['pert%d.%d' % (i, j)] = v
            b = dict(a, perts=[])
            arr = W.make_array(b)
            if vals:
                arr = arr.get_perturbed_copy([W.PCLS[p['type']](v, p['known'])
                                              for p, v in zip(a['perts'], vals)])
            self.arr.append(arr)
        self.src1 = [W.make_sources(x) for x in s['src1']]
        self.srcs = [W.make_sources(x) for x in s['srcs']]
        self.grids = [W.make_grid(g) for g in s['grids']]
        self.cov = {k: [W.cov(c) for c in v] for k, v in s['covs'].items()}
        for k, v in self.cov.items():
            for j, R in enumerate(v):
                D['cov.%s.%d' % (k, j)] = R
        self.pd = []
        for i, ps in enumerate(s['pd']):
            vals = [ref.pert_values(p) for p in ps]
            for j, v in enumerate(vals):
                D['newpert%d.%d' % (i, j)] = v
            self.pd.append({W.PKEY[p['type']]: (v, p['known']) for p, v in zip(ps, vals)})
        m = s['ula']['n']
        self.m = m
        D['Y'] = rs.randn(m, 8) + 1j * rs.randn(m, 8)
        D['Ybig'] = rs.randn(12, int(rs.randint(2, 60))) + 1j * rs.randn(12, 1)
        D['eig'] = np.sort(rs.uniform(0.1, 4, 6))
        D['rw'] = rs.uniform(0.5, 2, m - 1)
        D['rw2'] = rs.uniform(0.5, 2, m - 2)
        D['z'] = np.exp(1j * rs.uniform(-3, 3, 3))
        D['ang'] = rs.uniform(-1, 1, (4,))
        D['ang2'] = rs.uniform(-1, 1, (4, 2))
        D['loc3'] = rs.uniform(-1, 1, (4, 3))
        D['A'] = rs.randn(4, 2) + 1j * rs.randn(4, 2)
        D['Ar'] = rs.randn(4, 2)
        D['rows'] = rs.randint(0, 3, (6, 2)).astype(float)
        D['indices'] = np.array([[0], [1], [4]])
        D['bases'] = np.array([[0.5, 0.1], [0.0, 0.4]])
        D['locations'] = rs.uniform(-1, 1, (4, 2))
        D['sang'] = rs.uniform(-1, 1, 5)
        D['isang'] = rs.randint(-80, 80, 4)
        D['sang2'] = rs.uniform(-1, 1, (4, 2))
        D['near'] = rs.uniform(2, 5, (3, 2))
        D['gaxis'] = np.linspace(-0.9, 0.9, 7)
        D['gaxisd'] = np.linspace(0.9, -0.9, 7)
        D['keys'] = np.array([-1, 0, -1])
        D['igaxis'] = np.arange(-60, 61, 15)
        D['gaxis2'] = np.linspace(0.1, 1.1, 4)
        D['Csig'] = D['A'] @ D['A'].conj().T + np.eye(4)
        D['vsig'] = rs.uniform(0.5, 2, 4)
        D['perr'] = rs.uniform(-.2, .2, 4)
        D['lerr'] = rs.uniform(-.1, .1, (4, 3))
        D['cmat'] = np.eye(4) + 0.1 * D['A'] @ D['A'].conj().T
        for i, x in enumerate(self.src1):
            k = len(x)
            D['p%d' % i] = rs.uniform(1, 3, k)
            H = rs.randn(k, k) + 1j * rs.randn(k, k)
            D['P%d' % i] = H @ H.conj().T + np.eye(k)
        for i, x in enumerate(self.srcs):
            D['S%d' % i] = rs.randn(len(x), 6) + 1j * rs.randn(len(x), 6)
        for i, a in enumerate(s['arr']):
            D['N%d' % i] = rs.randn(W.n_elements(a), 6) + 1j * rs.randn(W.n_elements(a), 6)
        for i, g in enumerate(self.grids):
            D['sp%d' % i] = rs.uniform(0.1, 2, g.shape)
            for j, n in enumerate(g.shape):
                D['co%d.%d' % (i, j)] = np.array([n - 1, 0, n // 2, 1])
            for j, ax in enumerate(g.axes):
                D['axis%d.%d' % (i, j)] = ax
        if s.get('ro'):
            for k, v in D.items():
                if not k.startswith('axis'):
                    v.setflags(write=False)
        self.lists = {'plist': [1.0, 2.0], 'opts': {'options': {'maxiter': 2}}, 'sopts': {'solver': 'CLARABEL'},
                      'keyl': [0, -1], 'col': [3, 0, 2], 'gstart': [0.2, -0.5], 'gstop': [0.6, -0.1], 'gsize': [4, 3]}
        self.music = [t(self.arr[0], self.wl, self.grids[0]) for t in SPEC.values()] + \
                     [t(self.arr[1], self.wl, self.grids[1]) for t in SPEC.values()] + \
                     [t(self.ula, self.wl, self.grids[0], enable_caching=False) for t in SPEC.values()]
        self.rm = MU.RootMUSIC1D(self.wl)
        self.es = ES.Esprit1D(self.wl)
        self.wf = W.COA.WeightFunction1D(self.lin)
        self.acm = CE.CoarrayACMBuilder1D(self.lin)
        self.own = [self.owned() for _ in range(nowners)]

    def owned(self):
        """Objects documented to hold the data of the running call: one set per
        client."""
        d = {n: c(self.ula, self.wl) for n, c in MLT.items()}
        return d

    def sparse(self, owner, what):
        import doatools.estimation.sparse as SP
        d = self.own[owner]
        if what not in d:
            if what == 'sparse':
                d[what] = SP.SparseCovarianceMatching(self.arr[0], self.wl, self.grids[0],
                                                      formulation=self.spec['sparse'],
                                                      noise_known=bool(self.spec.get('nknown')))
            else:
                d[what] = SP.GroupSparseEstimator(self.ula, self.wl, self.grids[0], 8)
        return d[what]

    def watch(self):
        """Everything the caller owns: (name, array) and (name, plain value)."""
        for k, v in self.data.items():
            yield k, v
        for n, l in (('src1', self.src1), ('srcs', self.srcs)):
            for i, x in enumerate(l):
                yield '%s%d.locations' % (n, i), x.locations
        yield from self.watch_plain()

    def watch_plain(self):
        for k, v in self.lists.items():
            yield k, repr(v)
        for i, d in enumerate(self.pd):
            yield 'pd%d' % i, repr(sorted((k, v[1]) for k, v in d.items()))


def plain(x):
    """Turns a library result into plain data."""
    if x is None or isinstance(x, (bool, int, float, complex, str, np.generic, np.ndarray)):
        return x
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if hasattr(x, 'locations') and hasattr(x, 'units'):
        return [type(x).__name__, list(x.units), np.array(x.locations)]
    raise Violation('malformed-result', 'unexpected result type %s' % type(x).__name__)


def run(w, op, owner=0):
    return plain(_run(w, op, owner))


def _run(w, op, owner):
    k, i, j, v, b = op['kind'], op['i'], op['j'], op['v'], op['b']
    D, wl = w.data, w.wl
    if k == 'steer':
        sel = ['all', 'known', 'none'][v % 3]
        if v % 4 == 0:
            return w.arr[0].steering_matrix(w.src1[j], wl, True, sel)
        return w.arr[i].steering_matrix(w.srcs[j] if b else w.src1[j], wl, perturbations=sel)
    if k == 'derive':
        a = w.arr[i].get_perturbed_copy(w.pd[i])
        return a.steering_matrix(w.src1[j], wl), a.actual_element_locations
    if k == 'free':
        a = w.arr[i].get_perturbation_free_copy('x')
        return a.steering_matrix(w.src1[j], wl), a.is_perturbed
    if k == 'geometry':
        a = w.arr[i]
        return a.element_locations, a.actual_element_locations, a.size, a.output_size, a.actual_ndim
    if k == 'src':
        s = w.src1[j]
        return (s[0:1], s[:], s.as_unit(['rad', 'deg', 'sin'][v % 3]),
                w.srcs[j].calc_spherical_coords(D['loc3']), s.phase_delay_matrix(D['locations'], wl))
    if k == 'grid':
        g = w.grids[i]
        return g.source_placement, g.size, g.source_placement[np.array([0, g.size - 1])]
    if k == 'refine':
        g = w.grids[i]
        co = tuple(v % n for n in g.shape)
        h = g.create_refined_grid_at(co, density=2 + v % 3, span=1)
        return h.source_placement, g.source_placement
    if k == 'refines':
        g = w.grids[i]
        if b and i == 0:
            h = g.create_refined_grids_at(w.lists['col'], density=2, span=1 + v % 3)
        else:
            h = g.create_refined_grids_at(*[D['co%d.%d' % (i, a)] for a in range(g.ndim)], density=2 + v % 2, span=1 + v % 3)
        f = W.GRID.FarField1DSearchGrid(w.lists['gstart'], w.lists['gstop'], w.lists['gsize'])
        return [x.source_placement for x in h], f.source_placement, f.create_refined_grid_at((v % 7,)).source_placement
    if k == 'slices':
        s = w.srcs[j]
        key = D['keys'] if b else w.lists['keyl']
        return s[key], w.src1[i][key], w.grids[i].source_placement[key]
    if k == 'emit':
        # Random: for properties that do not look at the result.
        S = [W.SIG.ComplexStochasticSignal(4, D['Csig']), W.SIG.ComplexStochasticSignal(4, D['vsig']),
             W.SIG.RandomPhaseSignal(4, D['vsig'])][v % 3]
        S.emit(1 + v)[...] = 0
        a = w.arr[i]
        p = D['P%d' % j] if b else D['p%d' % j]
        Y = W.SNP.get_narrowband_snapshots(a, w.src1[j], wl, W.SIG.ComplexStochasticSignal(len(w.src1[j]), p),
                                           W.SIG.ComplexStochasticSignal(a.output_size, 0.1), 3 + v)
        Y[...] = 0
        return S.emit(2).shape
    if k == 'spectrum':
        e = w.music[v]
        R = w.cov['0' if v < 4 else '1' if v < 8 else 'ula'][0]
        if op['k'] == 2 and b:
            return e.estimate(R, 1, return_spectrum=True, refine_estimates=True, refinement_density=3,
                              refinement_iters=2)
        return e.estimate(R, op['k'], return_spectrum=True)
    if k == 'rootmusic':
        return w.rm.estimate(w.cov['ula'][j], op['k'], unit=['rad', 'deg', 'sin'][v % 3])
    if k == 'esprit':
        rw = ['default', 'none', D['rw']][v % 3]
        disp = 1
        if v % 4 == 3:
            disp, rw = 2, [D['rw2'], 'none'][v % 2]
        return w.es.estimate(w.cov['ula'][j], op['k'], displacement=disp, row_weights=rw,
                             formulation='tls' if b else 'ls', unit='deg' if v % 2 else 'rad')
    if k == 'ml':
        e = w.own[owner][['aml', 'cml', 'wsf'][v % 3]]
        ok, est = e.estimate(w.cov['ula'][j], w.src1[i], **(w.lists['opts'] if b else {}))
        return ok, est, e.get_last_estimates()
    if k == 'weight':
        f = w.wf
        return (f.differences(), f.weights(), f(v - 6), f.indices_of(v - 6), f.get_central_ula_size(b),
                f.get_coarray_selection_matrix(b))
    if k == 'acm':
        return w.acm(w.cov['lin'][0], 'ss' if b else 'da'), w.acm.get_virtual_ula('v').element_locations
    if k == 'snap':
        a = w.arr[i]
        return W.SNP.get_narrowband_snapshots(a, w.srcs[j], wl, FixedGen(D['S%d' % j]),
                                              FixedGen(D['N%d' % i]) if v % 3 else None, 4, b)
    if k == 'detect':
        x = D['eig'] if b else w.cov['ula'][j]
        return SN.aic(x, 50), SN.mdl(x, 50), SN.sorte(x)
    if k == 'smooth':
        return PP.spatial_smooth(w.cov['ula'][j], 1 + v % 3, b)
    if k == 'svd':
        return PP.l1_svd(D['Ybig'] if b else D['Y'], op['k'])
    if k == 'crb':
        mode = ['full', 'diag', 'mean_diag'][v % 3]
        p = [D['p%d' % j], 1.5, D['P%d' % j], w.lists['plist'][:len(w.src1[j])]][(v // 3) % 4]
        if v % 2:
            return CRB.crb_det_farfield_1d(w.arr[0], w.src1[j], wl, D['P%d' % j], 0.5, 10, mode)
        if b:
            return CRB.crb_sto_farfield_1d(w.arr[0], w.src1[j], wl, p, 0.5, 10, mode)
        return CRB.crb_stouc_farfield_1d(w.ula, w.src1[j], wl, D['p%d' % j] if v > 5 else 1.5, 0.5, 10, mode)
    if k == 'ecov':
        return MSE.ecov_music_1d(w.arr[0], w.src1[j], wl, D['P%d' % j] if b else D['p%d' % j], 0.5, 10,
                                 ['all', 'known', 'none'][v % 3], 'diag' if v % 2 else 'full')
    if k == 'ecovco':
        return MSE.ecov_coarray_music_1d(w.lin, w.src1[j], wl, D['p%d' % j] if b else 1.5, 0.5, 10)
    if k == 'fromz':
        return W.SRC.FarField1DSourcePlacement.from_z(D['z'], wl, wl / 2, ['rad', 'deg', 'sin'][v % 3])
    if k == 'convert':
        u = ['rad', 'deg', 'sin']
        f, t = (u[v % 3], u[(v // 3) % 3])
        return CV.convert_angles(D['ang'], f, t), CV.cart2spherical(D['loc3']), CV.ae2broad(D['ang2'])
    if k == 'uniq':
        return UM.unique_rows(D['rows'], return_index=True, sort=b), \
            W.COA.compute_unique_location_differences(D['locations'])
    if k == 'mathops':
        return (UM.khatri_rao(D['A'], D['Ar']), UM.projm(D['A'], b), UM.projm(D['Ar']), UM.vec(D['A']).copy(),
                UM.abs_squared(D['A']), UM.cartesian(D['ang'], D['ang2'][:, 0]))
    if k == 'sparse':
        R = w.cov['0'][0]
        kw = {'sigma': 0.05 * (1 + v % 2)} if w.spec.get('nknown') else {}
        return w.sparse(owner, 'sparse').estimate(R, op['k'], [0.5, 3.0][j] if w.spec['sparse'] != 'constrainedl2'
                                                  else 2.0 * np.linalg.norm(R) / (1 + j),
                                                  solver_options=w.lists['sopts'], return_spectrum=True, **kw)
    if k == 'group':
        return w.sparse(owner, 'group').estimate(D['Y'], op['k'], 1.0 + v, solver_options=w.lists['sopts'],
                                                 return_spectrum=True)
    if k == 'plotsp':
        return plot_spectrum(w, i, j, v, b)
    if k == 'plotarr':
        return plot_arr(w, i, v, b)
    if k == 'newarray':
        a1 = W.ARR.GridBasedArrayDesign(D['indices'], 0.5, 'g')
        a2 = W.ARR.ArrayDesign(D['locations'], 'c')
        return (a1.element_locations, a2.element_locations, a2.steering_matrix(w.src1[j], wl),
                W.ARR.GridBasedArrayDesign(D['indices'][:, [0, 0]], bases=D['bases']).element_locations)
    if k == 'newsrc':
        u = ['rad', 'sin', 'deg'][v % 3]
        s1 = W.SRC.FarField1DSourcePlacement(D['isang'] if u == 'deg' else D['sang'], u)
        s2 = W.SRC.FarField2DSourcePlacement(D['sang2'], 'deg' if b else 'rad')
        s3 = W.SRC.NearField2DSourcePlacement(D['near'])
        a = w.arr[i]
        return [(x, x[1:], a.steering_matrix(x, wl, perturbations='none'), x.calc_spherical_coords(D['loc3']))
                for x in (s1, s2, s3)]
    if k == 'newgrid':
        u = ['rad', 'sin', 'deg'][v % 3]
        if b:
            g = W.GRID.FarField1DSearchGrid(unit=u, axes=(D['igaxis'] if u == 'deg' else D['gaxisd'] if v > 6 else D['gaxis'],))
            co = (1 + v % 5,)
        else:
            t = [W.GRID.FarField2DSearchGrid, W.GRID.NearField2DSearchGrid][i]
            g = t(axes=(D['gaxis'], D['gaxis2']))
            co = (1 + v % 5, v % 4)
        h = g.create_refined_grid_at(co, density=2, span=1)
        return g.source_placement, h.source_placement, list(g.axes), list(h.axes), g.shape
    if k == 'newsig':
        # Construction only: emitting belongs to the properties about randomness.
        x = [W.SIG.ComplexStochasticSignal(4, D['Csig']), W.SIG.ComplexStochasticSignal(4, D['vsig']),
             W.SIG.ComplexStochasticSignal(4, 1.5), W.SIG.RandomPhaseSignal(4, D['vsig']),
             W.SIG.RandomPhaseSignal(4)]
        return [y.dim for y in x]
    if k == 'newpert':
        per = {'location_errors': (D['lerr'], b), 'gain_errors': (D['perr'], True),
               'phase_errors': (D['perr'], not b), 'mutual_coupling': (D['cmat'], True)}
        if v % 2:
            per = [W.PER.LocationErrors(D['lerr'], b), W.PER.MutualCoupling(D['cmat'], True),
                   W.PER.GainErrors(D['perr'], b)]
        a = W.ARR.ArrayDesign(D['locations'], 'c', perturbations=per)
        c = a.get_perturbed_copy({'phase_errors': (D['vsig'], False)}, 'd')
        return [(x.steering_matrix(w.src1[j], wl, perturbations=q), x.actual_element_locations)
                for x in (a, c) for q in ('all', 'known')]
    raise AssertionError(k)


def plot_spectrum(w, i, j, v, b):
    from matplotlib.figure import Figure
    ax = Figure().add_subplot(111)
    g = w.grids[i]
    kw = {}
    if v % 2:
        kw['estimates'] = g.source_placement[np.array([0, 1])]
    if v % 3 == 1:
        kw['ground_truth'] = g.source_placement[np.array([1])]
    if b:
        kw['use_log_scale'] = True
    if i == 1:
        kw['swap_axes'] = v % 4 > 1
    elif not b:
        kw['discrete'] = v % 4 > 1
    PLT.plot_spectrum(w.data['sp%d' % i], g, ax, **kw)
    return len(ax.lines) + len(ax.images) + len(ax.collections) + len(ax.containers)


def plot_arr(w, i, v, b):
    from matplotlib.figure import Figure
    a = w.arr[i]
    kw = {}
    se = v % 2 == 0 and a.has_perturbation(W.PER.LocationErrors)
    dim = a.actual_ndim if se else a.ndim
    fig = Figure()
    ax = fig.add_subplot(111, projection='3d') if dim == 3 else fig.add_subplot(111)
    if se:
        kw['show_location_errors'] = True
    (PLT.plot_coarray if b else PLT.plot_array)(a, ax, **kw)
    return len(ax.collections)


def same_value(a, b, what, tol=1e-6):
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            raise Violation('wrong-result', '%s: got %r, expected %r' % (what, a, b))
        for x, y in zip(a, b):
            same_value(x, y, what, tol)
        return
    if b is None or isinstance(b, str):
        W.same(a, b, what)
        return
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.kind not in 'biufc':
        raise Violation('wrong-result', '%s: got %r, expected %r' % (what, a, b))
    fin = np.isfinite(y)
    if not np.array_equal(fin, np.isfinite(x)):
        raise Violation('wrong-result', '%s: got %r, expected %r' % (what, a, b))
    W.close(x[fin], y[fin], what, rtol=tol)
