"""Shared scenario code for the grid-based spectrum estimators (C05, C06, C07)."""
from .. import ref, world as W
import numpy as np

import doatools.estimation.beamforming as BF
import doatools.estimation.music as MU
import doatools.estimation.min_norm as MN
from doatools.estimation.core import find_peaks_simple

TYPES = {'bartlett': BF.BartlettBeamformer, 'mvdr': BF.MVDRBeamformer, 'music': MU.MUSIC,
         'minnorm': MN.MinNorm}
SCLS = {'ff1d': 'FarField1DSourcePlacement', 'ff2d': 'FarField2DSourcePlacement',
        'nf2d': 'NearField2DSourcePlacement'}


def gen_estimators(rng, wl, grids, arrays, n, types=('bartlett', 'mvdr', 'music', 'minnorm'), **kw):
    out = []
    for _ in range(n):
        out.append({'type': rng.choice(list(types)), 'a': rng.randrange(len(arrays)),
                    'g': rng.randrange(len(grids)), 'wl': wl if rng.random() < 0.8 else W.f(wl * 1.3),
                    'caching': rng.choice([True, True, False, None])})
    return out


def make_estimator(e, arrays, grids, pf=None):
    kw = {}
    if e['caching'] is not None:
        kw['enable_caching'] = e['caching']
    if pf is not None:
        kw['peak_finder'] = pf
    return TYPES[e['type']](arrays[e['a']], e['wl'], grids[e['g']], **kw)


_A = {}


def atom(array, grid_locs, wl):
    """Reference steering matrix over grid points (known perturbations only)."""
    key = repr((array, grid_locs, wl))
    r = _A.get(key)
    if r is None:
        if len(_A) > 40:
            _A.clear()
        r = ref.steering(array, array['perts'], grid_locs, wl, 'known')
        _A[key] = r
    return r


def well_posed(typ, R, k):
    """Whether the documented spectrum is numerically determined by R and k."""
    w = np.linalg.eigvalsh(0.5 * (R + R.conj().T))
    if typ == 'bartlett':
        return True
    if typ == 'mvdr':
        return w[0] > 1e-7 * w[-1]
    m = len(w)
    if not 0 < k < m:
        return False
    if (w[m - k] - w[m - k - 1]) < 1e-5 * w[-1]:
        return False
    if typ == 'minnorm':
        _, En, _ = ref.subspaces(R, k)
        return np.linalg.norm(En[0]) > 1e-3
    return True


def ref_cost(typ, A, R, k):
    """Monotone decreasing transform of the spectrum, well scaled: the
    reciprocal for MVDR, MUSIC and Min-Norm, minus the spectrum for Bartlett."""
    if typ == 'bartlett':
        return -ref.bartlett(A, R)
    if typ == 'mvdr':
        return ref.mvdr_inv(A, R)
    if typ == 'music':
        return ref.music_inv(A, R, k)
    return ref.minnorm_inv(A, R, k)


def check_spectrum(typ, sp, array, gspec, wl, R, k, what='spectrum'):
    shape = W.grid_shape(gspec)
    W.same(tuple(np.shape(sp)), shape, what + ' shape')
    if not well_posed(typ, R, k):
        return False
    A = atom(array, W.grid_sources_spec(gspec), wl)
    exp = ref_cost(typ, A, R, k).reshape(shape)
    sp = np.asarray(sp)
    W.expect(np.isrealobj(sp), what + ' is not real')
    if typ == 'bartlett':
        W.close(sp, -exp, what, atol=1e-10 * float(np.max(np.abs(exp))))
    else:
        with np.errstate(divide='ignore'):
            got = np.where(np.isinf(sp), 0.0, 1.0 / sp)
            W.close(got, exp, what + ' (reciprocal)', rtol=1e-7, atol=1e-11)
        if typ == 'music':
            # The nulls too, as far as they are determined by a covariance in double precision.
            w = np.linalg.eigvalsh(R)
            e = 1e-14 * len(R) * np.max(np.abs(w)) / (w[-k] - w[-k - 1]) * np.max(np.linalg.norm(A, axis=0))
            d = np.abs(got - exp) - 1e-7 * exp - 4 * np.sqrt(exp) * e - e * e - 1e-14 * len(R)
            i = int(np.argmax(d))
            W.expect(d.flat[i] <= 0, '%s (null): reciprocal %.17g, expected %.17g' % (what, got.flat[i], exp.flat[i]))
    return True


def check_grids(grids, specs):
    """Search grids are never changed by estimation."""
    for g, s in zip(grids, specs):
        for a, b in zip(g.axes, W.grid_axes(s)):
            W.close(a, b, 'grid axis after estimation', rtol=1e-10, atol=1e-11)
        W.close(np.asarray(g.source_placement.locations, float), np.array(W.grid_points(s), float),
                'grid points after estimation', rtol=1e-10, atol=1e-11)


def check_estimates(est, kind, unit, k):
    W.same(type(est).__name__, SCLS[kind], 'estimate type')
    W.same(tuple(est.units), (unit,) * (1 if kind == 'ff1d' else 2), 'estimate units')
    W.same(est.size, k, 'number of estimates')


def locate(est, gspec):
    """Flat grid indices of the estimates (exact grid points)."""
    pts = np.array(W.grid_points(gspec), float)
    loc = np.asarray(est.locations, float)
    out = []
    for v in loc:
        d = np.abs(pts - v)
        if d.ndim > 1:
            d = d.max(axis=1)
        i = int(np.argmin(d))
        W.expect(d[i] <= 1e-9 * (1 + np.max(np.abs(pts))), 'estimate %r is not a grid point' % (v,))
        out.append(i)
    return out


def check_selection(sp, flat_peaks, est_idx, k):
    """est_idx must be the k highest of the reported peaks, in grid order."""
    W.expect(all(a <= b for a, b in zip(est_idx, est_idx[1:])), 'estimates are not in grid order: %r' % est_idx)
    spf = np.asarray(sp).reshape(-1)
    if np.isnan(spf).any():
        return
    left = list(flat_peaks)
    for i in est_idx:
        W.expect(i in left, 'estimate at grid index %d is not a reported peak (or is repeated)' % i)
        left.remove(i)
    if left and est_idx:
        lo = min(spf[i] for i in est_idx)
        hi = max(spf[i] for i in left)
        W.expect(lo >= hi, 'a lower peak (%r) was selected over a higher one (%r)' % (lo, hi))


def ref_peaks(sp):
    """Flat indices of the local maxima, or None when near-ties make them
    ambiguous.  1D: strictly higher than both neighbours (never at an end);
    2D: the maximum of the 3x3 neighbourhood."""
    sp = np.asarray(sp)
    if sp.size == 1 or not np.all(np.isfinite(sp)):
        return None
    tol = 1e-9 * np.max(np.abs(sp))
    out = []
    if sp.ndim == 1:
        for i in range(len(sp) - 1):
            if abs(sp[i] - sp[i + 1]) <= tol:
                return None
        return [i for i in range(1, len(sp) - 1) if sp[i] > sp[i - 1] and sp[i] > sp[i + 1]]
    n0, n1 = sp.shape
    for i in range(n0):
        for j in range(n1):
            top = True
            for a in range(max(0, i - 1), min(n0, i + 2)):
                for b in range(max(0, j - 1), min(n1, j + 2)):
                    if (a, b) == (i, j):
                        continue
                    if abs(sp[a, b] - sp[i, j]) <= tol:
                        return None
                    if sp[a, b] > sp[i, j]:
                        top = False
            if top:
                out.append(i * n1 + j)
    return out
