"""Reference models, written from the documentation, independent of the code.

Everything here works on JSON specifications and plain arrays; nothing in this
module imports the library.
"""
import cmath
import math

import numpy as np

PI = math.pi

MRLA = [
    [0], [0, 1], [0, 1, 3], [0, 1, 4, 6], [0, 1, 4, 7, 9], [0, 1, 6, 9, 11, 13],
    [0, 1, 8, 11, 13, 15, 17], [0, 1, 4, 10, 16, 18, 21, 23],
    [0, 1, 4, 10, 16, 22, 24, 27, 29], [0, 1, 4, 10, 16, 22, 28, 30, 33, 35],
    [0, 1, 6, 14, 22, 30, 32, 34, 37, 39, 41],
    [0, 1, 6, 14, 22, 30, 38, 40, 42, 45, 47, 49],
    [0, 1, 6, 14, 22, 30, 38, 46, 48, 50, 53, 55, 57],
    [0, 1, 6, 14, 22, 30, 38, 46, 54, 56, 58, 61, 63, 65],
    [0, 1, 6, 14, 22, 30, 38, 46, 54, 62, 64, 66, 69, 71, 73],
    [0, 1, 8, 18, 28, 38, 48, 58, 68, 70, 72, 74, 77, 79, 81, 83],
    [0, 1, 8, 18, 28, 38, 48, 58, 68, 78, 80, 82, 84, 87, 89, 91, 93],
    [0, 1, 8, 18, 28, 38, 48, 58, 68, 78, 88, 90, 92, 94, 97, 99, 101, 103],
    [0, 1, 8, 18, 28, 38, 48, 58, 68, 78, 88, 98, 100, 102, 104, 107, 109, 111, 113],
    [0, 1, 10, 22, 34, 46, 58, 70, 82, 94, 106, 108, 110, 112, 114, 117, 119, 121, 123, 125],
]


# -- arrays ------------------------------------------------------------------

def indices(a):
    """Element indices of a grid-based array design."""
    k = a['kind']
    if k == 'ula':
        return [[i] for i in range(a['n'])]
    if k == 'nested':
        return [[i] for i in range(a['n1'])] + \
               [[j * (a['n1'] + 1) - 1] for j in range(1, a['n2'] + 1)]
    if k == 'coprime':
        m, n = min(a['m'], a['n']), max(a['m'], a['n'])
        top = 2 * m if a['mode'] == '2m' else m
        return [[m * i] for i in range(n)] + [[n * j] for j in range(1, top)]
    if k == 'mrla':
        return [[i] for i in MRLA[a['n'] - 1]]
    if k == 'ura':
        return [[i, j] for i in range(a['m']) for j in range(a['n'])]
    if k == 'grid':
        return [list(r) for r in a['indices']]
    return None


def bases(a):
    if a.get('bases') is not None:
        return np.array(a['bases'], dtype=float)
    d = len(indices(a)[0])
    d0 = a['d0']
    if not isinstance(d0, list):
        d0 = [d0] * d
    return np.diag(np.array(d0, dtype=float))


def locations(a):
    """Nominal element locations (M x D)."""
    k = a['kind']
    if k == 'uca':
        n, r = a['n'], a['r']
        return np.array([[r * math.cos(2 * PI * i / n), r * math.sin(2 * PI * i / n)]
                         for i in range(n)])
    if k == 'custom':
        x = np.array(a['locations'], dtype=float)
        return x.reshape(-1, 1) if x.ndim == 1 else x
    ind = indices(a)
    b = bases(a)
    out = []
    for row in ind:
        v = np.zeros(b.shape[1])
        for c, bv in zip(row, b):
            v = v + c * bv
        out.append(v)
    return np.array(out)


def add_locations(x, err):
    m = len(x)
    d = max(x.shape[1], err.shape[1])
    y = np.zeros((m, d))
    y[:, :x.shape[1]] += x
    y[:, :err.shape[1]] += err
    return y


def pert_values(p, m=None):
    """Parameters of one perturbation spec."""
    rs = np.random.RandomState(p['seed'])
    t = p['type']
    if t == 'loc':
        v = p['scale'] * rs.uniform(-1, 1, (p['m'], p['dim']))
        v = thin(p, v)
        return np.rint(v) if p.get('int') else v
    if t == 'custom':
        # Stretch of the array, then a phase per element.
        return np.concatenate(([1.0 + 0.2 * rs.uniform(-1, 1)], rs.uniform(-1, 1, p['m'])))
    if t in ('gain', 'phase'):
        return thin(p, p['scale'] * rs.uniform(-1, 1, p['m']))
    c = np.eye(p['m'], dtype=complex)
    e = p['scale'] * (rs.uniform(-1, 1, c.shape) + 1j * rs.uniform(-1, 1, c.shape))
    s = p.get('style')
    if s == 'herm':
        e = 0.5 * (e + e.conj().T)
    elif s == 'sym':
        e = 0.5 * (e + e.T)
    elif s == 'real':
        e, c = e.real, c.real
    elif s == 'band':
        e = np.where(np.abs(np.subtract.outer(np.arange(p['m']), np.arange(p['m']))) <= 1, e, 0)
    return c + thin(p, e)


def thin(p, v):
    # Parameters that vanish, in part or altogether, are parameters still.
    if p.get('style') == 'zero':
        return np.zeros_like(v)
    if p.get('style') == 'part':
        v[np.random.RandomState(p['seed'] + 1).rand(*v.shape) < 0.5] = 0.0
    return v


def actual_locations(a, perts):
    x = locations(a)
    for p in perts:
        if p['type'] == 'loc':
            x = add_locations(x, pert_values(p))
        elif p['type'] == 'custom':
            x = x * pert_values(p)[0]
    return x


# -- sources -----------------------------------------------------------------

def to_rad(v, unit):
    v = np.asarray(v, dtype=float)
    if unit == 'rad':
        return v
    if unit == 'deg':
        return v * (PI / 180.0)
    if unit == 'sin':
        return np.arcsin(v)
    raise AssertionError(unit)


def direction(s, k):
    """Unit vector towards far-field source k (3D)."""
    if s['kind'] == 'ff1d':
        v = s['locs'][k]
        if s['unit'] == 'sin':
            return np.array([v, math.sqrt(max(0.0, 1.0 - v * v)), 0.0])
        t = float(to_rad(v, s['unit']))
        return np.array([math.sin(t), math.cos(t), 0.0])
    az, el = (float(to_rad(v, s['unit'])) for v in s['locs'][k])
    return np.array([math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el)])


def pad3(x):
    x = np.asarray(x, dtype=float)
    out = np.zeros((x.shape[0], 3))
    out[:, :x.shape[1]] = x
    return out


def phases(s, loc, wl):
    """Phase delays of every source at every location (M x K)."""
    loc = pad3(loc)
    K = len(s['locs'])
    out = np.zeros((len(loc), K))
    for k in range(K):
        if s['kind'] == 'nf2d':
            q = np.array(list(s['locs'][k]) + [0.0])
            r = np.sqrt(((loc - q) ** 2).sum(axis=1))
            out[:, k] = -2 * PI / wl * (r - r[0])
        else:
            out[:, k] = 2 * PI / wl * (loc @ direction(s, k))
    return out


def dphases(s, loc, wl):
    """Derivatives of the phases w.r.t. the 1D source parameter, in its unit."""
    loc = pad3(loc)
    K = len(s['locs'])
    out = np.zeros((len(loc), K))
    for k in range(K):
        v = s['locs'][k]
        if s['unit'] == 'sin':
            g = np.array([1.0, 0.0, 0.0])
            if np.any(loc[:, 1] != 0):
                g = np.array([1.0, -v / math.sqrt(1.0 - v * v), 0.0])
        else:
            t = float(to_rad(v, s['unit']))
            g = np.array([math.cos(t), -math.sin(t), 0.0])
            if s['unit'] == 'deg':
                g = g * (PI / 180.0)
        out[:, k] = 2 * PI / wl * (loc @ g)
    return out


def spherical(s, loc):
    """(r, azimuth, elevation) of every source relative to every location."""
    loc = pad3(loc)
    M, K = len(loc), len(s['locs'])
    r = np.zeros((M, K))
    az = np.zeros((M, K))
    el = np.zeros((M, K))
    for k in range(K):
        if s['kind'] == 'ff1d':
            r[:, k] = math.inf
            az[:, k] = PI / 2 - float(to_rad(s['locs'][k], s['unit']))
        elif s['kind'] == 'ff2d':
            r[:, k] = math.inf
            az[:, k] = float(to_rad(s['locs'][k][0], s['unit']))
            el[:, k] = float(to_rad(s['locs'][k][1], s['unit']))
        else:
            q = np.array(list(s['locs'][k]) + [0.0])
            for m in range(M):
                d = q - loc[m]
                r[m, k] = math.sqrt(d @ d)
                az[m, k] = math.atan2(d[1], d[0])
                el[m, k] = math.atan2(d[2], math.hypot(d[0], d[1]))
    return r, az, el


# -- element responses (the callback given to the library) -------------------

def response(kind, r, az, el):
    """Spatial response of a custom element; arrays in, array out."""
    if kind == 'cos':
        return 0.6 + 0.4 * np.cos(az) * np.cos(el)
    if kind == 'complex':
        return (1.0 + 0.3 * np.sin(az)) * np.exp(0.5j * np.cos(2 * az + el))
    if kind == 'near':
        rr = np.where(np.isinf(r), 0.0, 1.0 / (1.0 + np.where(np.isinf(r), 0.0, r)))
        return 1.0 + 0.5 * rr + 0.2 * np.sin(az - el)
    if kind == 'vec2':
        return np.stack([np.cos(az) * np.cos(el), np.sin(az) * np.cos(el)])
    if kind == 'vec3':
        return np.stack([np.ones_like(az) * (1 + 0j), np.exp(1j * az), np.cos(el) * np.sin(az) + 0j])
    if kind == 'own':
        return 0.5 + 0.3 * np.sin(az) + 0.2j * np.cos(el + az)
    if kind == 'ivec':
        return np.stack([np.ones_like(az) * (1 + 0j), 0.5j * np.ones_like(az)])
    if kind == 'vec6':
        return np.stack([np.cos((j + 1) * az) + 0.3j * np.sin(j * el + az) for j in range(6)])
    raise AssertionError(kind)


RESP_SIZE = {'iso': 1, 'cos': 1, 'complex': 1, 'near': 1, 'vec2': 2, 'vec3': 3, 'own': 1, 'ivec': 2, 'vec6': 6}


def steering(a, perts, s, wl, which='all', derivatives=False):
    """Documented steering matrix (and derivative) of array + perturbations."""
    use = [p for p in perts if which == 'all' or (which == 'known' and p['known'])]
    loc = actual_locations(a, use)
    A = np.exp(1j * phases(s, loc, wl))
    D = None
    if derivatives:
        D = A * (1j * dphases(s, loc, wl))
    ek = a.get('elem', 'iso')
    if ek != 'iso':
        r, az, el = spherical(s, loc)
        S = response(ek, r, az, el)
        A = S * A
    for p in use:
        v = None if p['type'] == 'loc' else pert_values(p)
        if p['type'] == 'gain':
            A = (1.0 + v)[:, None] * A
            D = None if D is None else (1.0 + v)[:, None] * D
        elif p['type'] == 'phase':
            A = np.exp(1j * v)[:, None] * A
            D = None if D is None else np.exp(1j * v)[:, None] * D
        elif p['type'] == 'custom':
            t = np.exp(1j * v[1:])[:, None]
            A = t * A
            D = None if D is None else t * D
        elif p['type'] == 'coupling':
            A = v @ A
            D = None if D is None else v @ D
    if A.ndim == 3:
        A = np.vstack(list(A))
    return (A, D) if derivatives else A


def derive(perts, new):
    """Perturbations of a perturbed copy: same-type ones replaced."""
    out = list(perts)
    for p in new:
        for i, q in enumerate(out):
            if q['type'] == p['type']:
                out[i] = p
                break
        else:
            out.append(p)
    return out


# -- spectra -----------------------------------------------------------------

def bartlett(A, R):
    return np.array([(A[:, i].conj() @ R @ A[:, i]).real for i in range(A.shape[1])])


def mvdr_inv(A, R):
    """Reciprocal of the MVDR spectrum."""
    Ri = np.linalg.inv(R)
    return np.array([(A[:, i].conj() @ Ri @ A[:, i]).real for i in range(A.shape[1])])


def subspaces(R, k):
    w, E = np.linalg.eigh(0.5 * (R + R.conj().T))
    return w, E[:, :len(w) - k], E[:, len(w) - k:]


def music_inv(A, R, k):
    _, En, _ = subspaces(R, k)
    return np.sum(np.abs(En.conj().T @ A) ** 2, axis=0)


def minnorm_inv(A, R, k):
    _, En, _ = subspaces(R, k)
    # Minimum-norm vector of the noise subspace with first entry one.
    P = En @ En.conj().T
    d = P[:, 0] / P[0, 0]
    return np.abs(d.conj() @ A) ** 2
