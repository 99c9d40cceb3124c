"""Generation of scenario specs and construction of the real library objects."""
import math

import numpy as np

from . import env  # noqa: F401
from . import ref
from .core import Violation

# -- seam: the numerical optimiser, wrapped before the library binds it ------
import scipy.optimize as _so

_real_minimize = _so.minimize
_minimize_hook = [None]


def _minimize(*a, **k):
    h = _minimize_hook[0]
    if h is None:
        return _real_minimize(*a, **k)
    return h(_real_minimize, *a, **k)


_minimize.__wrapped__ = _real_minimize
_so.minimize = _minimize


def set_minimize_hook(h):
    _minimize_hook[0] = h


import doatools.model.arrays as ARR          # noqa: E402
import doatools.model.array_elements as ELM  # noqa: E402
import doatools.model.perturbations as PER   # noqa: E402
import doatools.model.sources as SRC         # noqa: E402
import doatools.model.signals as SIG         # noqa: E402
import doatools.model.snapshots as SNP       # noqa: E402
import doatools.model.coarray as COA         # noqa: E402
import doatools.estimation.grid as GRID      # noqa: E402



class CallerPerturbation(PER.ArrayPerturbation):
    """A perturbation a caller has derived from the documented base class: it
    stretches the array and turns the phase of every element."""
    hook = None

    def perturb_sensor_locations(self, locations):
        return locations * self.params[0]

    def perturb_steering_matrix(self, A, DA):
        if self.hook is not None:
            self.hook()
        t = np.exp(1j * self.params[1:])[:, np.newaxis]
        return t * A, [t * X for X in DA]


PCLS = {'loc': PER.LocationErrors, 'gain': PER.GainErrors, 'phase': PER.PhaseErrors,
        'coupling': PER.MutualCoupling, 'custom': CallerPerturbation}
PKEY = {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors',
        'coupling': 'mutual_coupling'}


class Ctx:
    """Shared objects of one run."""
    sim = None

    def __init__(self):
        self.__dict__['sim'] = None


# -- callbacks handed to the library ----------------------------------------

class Response:
    """f_sr of a custom sensor; 'hook' lets a property interfere in the call."""

    def __init__(self, kind):
        self.kind = kind
        self.hook = None

    def __call__(self, r, az, el, polarization):
        if self.hook is not None:
            self.hook()
        v = ref.response(self.kind, np.asarray(r, float), np.asarray(az, float),
                         np.asarray(el, float))
        if polarization is None or polarization.shape[:-1] != np.shape(r):
            return v
        return v * (1 + polarization[..., -1])


class OwnElement(ELM.ArrayElement):
    """A caller's own kind of element, derived from the documented base."""

    def __init__(self, f):
        self.f = f

    @property
    def output_size(self):
        return ref.RESP_SIZE[self.f.kind]

    @property
    def is_isotropic(self):
        return self.f.kind == 'ivec'

    @property
    def is_polarized(self):
        return False

    def _calc_spatial_response(self, r, az, el, polarization):
        return self.f(r, az, el, polarization)


def make_element(kind, hooks=None):
    if kind == 'iso':
        return ELM.ISOTROPIC_SCALAR_SENSOR
    f = Response(kind)
    if hooks is not None:
        hooks.append(f)
    if kind in ('own', 'ivec'):
        return OwnElement(f)
    if kind in ('vec2', 'vec6'):
        return ELM.CustomNonisotropicSensor(f, polarized=kind == 'vec2', output_size=ref.RESP_SIZE[kind])
    if kind in ('complex', 'near'):
        return ELM.CustomNonisotropicSensor(f)      # one output by default
    return ELM.CustomNonisotropicSensor(f, ref.RESP_SIZE[kind])


def make_perts(perts, form='list', hooks=None):
    if form == 'dict' and not any(p['type'] == 'custom' for p in perts):
        return {PKEY[p['type']]: (wrap(p), p['known']) for p in perts}
    out = [PCLS[p['type']](wrap(p), *([] if p.get('deflt') and not p['known'] else [p['known']])) for p in perts]
    if hooks is not None:
        hooks.extend(p for p in out if isinstance(p, CallerPerturbation))
    return out


def wrap(p):
    v = ref.pert_values(p)
    if p.get('int'):
        v = v.astype(int)
    if p['type'] == 'custom':
        return v
    if p.get('square') is False:
        v = np.hstack([v, v[:, :1]])
    return v.tolist() if p.get('aslist') else v


def make_array(a, hooks=None):
    kw = {}
    if a.get('perts'):
        kw['perturbations'] = make_perts(a['perts'], a.get('form', 'list'), hooks)
    if a.get('elem', 'iso') != 'iso':
        kw['element'] = make_element(a['elem'], hooks)
    name = a.get('name')
    k = a['kind']
    d0 = a.get('d0')
    if isinstance(d0, list) and a.get('d0_array'):
        d0 = np.array(d0)
    if k == 'ula':
        return ARR.UniformLinearArray(a['n'], d0, name, **kw)
    if k == 'nested':
        return ARR.NestedArray(a['n1'], a['n2'], d0, name, **kw)
    if k == 'coprime':
        return ARR.CoPrimeArray(a['m'], a['n'], d0, a['mode'], name, **kw)
    if k == 'mrla':
        return ARR.MinimumRedundancyLinearArray(a['n'], d0, name, **kw)
    if k == 'uca':
        return ARR.UniformCircularArray(a['n'], a['r'], name, **kw)
    if k == 'ura':
        return ARR.UniformRectangularArray(a['m'], a['n'], d0, name, **kw)
    if k == 'grid':
        ind = np.array(a['indices'])
        if a.get('bases') is not None:
            return ARR.GridBasedArrayDesign(ind, name=name, bases=np.array(a['bases'], float), **kw)
        return ARR.GridBasedArrayDesign(ind, d0, name, **kw)
    if k == 'custom':
        x = a['locations']
        return ARR.ArrayDesign(np.array(x, dtype=int if a.get('nd') == 'int' else float) if a.get('nd', True) else x, name, **kw)
    raise AssertionError(k)


def make_sources(s):
    locs = s['locs']
    if s.get('nd', True):
        locs = np.array(locs, dtype=int if s.get('nd') == 'int' else float)
    if s['kind'] == 'ff1d':
        return SRC.FarField1DSourcePlacement(locs, s['unit'])
    if s['kind'] == 'ff2d':
        return SRC.FarField2DSourcePlacement(locs, s['unit'])
    return SRC.NearField2DSourcePlacement(locs)


def make_grid(g):
    if g['kind'] == 'ff1d':
        if 'axes' in g:
            return GRID.FarField1DSearchGrid(unit=g['unit'], axes=(np.array(g['axes'][0]),))
        return GRID.FarField1DSearchGrid(g['start'], g['stop'], g['size'], g['unit'])
    if g['kind'] == 'ff2d':
        if 'axes' in g:
            return GRID.FarField2DSearchGrid(unit=g['unit'], axes=tuple(np.array(x) for x in g['axes']))
        return GRID.FarField2DSearchGrid(g['start'], g['stop'], g['size'], g['unit'])
    if 'axes' in g:
        return GRID.NearField2DSearchGrid(axes=tuple(np.array(x) for x in g['axes']))
    return GRID.NearField2DSearchGrid(g['start'], g['stop'], g['size'])


def grid_axes(g):
    """Reference axes of a grid spec."""
    if 'axes' in g:
        return [np.array(x, float) for x in g['axes']]
    if g['kind'] == 'ff1d':
        if isinstance(g['start'], list):
            out = []
            for a, b, n in zip(g['start'], g['stop'], g['size']):
                out += [a + (b - a) * i / n for i in range(n)]
            return [np.array(out)]
        return [np.array([g['start'] + (g['stop'] - g['start']) * i / g['size']
                          for i in range(g['size'])])]
    sz = g['size'] if isinstance(g['size'], list) else [g['size']] * 2
    return [np.array([a + (b - a) * i / n for i in range(n)])
            for a, b, n in zip(g['start'], g['stop'], sz)]


def grid_points(g):
    """Row-major Cartesian product of the axes, as a list usable as 'locs'."""
    ax = grid_axes(g)
    if len(ax) == 1:
        return ax[0].tolist()
    return [[float(x), float(y)] for x in ax[0] for y in ax[1]]


def grid_shape(g):
    return tuple(len(a) for a in grid_axes(g))


def grid_sources_spec(g):
    return {'kind': g['kind'], 'unit': g.get('unit', 'm'), 'locs': grid_points(g)}


# -- generators ---------------------------------------------------------------

def f(x):
    return float(round(x, 6))


def gen_wl(rng):
    return rng.choice([1.0, 1.0, 2.0, 0.3, 0.7, f(rng.uniform(0.2, 3.0)), f(rng.uniform(0.2, 3.0)), rng.choice([0.03, 40.0, 0.004, 1500.0])])


def gen_perts(rng, m, ndim, scalar=True, p=0.7, maxn=4, scale=1.0, loc_scale=None, wl=1.0, custom=0.0):
    types = ['loc'] + (['gain', 'phase', 'coupling'] if scalar else [])
    if custom and rng.random() < custom:
        types.append('custom')
    rng.shuffle(types)
    out = []
    for t in types[:rng.randrange(0, maxn + 1)]:
        if rng.random() > p:
            continue
        out.append(gen_pert(rng, t, m, wl, scale))
    return out


def gen_pert(rng, t, m, wl=1.0, scale=1.0):
    q = {'type': t, 'known': rng.random() < 0.5, 'seed': rng.randrange(10 ** 6), 'm': m}
    if t == 'loc':
        q['dim'] = rng.choice([1, 2, 3])
        q['scale'] = 0.2 * wl * scale
        if scale == 1.0 and rng.random() < 0.08:
            q['int'] = True
            q['scale'] = 1.5
    elif t == 'gain':
        q['scale'] = 0.4 * scale
    elif t == 'phase':
        q['scale'] = 0.8 * scale
    else:
        q['scale'] = 0.2 * scale
    if scale == 1.0 and rng.random() < 0.25:
        q['style'] = rng.choice(['zero', 'part', 'part'] + (['herm', 'sym', 'real', 'band'] if t == 'coupling' else []) +
                                (['big'] * 2 if t in ('gain', 'phase') else []))
        if q['style'] == 'big':
            q['scale'] *= 8
    if rng.random() < 0.2:
        q['aslist'] = True
    if not q['known'] and rng.random() < 0.3:
        q['deflt'] = True
    return q


def n_elements(a):
    return len(ref.locations(a))


def gen_array(rng, wl, kinds=None, max_m=9, min_m=2, elems=None, perts=True, half=False, custom=0.0):
    kinds = kinds or ['ula', 'ula', 'nested', 'coprime', 'mrla', 'uca', 'ura', 'grid', 'custom',
                      'custom3']
    for _ in range(100):
        k = rng.choice(kinds)
        d = wl / 2 if half else rng.choice([wl / 2, wl / 2, f(wl * rng.uniform(0.2, 1.2))])
        a = {'kind': k, 'd0': d}
        big = max_m >= 8 and rng.random() < 0.05
        if k == 'ula':
            a['n'] = rng.randint(10, 40) if big else rng.randint(min(min_m, 2), max_m)
        elif k == 'nested':
            a['n1'], a['n2'] = (rng.randint(3, 12), rng.randint(3, 12)) if big else (rng.randint(1, 4), rng.randint(1, 4))
        elif k == 'coprime':
            a['m'], a['n'] = rng.choice([(2, 3), (3, 2), (1, 2), (3, 4), (2, 5), (3, 5), (1, 4)] if not big else
                                        [(5, 7), (7, 9), (8, 11), (4, 15), (12, 13)])
            a['mode'] = rng.choice(['2m', 'm'])
        elif k == 'mrla':
            a['n'] = rng.choice(list(range(min(min_m, 2), min(max_m, 12) + 1)) + (list(range(13, 21)) if max_m >= 8 and rng.random() < .3 else []))
        elif k == 'uca':
            a['n'], a['r'] = rng.randint(10, 40) if big else rng.randint(3, max_m), f(wl * rng.uniform(0.3, 1.2))
        elif k == 'ura':
            a['m'], a['n'] = (rng.randint(3, 6), rng.randint(3, 6)) if big else (rng.randint(1, 3), rng.randint(2, 3))
            if rng.random() < 0.4:
                a['d0'] = [d, f(wl * rng.uniform(0.3, 0.9))]
        elif k == 'grid':
            n = rng.randint(3, max_m)
            u = rng.random()
            if u < 0.4:
                a['indices'] = [[i] for i in sorted(rng.sample(range(0, 2 * n), n))]
                if rng.random() < 0.4:
                    rng.shuffle(a['indices'])
            elif u < 0.7:
                cells = [[i, j] for i in range(4) for j in range(4)]
                a['indices'] = rng.sample(cells, n)
                a['bases'] = [[d, 0.0], [f(d * 0.5), f(d * 0.8)]] if rng.random() < 0.6 else None
            else:
                cells = [[i, j] for i in range(4) for j in range(4)]
                a['indices'] = rng.sample(cells, n)
                a['bases'] = [[d, 0.0, 0.0], [0.0, f(d * 0.7), f(d * 0.4)]]
        elif k in ('custom', 'custom3'):
            n = rng.randint(10, 30) if big else rng.randint(min(min_m, 2), max_m)
            dim = 3 if k == 'custom3' else rng.choice([1, 2, 2])
            a['kind'] = 'custom'
            a['locations'] = [[f(rng.uniform(-1.5, 1.5) * wl) for _ in range(dim)] for _ in range(n)]
            if dim == 1 and rng.random() < 0.5:
                a['locations'] = [r[0] for r in a['locations']]
            a['nd'] = rng.random() < 0.7
            if rng.random() < 0.2:
                # Whole numbers, in an integer array or a list.
                a['locations'] = (np.rint(np.array(a['locations']) * 4 / wl)).astype(int).tolist()
                a['nd'] = rng.choice(['int', False])
            a['name'] = 'custom array'
        m = n_elements(a)
        if min_m <= m <= (40 if big else 20 if k == 'mrla' else max_m):
            break
    else:
        a = {'kind': 'ula', 'd0': wl / 2, 'n': max(min_m, 4)}
        m = a['n']
    if rng.random() < 0.3:
        a['name'] = 'array-%d' % rng.randrange(100)
    elem = rng.choice(elems) if elems else 'iso'
    a['elem'] = elem
    if perts:
        ndim = ref.locations(a).shape[1]
        a['perts'] = gen_perts(rng, m, ndim, ref.RESP_SIZE[elem] == 1, wl=wl, custom=custom)
        a['form'] = rng.choice(['list', 'dict'])
        if a['form'] == 'dict':
            pass
    else:
        a['perts'] = []
    return a


def twin_array(rng, a, wl):
    """An array that shares name, class and number of elements with a, but not
    the geometry, the perturbations or the element."""
    b = dict(a)
    u = rng.random()
    if u < 0.25 and a['perts']:
        b['perts'] = [dict(p, seed=p['seed'] + 1) for p in a['perts']]
    elif u < 0.4 and a['perts']:
        b['perts'] = [dict(p, known=not p['known'], deflt=False) for p in a['perts']]
    elif u < 0.5 and a['elem'] in ('cos', 'complex'):
        b['elem'] = 'complex' if a['elem'] == 'cos' else 'cos'
    elif a['kind'] == 'nested' and a['n1'] != a['n2']:
        b.update(n1=a['n2'], n2=a['n1'])
    elif a['kind'] == 'coprime' and u < 0.8 and a['mode'] == 'm':
        b.update(m=a['n'], n=a['m'])
    elif a['kind'] == 'uca':
        b['r'] = f(a['r'] * 0.8)
    elif a['kind'] == 'custom':
        x = np.array(a['locations'], float)
        b['locations'] = (x[::-1] - 1).astype(int).tolist() if a['nd'] == 'int' else (np.round(x[::-1] * 0.9, 6)).tolist()
    elif a['kind'] == 'grid' and len(a['indices'][0]) == 1 and rng.random() < 0.6 and len(a['indices']) > 2:
        # One element in the interior at another place, or another order.
        x = [i[0] for i in a['indices']]
        free = [i for i in range(min(x), max(x)) if i not in x]
        j = rng.choice([j for j, v in enumerate(x) if min(x) < v < max(x)])
        if free:
            x[j] = rng.choice(free)
        else:
            x = x[::-1]
        b['indices'] = [[i] for i in x]
    elif a['kind'] == 'grid' and a.get('bases') is not None:
        b['bases'] = [[f(x * 0.9) for x in r] for r in a['bases']]
    elif isinstance(a['d0'], list):
        b['d0'] = a['d0'][::-1] if a['d0'][0] != a['d0'][1] else [f(x * 0.9) for x in a['d0']]
    else:
        b['d0'] = f(a['d0'] * 0.8)
    return b


def twin_grid(rng, g):
    """A grid with the shape of g and many of its numbers, but other points."""
    h = {k: ([list(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v) for k, v in g.items()}
    hi = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0, 'm': math.inf}
    vals = []
    for x in grid_axes(g):
        vals += [float(x.min()), float(x.max())]
    if 'start' in g:
        vals += np.ravel(g['stop']).tolist()
    if g['kind'] == 'ff1d' and rng.random() < 0.5:
        units = [u for u in ('rad', 'deg', 'sin') if u != g['unit'] and max(map(abs, vals)) <= hi[u]]
        if units:
            h['unit'] = rng.choice(units)
            return h
    if 'axes' in h:
        # The same ends, another interior.
        for a in h['axes']:
            if len(a) > 2:
                i = rng.randrange(1, len(a) - 1)
                a[i] = f(0.7 * a[i] + 0.3 * a[i - 1])
        return h
    if isinstance(h['stop'], list):
        h['stop'] = [f(x + 0.8 * (y - x)) for x, y in zip(h['start'], h['stop'])]
    else:
        h['stop'] = f(h['start'] + 0.8 * (h['stop'] - h['start']))
    return h


def gen_sources(rng, wl, kinds=('ff1d', 'ff2d', 'nf2d'), kmax=4, kmin=1, near=None, edge=True):
    k = rng.randint(kmin, kmax)
    kind = rng.choice(list(kinds))
    if kind == 'ff1d':
        unit = rng.choice(['rad', 'deg', 'sin'])
        hi = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[unit]
        lim = 0.97
        locs = [f(rng.uniform(-lim * hi, lim * hi)) for _ in range(k)]
        if edge and unit != 'sin' and rng.random() < 0.1:
            locs[0] = rng.choice([-hi, hi, 0.0])
        if unit == 'deg' and rng.random() < 0.2:
            return {'kind': kind, 'unit': unit, 'locs': [int(x) for x in locs],
                    'nd': rng.choice([False, 'int'])}
        return {'kind': kind, 'unit': unit, 'locs': locs}
    if kind == 'ff2d':
        unit = rng.choice(['rad', 'deg'])
        s = 1.0 if unit == 'rad' else 180 / math.pi
        locs = [[f(rng.uniform(-math.pi * .99, math.pi * .99) * s), f(rng.uniform(-1.5, 1.5) * s)]
                for _ in range(k)]
        return {'kind': kind, 'unit': unit, 'locs': locs}
    locs = [[f(rng.uniform(-6, 6) * wl), f(rng.uniform(2.5, 9) * wl * rng.choice([1, -1]))]
            for _ in range(k)]
    return {'kind': kind, 'unit': 'm', 'locs': locs}


def twin_sources(rng, s):
    """Sources with the numbers of s but another meaning (unit or kind)."""
    if s['kind'] == 'ff1d':
        small = all(abs(x) <= 1 for x in s['locs'])
        units = [u for u in (['rad', 'deg', 'sin'] if small else ['rad', 'deg']) if u != s['unit']]
        if not small and any(abs(x) > math.pi / 2 for x in s['locs']):
            return {'kind': 'ff1d', 'unit': 'deg', 'locs': [-x for x in s['locs']]}
        return {'kind': 'ff1d', 'unit': rng.choice(units), 'locs': list(s['locs'])}
    o = [('ff2d', 'deg'), ('ff2d', 'rad'), ('nf2d', 'm')]
    o = [x for x in o if x != (s['kind'], s['unit'])]
    if not all(abs(x) < math.pi and abs(y) < 1.5 for x, y in s['locs']):
        o = [x for x in o if x != ('ff2d', 'rad')]
    if not all(abs(x) < 180 and abs(y) < 90 for x, y in s['locs']):
        o = [x for x in o if x != ('ff2d', 'deg')]
    if not all(abs(y) > 0.1 for x, y in s['locs']):
        o = [x for x in o if x[0] != 'nf2d']
    if not o:
        return {'kind': s['kind'], 'unit': s['unit'], 'locs': [[x, -y] for x, y in s['locs']]}
    k, u = rng.choice(o)
    return {'kind': k, 'unit': u, 'locs': [list(x) for x in s['locs']]}


def gen_grid(rng, wl, kinds=("ff1d", "ff1d", "ff2d", "nf2d"), n1=(8, 40), n2=(3, 8), lists=True, small=True, large=0.0, tiny=0.0):
    g = gen_grid0(rng, wl, kinds, n1, n2, lists)
    if large and rng.random() < large and 'axes' not in g:
        if g['kind'] == 'ff1d':
            n = rng.randint(200, 1100)
            if rng.random() < 0.4:
                # Around the limits code that works in blocks would have.
                n = rng.choice([2 ** rng.randint(9, 12) + rng.choice([-1, 0, 1, 1]), 2 ** rng.randint(9, 12) + 1, rng.randint(1100, 5000)])
            g['size'] = [n, n // 3] if isinstance(g['size'], list) else n
        else:
            g['size'] = [rng.randint(12, 34), rng.randint(12, 34)]
            if rng.random() < 0.2:
                g['size'] = [rng.randint(60, 130), rng.randint(5, 20)]
                rng.shuffle(g['size'])
    elif tiny and rng.random() < tiny and 'axes' not in g and not isinstance(g['start'], list) and g['kind'] == 'ff1d':
        g['size'] = rng.choice([1, 2, 3])
    elif tiny and rng.random() < tiny and 'axes' not in g and g['kind'] != 'ff1d' and isinstance(g['size'], list):
        g['size'][rng.randrange(2)] = rng.choice([1, 2, 2])
    if small and rng.random() < 0.12:
        # A small grid around the middle of the original one.
        z = rng.choice([0.02, 0.1])
        if 'axes' in g:
            g['axes'] = [[f(x * z) for x in a] for a in g['axes']]
            if any(len(set(a)) < len(a) for a in g['axes']):
                return gen_grid0(rng, wl, kinds, n1, n2, lists)
        elif isinstance(g['start'], list):
            g['start'] = [f(x * z) for x in g['start']]
            g['stop'] = [f(x * z) for x in g['stop']]
        else:
            g['start'], g['stop'] = f(g['start'] * z), f(g['stop'] * z)
    return g


def gen_grid0(rng, wl, kinds, n1, n2, lists):
    kind = rng.choice(list(kinds))
    if kind == 'ff1d':
        unit = rng.choice(['rad', 'deg', 'sin'])
        hi = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[unit]
        u = rng.random()
        if u < 0.5:
            return {'kind': kind, 'unit': unit, 'start': -hi, 'stop': hi, 'size': rng.randint(*n1)}
        if u < 0.7:
            a, b = sorted([f(rng.uniform(-.95, .95) * hi) for _ in range(2)])
            b = max(b, a + 0.05 * hi)
            return {'kind': kind, 'unit': unit, 'start': a, 'stop': min(b, hi), 'size': rng.randint(*n1)}
        if u < 0.85 and lists:
            return {'kind': kind, 'unit': unit, 'start': [f(-hi * .9), f(0.1 * hi)],
                    'stop': [f(-hi * .2), f(.8 * hi)], 'size': [rng.randint(3, 12), rng.randint(3, 12)]}
        pts = sorted({f(rng.uniform(-.95, .95) * hi) for _ in range(rng.randint(5, 25))})
        if unit == 'deg' and rng.random() < 0.5:
            pts = sorted({int(x) for x in pts})
            if rng.random() < 0.6:
                pts = list(range(pts[0], pts[-1] + 1, rng.choice([3, 5, 8])))
        return {'kind': kind, 'unit': unit, 'axes': [pts]}
    if kind == 'ff2d':
        unit = rng.choice(['rad', 'deg'])
        s = 1.0 if unit == 'rad' else 180 / math.pi
        if rng.random() < 0.75:
            return {'kind': kind, 'unit': unit, 'start': [f(-3.0 * s), f(-.2 * s)],
                    'stop': [f(2.9 * s), f(1.4 * s)], 'size': [rng.randint(*n2), rng.randint(*n2)]}
        return {'kind': kind, 'unit': unit,
                'axes': [sorted({f(rng.uniform(-3, 3) * s) for _ in range(rng.randint(3, 7))}),
                         sorted({f(rng.uniform(-1.4, 1.4) * s) for _ in range(rng.randint(3, 7))})]}
    if rng.random() < 0.75:
        sz = [rng.randint(*n2), rng.randint(*n2)]
        if rng.random() < 0.3:
            sz = sz[0]
        return {'kind': kind, 'unit': 'm', 'start': [f(-3 * wl), f(2 * wl)],
                'stop': [f(4 * wl), f(7 * wl)], 'size': sz}
    return {'kind': kind, 'unit': 'm',
            'axes': [sorted({f(rng.uniform(-4, 4) * wl) for _ in range(rng.randint(3, 7))}),
                     sorted({f(rng.uniform(2, 9) * wl) for _ in range(rng.randint(3, 7))})]}


def cov(spec):
    """Covariance matrix from a spec {'m','seed','mode',...}."""
    m, rs = spec['m'], np.random.RandomState(spec['seed'])
    if spec['mode'] == 'random':
        X = rs.randn(m, 3 * m) + 1j * rs.randn(m, 3 * m)
        s = np.diag(rs.uniform(0.3, 2.5, m))
        X = s @ X
        R = X @ X.conj().T / (3 * m)
    elif spec['mode'] == 'model':
        A = np.array(spec['A_re']) + 1j * np.array(spec['A_im'])
        k = A.shape[1]
        R = (A * rs.uniform(0.5, 3, k)) @ A.conj().T + spec.get('sigma', 0.1) * np.eye(m)
        if spec.get('n'):
            L = np.linalg.cholesky(R)
            X = L @ (rs.randn(m, spec['n']) + 1j * rs.randn(m, spec['n'])) / math.sqrt(2)
            R = X @ X.conj().T / spec['n'] + 1e-3 * np.eye(m)
    elif spec['mode'] == 'real':
        X = rs.randn(m, 3 * m)
        R = X @ X.T / (3 * m)
        if spec.get('almost'):
            # Imaginary parts that are small, but not rounding errors.
            Z = rs.randn(m, m)
            R = R + 1j * spec['almost'] * (Z - Z.T)
    else:
        raise AssertionError(spec)
    R = 0.5 * (R + R.conj().T)
    if spec.get('int'):
        # Whole numbers, of an integer type.
        return np.round(20 * R.real / np.max(np.abs(R))).astype(int) + m * np.eye(m, dtype=int)
    if spec.get('scale'):
        R = R * spec['scale']
    if spec.get('skew'):
        # Hermitian but for rounding errors, which the diagonal has as well.
        R = R + 1e-16 * np.max(np.abs(R)) * (rs.randn(m, m) + 1j * rs.randn(m, m))
    if spec.get('order') == 'F':
        R = np.asfortranarray(R)
    elif spec.get('order') == 'view':
        big = np.zeros((2 * m, 2 * m), dtype=R.dtype)
        big[::2, ::2] = R
        R = big[::2, ::2]
    return R


def gen_cov(rng, m, array=None, wl=1.0, sources=None, modes=('random', 'model', 'real')):
    mode = rng.choice(list(modes))
    c = {'m': m, 'seed': rng.randrange(10 ** 6), 'mode': mode}
    if mode == 'model':
        if array is None or m < 2:
            c['mode'] = 'random'
        else:
            s = sources or gen_sources(rng, wl, ('ff1d',), kmax=max(1, min(3, m - 1)))
            if len(s['locs']) >= m:
                s = dict(s, locs=s['locs'][:m - 1])
            A = ref.steering(array, array.get('perts', []), s, wl)
            c['A_re'] = np.round(A.real, 9).tolist()
            c['A_im'] = np.round(A.imag, 9).tolist()
            c['sigma'] = rng.choice([0.01, 0.1, 1.0])
            c['n'] = rng.choice([0, 50, 400])
    elif mode == 'real' and rng.random() < 0.3:
        c['almost'] = rng.choice([1e-3, 1e-4, 1e-5, 1e-6])
    c['order'] = rng.choice(['C', 'C', 'F', 'view'])
    if rng.random() < 0.05:
        c['int'] = True
    elif rng.random() < 0.15:
        c['scale'] = rng.choice([1e-8, 1e-4, 1e4])
    return c


# -- comparisons ---------------------------------------------------------------

def close(a, b, what, rtol=1e-7, atol=1e-9, kind='wrong-result'):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype == bool and b.dtype == bool:
        a, b = a.astype(int), b.astype(int)
    if a.shape != b.shape:
        raise Violation(kind, '%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    scale = np.max(np.abs(b))
    bad = ~(np.abs(a - b) <= atol * max(1.0, 0.0) + rtol * max(scale, 1e-300) + rtol * np.abs(b))
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isnan(np.abs(a - b)), np.inf, np.abs(a - b))), a.shape)
        raise Violation(kind, '%s: differs at %s: got %r, expected %r (%d of %d entries)'
                        % (what, tuple(int(x) for x in i), a[i], b[i], int(bad.sum()), a.size))


def same(a, b, what, kind='wrong-result'):
    if a != b:
        raise Violation(kind, '%s: got %r, expected %r' % (what, a, b))


def expect(cond, what, kind='wrong-result'):
    if not cond:
        raise Violation(kind, what)


class PropBase:
    id = '?'
    runs = {'quick': 400, 'thorough': 20000}
    real = ['all of doatools reached by the operations', 'NumPy and SciPy numerics (uninstrumented)']
    stubs = []
    rule = ('one case = one simulated run derived from (VERIF_SEED, index); non-trivial = at least '
            'one pre-emption inside a library call or one fault fired; distinct = different '
            '(context-switch sequence with code locations, faults fired, event-log digest)')
    assumptions = ['switches happen at source-line or bytecode boundaries of library code; code '
                   'inside NumPy/SciPy/cvxpy calls executes atomically',
                   'floating-point comparisons use relative tolerances around 1e-7 unless stated']

    def nontrivial(self, r):
        return bool(r['preempts'] or r['fired'])
