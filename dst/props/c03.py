from .. import ref, world as W
import numpy as np
import math

UNITS = {'ff1d': ['rad', 'deg', 'sin'], 'ff2d': ['rad', 'deg'], 'nf2d': ['m']}
RANGES = {('ff1d', 'rad'): ((-math.pi / 2, math.pi / 2),), ('ff1d', 'deg'): ((-90.0, 90.0),),
          ('ff1d', 'sin'): ((-1.0, 1.0),),
          ('ff2d', 'rad'): ((-math.pi, math.pi), (-math.pi / 2, math.pi / 2)),
          ('ff2d', 'deg'): ((-180.0, 180.0), (-90.0, 90.0)),
          ('nf2d', 'm'): ((-math.inf, math.inf),) * 2}


def conv(x, u, v):
    x = np.asarray(x, float)
    if u == v:
        return x.copy()
    r = ref.to_rad(x, u)
    return {'rad': r, 'deg': r * (180 / math.pi), 'sin': np.sin(r)}[v]


class C03(W.PropBase):
    id = 'C03'
    runs = {'quick': 1200, 'thorough': 80000}
    long_n = [15, 25]

    def gen(self, rng):
        wl = 1.0
        base = []
        for _ in range(rng.randint(1, 2)):
            if rng.random() < 0.3:
                base.append({'grid': W.gen_grid(rng, wl, n1=(4, 10), n2=(2, 4))})
            else:
                base.append({'src': W.gen_sources(rng, wl, kmin=1, kmax=60 if rng.random() < 0.06 else 6, edge=False)})
        clients = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(2, 7)):
                op = {'b': rng.randrange(len(base)), 'of': rng.randrange(64)}
                u = rng.random()
                if u < 0.35:
                    op['kind'] = 'slice'
                    op['how'] = rng.choice(['full', 'slice', 'step', 'list', 'array', 'mixed', 'mixed', 'bounds', 'bounds', 'bool', 'boollist', 'neg', 'empty',
                                            'emptylist', 'emptyarray', 'none'])
                    op['r'] = [rng.randrange(100) for _ in range(4)]
                elif u < 0.55:
                    op['kind'] = 'convert'
                    op['u'] = rng.randrange(3)
                elif u < 0.62:
                    op['kind'] = rng.choice(['badconvert', 'badvalues', 'badunit', 'badindex'])
                    op['expect_exc'] = True if op['kind'] in ('badconvert', 'badindex') else ['ValueError']
                    op['r'] = [rng.randrange(100) for _ in range(3)]
                elif u < 0.82:
                    op['kind'] = 'write'
                    op['seed'] = rng.randrange(10 ** 6)
                elif u < 0.92:
                    op['kind'] = 'sph'
                    op['ref'] = [[W.f(rng.uniform(-2, 2)) for _ in range(rng.choice([1, 2, 3]))]]
                    d = len(op['ref'][0])
                    op['ref'] += [[W.f(rng.uniform(-2, 2)) for _ in range(d)] for _ in range(rng.randint(0, 2))]
                else:
                    op['kind'] = 'scalar'
                    op['r'] = rng.randrange(100)
                ops.append(op)
            clients.append(ops)
        return {'base': base, 'clients': clients, 'every': rng.choice([0, 0, 2, 5])}

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.fam = []
        ctx.writing = False
        for b in plan['base']:
            if 'grid' in b:
                g = W.make_grid(b['grid'])
                sp = W.grid_sources_spec(b['grid'])
                fam = [self.rec(g.source_placement, sp['kind'], sp['unit'], sp['locs'])]
                fam[0]['grid'] = g
                fam[0]['axes'] = [a.copy() for a in g.axes]
                fam[0]['ro'] = True
            else:
                sp = b['src']
                fam = [self.rec(W.make_sources(sp), sp['kind'], sp['unit'], sp['locs'])]
            ctx.fam.append(fam)
        return ctx

    @staticmethod
    def rec(p, kind, unit, locs):
        x = np.array(locs, float)
        return {'p': p, 'kind': kind, 'unit': unit, 'locs': x, 'ro': False, 'hist': [x]}

    def index(self, op, n):
        r = op['r']
        how = op['how']
        if how == 'full':
            return slice(None)
        if how == 'slice':
            a, b = sorted((r[0] % (n + 1), r[1] % (n + 1)))
            return slice(a, b)
        if how == 'step':
            return slice(None, None, [2, -1, 3, -2][r[0] % 4])
        if how == 'bounds':
            a, b = (r[i] % (2 * n + 3) - n - 1 for i in (0, 1))     # from either end, beyond the ends
            return slice(None if r[3] % 7 == 0 else a, None if r[3] % 5 == 0 else b, [1, 2, -1, -2, -3, None][r[2] % 6])
        if how == 'list':
            return [x % n for x in r[:1 + r[3] % 4]]
        if how == 'array':
            return np.array([x % n for x in r[:1 + r[3] % 4]])
        if how == 'mixed':
            x = [i % (2 * n) - n for i in r[:1 + r[3] % 4]]
            return x if r[0] % 2 else np.array(x)
        if how == 'neg':
            return np.array([-1 - (x % n) for x in r[:2]])
        if how == 'emptylist':
            return []
        if how == 'emptyarray':
            return np.zeros(0, dtype=int)
        if how == 'none':
            return np.zeros(n, dtype=bool)
        if how in ('bool', 'boollist'):
            m = [(r[i % 4] >> (i // 4)) % 2 == 1 for i in range(n)]
            return m if how == 'boollist' else np.array(m)
        return slice(0, 0)

    def run_op(self, ctx, c, op):
        fam = ctx.fam[op['b']]
        if '_i' not in op:
            op['_i'] = op['of'] % len(fam)
        r = fam[op['_i']]
        op['_v'] = len(r['hist']) - 1
        p = r['p']
        k = op['kind']
        n = len(r['locs'])
        if k == 'slice':
            if n == 0:
                return p[:]
            return p[self.index(op, n)]
        if k == 'convert':
            us = UNITS[r['kind']]
            return p.as_unit(us[op['u'] % len(us)])
        if k == 'badconvert':
            bad = 'm' if r['kind'] == 'ff1d' else 'sin'
            return p.as_unit(bad)
        if k == 'badindex':
            # A location that does not exist, possibly among others that do.
            i = n + op['r'][1] % 3 if op['r'][2] % 2 else -n - 1 - op['r'][1] % 3
            x = [i] if n == 0 else [op['r'][0] % n, i, 0]
            return p[[i, np.int64(i), x, np.array(x), np.array([i]), np.ones(n + 1, dtype=bool),
                      np.zeros((1, 2), dtype=int) if n else np.array([[i]])][op['r'][0] % 7]]
        if k in ('badvalues', 'badunit'):
            # The locations of this placement with one out of range, or in a unit that does not exist.
            x, u = np.array(r['locs'], float), r['unit']
            cls = type(p)
            if r['kind'] == 'nf2d':
                return cls(x.ravel())
            if k == 'badunit':
                return cls(x, 'grad')
            hi = RANGES[(r['kind'], u)][-1][1]
            if n == 0:
                x = np.zeros((1,) + x.shape[1:])
            x[(op['r'][0] % len(x),) + (-1,) * (x.ndim - 1)] = (1 if op['r'][1] % 2 else -1) * hi * 1.01
            return cls(x, u)
        if k == 'scalar':
            return np.array(p[op['r'] % n]) if n else None
        if k == 'sph':
            return p.calc_spherical_coords(np.array(op['ref']))
        if k == 'write':
            if r['ro']:
                return None
            new = self.fresh(r, op['seed'])
            p.locations[...] = new
            r['locs'] = new
            r['hist'].append(new)
            return None

    @staticmethod
    def fresh(r, seed):
        rs = np.random.RandomState(seed)
        out = np.zeros(r['locs'].shape)
        rg = RANGES[(r['kind'], r['unit'])]
        for j, (lo, hi) in enumerate(rg):
            lo, hi = max(lo, -9.0), min(hi, 9.0)
            v = rs.uniform(0.95 * lo, 0.95 * hi, len(out))
            if out.ndim == 1:
                out[:] = v
            else:
                out[:, j] = v
        return out

    def check(self, ctx, c, op, out):
        fam = ctx.fam[op['b']]
        r = fam[op['_i']]
        k = op['kind']
        if out.ok:
            n = len(r['locs'])
            if k in ('badvalues', 'badunit'):
                raise W.Violation('bad-accepted', 'a placement out of range or in an unknown unit was created: %r' % op)
            if k == 'badindex':
                raise W.Violation('bad-accepted', 'a location that does not exist was selected: %r of %d' % (op, n))
            if k == 'badconvert':
                raise W.Violation('bad-unit-accepted', 'conversion of %s to an unsupported unit returned' % r['kind'])
            # Versions of the locations while the call was in progress: a
            # concurrent writer may have been seen, or not, entry by entry.
            vs = r['hist'][op['_v']:]
            if len(vs) > 1:
                ctx.sim.probe('write-during-call')
            if k == 'slice':
                self.add(fam, out.value, r['kind'], r['unit'],
                         [v if n == 0 else v[self.index(op, n)] for v in vs])
            elif k == 'convert':
                us = UNITS[r['kind']]
                u = us[op['u'] % len(us)]
                self.add(fam, out.value, r['kind'], u, [conv(v, r['unit'], u) for v in vs])
            elif k == 'scalar' and n and len(vs) == 1:
                W.close(out.value, r['locs'][op['r'] % n], 'location %d' % (op['r'] % n))
            elif k == 'sph' and n and len(vs) == 1:
                s = {'kind': r['kind'], 'unit': r['unit'], 'locs': r['locs'].tolist()}
                exp = ref.spherical(s, np.array(op['ref']))
                for g, e, nm in zip(out.value, exp, ('range', 'azimuth', 'elevation')):
                    e = np.asarray(e)
                    g = np.asarray(g)
                    W.same(g.shape, e.shape, nm + ' shape')
                    fin = np.isfinite(e)
                    W.expect(np.array_equal(np.isfinite(g), fin), nm + ': finiteness')
                    d = g[fin] - e[fin]
                    if nm == 'azimuth' and r['kind'] == 'nf2d':
                        d = (d + np.pi) % (2 * np.pi) - np.pi
                    W.close(d, np.zeros(d.shape), nm)
        self.invariant(ctx)

    def add(self, fam, p, kind, unit, versions):
        got = np.array(p.locations, float)
        exp = np.array(versions[0], float)
        W.same(got.shape, exp.shape, 'shape of the derived locations')
        for v in versions[1:]:
            near = np.abs(got - v) <= 1e-9 * (1 + np.abs(v))
            exp = np.where(near, v, exp)
        W.close(got, exp, 'derived locations (%s, %s)' % (kind, unit), rtol=1e-9, atol=1e-11)
        fam.append(self.rec(p, kind, unit, exp))

    def invariant(self, ctx):
        for fam in ctx.fam:
            for i, r in enumerate(fam):
                p = r['p']
                W.close(p.locations, r['locs'], 'locations of placement %d (%s, %s)' % (i, r['kind'], r['unit']),
                        rtol=1e-9, atol=1e-11)
                units = (r['unit'],) if r['kind'] == 'ff1d' else (r['unit'], r['unit'])
                W.same(tuple(p.units), units, 'units')
                W.same(len(p), len(r['locs']), 'len')
                W.same(p.size, len(r['locs']), 'size')
                W.same(p.is_far_field, r['kind'] != 'nf2d', 'is_far_field')
                W.same(type(p).__name__, {'ff1d': 'FarField1DSourcePlacement', 'ff2d': 'FarField2DSourcePlacement',
                                          'nf2d': 'NearField2DSourcePlacement'}[r['kind']], 'type')
                vr = np.array(p.valid_ranges, float)
                W.close(np.nan_to_num(vr, posinf=1e9, neginf=-1e9),
                        np.nan_to_num(np.array(RANGES[(r['kind'], r['unit'])], float), posinf=1e9, neginf=-1e9),
                        'valid ranges')
                if 'grid' in r:
                    for a, b in zip(r['grid'].axes, r['axes']):
                        W.close(a, b, 'grid axis')
                if i:
                    W.expect(p is not fam[0]['p'], 'derivation returned the placement itself')

    def final(self, ctx):
        self.invariant(ctx)


PROP = C03()
