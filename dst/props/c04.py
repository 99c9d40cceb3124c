from .. import ref, world as W
import numpy as np

CLS = {'ff1d': 'FarField1DSearchGrid', 'ff2d': 'FarField2DSearchGrid', 'nf2d': 'NearField2DSearchGrid'}
SCLS = {'ff1d': 'FarField1DSourcePlacement', 'ff2d': 'FarField2DSourcePlacement',
        'nf2d': 'NearField2DSourcePlacement'}
NAMES = {'ff1d': ('DOA',), 'ff2d': ('Azimuth', 'Elevation'), 'nf2d': ('x', 'y')}


class C04(W.PropBase):
    id = 'C04'
    runs = {'quick': 1200, 'thorough': 80000}
    long_n = [15, 25]

    def gen(self, rng):
        wl = 1.0
        grids = [W.gen_grid(rng, wl, n1=(2, 20), n2=(2, 6), tiny=0.06, large=0.05) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.15:
            grids[0] = {'kind': 'ff1d', 'unit': rng.choice(['rad', 'deg', 'sin']), 'start': None, 'stop': None,
                        'size': rng.randint(3, 40)}
        elif rng.random() < 0.1:
            grids[0] = {'kind': 'ff2d', 'unit': rng.choice(['rad', 'deg']), 'start': None, 'stop': None,
                        'size': rng.choice([5, [4, 6], [7, 3]])}
        for g in grids:
            u = rng.random()
            if g.get('start', 0) is None:
                # Some of the three left to their defaults.
                if u < 0.25:
                    g['size'] = None
                elif u < 0.65:
                    h = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}[g['unit']]
                    one = W.f(h * rng.uniform(0.3, 0.9))
                    end = rng.choice(['start', 'stop'])
                    sgn = -1 if end == 'start' else 1
                    g[end] = sgn * one if g['kind'] == 'ff1d' else [sgn * one, 0.5 * one if sgn > 0 else 0.0]
            elif 'axes' in g and u < 0.25:
                g['axes'] = [a[::-1] if rng.random() < 0.7 else a for a in g['axes']]
            elif 'axes' not in g and g['kind'] != 'ff1d' and u < 0.25:
                g['size'] = rng.randint(2, 6)
            elif isinstance(g.get('start'), list) and g['kind'] == 'ff1d' and u < 0.4:
                # Three or more ranges, in any order.
                h = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}[g['unit']]
                r = [(-.9, -.5), (-.1, .2), (.5, .8), (.85, 1.0), (-.4, -.2)][:rng.choice([2, 3, 3, 4, 5])]
                if rng.random() < 0.6:
                    rng.shuffle(r)
                g.update(start=[W.f(a * h) for a, _ in r], stop=[W.f(b * h) for _, b in r],
                         size=[rng.randint(1, 6) for _ in r])
            g['tuples'] = rng.random() < 0.4
        if rng.random() < 0.3:
            grids.append(dict(rng.choice(grids)))     # an equal but separate grid
        clients = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(1, 5)):
                op = {'g': rng.randrange(len(grids)), 'of': rng.randrange(64)}
                u = rng.random()
                if u < 0.35:
                    op['kind'] = 'points'
                elif u < 0.75:
                    op['kind'] = 'refine'
                    op['frac'] = [rng.choice([0.0, 1.0, rng.random(), rng.random()]) for _ in range(2)]
                    op['density'] = rng.choice([None, 1, 2, 3, 5, 10])
                    op['span'] = rng.choice([None, 1, 1, 2, 3, 3, 50])
                    op['int64'] = rng.random() < 0.5
                elif u < 0.8:
                    # A deep chain in one go.
                    op['kind'] = 'chain'
                    op['frac'] = [[rng.choice([0.0, 1.0, rng.random(), rng.random()]) for _ in range(2)]
                                  for _ in range(rng.randint(3, 12))]
                    op['density'] = rng.choice([2, 3, 5, 10])
                    op['span'] = rng.choice([None, 1, 1, 2])
                elif u < 0.9:
                    op['kind'] = 'refine_many'
                    op['n'] = rng.randint(1, 3)
                    op['frac'] = [[rng.random() for _ in range(2)] for _ in range(op['n'])]
                    op['density'] = rng.choice([None, 1, 2, 4])
                    op['span'] = rng.choice([None, 1, 2])
                else:
                    op['kind'] = 'bad'
                    op['expect_exc'] = True
                    op['bad'] = rng.choice(['density', 'span', 'coord'])
                ops.append(op)
            clients.append(ops)
        return {'grids': grids, 'clients': clients, 'every': rng.choice([0, 0, 3, 7])}

    def axes_of(self, g):
        if None in (g.get('start', 0), g.get('stop', 0), g.get('size', 0)):
            h = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}[g['unit']]
            d = (-h, h, 180) if g['kind'] == 'ff1d' else ([-2 * h, 0.0], [2 * h, h], [360, 90])
            g = dict(g, **{k: v for k, v in zip(('start', 'stop', 'size'), d) if g[k] is None})
        return W.grid_axes(g)

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.fam = []
        for g in plan['grids']:
            if 'axes' in g:
                obj = W.make_grid(g)
            else:
                kw = {k: tuple(g[k]) if g['tuples'] and isinstance(g[k], list) else g[k]
                      for k in ('start', 'stop', 'size') if g[k] is not None}
                if g['kind'] != 'nf2d':
                    kw['unit'] = g['unit']
                obj = getattr(W.GRID, CLS[g['kind']])(**kw)
            ctx.fam.append([self.rec(obj, g['kind'], g.get('unit', 'm'), self.axes_of(g))])
        return ctx

    @staticmethod
    def rec(obj, kind, unit, axes, parent=None):
        scale = parent['scale'] if parent else [max(1e-12, float(np.max(np.abs(a)))) if len(a) else 1.0 for a in axes]
        return {'scale': scale, 'g': obj, 'kind': kind, 'unit': unit, 'axes': [np.array(a, float) for a in axes],
                'size': int(np.prod([len(a) for a in axes]))}

    def coord(self, r, frac):
        return tuple(min(len(a) - 1, int(f * len(a))) for a, f in zip(r['axes'], frac))

    def run_op(self, ctx, c, op):
        fam = ctx.fam[op['g']]
        if '_i' not in op:
            op['_i'] = op['of'] % len(fam)
        r = fam[op['_i']]
        g = r['g']
        kw = {k: op[k] for k in ('density', 'span') if op.get(k) is not None}
        if op['kind'] == 'points':
            sp = g.source_placement
            return sp, g.shape, g.size, g.ndim, g.units, g.axis_names
        if op['kind'] == 'refine':
            x = self.coord(r, op['frac'])
            if op.get('int64'):
                x = tuple(np.int64(i) for i in x)
            return g.create_refined_grid_at(x, **kw)
        if op['kind'] == 'chain':
            out = []
            for f in op['frac']:
                x = tuple(min(n - 1, int(q * n)) for n, q in zip(g.shape, f))
                g = g.create_refined_grid_at(x, **kw)
                out.append((x, g))
                if len(out) % 3 == 0:
                    g.source_placement
                if min(float(np.max(np.abs(np.diff(a)))) if len(a) > 1 else 1.0 for a in g.axes) < 1e-9 or g.size > 4000:
                    break
            return out
        if op['kind'] == 'refine_many':
            cs = [self.coord(r, f) for f in op['frac']]
            coords = [np.array(x) for x in zip(*cs)]
            return g.create_refined_grids_at(*coords, **kw)
        if op['bad'] == 'density':
            return g.create_refined_grid_at(self.coord(r, [0.5, 0.5]), density=0)
        if op['bad'] == 'span':
            return g.create_refined_grid_at(self.coord(r, [0.5, 0.5]), span=0)
        return g.create_refined_grid_at((0,) * (len(r['axes']) + 1))

    def refined(self, r, coord, density, span):
        density = 10 if density is None else density
        span = 1 if span is None else span
        axes = []
        for a, i in zip(r['axes'], coord):
            lo, hi = max(0, i - span), min(len(a) - 1, i + span)
            n = (hi - lo) * density
            axes.append(np.array([a[lo]]) if n == 0 else
                        np.array([a[lo] + (a[hi] - a[lo]) * t / n for t in range(n + 1)]))
        return axes

    def check(self, ctx, c, op, out):
        fam = ctx.fam[op['g']]
        r = fam[op['_i']]
        if out.ok:
            k = op['kind']
            if k == 'bad':
                raise W.Violation('bad-accepted', 'invalid refinement request accepted: %r' % op)
            if k == 'points':
                sp, shape, size, ndim, units, names = out.value
                self.points(r, sp)
                W.same(tuple(shape), tuple(len(a) for a in r['axes']), 'shape')
                W.same(int(size), r['size'], 'size')
                W.same(ndim, len(r['axes']), 'ndim')
                W.same(tuple(units), (r['unit'],) * ndim, 'units')
                W.same(tuple(names), NAMES[r['kind']], 'axis names')
            elif k == 'refine':
                self.new(fam, r, out.value, self.coord(r, op['frac']), op)
            elif k == 'chain':
                for x, g in out.value:
                    n = self.rec(g, r['kind'], r['unit'], self.refined(r, x, op.get('density'), op.get('span')), r)
                    self.verify(n, 'grid refined at %r' % (x,))
                    self.points(n, g.source_placement)
                    r = n
                ctx.sim.probe('deep-chain-%d' % (len(out.value) // 4 * 4))
            elif k == 'refine_many':
                W.same(len(out.value), op['n'], 'number of refined grids')
                for v, f in zip(out.value, op['frac']):
                    self.new(fam, r, v, self.coord(r, f), op)
        self.invariant(ctx)

    def new(self, fam, r, g, coord, op):
        n = self.rec(g, r['kind'], r['unit'], self.refined(r, coord, op.get('density'), op.get('span')), r)
        W.expect(g is not r['g'], 'refinement returned the grid itself')
        self.verify(n, 'refined grid at %r' % (coord,))
        self.points(n, g.source_placement)
        if n['size'] < 3000 and len(fam) < 24:
            fam.append(n)

    def points(self, r, sp):
        W.same(type(sp).__name__, SCLS[r['kind']], 'placement type')
        ax = r['axes']
        if len(ax) == 1:
            exp = ax[0]
            got = sp.locations
        else:
            exp = np.array([[x, y] for x in ax[0] for y in ax[1]])
            got = sp.locations
        sc = r['scale'][0] if len(ax) == 1 else np.array(r['scale'])
        W.close(np.asarray(got) / sc, exp / sc, 'grid points', rtol=0, atol=2e-14)
        W.same(tuple(sp.units), (r['unit'],) * len(ax), 'placement units')

    def verify(self, r, what):
        g = r['g']
        W.same(type(g).__name__, CLS[r['kind']], what + ': kind')
        W.same(tuple(g.units), (r['unit'],) * len(r['axes']), what + ': units')
        W.same(len(g.axes), len(r['axes']), what + ': axes')
        for a, b, s in zip(g.axes, r['axes'], r['scale']):
            W.close(np.asarray(a) / s, b / s, what + ': axis', rtol=0, atol=2e-14)
        W.same(tuple(g.shape), tuple(len(a) for a in r['axes']), what + ': shape')

    def invariant(self, ctx):
        for fam in ctx.fam:
            for r in fam:
                self.verify(r, 'grid')

    def final(self, ctx):
        for fam in ctx.fam:
            for r in fam:
                self.verify(r, 'grid')
                self.points(r, r['g'].source_placement)
        # Grids are separate objects: overwriting the points of one of them
        # shows in no other grid.
        dirty = []
        for i, fam in enumerate(ctx.fam):
            fam[0]['g'].source_placement.locations[...] = 0.125
            dirty.append(fam[0])
            for j, f in enumerate(ctx.fam):
                for r in f:
                    if not any(r is d for d in dirty):
                        self.verify(r, 'grid after writing to another grid')
                        self.points(r, r['g'].source_placement)


PROP = C04()
