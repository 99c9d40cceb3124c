"""Plotting under an adversarial history of the plotting library's state."""
from .. import ref, world as W
import numpy as np

import matplotlib
import matplotlib.pyplot as plt
from matplotlib._pylab_helpers import Gcf
from matplotlib.container import Container
from matplotlib.figure import Figure
import importlib
import doatools.plotting as PLT

SPM = importlib.import_module('doatools.plotting.plot_spectrum')

_shown = []


def _show(*a, **k):
    _shown.append(list(plt.get_fignums()))


plt.show = _show


def flat(x):
    """Artists reachable from a returned plot container."""
    if isinstance(x, (list, tuple)) and not isinstance(x, Container):
        for y in x:
            yield from flat(y)
    elif isinstance(x, Container):
        for y in x:
            yield from flat(y)
        for n in ('markerline', 'stemlines', 'baseline'):
            if hasattr(x, n):
                yield from flat(getattr(x, n))
    elif x is not None:
        yield x


def drawn(ax):
    return list(ax.lines) + list(ax.collections) + list(ax.images) + list(ax.patches) + list(ax.texts) + \
        list(ax.tables)


def sig_axes(ax):
    s = [id(a) for a in drawn(ax)]
    s += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
          tuple(np.round(ax.get_xlim(), 12)), tuple(np.round(ax.get_ylim(), 12)), str(ax.get_aspect())]
    lg = ax.get_legend()
    s.append(None if lg is None else (id(lg), tuple(t.get_text() for t in lg.get_texts())))
    return s


def sig_fig(f):
    return [[id(a) for a in f.axes], [id(a) for a in f.lines], [id(a) for a in f.texts], [id(a) for a in f.images],
            [id(a) for a in f.legends], [id(a) for a in f.patches], tuple(f.get_size_inches())]


class C20(W.PropBase):
    id = 'C20'
    runs = {'quick': 320, 'thorough': 20000}
    long_n = [10, 20]
    stubs = ['pyplot.show (records the open figures)', 'Agg canvas instead of a display']
    real = W.PropBase.real + ['matplotlib figures, axes and artists']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        grids, sps = [], []
        for _ in range(rng.randint(1, 3)):
            g = W.gen_grid(rng, wl, n1=(4, 12), n2=(3, 6), large=0.06)
            grids.append(g)
            sps.append([{'seed': rng.randrange(10 ** 6), 'form': rng.choice(
                ['plain', 'plain', 'list', 'tuple', 'dict', 'dict', 'zero', 'int', 'wide'] if g['kind'] == 'ff1d' else
                ['plain', 'plain', 'int', 'wide', 'flat']), 'n': rng.randint(1, 9)} for _ in range(2)])
        arrays = [W.gen_array(rng, wl, kinds=['ula', 'uca', 'ura', 'grid', 'custom', 'custom3', 'nested'], max_m=6)
                  if rng.random() < 0.9 else
                  W.gen_array(rng, wl, kinds=['ula', 'mrla', 'coprime'], max_m=20, perts=False)
                  for _ in range(rng.randint(1, 2))]
        for a in arrays:
            if a['kind'] == 'custom' and isinstance(a['locations'][0], list) and a['nd'] is True and rng.random() < 0.4:
                # Somewhere else than around the origin, or in a plane.
                z = [W.f(rng.uniform(-30, 30) * wl) for _ in a['locations'][0]]
                flat = rng.randrange(6)
                a['locations'] = [[z[j] + (0 if j == flat else v) for j, v in enumerate(x)] for x in a['locations']]
            if a['kind'] == 'ula' and rng.random() < 0.1:
                a.update(n=rng.randint(21, 23), perts=[])
        axes = [rng.choice(['sub', 'sub', 'raw', 'shared', '3d', 'sub2']) for _ in range(rng.randint(1, 3))]
        if '3d' not in axes:
            axes.append('3d')
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            clients.append([self.gen_op(rng, grids, sps, arrays, axes) for _ in range(rng.randint(1, 5))])
        return {'wl': wl, 'grids': grids, 'sps': sps, 'arrays': arrays, 'axes': axes, 'clients': clients,
                'start_current': rng.randrange(4), 'every': rng.choice([0, 0, 5]), 'redo': 2}

    def gen_op(self, rng, grids, sps, arrays, axes):
        u = rng.random()
        if u < 0.3:
            return {'kind': rng.choice(['newfig', 'current', 'current', 'draw', 'closeall', 'close', 'subplot']),
                    'v': rng.randrange(8), 'no_fault': True}
        flat = [i for i, a in enumerate(axes) if a != '3d']
        if u < 0.7 and flat or u < 0.5:
            g = rng.randrange(len(grids))
            op = {'kind': 'sp', 'g': g, 'sp': rng.randrange(2), 'ax': rng.choice(flat + [None]),
                  'log': rng.random() < 0.3, 'est': rng.choice([0, 0, 1, 2]), 'truth': rng.choice([0, 0, 1, 3])}
            if op['ax'] is None and rng.random() < 0.5:
                op['size'] = [3, 2]
            if grids[g]['kind'] == 'ff1d':
                op['discrete'] = rng.random() < 0.3
                if sps[g][op['sp']]['form'] == 'dict' and rng.random() < 0.5:
                    # The labels alone have to bring up the legend.
                    op['est'] = op['truth'] = 0
            else:
                op['swap'] = rng.random() < 0.5
                op['cmap'] = rng.choice([None, 'gray'])
            op['direct'] = op['ax'] is not None and rng.random() < 0.3
            if rng.random() < 0.1:
                op['bad'] = rng.choice(['shape', 'units'])
                op['bv'] = rng.randrange(6)
                op['expect_exc'] = True
                if op['bad'] == 'units':
                    op['where'] = rng.choice(['estimates', 'ground_truth'])
                    op['near'] = rng.random() < 0.6
            return op
        a = rng.randrange(len(arrays))
        sp = arrays[a]
        d0 = ref.locations(sp).shape[1]
        d1 = ref.actual_locations(sp, sp['perts']).shape[1]
        op = {'kind': rng.choice(['array', 'coarray']), 'a': a, 'errs': rng.random() < 0.6,
              'default': rng.random() < 0.3}
        has = any(p['type'] == 'loc' for p in sp['perts'])
        d = d1 if op['errs'] and has else d0
        ok = [i for i, x in enumerate(axes) if (x == '3d') == (d == 3)]
        op['ax'] = rng.choice(ok + [None]) if ok else None
        return op

    # -- the world -------------------------------------------------------
    def setup(self, plan):
        plt.close('all')
        del _shown[:]
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.grids = [W.make_grid(g) for g in plan['grids']]
        ctx.sps = [[self.spectrum(s, g.shape) for s in x] for x, g in zip(plan['sps'], ctx.grids)]
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.known = {}          # axes -> signature
        ctx.figs = {}           # figure -> signature
        ctx.flight = {}         # op id -> (target axes or None, set of artists before)
        ctx.axes = []
        ctx.keep = []
        last = None
        for k in plan['axes']:
            if k == 'raw':
                ax = Figure().add_subplot(111)
            elif k == '3d':
                ax = plt.figure().add_subplot(111, projection='3d')
            elif k == 'sub2':
                f = plt.figure()
                ax = f.add_subplot(121)
                f.add_subplot(122).plot([1, 2], [3, 4])
            elif k == 'shared' and last is not None:
                ax = last.figure.add_axes([0.6, 0.6, 0.2, 0.2])
            else:
                ax = plt.figure().add_subplot(111)
            last = ax
            ctx.axes.append(ax)
        if plan['start_current'] == 0:
            plt.close('all')
        elif plan['start_current'] == 1:
            plt.figure().add_subplot(111).plot([0, 1], [1, 0], label='sentinel')
        for ax in ctx.axes:
            self.register(ctx, ax.figure)
        for n in plt.get_fignums():
            self.register(ctx, plt.figure(n))
        ctx.data = []
        for x, g in zip(ctx.sps, ctx.grids):
            for s in x:
                for v in (s.values() if isinstance(s, dict) else s if isinstance(s, (list, tuple)) else [s]):
                    ctx.data.append((v, v.tobytes()))
            for v in g.axes:
                ctx.data.append((v, v.tobytes()))
        for a in ctx.arrays:
            v = a.element_locations
            ctx.data.append((v, v.tobytes()))
        ctx.rc = dict(matplotlib.rcParams)
        ctx.state = np.random.get_state()
        return ctx

    @staticmethod
    def spectrum(s, shape):
        rs = np.random.RandomState(s['seed'])

        def one():
            if s['form'] == 'zero':
                return np.zeros(shape)
            if s['form'] == 'int':
                return rs.randint(1, 9, shape)
            if s['form'] == 'flat':
                return np.full(shape, 2.5)
            if s['form'] == 'wide':
                # A large dynamic range.
                return 10.0 ** rs.uniform(-12, rs.uniform(-12, 6), shape)
            return rs.uniform(0.05, 5, shape)
        if s['form'] == 'list':
            return [one() for _ in range(s['n'])]
        if s['form'] == 'tuple':
            return tuple(one() for _ in range(s['n']))
        if s['form'] == 'dict':
            # One of the curves may go without a name.
            return {'label %d' % i if i != s['seed'] % 4 else '': one() for i in range(s['n'])}
        return one()

    def register(self, ctx, f):
        ctx.figs[f] = sig_fig(f)
        for a in f.axes:
            ctx.known[a] = sig_axes(a)

    def adversary(self, ctx, op):
        nums = plt.get_fignums()
        k = op['kind']
        if k == 'newfig' or k == 'draw' and not nums:
            f = plt.figure()
            f.add_subplot(111).plot([0, 1], [1, 0], label='s')
        elif k == 'current' and nums:
            f = plt.figure(nums[op['v'] % len(nums)])
            if f.axes:
                plt.sca(f.axes[op['v'] % len(f.axes)])
            return
        elif k == 'draw':
            # Whatever is current, unless a plot is being made there.
            f = plt.gcf()
            if f in self.busy_figs(ctx):
                return
            plt.plot([0, 1], [2, 3], label='s')
        elif k == 'subplot':
            f = plt.figure()
            for i in (1, 2):
                f.add_subplot(1, 2, i).scatter([1, 2], [3, 4])
        elif k == 'closeall':
            plt.close('all')
            return
        elif k == 'close' and nums:
            plt.close(nums[op['v'] % len(nums)])
            return
        else:
            return
        self.register(ctx, f)

    def busy_figs(self, ctx):
        return [t.figure for t, _ in ctx.flight.values() if t is not None] + self.unknown(ctx)

    @staticmethod
    def unknown(ctx):
        return [m.canvas.figure for m in Gcf.figs.values() if m.canvas.figure not in ctx.figs]

    # -- operations ------------------------------------------------------
    def run_op(self, ctx, c, op):
        if op['kind'] not in ('sp', 'array', 'coarray'):
            return None
        ax = None if op['ax'] is None else ctx.axes[op['ax']]
        ctx.flight[op['id']] = (ax, [] if ax is None else drawn(ax))
        op['_shown'] = len(_shown)
        op['_cur'] = self.current(ax)
        op['_before'] = ax is not None and bool(drawn(ax))
        if op['kind'] == 'sp':
            return self.plot_sp(ctx, op, ax)
        f = PLT.plot_array if op['kind'] == 'array' else PLT.plot_coarray
        kw = {}
        if op['errs']:
            kw['show_location_errors'] = True
        elif not op['default']:
            kw['show_location_errors'] = False
        if ax is not None:
            kw['ax'] = ax
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(ctx.arrays[op['a']], **kw)

    def plot_sp(self, ctx, op, ax):
        g = ctx.grids[op['g']]
        sp = ctx.sps[op['g']][op['sp']]
        kw = {}
        for n, k in (('est', 'estimates'), ('truth', 'ground_truth')):
            if op[n]:
                kw[k] = self.points(ctx, op, n)
        if op['log']:
            kw['use_log_scale'] = True
        if op.get('discrete'):
            kw['discrete'] = True
        if op.get('swap'):
            kw['swap_axes'] = True
        if op.get('cmap'):
            kw['color_map'] = op['cmap']
        if op.get('bad') == 'shape':
            sh = g.shape
            b = np.ones([tuple(n + 1 for n in sh), sh + (1,), sh + (2,), (1,) + sh, (sh[0] + 1,) + sh[1:],
                         sh[:1] if g.ndim > 1 else ()][op.get('bv', 0)])
            if isinstance(sp, dict):
                sp = dict(list(sp.items())[:-1] + [('last', b)])
            elif isinstance(sp, (list, tuple)):
                sp = type(sp)(list(sp[:-1]) + [b])
            else:
                sp = b
        if op.get('bad') == 'units' and op.get('near') and g.units[0] != 'm':
            # Placements of the very same kind, in another unit.
            T = type(g.source_placement)
            u = {'rad': ['deg', 'sin'], 'deg': ['rad', 'sin'], 'sin': ['rad', 'deg']}[g.units[0]]
            u = [x for x in u if x in T.VALID_RANGES] if hasattr(T, 'VALID_RANGES') else u[:1]
            kw[op['where']] = T(np.full((2,) + (g.ndim,) * (g.ndim > 1), 0.1), u[op.get('bv', 0) % len(u)])
        elif op.get('bad') == 'units':
            kw[op.get('where', 'estimates')] = W.SRC.NearField2DSourcePlacement([[1.0, 2.0]]) if g.units[0] != 'm' else \
                W.SRC.FarField2DSourcePlacement([[0.1, 0.2]])
        if op.get('direct'):
            return (ax, (SPM.plot_spectrum_1d if g.ndim == 1 else SPM.plot_spectrum_2d)(sp, g, ax, **kw))
        if op.get('size'):
            kw['figsize'] = tuple(op['size'])
        if ax is not None:
            kw['ax'] = ax
        return PLT.plot_spectrum(sp, g, **kw)

    def points(self, ctx, op, n):
        pl = ctx.grids[op['g']].source_placement
        idx = np.array([(7 * i + 3 + op['id'] * (n == 'truth')) % len(pl) for i in range(op[n])])
        # In no particular order, and possibly twice the same.
        idx = np.concatenate([np.unique(idx), idx[:op['id'] % 3 == 0]])
        p = pl[idx[::-1] if op['id'] % 4 == 1 else idx]
        return type(p)(np.array(p.locations), *([p.units[0]] if p.units[0] != 'm' else []))

    # -- oracle ----------------------------------------------------------
    def check(self, ctx, c, op, out):
        if op['kind'] not in ('sp', 'array', 'coarray'):
            self.adversary(ctx, op)
            self.verify(ctx)
            return
        ax, before = ctx.flight.pop(op['id'], (None, []))
        if op.get('bad') and out.ok:
            raise W.Violation('bad-accepted', 'plotting accepted a bad %s' % op['bad'])
        allowed = []
        if out.ok:
            v = out.value
            if op['kind'] == 'sp':
                W.expect(isinstance(v, tuple) and len(v) == 2, 'result is not a pair')
                got, cont = v
            else:
                got, cont = v, None
            if ax is not None:
                W.expect(got is ax, 'the given axes are not returned')
                W.same(len(_shown) if not self.others(ctx) else op['_shown'], op['_shown'],
                       'calls to show for explicit axes')
                if len(ctx.plan['clients']) == 1:
                    W.expect(self.current(ax) == op['_cur'], 'the current figure or axes changed')
                # Artists new since this call started, by anybody.
            else:
                W.expect(got is not None and got not in ctx.known and got not in ctx.axes,
                         'without axes, no new axes were created')
                W.expect(got.figure not in ctx.figs, 'without axes, no new figure was created')
                n = len(_shown) - op['_shown']
                if not self.others(ctx) and len(ctx.plan['clients']) == 1:
                    W.same(n, 1, 'calls to show')
                W.expect(n >= 1, 'the new figure was not shown')
                if op.get('size'):
                    W.close(got.figure.get_size_inches(), op['size'], 'figure size')
                if op['kind'] == 'sp':
                    W.same(len([a for a in got.figure.axes if not hasattr(a, '_colorbar')]), 1, 'axes of the new figure')
                W.expect(got.figure.axes[0] is got, 'axes of the new figure')
                if op['kind'] != 'sp':
                    a = ctx.plan['arrays'][op['a']]
                    x = ref.actual_locations(a, a['perts']) if op['errs'] else ref.locations(a)
                    W.same(got.name == '3d', x.shape[1] == 3, 'three-dimensional axes')
            new = [a for a in drawn(got) if a not in before]
            if op['kind'] == 'sp':
                allowed = self.check_sp(ctx, op, got, cont, new)
            else:
                allowed = self.check_array(ctx, op, got, new)
            alone = not any(t is got for t, _ in ctx.flight.values()) and len(ctx.plan['clients']) == 1
            if alone:
                extra = [a for a in new if a not in allowed]
                W.expect(not extra, 'unexpected artists on the axes: %r' % extra)
            if ax is None:
                self.register(ctx, got.figure)
            else:
                self.touch(ctx, got)
            ctx.sim.probe('plots-checked')
        else:
            if not out.faulted and not op.get('bad'):
                raise W.Violation('unexpected-exception', repr(out.exc))
            if ax is not None:
                self.touch(ctx, ax)
        if not any(t is None for t, _ in ctx.flight.values()):
            # Debris of an interrupted call without axes.
            nums = [n for n in plt.get_fignums()]
            for f in [Gcf.figs[n].canvas.figure for n in nums]:
                if f not in ctx.figs:
                    W.expect(out.faulted or op.get('bad') or ax is None and out.ok,
                             'a stray figure %r was created' % f)
                    W.expect(ax is None, 'a figure was created although axes were given')
                    self.register(ctx, f)
        self.verify(ctx)

    @staticmethod
    def current(ax):
        """What is current in pyplot (within the figure of ax, anything goes)."""
        m = Gcf.get_active()
        if m is None:
            return None
        f = m.canvas.figure
        if ax is not None and f is ax.figure:
            return id(f)
        return (id(f), id(f._axstack.current()))

    def others(self, ctx):
        return [1 for t, _ in ctx.flight.values() if t is None] or len(ctx.plan['clients']) > 1

    def touch(self, ctx, ax):
        """A call on these axes ended."""
        f = ax.figure
        for a in f.axes:
            if a not in ctx.known and hasattr(a, '_colorbar'):
                m = a._colorbar.mappable
                W.expect(any(m in x.images for x in f.axes), 'a colorbar of another figure')
                ctx.known[a] = sig_axes(a)
        if ax in ctx.known:
            ctx.known[ax] = sig_axes(ax)
        ctx.figs[f] = sig_fig(f)

    def verify(self, ctx):
        """Axes and figures that no call in flight may touch are untouched."""
        busy = [t for t, _ in ctx.flight.values() if t is not None]
        bf = [t.figure for t in busy]
        for a, s in ctx.known.items():
            if a in busy:
                continue
            if hasattr(a, '_colorbar'):
                continue
            if sig_axes(a) != s:
                raise W.Violation('drawn-elsewhere', 'axes that were not given to any call changed: %s -> %s'
                                  % (s, sig_axes(a)))
        for f, s in ctx.figs.items():
            if f in bf:
                continue
            if sig_fig(f) != s:
                raise W.Violation('drawn-elsewhere', 'a figure that was not given to any call changed')
        newok = any(t is None for t, _ in ctx.flight.values())
        for n, m in Gcf.figs.items():
            if m.canvas.figure not in ctx.figs and not newok:
                raise W.Violation('drawn-elsewhere', 'a stray figure %r was created' % n)
        for v, b in ctx.data:
            if v.tobytes() != b:
                raise W.Violation('input-modified', 'plotted data changed')
        if ctx.rc != dict(matplotlib.rcParams):
            raise W.Violation('drawn-elsewhere', 'plotting settings changed')

    def invariant(self, ctx):
        self.verify(ctx)

    def final(self, ctx):
        self.verify(ctx)
        s = np.random.get_state()
        W.expect(np.array_equal(s[1], ctx.state[1]) and s[2:] == ctx.state[2:], 'the random stream was touched')

    def teardown(self, ctx):
        plt.close('all')

    # -- what must have been drawn ---------------------------------------
    def check_sp(self, ctx, op, ax, cont, new):
        g = ctx.plan['grids'][op['g']]
        axes = W.grid_axes(g)
        sp = ctx.sps[op['g']][op['sp']]
        sps = list(sp.values()) if isinstance(sp, dict) else list(sp) if isinstance(sp, (list, tuple)) else [sp]
        pts = [np.asarray(self.points(ctx, op, n).locations) for n in ('est', 'truth') if op[n]]
        W.same(len(cont), len(sps) + len(pts), 'number of plot containers')
        allowed = list(flat(cont))
        for a in allowed:
            W.expect(a.axes is ax and a in drawn(ax), 'an artist was drawn on other axes')
        if len(axes) == 1:
            labels = list(sp) if isinstance(sp, dict) else None
            for i, y in enumerate(sps):
                top = np.max(y)
                want = y / top if top > 0 else y
                x, got = self.curve(cont[i], op.get('discrete'))
                W.close(x, axes[0], 'abscissa of the plotted spectrum')
                W.close(got, want, 'plotted spectrum', atol=0)
                if labels and labels[i]:
                    W.same(self.label(cont[i]), labels[i], 'label of the spectrum')
            for p, q in zip(cont[len(sps):], pts):
                x, y = self.curve(p, True)
                W.close(np.sort(x), np.sort(q), 'plotted source locations')
                W.close(y, np.ones(len(q)), 'height of the plotted source locations')
            self.legend(ax, [l for l in labels or [] if l] + op['est'] * ['Estimates'] + op['truth'] * ['Ground truth'])
            if len(ctx.plan['clients']) == 1:
                W.expect(g.get('unit', 'm') in ax.get_xlabel(), 'the abscissa is labelled %r' % ax.get_xlabel())
            W.same(ax.get_yscale() if op['log'] and len(ctx.plan['clients']) == 1 else 'log', 'log', 'scale')
            if len(ctx.plan['clients']) == 1 and not op['_before']:
                # On axes of its own, everything has to be in view.
                lo, hi = sorted(ax.get_xlim())
                W.expect(lo <= axes[0].min() + 1e-9 and hi >= axes[0].max() - 1e-9, 'the axes show %r..%r of %r' % (lo, hi, axes[0]))
                lo, hi = sorted(ax.get_ylim())
                ys = [y / max(y.max(), 1e-300) for y in sps]
                W.expect(hi >= max(y.max() for y in ys) - 1e-9, 'the top of the spectrum is out of view')
                W.expect(lo <= min(y[y > 0].min() if op['log'] and (y > 0).any() else 1.0 if op['log'] else y.min() for y in ys) + 1e-9, 'the bottom of the spectrum is out of view')
        else:
            ix, iy = (1, 0) if op.get('swap') else (0, 1)
            want = sp if op.get('swap') else sp.T
            im = cont[0]
            A = np.asarray(im.get_array(), float)
            if im.origin == 'upper':
                A = A[::-1]
            W.close(A, want, 'plotted spectrum', atol=0)
            e = im.get_extent()
            for k, (lo, hi) in ((ix, e[:2]), (iy, e[2:])):
                h = np.max(np.diff(axes[k])) if len(axes[k]) > 1 else 1.0
                W.expect(abs(lo - axes[k][0]) <= 0.51 * h + 1e-9 and abs(hi - axes[k][-1]) <= 0.51 * h + 1e-9,
                         'extent %r of the image, axis %d is %r' % (e, k, axes[k].tolist()))
            W.same(type(im.norm).__name__ == 'LogNorm', bool(op['log']), 'logarithmic colour scale')
            if op.get('cmap'):
                W.same(im.get_cmap().name, op['cmap'], 'colour map')
            self.legend(ax, op['est'] * ['Estimates'] + op['truth'] * ['Ground truth'])
            for p, q in zip(cont[1:], pts):
                W.close(self.rows(p.get_offsets()), self.rows(q[:, [ix, iy]]), 'plotted source locations')
                W.expect(self.visible(p), 'the markers of the source locations are invisible')
            cbs = [a._colorbar for a in ax.figure.axes if hasattr(a, '_colorbar')]
            W.expect(any(c.mappable is im for c in cbs), 'the colorbar is not on the figure of the axes')
        return allowed

    @staticmethod
    def legend(ax, labels):
        """Whatever has a label can be told apart by it."""
        l = ax.get_legend()
        texts = [t.get_text() for t in l.get_texts()] if l is not None else []
        for x in labels:
            W.expect(str(x) in texts, 'the legend %r does not name %r' % (texts, x))

    @staticmethod
    def rows(x):
        x = np.asarray(x, float)
        return x[np.lexsort(np.round(x, 9).T)]

    @staticmethod
    def visible(p):
        c = [x for q in (p.get_facecolors(), p.get_edgecolors()) for x in q]
        return p.get_visible() and any(x[3] > 0 for x in c)

    @staticmethod
    def label(c):
        if isinstance(c, Container):
            return c.get_label()
        return next(flat(c)).get_label()

    @staticmethod
    def curve(c, stem):
        if not stem:
            l = [a for a in flat(c)]
            W.same(len(l), 1, 'lines of one spectrum')
            return np.asarray(l[0].get_xdata(), float), np.asarray(l[0].get_ydata(), float)
        m = c.markerline
        x, y = np.asarray(m.get_xdata(), float), np.asarray(m.get_ydata(), float)
        s = c.stemlines
        seg = s.get_segments() if hasattr(s, 'get_segments') else [np.array(l.get_xydata()) for l in s]
        W.close([t[-1][0] for t in seg], x, 'position of the stems')
        W.close([max(t[0][1], t[-1][1]) for t in seg], np.maximum(y, 0), 'height of the stems')
        return x, y

    def check_array(self, ctx, op, ax, new):
        a = ctx.plan['arrays'][op['a']]
        has = any(p['type'] == 'loc' for p in a['perts'])
        want = [ref.locations(a)]
        if op['errs'] and has:
            want.append(ref.actual_locations(a, a['perts']))
        if op['kind'] == 'coarray':
            want = [self.differences(x) for x in want]
        sc = [x for x in new if hasattr(x, 'get_offsets') and len(x.get_offsets())]
        used = []
        for q in want:
            hit = [x for x in sc if x not in used and self.match(self.offsets(x), q)]
            if not hit:
                raise W.Violation('wrong-result', '%s: no scatter of the %s positions: expected %r, drawn %r' % (
                    op, 'actual' if q is want[-1] and len(want) > 1 else 'nominal', q.tolist(),
                    [self.offsets(x).tolist() for x in sc]))
            used.append(hit[0])
            W.expect(self.visible(hit[0]), 'the markers of the array are invisible')
            if len(ctx.plan['clients']) == 1 and not op['_before']:
                lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if hasattr(ax, 'get_zlim') else [])
                for z, (lo, hi) in zip(self.offsets(hit[0]).T, lims):
                    e = 1e-9 * (1 + abs(lo) + abs(hi))
                    W.expect(min(lo, hi) - e <= z.min() and z.max() <= max(lo, hi) + e,
                             'elements at %r..%r are out of view (%r)' % (z.min(), z.max(), (lo, hi)))
        W.expect(len({x.get_label() for x in used}) == len(used), 'nominal and actual positions share a label')
        return used

    @staticmethod
    def offsets(s):
        if hasattr(s, '_offsets3d'):
            return np.array([np.asarray(v, float) for v in s._offsets3d]).T
        return np.asarray(s.get_offsets(), float)

    @staticmethod
    def match(got, q):
        n = max(got.shape[1], q.shape[1])
        got = np.pad(got, ((0, 0), (0, n - got.shape[1])))
        q = np.pad(q, ((0, 0), (0, n - q.shape[1])))
        if got.shape != q.shape:
            return False
        d = np.max(np.abs(got[:, None] - q[None]), axis=2) if len(q) else np.zeros((0, 0))
        return bool(np.all(d.min(axis=0) < 1e-6) and np.all(d.min(axis=1) < 1e-6))

    @staticmethod
    def differences(x):
        d = (x[:, None] - x[None]).reshape(-1, x.shape[1])
        out = []
        for r in d:
            if not any(np.max(np.abs(r - o)) < 1e-6 for o in out):
                out.append(r)
        return np.array(out)


PROP = C20()
