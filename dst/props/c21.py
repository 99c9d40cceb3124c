"""The optional convex solver is missing or broken when the library is imported."""
import importlib
import pkgutil
import sys
import warnings

from .. import catalog as C
from .. import core
from .. import world as W
import cvxpy

MODULES = sorted(m for m in sys.modules if m == 'cvxpy' or m.startswith('cvxpy.'))
KINDS = [k for k in C.KINDS if k not in ('sparse', 'group')]
# Modules of others, which importing the library must leave alone.
FOREIGN = ['builtins', 'warnings', 'numpy', 'numpy.linalg', 'numpy.random', 'scipy.linalg', 'scipy.optimize',
           'scipy.signal', 'matplotlib.pyplot']
FORMS = ['penalizedl1', 'constrainedl1', 'constrainedl2']


class Blocker:
    """Import seam: the named modules cannot be imported."""

    def __init__(self, names, exc):
        self.names = names
        self.exc = exc
        self.hits = 0

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            self.hits += 1
            if self.exc == 'kbd':
                self.names = ()
                raise KeyboardInterrupt('injected')
            if self.exc == 'mnfe':
                raise ModuleNotFoundError('No module named %r' % name, name=name)
            raise ImportError('injected: DLL load failed while importing %s' % name, name=name)
        return None


def public():
    """Importable modules and public names of the library."""
    import doatools
    out = {}
    for m in sorted(x.name for x in pkgutil.walk_packages(doatools.__path__, 'doatools.')):
        if '.tests' in m:
            continue
        mod = importlib.import_module(m)
        out[m] = sorted(n for n, v in vars(mod).items() if not n.startswith('_') and
                        str(getattr(v, '__module__', '')).startswith('doatools'))
    return out


class C21(W.PropBase):
    id = 'C21'
    runs = {'quick': 500, 'thorough': 12000}
    real = W.PropBase.real + ['the import system; partially imported cvxpy']
    stubs = ['an import hook that fails the import of cvxpy or one of its modules',
             'a deterministic signal generator that hands out its own buffer']
    assumptions = W.PropBase.assumptions + [
        '"cannot be imported" means that the import statement raises ImportError (or a subclass)']

    def gen(self, rng):
        spec = C.gen_world(rng)
        u = rng.random()
        mode = {'names': ['cvxpy'], 'exc': rng.choice(['mnfe', 'ie']), 'none': False, 'first_kbd': rng.random() < .15}
        if u < 0.25:
            mode['none'] = True
        elif u < 0.7:
            mode['names'] = [rng.choice(MODULES)]
        clients = []
        for _ in range(rng.choice([1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                if rng.random() < 0.35:
                    op = {'kind': rng.choice(['SparseCovarianceMatching', 'SparseCovarianceMatching',
                                              'GroupSparseEstimator', 'L1', 'L21', 'public']),
                          'form': rng.choice(FORMS + [None]), 'noise': rng.choice([True, False, None]),
                          'v': rng.randrange(4), 'expect_exc': True,
                          'size': [3, 5, 2] if rng.random() < 0.6 else
                                  [rng.choice([1, 40, 700]), rng.choice([1, 90, 5000]), rng.choice([1, 65, 1000])]}
                    if op['kind'] == 'public':
                        op['no_action'] = True
                        op['expect_exc'] = False
                else:
                    op = C.gen_op(rng, spec, KINDS)
                    op['lib'] = True
                ops.append(op)
            clients.append(ops)
        return {'spec': spec, 'mode': mode, 'clients': clients, 'redo': 4}

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        # The same operations with the solver available.
        w = C.World(plan['spec'], 1)
        ctx.exp = {}
        for ops in plan['clients']:
            for op in ops:
                if op.get('lib'):
                    ctx.exp[op['id']] = C.run(w, op, 0)
        ctx.public = public()
        self.vanish(ctx, plan['mode'])
        ctx.w = ctx.C.World(plan['spec'], len(plan['clients']) + 1)
        return ctx

    def vanish(self, ctx, mode):
        """A new interpreter state in which cvxpy cannot be imported."""
        for m in list(sys.modules):
            if m.split('.')[0] in ('cvxpy', 'doatools') or m in ('dst.world', 'dst.catalog'):
                del sys.modules[m]
        import dst
        for a in ('world', 'catalog'):
            if hasattr(dst, a):
                delattr(dst, a)
        if mode['first_kbd']:
            b = Blocker(('cvxpy',), 'kbd')
            sys.meta_path.insert(0, b)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    importlib.import_module('doatools.estimation')
            except KeyboardInterrupt:
                pass
            sys.meta_path.remove(b)
            for m in list(sys.modules):
                if m.split('.')[0] in ('cvxpy', 'doatools'):
                    del sys.modules[m]
        ctx.blocker = Blocker(tuple(mode['names']), mode['exc'])
        sys.meta_path.insert(0, ctx.blocker)
        if mode['none']:
            sys.modules['cvxpy'] = None
        import numpy as np
        with warnings.catch_warnings():
            warnings.filterwarnings('ignore', message='.*')
            before = (list(warnings.filters), np.geterr(), str(np.random.get_state()))
            names = {m: dict(vars(sys.modules[m])) for m in FOREIGN if m in sys.modules}
            try:
                ctx.C = importlib.import_module('dst.catalog')
                importlib.import_module('doatools.estimation')
                importlib.import_module('doatools.optim.l1lsq')
            except Exception as e:
                raise W.Violation('import-failed', 'with %r the library cannot be imported: %s: %s'
                                  % (mode, type(e).__name__, e))
            if mode['none'] or mode['names'] == ['cvxpy']:
                W.expect((list(warnings.filters), np.geterr(), str(np.random.get_state())) == before,
                         'importing the library changed global settings: warning filters %r' % warnings.filters[:2])
            for m, d in names.items():
                now = vars(sys.modules[m])
                bad = [n for n in d if not n.startswith('__') and now.get(n) is not d[n]
                       and (m, n) != ('scipy.optimize', 'minimize')]         # a seam of ours
                W.expect(not bad, 'importing the library replaced %s of module %s' % (bad, m))
            try:
                importlib.import_module('cvxpy')
                ctx.avail = True
            except ImportError:
                ctx.avail = False
        core.lib_codes(refresh=True)

    def run_op(self, ctx, c, op):
        if op.get('lib'):
            return ctx.C.run(ctx.w, op, min(c.idx, len(ctx.w.own) - 1))
        k = op['kind']
        if k == 'public':
            return public()
        kw = {}
        if k in ('L1', 'L21'):
            L = sys.modules['doatools.optim.l1lsq']
            if k == 'L21':
                L.L21RegularizedLeastSquaresProblem(*op['size'], complex=bool(op['noise']))
            else:
                if op['form']:
                    kw['formulation'] = op['form']
                L.L1RegularizedLeastSquaresProblem(*op['size'][:2], nonnegative=bool(op['noise']), **kw)
            return 'constructed'
        E = sys.modules['doatools.estimation']
        w = ctx.w
        if op['v'] == 3:
            kw['enable_caching'] = False
        if k == 'GroupSparseEstimator':
            E.GroupSparseEstimator(w.ula, w.wl, w.grids[op['v'] % 2], op['size'][2], **kw)
        else:
            if op['form']:
                kw['formulation'] = op['form']
            if op['noise'] is not None:
                kw['noise_known'] = op['noise']
            E.SparseCovarianceMatching(w.arr[0], w.wl, w.grids[op['v'] % 2], **kw)
        return 'constructed'

    def check(self, ctx, c, op, out):
        if not ctx.avail:
            ctx.sim.probe('solver-missing')
        if op['kind'] == 'public':
            if not ctx.avail and out.ok:
                for m in ctx.public:
                    W.same(out.value.get(m), ctx.public[m], 'public names of ' + m)
            return
        if out.faulted and not out.ok:
            return
        if op.get('lib'):
            C.same_value(out.value, ctx.exp[op['id']], 'op %s without the solver' % op['kind'], tol=1e-9)
            ctx.sim.probe('equal-to-available')
            return
        if ctx.avail:
            if not out.ok:
                raise W.Violation('unexpected-exception', 'the solver is available, but %s raised %r'
                                  % (op['kind'], out.exc))
            return
        if out.ok or not isinstance(out.exc, RuntimeError) or isinstance(out.exc, (NotImplementedError,
                                                                                    RecursionError)):
            raise W.Violation('wrong-rejection', 'constructing %s without the solver: %s' % (
                op['kind'], 'succeeded' if out.ok else 'raised %r' % out.exc))
        ctx.sim.probe('rejected-with-RuntimeError')

    def final(self, ctx):
        m = ctx.plan['mode']
        ctx.sim.note_fault('import-' + ('none' if m['none'] else m['exc']) +
                           ('' if m['names'] == ['cvxpy'] else '-inside'))

    def nontrivial(self, r):
        return True


PROP = C21()
