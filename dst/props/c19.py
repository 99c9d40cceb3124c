"""Interrupt any operation anywhere; afterwards every shared object must behave
like a freshly created one."""
from .. import catalog as C
from .. import world as W
from . import spec as S
import numpy as np

# Objects without memory: faults there are cheap to explore but rarely telling.
STATEFUL = ['steer', 'derive', 'free', 'grid', 'refine', 'spectrum', 'spectrum', 'spectrum', 'spectrum',
            'ml', 'weight', 'weight', 'acm', 'acm', 'sparse', 'group', 'src', 'rootmusic', 'esprit', 'snap',
            'geometry']
HARD = ('kbd', 'mem', 'cancel')


class C19(W.PropBase):
    id = 'C19'
    runs = {'quick': 900, 'thorough': 60000}
    stubs = ['a deterministic signal generator that hands out its own buffer']

    def gen(self, rng):
        spec = C.gen_world(rng)
        kinds = STATEFUL if rng.random() < 0.7 else C.KINDS
        if rng.random() < 0.4:
            # Few kinds, so that the same objects are hit again and again.
            kinds = rng.sample(sorted(set(kinds)), 2)
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                op = C.gen_op(rng, spec, kinds)
                ops.append(op)
                if rng.random() < 0.4:
                    # The same call again, possibly with other arguments.
                    ops.append(dict(op) if rng.random() < 0.6 else dict(op, v=(op['v'] + 1) % 12))
            clients.append(ops)
        for ops in clients:
            for op in ops:
                op['recheck'] = True
        return {'spec': spec, 'clients': clients, 'redo': 8, 'cfg': {'nfaults': [1, 2, 3, 4, 6]}}

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.w = C.World(plan['spec'], len(plan['clients']) + 1)
        ctx.cache = {}
        ctx.err = np.geterr()
        return ctx

    def run_op(self, ctx, c, op):
        # Re-tries after the faults stopped use the objects that were interrupted.
        o = op.get('owner', c.idx)
        if op.get('redo'):
            o = [i for i, ops in enumerate(ctx.plan['clients']) for x in ops if x['id'] == op['id']][0]
        return C.run(ctx.w, op, o)

    def expected(self, ctx, op):
        key = (op['kind'], op['i'], op['j'], op['k'], op['v'], op['b'])
        if key not in ctx.cache:
            try:
                ctx.cache[key] = (True, C.run(C.World(ctx.plan['spec'], 1), op, 0))
            except Exception as e:
                ctx.cache[key] = (False, e)
        return ctx.cache[key]

    def check(self, ctx, c, op, out):
        # The numerical error handling of the calling thread outlives the call.
        W.same(np.geterr(), ctx.err, 'numerical error handling after op %s (%s)' % (op['kind'], out.status))
        if out.faulted and any(isinstance(e, BaseException) for e in out.fired):
            # A fault that strikes while another one unwinds replaces it (the
            # clean-up of a with statement, the closing of a generator).
            live = [e for n, e in enumerate(out.fired)
                    if not any(self.replaced_by(e, f) for f in out.fired[n + 1:])]
            hard = [e for e in live if not isinstance(e, (np.linalg.LinAlgError, FloatingPointError))]
            if not out.ok:
                if hard and out.exc is not hard[-1] and not self.chained(out.exc, hard[-1]):
                    raise W.Violation('fault-replaced', 'injected %r in %s, the caller received %r'
                                      % (hard[-1], op['kind'], out.exc))
                return
            if hard:
                raise W.Violation('fault-swallowed', 'injected %r in %s never reached the caller'
                                  % (out.fired, op['kind']))
            # A numerical failure the library recovered from: the result counts.
        ok, exp = self.expected(ctx, op)
        if not ok:
            raise W.Violation('wrong-result', 'the call succeeds after the history, but fails on fresh objects '
                              'with %r: %r' % (exp, op))
        got = out.value
        if op['kind'] in ('sparse', 'group'):
            # Defined up to the accuracy of the convex solver; C09 looks closely.
            W.same(len(got), len(exp), 'parts of the result')
            # The estimates are those of the returned spectrum.
            sp = np.asarray(got[-1])
            pk = S.ref_peaks(sp) if np.max(np.abs(sp)) > 1e-6 else None
            if pk is not None:
                W.same(bool(got[0]), len(pk) >= op['k'], 'resolved (%d peaks, %d sources)' % (len(pk), op['k']))
            W.close(got[-1], exp[-1], 'spectrum of op %s (v=%d i=%d j=%d) after the history' % (
                op['kind'], op['v'], op['i'], op['j']), rtol=0.05, atol=1e-3)
            ctx.sim.probe('equal-to-fresh-sparse')
            return
        C.same_value(got, exp, 'op %s (v=%d i=%d j=%d) after the history' % (
            op['kind'], op['v'], op['i'], op['j']))
        ctx.sim.probe('equal-to-fresh')

    @staticmethod
    def replaced_by(e, later):
        n = 0
        c = getattr(later, '__context__', None)
        while c is not None and n < 50:
            if c is e:
                return True
            c, n = c.__context__, n + 1
        return False

    @staticmethod
    def chained(e, inner):
        """Wrapped in another interruption of the same kind."""
        return isinstance(e, type(inner)) and not isinstance(inner, Exception)


PROP = C19()
