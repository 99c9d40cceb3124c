"""Caller-owned data is watched at every scheduling step."""
from .. import catalog as C
from .. import world as W
import numpy as np


class C18(W.PropBase):
    id = 'C18'
    runs = {'quick': 900, 'thorough': 60000}
    stubs = ['a deterministic signal generator that hands out its own buffer']

    def gen(self, rng):
        spec = C.gen_world(rng)
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            clients.append([C.gen_op(rng, spec, C.KINDS + ['emit', 'emit']) for _ in range(rng.randint(1, 4))])
        return {'spec': spec, 'clients': clients, 'every': rng.choice([1, 1, 3, 7]), 'redo': 2}

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.w = C.World(plan['spec'], len(plan['clients']) + 1)
        ctx.items = []
        for k, v in ctx.w.watch():
            if isinstance(v, np.ndarray):
                ctx.items.append((k, v, v.tobytes(), v.dtype, v.shape, v.flags.writeable))
        ctx.plainvals = {k: v for k, v in ctx.w.watch() if isinstance(v, str)}
        return ctx

    def run_op(self, ctx, c, op):
        return C.run(ctx.w, op, min(c.idx, len(ctx.w.own) - 1))

    def check(self, ctx, c, op, out):
        pass        # exceptions nobody injected are reported by the simulator

    def invariant(self, ctx):
        for k, v, b, dt, sh, wr in ctx.items:
            if v.dtype != dt or v.shape != sh or v.flags.writeable != wr or v.tobytes() != b:
                raise W.Violation('input-modified', 'caller data %r changed (now dtype %s, shape %s, writeable %s)'
                                  % (k, v.dtype, v.shape, v.flags.writeable))
        for k, v in ctx.w.watch_plain():
            if v != ctx.plainvals[k]:
                raise W.Violation('input-modified', 'caller data %r changed from %s to %s'
                                  % (k, ctx.plainvals[k], v))

    def final(self, ctx):
        self.invariant(ctx)
        for k, v in ctx.w.watch():
            if k.endswith('.locations'):
                b = [i for i in ctx.items if i[0] == k][0]
                if v.tobytes() != b[2]:
                    raise W.Violation('input-modified', 'placement %r changed' % k)


PROP = C18()
