from .. import ref, world as W
import numpy as np


class C02(W.PropBase):
    id = 'C02'
    runs = {'quick': 1000, 'thorough': 60000}
    long_n = [20, 30]

    def gen(self, rng):
        wl = W.gen_wl(rng)
        elems = ['iso'] * 3 + ['cos', 'vec2', 'vec3', 'own', 'ivec', 'vec6']
        arrays = [W.gen_array(rng, wl, elems=elems, custom=0.3, min_m=1) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3:
            arrays.append(W.twin_array(rng, arrays[0], wl))
        clients = []
        for _ in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(1, 5)):
                ops.append(self.gen_op(rng, arrays, wl))
            clients.append(ops)
        return {'arrays': arrays, 'clients': clients, 'every': rng.choice([0, 0, 1, 3])}

    def gen_op(self, rng, arrays, wl):
        ai = rng.randrange(len(arrays))
        a = arrays[ai]
        m = W.n_elements(a)
        types = ['loc'] + (['gain', 'phase', 'coupling'] if ref.RESP_SIZE[a['elem']] == 1 else [])
        if rng.random() < 0.25:
            types.append('custom')
        # Which array of the family (resolved at run time among those created).
        op = {'a': ai, 'of': rng.randrange(64)}
        u = rng.random()
        if rng.random() < 0.06:
            op['kind'] = 'illegal'
            op['what'] = rng.choice(['ndim', 'cols', 'coprime', 'mode', 'mrla', 'dup', 'd0', 'bases'])
            op['x'] = [rng.randint(2, 4), rng.randint(1, 4)]
            op['expect_exc'] = ['ValueError', 'RuntimeError']
        elif rng.random() < 0.02:
            op['kind'] = 'table'
            op['d0'] = wl / 2
        elif u < 0.4:
            op['kind'] = 'derive'
            op['perts'] = [W.gen_pert(rng, t, m, wl) for t in
                           rng.sample(types, rng.randint(0, len(types)))]
            op['form'] = rng.choice(['list', 'dict'])
            op['name'] = rng.choice([None, 'copy-%d' % rng.randrange(50), 'copy-%d' % rng.randrange(50), ''])
        elif u < 0.52:
            op['kind'] = 'free'
            op['name'] = rng.choice([None, 'free-%d' % rng.randrange(50), 'free-%d' % rng.randrange(50), ''])
        elif u < 0.68:
            # Derivation rejected part-way: good ones first, then one that does not fit.
            op['kind'] = 'bad'
            op['expect_exc'] = ['ValueError', 'RuntimeError']
            good = [W.gen_pert(rng, t, m, wl) for t in rng.sample(types, rng.randint(0, len(types)))]
            bad = W.gen_pert(rng, rng.choice([t for t in types if t != 'custom']), m, wl)
            bad['m'] = m + rng.choice([1, 2])
            if m > 2 and rng.random() < 0.4:
                bad['m'] = m - 1
            if ref.RESP_SIZE[a['elem']] > 1 and rng.random() < 0.5:
                bad = W.gen_pert(rng, rng.choice(['gain', 'phase', 'coupling']), m, wl)
            if ref.RESP_SIZE[a['elem']] == 1 and rng.random() < 0.3:
                bad = dict(W.gen_pert(rng, 'coupling', m, wl), square=False)
            op['perts'] = good + [bad]
            op['form'] = 'list'
            if len({p['type'] for p in op['perts'] if p['type'] != 'custom'}) == len(op['perts']) and rng.random() < 0.3:
                op['form'] = 'dict'
        elif u < 0.78:
            op['kind'] = 'construct'
            op['spec'] = dict(a, perts=W.gen_perts(rng, m, 1, ref.RESP_SIZE[a['elem']] == 1, wl=wl))
        elif u < 0.88:
            op['kind'] = 'scribble'
            op['what'] = rng.choice(['nominal', 'actual', 'indices'])
        else:
            op['kind'] = 'read'
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.fam = []
        for a in plan['arrays']:
            arr = W.make_array(a)
            ctx.fam.append([self.rec(arr, a, a['perts'], a.get('name') or arr.name)])
        ctx.checked = 0
        return ctx

    @staticmethod
    def rec(arr, spec, perts, name):
        return {'arr': arr, 'spec': spec, 'perts': perts, 'name': name,
                'plist': [id(p) for p in arr.perturbations]}

    def pick(self, ctx, op):
        fam = ctx.fam[op['a']]
        if 'target' not in op:
            return fam[op['of'] % len(fam)]
        return fam[op['target']]

    def run_op(self, ctx, c, op):
        r = self.pick(ctx, op)
        op['_rec'] = ctx.fam[op['a']].index(r)
        arr = r['arr']
        k = op['kind']
        if k in ('derive', 'bad'):
            return arr.get_perturbed_copy(W.make_perts(op['perts'], op['form']), *([op['name']] if op.get('name') is not None else []))
        if k == 'free':
            return arr.get_perturbation_free_copy(*([op['name']] if op.get('name') is not None else []))
        if k == 'construct':
            return W.make_array(op['spec'])
        if k == 'table':
            return [W.ARR.MinimumRedundancyLinearArray(i + 1, op['d0']) for i in range(len(ref.MRLA))]
        if k == 'illegal':
            x, y = op['x']
            if op['what'] == 'ndim':
                return W.ARR.ArrayDesign(np.arange(float(x * y)).reshape(x, y, 1), 'a')
            if op['what'] == 'cols':
                return W.ARR.ArrayDesign(np.arange(x * (3.0 + y)).reshape(x, 3 + y), 'a')
            if op['what'] == 'coprime':
                return W.ARR.CoPrimeArray(x, x * (y + 1) if y < 3 else x, 1.0)
            if op['what'] == 'dup':
                v = [W.PER.GainErrors, W.PER.PhaseErrors][y % 2]
                return W.ARR.UniformLinearArray(x, 1.0, perturbations=[v(np.full(x, 0.1)), v(np.full(x, 0.2))])
            if op['what'] == 'd0':
                return W.ARR.GridBasedArrayDesign(np.arange(x)[:, np.newaxis], [1.0] * (1 + y))
            if op['what'] == 'bases':
                return W.ARR.GridBasedArrayDesign(np.arange(x * y).reshape(x, y), bases=np.eye(y + 1))
            if op['what'] == 'mode':
                return W.ARR.CoPrimeArray(2, 3, 1.0, 'n')
            return W.ARR.MinimumRedundancyLinearArray(20 + y if x > 2 else 1 - y, 1.0)
        if k == 'scribble':
            if op['what'] == 'nominal':
                x = arr.element_locations
            elif op['what'] == 'actual':
                x = arr.actual_element_locations
            else:
                x = arr.element_indices if hasattr(arr, 'element_indices') else arr.element_locations
            x *= 0
            x -= 77
            return None
        return self.snapshot(arr)

    @staticmethod
    def snapshot(arr):
        d = {'nom': arr.element_locations, 'act': arr.actual_element_locations, 'size': arr.size,
             'name': arr.name, 'ndim': arr.ndim, 'andim': arr.actual_ndim,
             'perturbed': arr.is_perturbed, 'out': arr.output_size,
             'meta': [getattr(arr, q, None) for q in ('n1', 'n2', 'coprime_pair', 'mode', 'radius', 'shape')]}
        for t, cls in W.PCLS.items():
            if arr.has_perturbation(cls):
                d[t] = (arr.get_perturbation_params(cls), arr.is_perturbation_known(cls))
        d['n'] = len(arr.perturbations)
        return d

    def check(self, ctx, c, op, out):
        r = ctx.fam[op['a']][op['_rec']]
        if out.ok:
            if op['kind'] == 'bad':
                raise W.Violation('bad-accepted', 'a perturbation that does not fit was accepted: %r' % op)
            if op['kind'] == 'derive':
                ctx.fam[op['a']].append(self.rec(out.value, r['spec'], ref.derive(r['perts'], op['perts']),
                                                 r['name'] if op['name'] is None else op['name']))
                W.expect(out.value is not r['arr'], 'get_perturbed_copy returned the array itself')
            elif op['kind'] == 'free':
                ctx.fam[op['a']].append(self.rec(out.value, r['spec'], [], r['name'] if op['name'] is None else op['name']))
            elif op['kind'] == 'construct':
                self.verify(out.value, op['spec'], op['spec']['perts'], op['spec'].get('name'))
            elif op['kind'] == 'illegal':
                raise W.Violation('illegal-accepted', 'an array design that does not exist was created: %s %s' % (op['what'], op['x']))
            elif op['kind'] == 'table':
                for i, arr in enumerate(out.value):
                    W.close(arr.element_locations, np.array(ref.MRLA[i])[:, np.newaxis] * op['d0'], 'tabulated array %d' % (i + 1))
            elif op['kind'] == 'read':
                self.cmp(out.value, r['spec'], r['perts'], r['name'])
        self.invariant(ctx)

    def invariant(self, ctx):
        for fam in ctx.fam:
            for r in fam:
                self.verify(r['arr'], r['spec'], r['perts'], r['name'])

    _cache = {}

    def expected(self, spec, perts):
        key = repr((spec, perts))
        e = self._cache.get(key)
        if e is None:
            e = (ref.locations(spec), ref.actual_locations(spec, perts),
                 [ref.pert_values(p) for p in perts])
            if len(self._cache) > 300:
                self._cache.clear()
            self._cache[key] = e
        return e

    def verify(self, arr, spec, perts, name):
        d = self.snapshot(arr)
        self.cmp(d, spec, perts, name)
        if spec['kind'] not in ('custom', 'uca'):
            W.close(arr.element_indices, ref.indices(spec), 'element indices')
        if spec['kind'] in ('ula', 'nested', 'coprime', 'mrla', 'ura') or \
                (spec['kind'] == 'grid' and spec.get('bases') is None):
            W.close(arr.bases, ref.bases(spec), 'bases')
        if spec['kind'] not in ('custom', 'uca'):
            W.close(arr.d0, np.linalg.norm(ref.bases(spec), axis=1), 'spacings')

    def cmp(self, d, spec, perts, name):
        nom, act, vals = self.expected(spec, perts)
        W.close(d['nom'], nom, 'nominal locations of %s' % name)
        W.close(d['act'], act, 'actual locations of %s' % name)
        W.same(d['size'], len(nom), 'size')
        W.same(d['out'], len(nom) * ref.RESP_SIZE[spec['elem']], 'output size')
        W.same(d['ndim'], nom.shape[1], 'ndim')
        W.same(d['andim'], act.shape[1], 'actual_ndim')
        W.same(bool(d['perturbed']), len(perts) > 0, 'is_perturbed')
        W.same(d['n'], len(perts), 'number of perturbations')
        if name is not None:
            W.same(d['name'], name, 'name')
        k, meta = spec['kind'], [None] * 6
        if k == 'nested':
            meta[:2] = spec['n1'], spec['n2']
        elif k == 'coprime':
            meta[2:4] = tuple(sorted((spec['m'], spec['n']))), spec['mode']
        elif k == 'uca':
            meta[4] = spec['r']
        elif k == 'ura':
            meta[5] = (spec['m'], spec['n'])
        W.same(d['meta'], meta, 'design parameters')
        for t in W.PCLS:
            q = [(p, v) for p, v in zip(perts, vals) if p['type'] == t]
            if not q:
                W.expect(t not in d, 'array reports a %s perturbation it was never given' % t)
                continue
            W.expect(t in d, 'array lost its %s perturbation' % t)
            W.close(d[t][0], q[0][1], '%s parameters' % t)
            W.same(d[t][1], q[0][0]['known'], '%s known flag' % t)

    def final(self, ctx):
        self.invariant(ctx)


PROP = C02()
