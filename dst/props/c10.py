from .. import ref, world as W
import numpy as np

import doatools.estimation.coarray as CE


def diff_map(ind):
    """difference -> ascending indices into vec of the M x M matrix, whose entry
    i*M + j (column i, row j) has the difference x_j - x_i."""
    m = len(ind)
    d = {}
    for i in range(m):
        for j in range(m):
            d.setdefault(ind[j] - ind[i], []).append(i * m + j)
    return d


def central(d):
    n = 0
    while n in d:
        n += 1
    return n


def acm(d, R, method):
    n = central(d)
    r = np.asarray(R).reshape(-1, order='F')
    z = {q: sum(r[i] for i in d[q]) / len(d[q]) for q in range(-n + 1, n)}
    T = np.array([[z[i - j] for j in range(n)] for i in range(n)], dtype=complex)
    if method == 'da':
        return T
    S = np.zeros((n, n), dtype=complex)
    for t in range(n):
        v = np.array([z[i - t] for i in range(n)])
        S += np.outer(v, v.conj())
    return S / n


class C10(W.PropBase):
    id = 'C10'
    runs = {'quick': 1500, 'thorough': 100000}

    def gen_arr(self, rng):
        wl = W.gen_wl(rng)
        k = rng.choice(['ula', 'nested', 'coprime', 'mrla', 'g', 'g', 'g'])
        if k != 'g':
            a = W.gen_array(rng, wl, kinds=[k], max_m=9)
        else:
            n = rng.randint(1, 7) if rng.random() < 0.93 else rng.randint(8, 40)
            lo = rng.choice([0, 0, -5, 3])
            ind = rng.sample(range(lo, lo + rng.choice([n, n + 2, 2 * n + 3])), n)
            if rng.random() < 0.12:
                # Far apart: beyond the range of small integer types.
                n = rng.randint(2, 5)
                top = rng.choice([200, 300, 20000, 40000, 70000, 10 ** 6, 3 * 10 ** 9])
                # (locations that close together in relation to their size count as equal in 'udiff')
                ind = [0, 1, top] + [rng.randrange(2, top) for _ in range(n)]
                ind = list(dict.fromkeys(-i if rng.random() < 0.1 else i for i in ind))
                n = len(ind)
            elif rng.random() < 0.015:
                # Weights beyond the range of small integer types.
                n = rng.choice([rng.randint(120, 140), rng.randint(250, 270)])
                ind = rng.sample(range(n + rng.randint(0, 5)), n)
            if rng.random() < 0.5:
                ind.sort()
            a = {'kind': 'grid', 'd0': W.f(rng.uniform(.2, 1)), 'indices': [[i] for i in ind],
                 'elem': 'iso', 'name': rng.choice([None, 'g'])}
            a['perts'] = W.gen_perts(rng, n, 1) if rng.random() < 0.4 else []
            a['form'] = 'list'
            if a['name'] is None:
                del a['name']
        return a

    def gen(self, rng):
        arrays = [self.gen_arr(rng) for _ in range(rng.randint(1, 2))]
        clients = [[self.gen_op(rng, rng.randrange(len(arrays)), arrays)
                    for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 4))]
        return {'arrays': arrays, 'clients': clients}

    def gen_op(self, rng, ai, arrays):
        m = W.n_elements(arrays[ai])
        kind = rng.choice(['diffs', 'weights', 'weight', 'indices', 'indices', 'ula', 'ula', 'sel', 'sel',
                           'len', 'acm', 'acm', 'acm', 'sizes', 'vula', 'bad', 'new', 'udiff', 'stream'])
        if m > 100:
            kind = rng.choice(['diffs', 'weights', 'weights', 'weight', 'indices', 'ula', 'len', 'vula'])
        op = {'kind': kind, 'a': ai, 'scribble': rng.random() < 0.5, 'pos': rng.random() < 0.5,
              'q': rng.choice([rng.randint(-20, 20)] * 3 + [rng.randint(-90, 90)]), 'np': rng.random() < 0.3, 'call': rng.random() < 0.5,
              'method': rng.choice(['ss', 'da', None])}
        if kind in ('acm', 'stream'):
            op['R'] = W.gen_cov(rng, m, modes=('random', 'real'))
            op['R']['herm'] = rng.random() < 0.8
            op['R']['int'] = kind == 'acm' and rng.random() < 0.15
        if kind == 'stream':
            op['R2'] = W.gen_cov(rng, m, modes=('random',))
            # Entries the second matrix has in common with the first.
            op['keep'] = rng.choice(['none', 'none', 'corners', 'row', 'all but one', 'diagonal'])
        if kind == 'bad':
            op['bad'] = rng.choice(['shape', 'method', 'vector'])
            op['expect_exc'] = True
        return op

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.arrays = [W.make_array(a) for a in plan['arrays']]
        ctx.w = [W.COA.WeightFunction1D(a) for a in ctx.arrays]
        ctx.b = [CE.CoarrayACMBuilder1D(a) for a in ctx.arrays]
        ctx.map = [diff_map([r[0] for r in ref.indices(a)]) for a in plan['arrays']]
        return ctx

    @staticmethod
    def R(spec):
        R = W.cov(spec)
        if spec.get('int'):
            # Whole numbers, of an integer type.
            return np.round(10 * R.real).astype(np.random.RandomState(spec['seed']).choice(['i8', 'i4']))
        if spec.get('herm') is False:
            R = R + np.random.RandomState(spec['seed']).randn(*R.shape)
        return R

    def R2(self, op):
        R, S = self.R(op['R']).astype(complex), self.R(op['R2']).astype(complex)
        k = op['keep']
        m = len(R)
        if k == 'corners':
            i = np.ix_([0, -1], [0, -1])
            S[i] = R[i]
        elif k == 'row':
            S[0], S[:, 0] = R[0], R[:, 0]
        elif k == 'diagonal':
            S.flat[::m + 1] = R.flat[::m + 1]
        elif k == 'all but one':
            x = S[m // 2, (m - 1) // 2]
            S = R.copy()
            S[m // 2, (m - 1) // 2] = x
        return S

    def run_op(self, ctx, c, op):
        w, b, arr = ctx.w[op['a']], ctx.b[op['a']], ctx.arrays[op['a']]
        k = op['kind']
        q = np.int64(op['q']) if op['np'] else op['q']
        if k == 'diffs':
            return w.differences()
        if k == 'weights':
            return w.weights()
        if k == 'weight':
            return w(q) if op['call'] else w.weight_of(q)
        if k == 'indices':
            return w.indices_of(q)
        if k == 'ula':
            return w.get_central_ula_size(op['pos']) if op['call'] or op['pos'] else w.get_central_ula_size()
        if k == 'sel':
            return w.get_coarray_selection_matrix(op['pos']) if op['pos'] else w.get_coarray_selection_matrix()
        if k == 'len':
            return len(w)
        if k == 'sizes':
            return b.input_size, b.output_size
        if k == 'vula':
            return b.get_virtual_ula('v' if op['pos'] else None)
        if k == 'new':
            w = W.COA.WeightFunction1D(arr)
            return w.get_central_ula_size(True), w.differences()
        if k == 'udiff':
            return W.COA.compute_unique_location_differences(arr.element_locations)
        if k == 'bad':
            if op['bad'] == 'method':
                return b(np.eye(arr.size), 'xx')
            return b(np.eye(arr.size + 1) if op['bad'] == 'shape' else np.ones(arr.size))
        if k == 'stream':
            buf = self.R(op['R']).astype(complex)
            r1 = b(buf, op['method'] or 'ss')
            r1c = np.array(r1)
            if op['scribble']:
                r1[...] = 7.0
            buf[...] = self.R2(op)
            return r1c, b(buf, op['method'] or 'ss')
        kw = {} if op['method'] is None else {'method': op['method']}
        R = self.R(op['R'])
        return b(R, **kw) if op['call'] else b.transform(R, **kw)

    def check(self, ctx, c, op, out):
        k = op['kind']
        if not out.ok:
            return
        v = out.value
        d = ctx.map[op['a']]
        n = central(d)
        a = ctx.plan['arrays'][op['a']]
        if k == 'diffs':
            W.same(np.asarray(v).tolist(), sorted(d), 'differences')
            self.scribble(op, v)
        elif k == 'weights':
            W.same(np.asarray(v).tolist(), [len(d[q]) for q in sorted(d)], 'weights')
            self.scribble(op, v)
        elif k == 'weight':
            W.same(v, len(d.get(op['q'], [])), 'weight of %d' % op['q'])
        elif k == 'indices':
            W.same(sorted(int(i) for i in v), d.get(op['q'], []), 'indices of %d' % op['q'])
            if op['scribble'] and isinstance(v, list):
                v.append(999)
                v.reverse()
            else:
                self.scribble(op, v)
        elif k == 'ula':
            W.same(v, n if op['pos'] else 2 * n - 1, 'central ULA size')
        elif k == 'len':
            W.same(v, len(d), 'number of differences')
        elif k == 'sel':
            qs = range(0, n) if op['pos'] else range(-n + 1, n)
            m = len(ref.indices(a))
            F = np.zeros((len(qs), m * m))
            for i, q in enumerate(qs):
                F[i, d[q]] = 1.0 / len(d[q])
            W.close(v, F, 'selection matrix', rtol=1e-12)
            self.scribble(op, v)
        elif k == 'sizes':
            W.same(tuple(v), (len(ref.indices(a)), n), 'input and output sizes')
        elif k == 'vula':
            W.same(v.size, n, 'virtual ULA size')
            W.close(v.element_locations.reshape(-1), np.arange(n) * a['d0'], 'virtual ULA locations')
            if op['pos'] or ctx.arrays[op['a']].name is not None:
                W.same(v.name, 'v' if op['pos'] else 'Virtual ULA of ' + ctx.arrays[op['a']].name, 'virtual ULA name')
            W.same(bool(v.is_perturbed), False, 'virtual ULA perturbed')
        elif k == 'new':
            W.same(v[0], n, 'central ULA size')
            W.same(np.asarray(v[1]).tolist(), sorted(d), 'differences')
        elif k == 'udiff':
            if max(d) > 10 ** 6:
                return              # differences of locations are only told apart to a relative 1e-8
            got = np.asarray(v)
            W.same(got.shape, (len(d), 1), 'shape of the unique location differences')
            W.close(np.sort(got[:, 0]), np.sort([q * a['d0'] for q in d]), 'unique location differences',
                    atol=1e-12)
        elif k == 'bad':
            raise W.Violation('bad-accepted', 'builder accepted a bad %s' % op['bad'])
        elif k == 'stream':
            W.close(v[0], acm(d, self.R(op['R']), op['method'] or 'ss'), 'first augmented covariance')
            W.close(v[1], acm(d, self.R2(op), op['method'] or 'ss'), 'second augmented covariance')
        elif k == 'acm':
            W.close(v, acm(d, self.R(op['R']), op['method'] or 'ss'), 'augmented covariance (%s)' % op['method'])
            self.scribble(op, v)

    def scribble(self, op, v):
        if op['scribble'] and isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 77


PROP = C10()
