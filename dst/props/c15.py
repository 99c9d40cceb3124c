"""Source-number detectors."""
import math

from .. import ref, world as W
import numpy as np

import doatools.estimation.source_number as SN

FN = {'aic': SN.aic, 'mdl': SN.mdl, 'sorte': SN.sorte}


def criteria(typ, w, n):
    """(candidate counts, criterion values) from the eigenvalues."""
    x = [float(v) for v in np.sort(np.asarray(w, float))[::-1]]    # descending
    m = len(x)
    if typ == 'sorte':
        g = [x[i] - x[i + 1] for i in range(m - 1)]
        var = []
        for k in range(1, m):
            t = g[k - 1:]
            mu = sum(t) / len(t)
            var.append(sum((v - mu) ** 2 for v in t) / len(t))
        tiny = (1e-14 * m * abs(x[0])) ** 2
        ks = list(range(1, m - 2))
        return ks, [math.inf if var[k - 1] <= tiny else var[k] / var[k - 1] for k in ks]
    out = []
    for d in range(m):
        t = x[d:]
        q = len(t)
        ld = n * q * (math.log(sum(t) / q) - sum(math.log(v) for v in t) / q)
        out.append(ld + (d * (2 * m - d) if typ == 'aic' else
                         0.5 * (d * (2 * m - d) + 1) * math.log(n)))
    return list(range(m)), out


class C15(W.PropBase):
    id = 'C15'
    runs = {'quick': 3000, 'thorough': 100000}
    long = 0
    assumptions = W.PropBase.assumptions + [
        'minimisers are compared unless two criterion values tie to 1e-9 relative',
        'detection in noise is decided where error probabilities are below about 1e-7: at least four noise '
        'eigenvalues, 1000 or more snapshots; SORTE at 40 dB or more']

    def gen(self, rng):
        wl = W.gen_wl(rng)
        data = [self.gen_data(rng, wl) for _ in range(rng.randint(1, 4))]
        clients = [[self.gen_op(rng, data) for _ in range(rng.randint(1, 6))]
                   for _ in range(rng.randint(1, 3))]
        return {'wl': wl, 'data': data, 'clients': clients, 'ro': rng.random() < 0.3}

    def gen_data(self, rng, wl):
        t = rng.choice(['eig', 'eig', 'cov', 'cov', 'sim', 'sim'])
        d = {'t': t, 'seed': rng.randrange(10 ** 6), 'm': rng.choice([4, 5, 6, 8, 12, 20, 64])}
        if t == 'eig':
            d['mode'] = rng.choice(['signal', 'signal', 'flat', 'int', 'close', 'view', 'wide', 'wider', 'clusters'])
            d['k'] = rng.randint(0, d['m'] - 1)
            d['scale'] = rng.choice([1.0, 1.0, 1e-9, 1e-6, 1e7])
            return d
        if t == 'cov':
            d['m'] = min(d['m'], 12)
            d['order'] = rng.choice(['C', 'F', 'view'])
            d['scale'] = rng.choice([1.0, 1e-7, 1e6])
            return d
        d['array'] = W.gen_array(rng, wl, kinds=['ula', 'ula', 'nested', 'uca'], min_m=6, max_m=9, perts=False,
                                 half=True)
        m = W.n_elements(d['array'])
        d['k'] = rng.randint(1, min(3, m - 4))
        d['snr'] = rng.choice([20, 30, 45, 60])
        d['n'] = rng.choice([1000, 3000])
        d['scale'] = rng.choice([1.0, 1e-8, 1e4])
        return d

    def gen_op(self, rng, data):
        i = rng.randrange(len(data))
        return {'kind': rng.choice(list(FN)), 'd': i, 'n': rng.choice([2, 10, 30, 100, 1000, 200000]),
                'form': rng.choice(['eig', 'cov']) if data[i]['t'] != 'eig' else 'eig'}

    def make(self, d, wl):
        rs = np.random.RandomState(d['seed'])
        if d['t'] == 'eig':
            m, k = d['m'], d['k']
            w = rs.uniform(0.8, 1.2, m)
            if d['mode'] == 'int':
                return np.sort(rs.randint(1, 10 ** rs.randint(1, 6), m)), None
            if d['mode'] == 'flat':
                w = np.ones(m)
            if d['mode'] == 'wide':
                return np.sort(10.0 ** rs.uniform(-rs.uniform(0.1, 6), 2, m)) * d['scale'], None
            if d['mode'] == 'wider':
                # Up to the dynamic range of double precision.
                return np.sort(10.0 ** rs.uniform(-rs.uniform(6, 14), 0, m)) * d['scale'], None
            if d['mode'] == 'clusters':
                return np.sort(rs.choice([1, 2, 4, 9, 30], m).astype(float)) * d['scale'], None
            if d['mode'] == 'close':
                w = 1 + 1e-3 * rs.uniform(-1, 1, m)
            w[m - k:] += rs.uniform(0.5, 50, k)
            w = np.sort(w) * d['scale']
            if d['mode'] == 'view':
                big = np.zeros(2 * m)
                big[::2] = w
                w = big[::2]
            return w, None
        if d['t'] == 'cov':
            R = W.cov({'m': d['m'], 'seed': d['seed'], 'mode': 'random', 'order': d['order'],
                       'scale': d['scale']})
            return np.linalg.eigvalsh(R), R
        # Simulated measurements through the library.
        a = W.make_array(d['array'])
        k = d['k']
        s = W.SRC.FarField1DSourcePlacement(np.linspace(-0.9, 0.7, 3)[:k] + 0.05 * rs.rand(k))
        p = d['scale'] * rs.uniform(1, 2, k)
        q = d['scale'] * 10 ** (-d['snr'] / 10.0)
        Y = W.SNP.get_narrowband_snapshots(a, s, wl, W.SIG.ComplexStochasticSignal(k, p),
                                           W.SIG.ComplexStochasticSignal(a.size, q), d['n'])
        R = Y @ Y.conj().T / d['n']
        return np.linalg.eigvalsh(R), R

    def setup(self, plan):
        ctx = W.Ctx()
        ctx.plan = plan
        ctx.data = [self.make(d, plan['wl']) for d in plan['data']]
        ctx.priv = [np.array(w) for w, _ in ctx.data]
        ctx.ratio = []
        if plan['ro']:
            for w, R in ctx.data:
                w.setflags(write=False)
                if R is not None:
                    R.setflags(write=False)
        return ctx

    def run_op(self, ctx, c, op):
        w, R = ctx.data[op['d']]
        x = w if op['form'] == 'eig' else R
        d = ctx.plan['data'][op['d']]
        if op['kind'] == 'sorte':
            return SN.sorte(x)
        return FN[op['kind']](x, d['n'] if d['t'] == 'sim' else op['n'])

    def check(self, ctx, c, op, out):
        if not out.ok:
            return
        d = ctx.plan['data'][op['d']]
        if op['kind'] == 'sorte' and d.get('mode') == 'wider':
            return          # its variances are rounding errors
        w = ctx.priv[op['d']]
        n = d['n'] if d['t'] == 'sim' else op['n']
        ks, v = criteria(op['kind'], w, n)
        W.expect(np.ndim(out.value) == 0 and int(out.value) == out.value, 'result %r is not a count' % (out.value,))
        got = int(out.value)
        fin = [x for x in v if math.isfinite(x)]
        best = min(v)
        tie = 1e-9 * (max(abs(x) for x in fin) if fin else 1.0)
        if op['kind'] == 'sorte':
            tie = 1e-6 * abs(best) if fin else 0.0
            # Rounding errors in the eigenvalues decide otherwise.
            x = np.sort(np.asarray(w, float))
            if op['form'] == 'cov' or d['t'] != 'eig':
                g = np.diff(x)
                if np.min(np.abs(g)) < 1e-9 * x[-1]:
                    tie = math.inf
                tie = max(tie, 1e-4 * abs(best))
        if d.get('mode') == 'flat' and d['k'] == 0 and op['kind'] == 'sorte':
            return          # all gaps are zero: every candidate ties
        i = ks.index(got) if got in ks else None
        if i is None:
            raise W.Violation('wrong-result', '%s reports %d sources, outside %r' % (op['kind'], got, ks))
        if not (v[i] <= best + tie or (math.isinf(best) and math.isinf(v[i]))):
            raise W.Violation('wrong-result', '%s reports %d (criterion %r), but %d has %r; eigenvalues %r, %d '
                              'snapshots' % (op['kind'], got, v[i], ks[v.index(best)], best,
                                             w.tolist(), n))
        ctx.sim.probe('decided')
        if d['t'] != 'sim':
            return
        m, k = len(w), d['k']
        if op['kind'] == 'sorte' and (d['snr'] < 40 or w[m - k] < 300 * w[m - k - 1]):
            return
        # A source buried by the others is not resolvable.
        if w[m - k] < 3 * w[m - k - 1]:
            return
        if got < k or (op['kind'] != 'aic' and got != k):
            raise W.Violation('wrong-count', '%s reports %d sources, there are %d; eigenvalues %r'
                              % (op['kind'], got, k, w.tolist()))
        ctx.sim.probe('truth-decided')


PROP = C15()
