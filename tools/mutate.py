"""Systematic small mutations of the library, to find what the checks do not see.

usage: mutate.py OUT.jsonl [--sample N] [--seed S] [FILE ...]     (files relative to doatools/)

Every mutant that still passes the repository's tests is tried, in a scratch
copy, on the checks its file matters to (with fewer runs than the quick tier).
What survives is listed for a person to judge: many mutants change nothing
anybody can observe.
"""
import ast, concurrent.futures as cf, json, os, queue, random, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

LIB = '/repo/doatools'
CHECKS = {
    'estimation/beamforming.py': 'C05 C19 C07', 'estimation/coarray.py': 'C10 C19', 'estimation/core.py': 'C06 C05 C07 C08 C11 C19 C22',
    'estimation/esprit.py': 'C14 C19 C18', 'estimation/grid.py': 'C04 C07 C06 C19', 'estimation/min_norm.py': 'C05 C07',
    'estimation/ml.py': 'C08 C19 C12 C17 C18', 'estimation/music.py': 'C05 C14 C07 C19', 'estimation/preprocessing.py': 'C18 C19 C22',
    'estimation/source_number.py': 'C15', 'estimation/sparse.py': 'C09 C21 C22 C18 C06', 'model/array_elements.py': 'C01 C11',
    'model/arrays.py': 'C02 C01 C11 C19', 'model/coarray.py': 'C10', 'model/perturbations.py': 'C02 C01 C11',
    'model/signals.py': 'C13 C12 C11', 'model/snapshots.py': 'C11 C13 C12', 'model/sources.py': 'C03 C01 C20', 'optim/l1lsq.py': 'C09 C21 C22 C18',
    'performance/crb.py': 'C16', 'performance/mse.py': 'C16 C17', 'performance/utils.py': 'C16 C17', 'plotting/plot_array.py': 'C20',
    'plotting/plot_spectrum.py': 'C20', 'utils/conversion.py': 'C03 C01', 'utils/math.py': 'C13 C08 C05 C10 C16'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
CMPT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
        ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '+'),
       ast.Pow: ('**', '*')}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def off(line, col):
        return starts[line - 1] + col
    out = []

    def put(a, b, new, kind, node):
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(s, path, 'exec')
        except SyntaxError:
            return
        out.append({'line': node.lineno, 'kind': kind, 'old': raw[a:b].decode()[:90], 'new': new[:90], 'src': s})

    def between(x, y, tok, new, kind, node):
        a, b = off(x.end_lineno, x.end_col_offset), off(y.lineno, y.col_offset)
        i = raw[a:b].decode().find(tok)
        if i >= 0:
            put(a + i, a + i + len(tok), new, kind + ' ' + tok + ' -> ' + new, node)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP[type(n.ops[0])]:
                between(n.left, n.comparators[0], CMPT[type(n.ops[0])], r, 'cmp', n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            t, r = BIN[type(n.op)]
            between(n.left, n.right, t, r, 'bin', n)
        elif isinstance(n, ast.BoolOp):
            t, r = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], t, r, 'bool', n)
        elif isinstance(n, ast.UnaryOp):
            put(a, b, raw[off(n.operand.lineno, n.operand.col_offset):off(n.operand.end_lineno, n.operand.end_col_offset)].decode(), 'unary', n)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), 'const', n)
            elif isinstance(n.value, int):
                put(a, b, str(n.value + 1), 'const', n)
                if n.value > 0:
                    put(a, b, str(n.value - 1), 'const', n)
            elif isinstance(n.value, (float, complex)):
                put(a, b, '(2*%s)' % raw[a:b].decode(), 'const', n)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('conj', 'copy', 'squeeze', 'flatten', 'ravel', 'astype'):
                v = n.func.value
                put(a, b, raw[off(v.lineno, v.col_offset):off(v.end_lineno, v.end_col_offset)].decode(), 'drop .%s' % n.func.attr, n)
            for kw in n.keywords:
                if kw.arg:
                    x, y = off(kw.lineno, kw.col_offset), off(kw.end_lineno, kw.end_col_offset)
                    while raw[x - 1:x] in b' \n\t':
                        x -= 1
                    if raw[x - 1:x] == b',':
                        put(x - 1, y, '', 'drop keyword', n)
        elif isinstance(n, ast.Attribute) and n.attr in ('real', 'T', 'imag'):
            v = n.value
            put(a, b, raw[off(v.lineno, v.col_offset):off(v.end_lineno, v.end_col_offset)].decode(), 'drop .%s' % n.attr, n)
        elif isinstance(n, (ast.If, ast.While)):
            x, y = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
            put(x, y, 'False', 'if -> False', n)
            if isinstance(n, ast.If):
                put(x, y, 'True', 'if -> True', n)
        elif isinstance(n, ast.IfExp):
            x, y = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
            put(x, y, 'not (%s)' % raw[x:y].decode(), 'ifexp', n)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(a, b, 'pass', 'drop statement', n)
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            put(off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), 'pass', 'drop raise', n)
    seen, res = set(), []
    for m in out:
        if m['src'] not in seen:
            seen.add(m['src'])
            res.append(m)
    return res


def work(pool, f, m):
    copy = pool.get()
    p = os.path.join(copy, 'doatools', f)
    keep = open(p).read()
    r = {k: m[k] for k in ('line', 'kind', 'old', 'new')}
    r['file'] = f
    try:
        open(p, 'w').write(m['src'])
        try:
            t = plant.sh([plant.PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'doatools/tests'], cwd=copy,
                         env={'PYTHONPATH': copy, 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}, timeout=120).returncode
        except subprocess.TimeoutExpired:
            t = 1
        if t:
            r['by'] = 'tests'
            return r
        r['by'] = None
        for c in CHECKS[f].split():
            n = {'C17': 60, 'C20': 110, 'C21': 80, 'C22': 200, 'C09': 250}.get(c, 400)
            rc, v, tail = plant.run_check(copy, c, {'DST_WORKERS': '1', 'DST_RUNS': str(n), 'DST_NOMIN': '1'})
            if rc:
                r['by'] = c if rc == 1 else '%s rc=%d %s' % (c, rc, tail[-200:])
                return r
        return r
    except Exception as e:
        r['by'] = 'error %r' % e
        return r
    finally:
        open(p, 'w').write(keep)
        pool.put(copy)


def main():
    a = sys.argv[1:]
    outp = a.pop(0)
    n, seed = None, 1
    files = []
    while a:
        x = a.pop(0)
        if x == '--sample':
            n = int(a.pop(0))
        elif x == '--seed':
            seed = int(a.pop(0))
        else:
            files.append(x)
    jobs = [(f, m) for f in files or sorted(CHECKS) for m in mutants(os.path.join(LIB, f))]
    print(len(jobs), 'mutants')
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:n] if n else jobs
    tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    pool = queue.Queue()
    try:
        for i in range(8):
            d = os.path.join(tmp, str(i))
            os.makedirs(d)
            subprocess.run(['cp', '-a', '/repo', os.path.join(d, 'repo')], check=True)
            pool.put(os.path.join(d, 'repo'))
        with cf.ThreadPoolExecutor(8) as ex, open(outp, 'a') as o:
            for fu in cf.as_completed([ex.submit(work, pool, f, m) for f, m in jobs]):
                o.write(json.dumps(fu.result()) + '\n')
                o.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
