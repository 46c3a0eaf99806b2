"""Automatic mutation trials: python3 tools/automut.py SEED N [-j J] [FILE...]
Picks N random mutants (operators, constants, comparisons, deleted statements) per file, in scratch copies of /repo; runs the quick checks of the properties anchored in the file until
one reports; when none does, runs the repository's tests to see whether those do. Survivors are printed with their diff for a reader to judge (equivalent, or missed)."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('logger', 'print(', 'raise ', 'warnings', 'plt.', 'ax.', 'fig.', 'import ', 'getMemoryString', 'Error(', 'ConfigField(', 'figsize', 'title')
EXTRA = {'redmapper/utilities.py': ['C23', 'C10', 'C12', 'C04'], 'redmapper/cluster_runner.py': ['C15', 'C18', 'C22'], 'redmapper/redmapper_run.py': ['C17', 'C22'],
         'redmapper/calibration/calibrate.py': ['C22']}


def sites(src):
    t = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda l, c: off[l - 1] + len(lines[l - 1].encode()[:c].decode())
    out = []
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    for n in ast.walk(t):
        if not hasattr(n, 'lineno'):
            continue
        text = src[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)]
        line = lines[n.lineno - 1]
        if any(s in line or s in text for s in SKIP):
            continue
        def between(a, b, old, new):
            i, j = pos(a.end_lineno, a.end_col_offset), pos(b.lineno, b.col_offset)
            seg = src[i:j]
            if seg.count(old) == 1:
                out.append((i, j, seg.replace(old, new), n.lineno))
        if isinstance(n, ast.BinOp):
            for c, o, w in ((ast.Add, '+', '-'), (ast.Sub, '-', '+'), (ast.Mult, '*', '/'), (ast.Div, '/', '*'), (ast.BitAnd, '&', '|'), (ast.BitOr, '|', '&')):
                if isinstance(n.op, c) and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', None), str):
                    between(n.left, n.right, o, w)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for c, o, w in ((ast.Lt, '<', '>'), (ast.Gt, '>', '<'), (ast.LtE, '<=', '>'), (ast.GtE, '>=', '<'), (ast.Eq, '==', '!='), (ast.NotEq, '!=', '==')):
                if isinstance(n.ops[0], c):
                    between(n.left, n.comparators[0], o, w)
        elif isinstance(n, ast.BoolOp):
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], o, w)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            new = str(v + 1) if isinstance(v, int) else repr(v * 1.1 if v else 0.1)
            out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, n.lineno))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), str(not n.value), n.lineno))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n not in doc:
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                continue
            out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), 'pass', n.lineno))
    return out


def trial(job):
    path, (i, j, new, line), props, vc = job
    d = tempfile.mkdtemp(prefix='amut_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        p = os.path.join(d, 'repo', path)
        s = open(p).read()
        open(p, 'w').write(s[:i] + new + s[j:])
        diff = subprocess.run(['git', '-C', d + '/repo', 'diff', '-U0'], capture_output=True, text=True).stdout
        short = [x for x in diff.splitlines() if x[:1] in '+-' and x[:3] not in ('+++', '---')]
        e = dict(os.environ, VERIF_REPO=d + '/repo')
        for pr in props:
            try:
                r = subprocess.run([vc + '/check', pr, 'quick', '--seed', '1'], env=e, capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                return path, line, 'TIMEOUT ' + pr, short
            if r.returncode == 1:
                mons = sorted(set(l.split('replay=')[1].split('-')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')))
                return path, line, 'caught %s %s' % (pr, ','.join(mons[:3])), short
            if r.returncode != 0:
                return path, line, 'EXIT %d %s %s' % (r.returncode, pr, (r.stdout + r.stderr)[-300:]), short
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s/repo/tests && PYTHONPATH=%s/repo timeout 900 $PY -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --tb=no . 2>&1 | grep ^FAILED' % (d, d)],
                           capture_output=True, text=True)
        stable = set(x.split('::')[-1] + '@' + x.split('::')[0].split('.')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = [x for x in r.stdout.splitlines() if (x.split()[1].split('::')[-1] + '@' + os.path.basename(x.split()[1].split('::')[0])[:-3]) in stable]
        if bad:
            return path, line, 'killed by tests: %s' % bad[0][7:90], []
        return path, line, 'SURVIVED', short
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    jn = 2
    if '-j' in a:
        i = a.index('-j'); jn = int(a[i + 1]); del a[i:i + 2]
    seed, n = int(a[0]), int(a[1])
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    m = {}
    for p in props:
        for f in p['anchors']['files']:
            m.setdefault(f, []).append(p['id'])
    m.update({k: [x for x in v if any(q['id'] == x for q in props)] for k, v in EXTRA.items()})
    files = a[2:] or sorted(f for f in m if f.endswith('.py'))
    vc = tempfile.mkdtemp(prefix='amutv_')
    try:
        subprocess.check_call('cp -a %s/check %s/lib %s/checks %s/known_findings.jsonl %s/tools %s/' % (V, V, V, V, V, vc), shell=True)
        os.makedirs(vc + '/evidence'); os.makedirs(vc + '/replays')
        jobs = []
        for f in files:
            s = open(os.path.join('/repo', f)).read()
            st = sites(s)
            rng = random.Random('%d%s' % (seed, f))
            rng.shuffle(st)
            jobs += [(f, x, m.get(f, []), vc) for x in st[:n]]
        random.Random(seed).shuffle(jobs)
        with ThreadPoolExecutor(jn) as ex:
            for path, line, res, short in ex.map(trial, jobs):
                print('%s:%d %s' % (path, line, res), flush=True)
                if not res.startswith('caught'):
                    print('   ' + '\n   '.join(short), flush=True)
    finally:
        shutil.rmtree(vc)


main()
