"""Mutation trials: python3 tools/mutate.py FILE [-j N] [only...]
FILE defines M = [(name, property, path, old, new), ...]; each is applied in a scratch copy of /repo and the property's quick check is run against it."""
import os, shutil, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def trial(m, vc):
    name, prop, path, old, new = m
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        p = os.path.join(d, 'repo', path)
        s = open(p).read()
        if s.count(old) != 1:
            return name, prop, 'BAD EDIT (%d matches)' % s.count(old)
        open(p, 'w').write(s.replace(old, new))
        e = dict(os.environ, VERIF_REPO=d + '/repo')
        r = subprocess.run([vc + '/check', prop, 'quick', '--seed', '1'], env=e, capture_output=True, text=True)
        mons = sorted(set(l.split('replay=')[1].split('-')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')))
        out = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d %s' % (r.returncode, (r.stdout + r.stderr)[-400:]))
        return name, prop, out + ' ' + ','.join(mons)
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    j = 2
    if '-j' in a:
        i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    M = runpy.run_path(a[0])['M']
    if a[1:]:
        M = [m for m in M if m[0] in a[1:] or m[1] in a[1:]]
    vc = tempfile.mkdtemp(prefix='mutv_')
    try:
        subprocess.check_call('cp -a %s/check %s/lib %s/checks %s/known_findings.jsonl %s/tools %s/' % (V, V, V, V, V, vc), shell=True)
        os.makedirs(vc + '/evidence'); os.makedirs(vc + '/replays')
        with ThreadPoolExecutor(j) as ex:
            for r in ex.map(lambda m: trial(m, vc), M):
                print('%-28s %s %s' % r, flush=True)
    finally:
        shutil.rmtree(vc)


main()
