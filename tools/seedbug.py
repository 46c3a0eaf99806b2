"""Make /verif/seeded/<id> from tools/bugs/<id>.py (PROP, EDITS, NEEDS, BREAKS, DEMO) and verify it against /repo.
usage: seedbug.py ID [--tests] [--check]   (applies the patch in /repo and always undoes it)"""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    bid = sys.argv[1]
    m = runpy.run_path(os.path.join(V, 'tools/bugs', bid + '.py'))
    assert sh('git -C /repo status --porcelain').stdout == ''
    d = os.path.join(V, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, old, new in m['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(m['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=m['PROP'], needs=m['NEEDS'], what_it_breaks=m['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh('bash /opt/vp/build.sh')
        print('build', r.returncode)
        ok &= r.returncode == 0
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        print('demo with patch ->', r.returncode, (r.stdout + r.stderr).strip()[-300:])
        ok &= r.returncode != 0
        if '--check' in sys.argv:
            r = sh('VERIF_SEED=1 VERIF_TIER=quick %s/check %s quick' % (V, m['PROP']), cwd=V)
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('check', m['PROP'], '->', r.returncode, 'CAUGHT' if r.returncode == 1 and viol else 'MISSED', viol[:2])
            cf = os.path.join(V, 'tools/catch.json')
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            mons = sorted(set(os.path.basename(l.split('replay=')[1]).split('-')[1] for l in viol))
            c[bid] = (m['PROP'] + ': ' + ', '.join(mons[:4])) if r.returncode == 1 and viol else 'missed'
            json.dump(c, open(cf, 'w'), indent=1, sort_keys=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-1500:])
        if '--tests' in sys.argv:
            r = sh('bash /opt/vp/test.sh /tmp/seedbug.json')
            b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open('/tmp/seedbug.json'))
            get = lambda x: set(x.get('stable', x.get('passed')))
            miss = sorted(get(b) - get(o))
            print('tests missing:', miss)
            ok &= not miss
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    print('demo clean ->', r.returncode, (r.stdout + r.stderr).strip()[-300:])
    ok &= r.returncode == 0
    print(bid, 'OK' if ok else 'NOT OK')


main()
