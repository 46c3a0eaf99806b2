#!/opt/venv/bin/python
"""Run one property's check.

    vrun.py <ID> <quick|thorough> [--replay FILE] [--seed N] [--jobs N]

Parent: builds the native extensions from /repo's working tree into a scratch
directory, prepares shared inputs there, runs the planned cases in worker
subprocesses, merges what their monitors observed, writes evidence/<ID>.json
and decides.  Exit 0 held, 1 violated, 2 error of the check, 3 inconclusive.
"""
import argparse
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, VERIF)

import boot            # noqa: E402
import mon as monlib   # noqa: E402


class CheckError(Exception):
    pass


class Env(object):
    """Paths handed to the checks."""

    def __init__(self, scratch, tier, seed, worker=None):
        self.scratch = scratch
        self.tier = tier
        self.seed = seed
        self.repo = REPO
        self.data = os.path.join(REPO, 'tests', 'data_for_tests')
        self.shared = os.path.join(scratch, 'shared')
        self.ext = os.path.join(scratch, 'ext')
        self.asan = os.path.join(scratch, 'asan')
        self.worker = worker
        self.work = os.path.join(scratch, 'work', str(worker))
        self.quick = (tier == 'quick')

    def tmp(self):
        os.makedirs(self.work, exist_ok=True)
        return tempfile.mkdtemp(dir=self.work)


def base_environ(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update({
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'SETUPTOOLS_SCM_PRETEND_VERSION': '1.0.0',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
        'ASTROPY_CACHE_DIR': os.path.join(scratch, 'astropy'),
        'XDG_CACHE_HOME': os.path.join(scratch, 'cache'),
        'HOME': scratch, 'TMPDIR': os.path.join(scratch, 'tmp'),
        'VERIF_REPO': REPO,
    })
    for d in ('mpl', 'astropy', 'cache', 'tmp', 'work', 'shared'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def build_ext(scratch, name, environ, cflags=None):
    """Build the C extensions of /repo's current tree into scratch/name."""
    dst = os.path.join(scratch, name)
    os.makedirs(dst)
    for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md', 'LICENSE', 'MANIFEST.in', 'requirements.txt'):
        if os.path.isfile(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dst)
    shutil.copytree(os.path.join(REPO, 'redmapper'), os.path.join(dst, 'redmapper'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '_version.py', 'data'))
    env = dict(environ)
    if cflags:
        env['CFLAGS'] = cflags
        env['LDFLAGS'] = cflags
    p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force',
                        '--build-temp', os.path.join(dst, 'bt'), '--build-lib', os.path.join(dst, 'bl')],
                       cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise CheckError('build of the C extensions failed:\n' + p.stdout.decode(errors='replace')[-4000:])
    return dst


def load_check(pid):
    hits = glob.glob(os.path.join(VERIF, 'checks', pid.lower() + '_*.py'))
    if len(hits) != 1:
        raise CheckError('no unique check module for %s' % pid)
    return importlib.import_module('checks.' + os.path.basename(hits[0])[:-3])


# ---------------------------------------------------------------- worker
def run_worker(args):
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    scratch = args.scratch
    env = Env(scratch, args.tier, args.seed, worker=args.worker)
    boot.install(REPO, os.path.join(scratch, args.extname))
    mod = load_check(args.pid)
    out = {'events': {}, 'sigs': [], 'violations': [], 'samples': [], 'cases': 0, 'errors': []}
    sigs = set()
    outfile = os.path.join(scratch, 'out-%s.json' % args.worker)
    curfile = os.path.join(scratch, 'cur-%s.json' % args.worker)

    def flush(final):
        out['sigs'] = sorted(sigs)
        out['done'] = final
        with open(outfile + '.t', 'w') as f:
            json.dump(out, f)
        os.replace(outfile + '.t', outfile)

    cwd = os.path.join(scratch, 'cwd-%s' % args.worker)
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    with open(args.plan) as f:
        cases = json.load(f)
    if hasattr(mod, 'setup'):
        try:
            mod.setup(env)
        except Exception as e:
            hit, last = monlib.innermost_in(e, [REPO, os.path.join(scratch, 'ext'), os.path.join(scratch, 'asan')])
            if hit and not last.startswith(VERIF):
                out['violations'].append({'monitor': 'setup_raised', 'case': {'kind': 'setup'},
                                          'witness': {'exception': repr(e)[:500], 'trace': monlib.format_exc(e)}})
            else:
                out['errors'].append('setup: ' + ''.join(monlib.format_exc(e)))
            flush(True)
            return 0
    t_last = time.time()
    out['longest'] = 0.0
    for case in cases:
        t_case = time.time()
        with open(curfile, 'w') as f:
            json.dump(case, f)
        m = monlib.Monitor(case)
        seed = (int(case['seed']) * 2654435761 + 12345) % (2**32)
        np.random.seed(seed)
        try:
            mod.run_case(case, m, env)
        except Exception as e:
            hit, last = monlib.innermost_in(e, [REPO, os.path.join(scratch, 'ext'), os.path.join(scratch, 'asan')])
            if hit and not last.startswith(VERIF):
                m.violation('raised_on_valid_input', exception=repr(e)[:500], trace=monlib.format_exc(e))
            elif isinstance(e, (ValueError, IndexError, KeyError, OSError, ArithmeticError, np.linalg.LinAlgError)):
                # The oracle could not digest what the code returned (wrong length, missing file or column).
                m.violation('unusable_output', exception=repr(e)[:500], trace=monlib.format_exc(e))
            else:
                out['errors'].append('case %r: %s' % (case, ''.join(monlib.format_exc(e))))
        out['cases'] += 1
        out['longest'] = max(out['longest'], time.time() - t_case)
        for k, v in m.counts.items():
            out['events'][k] = out['events'].get(k, 0) + v
        sigs |= m.sigs
        out['violations'].extend(m.violations)
        if len(out['samples']) < 4:
            out['samples'].extend([{'case': monlib.jsonable(case), 'observed': s} for s in m.samples[:1]])
        if time.time() - t_last > 5:
            flush(False)
            t_last = time.time()
        if len(out['violations']) >= 400 or len(out['errors']) >= 5:
            break
        shutil.rmtree(env.work, ignore_errors=True)
    flush(True)
    return 0


# ---------------------------------------------------------------- parent
def load_findings():
    """Lines of known_findings.jsonl with status 'known'; nothing is ever added here."""
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.isfile(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('status') == 'known':
                res.append(d)
    return res


def run_parent(args):
    t0 = time.time()
    tier, seed, pid = args.tier, args.seed, args.pid
    scratch = tempfile.mkdtemp(prefix='rmverif-%s-' % pid.lower())
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    def onterm(signum, frame):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, onterm)
    signal.signal(signal.SIGINT, onterm)
    try:
        return _run_parent(args, t0, scratch, procs)
    finally:
        cleanup()


def _run_parent(args, t0, scratch, procs):
    tier, seed, pid = args.tier, args.seed, args.pid
    environ = base_environ(scratch)
    mod = load_check(pid)
    extname = getattr(mod, 'EXT', 'ext')
    build_violation = None
    if extname == 'asan':
        build_ext(scratch, 'asan', environ,
                  '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined')
    else:
        build_ext(scratch, 'ext', environ)
    env = Env(scratch, tier, seed, worker='parent')
    if hasattr(mod, 'prepare'):
        # Preparation runs repo code, so it runs in a subprocess as well.
        code = ("import sys; sys.argv=['vrun'];"
                "sys.path.insert(0,%r); sys.path.insert(0,%r);"
                "import vrun, boot, logging, warnings; warnings.simplefilter('ignore'); logging.disable(50);"
                "boot.install(%r, %r); import os; os.chdir(%r);"
                "vrun.load_check(%r).prepare(vrun.Env(%r, %r, %d, worker='prepare'))"
                % (os.path.join(VERIF, 'lib'), VERIF, REPO, os.path.join(scratch, extname),
                   os.path.join(scratch, 'shared'), pid, scratch, tier, seed))
        penv = dict(environ)
        if extname == 'asan':
            penv.update(asan_env(scratch))
        p = subprocess.run([PY, '-c', code], env=penv, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if p.returncode != 0:
            txt = p.stdout.decode(errors='replace')[-6000:]
            if ('File "%s' % REPO) in txt:
                build_violation = {'monitor': 'prepare_raised', 'case': {'kind': 'prepare', 'seed': seed},
                                   'witness': {'trace': txt}}
            else:
                raise CheckError('prepare failed:\n' + txt)
    results = []
    if build_violation is None:
        if args.replay:
            with open(args.replay) as f:
                rp = json.load(f)
            cases = [rp['case']]
        else:
            cases = mod.plan(tier, seed)
        njobs = min(args.jobs or getattr(mod, 'JOBS', 8), len(cases)) or 1
        chunks = [cases[i::njobs] for i in range(njobs)]
        budget = getattr(mod, 'BUDGET', {'quick': 600, 'thorough': 3000})[tier]
        running = []
        for w, chunk in enumerate(chunks):
            plan = os.path.join(scratch, 'plan-%d.json' % w)
            with open(plan, 'w') as f:
                json.dump(chunk, f)
            wenv = dict(environ)
            if extname == 'asan':
                wenv.update(asan_env(scratch))
            log = open(os.path.join(scratch, 'log-%d.txt' % w), 'wb')
            p = subprocess.Popen([PY, os.path.abspath(__file__), pid, tier, '--worker', str(w),
                                  '--scratch', scratch, '--plan', plan, '--extname', extname, '--seed', str(seed)],
                                 env=wenv, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append(p)
            running.append((w, p))
        deadline = time.time() + budget
        timed_out = False
        stuck = set()
        for w, p in running:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out = True
                stuck.add(w)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                p.wait()
        waiting = []
        for w, p in running:
            of = os.path.join(scratch, 'out-%d.json' % w)
            r = {'events': {}, 'sigs': [], 'violations': [], 'samples': [], 'cases': 0, 'errors': [], 'done': False}
            if os.path.isfile(of):
                with open(of) as f:
                    r = json.load(f)
            if not r.get('done') and not timed_out:
                cur = {}
                cf = os.path.join(scratch, 'cur-%d.json' % w)
                if os.path.isfile(cf):
                    with open(cf) as f:
                        cur = json.load(f)
                logtxt = open(os.path.join(scratch, 'log-%d.txt' % w), 'rb').read().decode(errors='replace')
                for lf in glob.glob(os.path.join(scratch, 'asanlog*')):
                    logtxt += open(lf, errors='replace').read()
                if (p.returncode < 0 and p.returncode != -9) or 'AddressSanitizer' in logtxt or 'runtime error:' in logtxt or p.returncode in (86,):
                    r['violations'].append({'monitor': 'process_crashed', 'case': cur,
                                            'witness': {'returncode': p.returncode, 'log': logtxt[-5000:]}})
                else:
                    r['errors'].append('worker %d ended with %s\n%s' % (w, p.returncode, logtxt[-3000:]))
            elif not r.get('done') and w in stuck:
                # Out of time: one case that takes far longer than any finished one does not end.
                cf = os.path.join(scratch, 'cur-%d.json' % w)
                if os.path.isfile(cf):
                    waiting.append((deadline - os.path.getmtime(cf), json.load(open(cf)), r))
            results.append(r)
        longest = max([r.get('longest', 0.0) for r in results] + [0.0])
        for dt, cur, r in waiting:
            if dt > max(200.0, 15 * longest):
                r['violations'].append({'monitor': 'does_not_end', 'case': cur, 'witness': {'seconds': dt, 'longest_finished_case': longest}})
    else:
        results = [{'events': {}, 'sigs': [], 'violations': [build_violation], 'samples': [], 'cases': 0, 'errors': []}]
        timed_out = False

    events, sigs, violations, samples, errors, ncases = {}, set(), [], [], [], 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        sigs |= set(r['sigs'])
        violations.extend(r['violations'])
        samples.extend(r['samples'])
        errors.extend(r['errors'])
        ncases += r['cases']

    findings = [f for f in load_findings() if f['property'] == pid]
    fresh, known = [], {}
    for v in violations:
        hit = None
        for f in findings:
            if hasattr(mod, 'matches_finding') and mod.matches_finding(f, v):
                hit = f
                break
        if hit is None:
            fresh.append(v)
        else:
            known.setdefault(hit['id'], (hit, 0))
            known[hit['id']] = (hit, known[hit['id']][1] + 1)

    required = getattr(mod, 'REQUIRED', {})
    missing = [k for k, n in required.items() if events.get(k, 0) < (n if isinstance(n, int) else 1)]

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {'evaluations': ncases, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
                     'samples': samples[:4] or [{'none': 'no sample recorded'}],
                     'monitor_events': events, 'monitor_decisions': int(sum(events.values())),
                     'known_findings_seen': {k: n for k, (f, n) in known.items()},
                     'timed_out': bool(timed_out)},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(fresh), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not args.replay:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)

    for k, (f, n) in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (%s; seen %d times)' % (pid, f['what'], f['id'], n))
    if fresh:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in fresh:
            key = (v['monitor'], v['case'].get('kind'))
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            fn = os.path.join(rdir, '%s-%s-%s.json' % (pid, v['monitor'].replace('/', '_')[:60], v['case'].get('seed', 0)))
            with open(fn, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'seed': seed, 'case': v['case'],
                           'monitor': v['monitor'], 'witness': v['witness'],
                           'replay_cmd': 'cd /verif && ./check %s %s --replay %s' % (pid, tier, fn)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, fn))
            print('  monitor=%s case=%s witness=%s' % (v['monitor'], json.dumps(v['case'])[:200],
                                                      json.dumps(v['witness'])[:600]))
        print('%s: %d violations in %d cases (%.1fs)' % (pid, len(fresh), ncases, time.time() - t0))
        return 1
    if errors:
        print('ERROR of the check %s:' % pid)
        for e in errors[:5]:
            print(e)
        return 2
    if timed_out:
        print('INCONCLUSIVE: %s ran out of its time budget' % pid)
        return 3
    if missing and not args.replay:
        print('INCONCLUSIVE: %s monitors never or too rarely reached: %s' % (pid, missing))
        return 3
    print('%s held: %d cases, %d monitor decisions, %d distinct situations (%.1fs)'
          % (pid, ncases, sum(events.values()), len(sigs), time.time() - t0))
    return 0


def asan_env(scratch):
    lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
    ub = subprocess.check_output(['gcc', '-print-file-name=libubsan.so']).decode().strip()
    return {'LD_PRELOAD': lib + ':' + ub,
            'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=86:'
                            'allocator_may_return_null=1:log_path=%s/asanlog' % scratch,
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86:log_path=%s/asanlog' % scratch,
            'PYTHONMALLOC': 'malloc'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--worker')
    ap.add_argument('--scratch')
    ap.add_argument('--plan')
    ap.add_argument('--extname', default='ext')
    args = ap.parse_args()
    if args.worker is not None:
        return run_worker(args)
    try:
        return run_parent(args)
    except CheckError as e:
        print('ERROR of the check: %s' % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
