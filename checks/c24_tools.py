"""C24: the command-line tools and batch jobs do what their options say, for every pixel once."""
import glob
import inspect
import io
import contextlib
import json
import os
import re
import runpy
import stat
import subprocess
import sys
import types
import numpy as np
import fitsio
import yaml
import hpgeom as hpg
import rmx
import skygen
from checks import c17_parallel as c17

RULE = 'one tool started with one set of options, keyed by (tool, options, batch system, region)'
REQUIRED = {'tool_calls': 60, 'tool_refused': 20, 'job_pixels': 8, 'job_commands': 8, 'job_kept': 10, 'job_refused': 4, 'many_pixels': 4, 'tools_chain': 4, 'maskgals_made': 4}
BUDGET = {'quick': 400, 'thorough': 800}
ASSUMPTIONS = ['parsl, shifter and the queueing systems are stand-ins that run or record the commands they are given']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 6
    out = [{'kind': 'args', 'j': j, 'seed': seed * 7411 + j} for j in range(12 * k)]
    out += [{'kind': 'batch', 'j': j, 'region': sorted(skygen.REGIONS)[j % len(skygen.REGIONS)], 'seed': seed * 7411 + 3000 + j} for j in range(12 * k)]
    out += [{'kind': 'many', 'j': j, 'seed': seed * 7411 + 5000 + j} for j in range(4 * k)]
    out += [{'kind': 'chain', 'j': j, 'region': sorted(skygen.REGIONS)[j % len(skygen.REGIONS)], 'seed': seed * 7411 + 7000 + j} for j in range(4 * k)]
    return out


def run_case(case, mon, env):
    rng = np.random.RandomState(case['seed'] % 2**31)
    globals()['k_' + case['kind']](case, mon, env, rng)


def tool(name, argv, cwd):
    """run a tool of bin/ as a program; the exit code, and what it printed."""
    import vrun
    path = os.path.join(vrun.REPO, 'bin', name + '.py')
    old = sys.argv, os.getcwd()
    sys.argv = [path] + [str(a) for a in argv]
    os.chdir(cwd)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            runpy.run_path(path, run_name='__main__')
        code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
    return code, buf.getvalue()


class Recorder(object):
    """constructors and methods of the classes behind the tools note their arguments by name."""
    def __init__(self, *what):
        self.what, self.events = what, []

    def __enter__(self):
        self.old = []
        for owner, names in self.what:
            for n in names:
                f = getattr(owner, n)
                self.old.append((owner, n, owner.__dict__.get(n), f))
                setattr(owner, n, self.wrap(owner, n, f))
        return self

    def wrap(self, owner, name, f):
        sig = inspect.signature(f)
        ev = self.events

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            args = {x: y for x, y in b.arguments.items() if x != 'self'}
            ev.append((getattr(owner, '__name__', '').split('.')[-1], name, args))
            if name == 'weight_randoms':
                return 'a', 'b'
        return call

    def __exit__(self, *a):
        for owner, n, raw, f in self.old:
            if raw is None:
                delattr(owner, n)
            else:
                setattr(owner, n, raw)


def k_args(case, mon, env, rng):
    import redmapper
    from redmapper.pipeline import RunRedmapperPixelTask, RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask, RunZredPixelTask, RedmapperConsolidateTask, RuncatConsolidateTask, MemPredict
    from redmapper.calibration import RedmapperCalibrator
    from redmapper.redmagic import RedmagicCalibrator, RunRedmagicTask
    d = env.tmp()
    cf = rmx.test_yaml(env, d)
    opt = lambda a, b: [a, b][rng.randint(2)]
    pix, nside, path = int(rng.randint(0, 3000)), int(rng.choice([2, 4, 8, 16, 32])), os.path.join(d, 'o')
    for name, cls in (('redmapper_run_redmapper_pixel', RunRedmapperPixelTask), ('redmapper_runcat_pixel', RuncatPixelTask), ('redmapper_run_zmask_pixel', RunZmaskPixelTask),
                      ('redmapper_run_zscan_pixel', RunZScanPixelTask), ('redmapper_run_zred_pixel', RunZredPixelTask)):
        lab = opt(('-c', '-p', '-n', '-d'), ('--configfile', '--pixel', '--nside', '--path'))
        given = rng.randint(2)
        av = [lab[0], cf, lab[1], pix, lab[2], nside] + ([lab[3], path] if given else [])
        with Recorder((cls, ('__init__', 'run'))) as R:
            code, txt = tool(name, av, d)
        ev = R.events
        ok = code == 0 and [e[1] for e in ev] == ['__init__', 'run']
        if ok:
            a = ev[0][2]
            ok = a['configfile'] == cf and a['pixel'] == pix and a['nside'] == nside and os.path.abspath(os.path.join(d, a['path'] if a['path'] is not None else '.')) == (path if given else os.path.abspath(d))
        mon.check('tool_calls', ok, tool=name, argv=[str(x) for x in av], code=code, events=str(ev)[:300])
        mon.distinct(name, bool(given), lab[0])
        # an option is missing: nothing is run
        i = int(rng.randint(3))
        with Recorder((cls, ('__init__', 'run'))) as R:
            code, txt = tool(name, av[:2 * i] + av[2 * i + 2:], d)
        mon.check('tool_refused', code not in (0, None) and not R.events, tool=name, without=str(av[2 * i]), code=code)
    # whole-survey tools
    cuts = [float(x) for x in np.round(rng.uniform(3, 50, rng.randint(1, 4)), 1)]
    lst = [float(x) for x in np.round(rng.uniform(0.1, 5, rng.randint(1, 3)), 2)]
    ga, gb = rng.randint(2), rng.randint(2)
    av = ['-c', cf] + (['-l'] + cuts if ga else []) + (['-v'] + lst if gb else [])
    with Recorder((RedmapperConsolidateTask, ('run',))) as R:
        made = []
        old = RedmapperConsolidateTask.__init__

        def init(self, *a, **k):
            old(self, *a, **k)
            made.append(self)
        RedmapperConsolidateTask.__init__ = init
        try:
            code, txt = tool('redmapper_consolidate_run', av, d)
        finally:
            RedmapperConsolidateTask.__init__ = old
    c = redmapper.Configuration(cf)
    ok = code == 0 and len(made) == 1 and [e[1] for e in R.events] == ['run'] and R.events[0][2]['match_spec'] and \
        [float(x) for x in made[0].lambda_cuts] == (cuts if ga else [float(x) for x in c.consolidate_lambda_cuts]) and [float(x) for x in made[0].vlim_lstars] == (lst if gb else [float(x) for x in c.consolidate_vlim_lstars])
    mon.check('tool_calls', ok, tool='consolidate_run', argv=[str(x) for x in av], code=code)
    mon.distinct('consolidate', bool(ga), bool(gb))
    for name, cls, key in (('redmapper_calibrate', RedmapperCalibrator, 'configfile'), ('redmagic_calibrate', RedmagicCalibrator, None)):
        with Recorder((cls, ('__init__', 'run'))) as R:
            code, txt = tool(name, [opt('-c', '--configfile'), cf], d)
        ev = R.events
        mon.check('tool_calls', code == 0 and [e[1] for e in ev] == ['__init__', 'run'] and list(ev[0][2].values())[0] == cf, tool=name, code=code)
        with Recorder((cls, ('__init__', 'run'))) as R:
            code, txt = tool(name, [], d)
        mon.check('tool_refused', code not in (0, None) and not R.events, tool=name)
    cl, nr = rng.randint(2), int(rng.randint(1, 10**6)) if rng.randint(2) else None
    with Recorder((RunRedmagicTask, ('__init__', 'run'))) as R:
        code, txt = tool('redmagic_run', ['-c', cf] + (['-C'] if cl else []) + (['-n', nr] if nr else []), d)
    ev = R.events
    ok = code == 0 and [e[1] for e in ev] == ['__init__', 'run'] and list(ev[0][2].values())[0] == cf
    mon.check('tool_calls', ok and ev[1][2]['clobber'] == bool(cl) and ev[1][2]['n_randoms'] == nr, tool='redmagic_run', events=str(ev)[:300])
    n = int(rng.randint(1, 10**6))
    with Recorder((redmapper.GenerateRandoms, ('__init__', 'generate_randoms'))) as R:
        code, txt = tool('redmapper_generate_randoms', ['-c', cf, '-n', n], d)
    ev = R.events
    ok = code == 0 and [e[1] for e in ev] == ['__init__', 'generate_randoms'] and os.path.join(ev[0][2]['config'].configpath, ev[0][2]['config'].configfile) == cf and ev[1][2]['nrandoms'] == n
    mon.check('tool_calls', ok, tool='generate_randoms', events=str(ev)[:300])
    from redmapper import ZredBackgroundGenerator
    with Recorder((ZredBackgroundGenerator, ('__init__', 'run'))) as R:
        code, txt = tool('redmapper_make_zred_bkg', ['-c', cf], d)
    ev = R.events
    mon.check('tool_calls', code == 0 and [e[1] for e in ev] == ['__init__', 'run'] and not ev[1][2].get('clobber', False) and ev[0][2]['config'].configfile == os.path.basename(cf), tool='make_zred_bkg', events=str(ev)[:300])
    with Recorder((redmapper.RandomWeigher, ('__init__', 'weight_randoms'))) as R:
        code, txt = tool('redmapper_weight_randoms', ['-c', cf, '-r', 'rr.fit', '-l'] + cuts, d)
    ev = R.events
    ok = code == 0 and ev[0][1] == '__init__' and 'rr.fit' in list(ev[0][2].values()) and [list(e[2].values())[0] for e in ev[1:]] == cuts
    mon.check('tool_calls', ok, tool='weight_randoms', events=str(ev)[:300])
    bf, nz = float(np.round(rng.uniform(1, 4), 2)), rng.randint(2)
    with Recorder((MemPredict, ('__init__', 'predict_memory'))) as R:
        code, txt = tool('redmapper_predict_memory', ['-c', cf, '-b', bf] + (['-n'] if nz else []), d)
    ev = R.events
    ok = code == 0 and len(ev) == 2 and ev[1][2]['include_zreds'] == (not nz) and ev[1][2]['border_factor'] == bf
    mon.check('tool_calls', ok, tool='predict_memory', events=str(ev)[:300])
    # conversions: real files
    nc, clob = int(rng.choice([8, 16])), rng.randint(2)
    old = np.zeros(20, dtype=[('hpix', 'i8'), ('fracgood', 'f4')])
    old['hpix'] = np.sort(rng.choice(12 * 64**2, 20, replace=False))
    old['fracgood'] = rng.uniform(0.1, 1, 20)
    fm, fo = os.path.join(d, 'm.fit'), os.path.join(d, 'm.hsp')
    fitsio.write(fm, old, header={'NSIDE': 64, 'NEST': 1}, clobber=True)
    open(fo, 'w').write('x')
    try:
        code, txt = tool('redmapper_convert_mask_to_healsparse', ['-m', fm, '-f', fo, '-n', nc] + (['-C'] if clob else []), d)
    except Exception:
        code = 1
    if clob:
        import healsparse
        m = healsparse.HealSparseMap.read(fo)
        mon.check('tool_calls', code == 0 and m.nside_coverage == nc and np.array_equal(m.valid_pixels, old['hpix']), tool='convert_mask')
    else:
        mon.check('tool_calls', code != 0 and open(fo).read() == 'x', tool='convert_mask kept')
    with Recorder((redmapper.depthmap, ('convert_depthfile_to_healsparse',))) as R:
        code, txt = tool('redmapper_convert_depthfile_to_healsparse', ['-m', 'a', '-f', 'b'] + (['-C'] if clob else []) + (['-n', nc] if nz else []), d)
    ev = R.events
    ok = code == 0 and len(ev) == 1 and list(ev[0][2].values())[:3] == ['a', 'b', nc if nz else 32] and ev[0][2]['clobber'] == bool(clob)
    mon.check('tool_calls', ok, tool='convert_depth', events=str(ev)[:300])


STUB = '''#!/bin/bash
l="$(basename "$0")"
for a in "$@"; do l="$l"$'\\t'"$a"; done
printf '%s\\tMARK=%s\\n' "$l" "$MARK" >> "$RMLOG"
'''
SHIFTER = '''#!/bin/bash
printf 'shifter\\t%s\\n' "$1" >> "$RMLOG"
cmd="${*: -1}"
eval "${cmd#*&& }"
'''
PARSL = '''
import subprocess, sys, types
def mod(n):
    m = types.ModuleType(n)
    sys.modules[n] = m
    return m
LOG = []
class Any(object):
    def __init__(self, *a, **k):
        LOG.append((type(self).__name__, k))
for n, cs in (('executors', ('WorkQueueExecutor', 'ThreadPoolExecutor')), ('providers', ('LocalProvider', 'SlurmProvider')), ('launchers', ('SrunLauncher',)), ('config', ('Config',))):
    m = mod('parsl.' + n)
    for c in cs:
        setattr(m, c, type(c, (Any,), {}))
    globals()[n] = m
mod('parsl.addresses').address_by_hostname = lambda: 'h'
mod('parsl.utils').get_all_checkpoints = lambda: []
def load(c):
    for n, k in LOG:
        if n in ('LocalProvider', 'SlurmProvider'):
            open(__import__('os').environ['RMLOG'], 'a').write('provider\\t%s\\t%s\\n' % (n, k.get('nodes_per_block')))
class F(object):
    def __init__(self, c):
        self.c = c
    def result(self):
        return subprocess.check_call(self.c, shell=True)
def bash_app(**k):
    def deco(f):
        def call(*a, **kw):
            return F(f(*a, **kw))
        return call
    return deco
'''
MODES = {0: ('run', 'redmapper_run_redmapper_pixel.py', True), 1: ('zred', 'redmapper_run_zred_pixel.py', False), 2: ('runcat', 'redmapper_runcat_pixel.py', True),
         3: ('zmask', 'redmapper_run_zmask_pixel.py', True), 4: ('zscan', 'redmapper_run_zscan_pixel.py', True)}


def stubs(d):
    b = os.path.join(d, 'stubs')
    os.makedirs(b, exist_ok=True)
    for n, s in [(v[1], STUB) for v in MODES.values()] + [('shifter', SHIFTER), ('toolx', STUB)]:
        fn = os.path.join(b, n)
        open(fn, 'w').write(s)
        os.chmod(fn, 0o755)
    open(os.path.join(b, 'parsl.py'), 'w').write(PARSL)
    return b


def k_batch(case, mon, env, rng):
    d = env.tmp()
    home, cwd = os.path.join(d, 'home'), os.path.join(d, 'work')
    os.makedirs(home)
    os.makedirs(cwd)
    nside_tab = int(rng.choice([8, 16, 32]))
    g = c17.sky(rng, case['region'], nside_tab)
    cd = os.path.join(d, 'conf')
    mgf = os.path.join(d, 'mg.fit')
    outbase = str(rng.choice(['cat', 'cat_v2', 'a.b']))
    cf = c17.conf(rng, env, d, g, nside_tab, out=cd, outbase=outbase, maskgalfile=mgf, maskgal_ngals=50, maskgal_nsamples=2, maskfile=None, mask_mode=0)
    mode = int(rng.choice([0, 1, 2, 3, 4]))
    jt, prog, needs = MODES[mode]
    kind = ['lsf', 'parsl', 'lsf', 'parsl', 'pbs', 'lsf'][case['j'] % 6]
    prov, image, nodes = str(rng.choice(['local', 'slurm'])), str(rng.choice(['', 'im:1'])), int(rng.choice([2, 5]))
    sect = {'setup': 'export MARK=ready', 'batch': kind}
    if kind == 'parsl':
        sect.update(parsl_provider=prov, image=image, constraint='knl', qos='reg')
    if kind == 'pbs':
        sect.update(ppn=4, queue='q')
    conf = {'here': sect}
    two = rng.randint(2)
    if two:
        conf['other'] = {'batch': 'slurm'}
    yaml.safe_dump(conf, open(os.path.join(home, '.redmapper_batch.yml'), 'w'))
    nside = None if rng.randint(3) == 0 else int(rng.choice([x for x in (2, 4, 8, 16) if x <= nside_tab]))
    rel = rng.randint(2)
    cfarg = os.path.relpath(cf, cwd) if rel else cf
    wall = int(rng.randint(30, 500)) if rng.randint(2) else None
    av = ['-c', cfarg, '-r', mode] + (['-b', 'here'] if two or rng.randint(2) else []) + (['-n', nside] if nside else []) + (['-w', wall] if wall else []) + (['-N', nodes] if nodes != 2 else [])
    ns = nside or 8
    pix = np.unique(hpg.angle_to_pixel(nside_tab, g['ra'], g['dec'], nest=False))
    th, ph = hpg.pixel_to_angle(nside_tab, pix, nest=False, lonlat=False)
    want = sorted(int(x) for x in np.unique(hpg.angle_to_pixel(ns, th, ph, nest=False, lonlat=False)))
    oldhome = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        n0 = {}
        many = 12 if case['j'] % 4 == 0 else int(rng.randint(1, 4))
        for rep in range(many):
            try:
                code, txt = tool('redmapper_batch', av, cwd)
            except NameError as e:
                mon.check('job_written', False, batch=kind, error=str(e))
                return
            files = sorted(glob.glob(os.path.join(cwd, 'jobs', '*')))
            mon.check('job_kept', code == 0 and len(files) == rep + 1 and all(open(f).read() == t for f, t in n0.items()), code=code, files=[os.path.basename(f) for f in files], rep=rep)
            n0 = {f: open(f).read() for f in files}
        mon.check('maskgals_made', os.path.isfile(mgf) == needs, mode=mode)
        mon.check('job_written', True)
        bad = [(['-c', cfarg, '-r', 7, '-b', 'here'], 'mode'), (['-c', cfarg, '-r', mode, '-b', 'nowhere'], 'batch mode')]
        hp = rmx.test_yaml(env, cd, hpix=[3], nside=2, galfile=yaml.safe_load(open(cf))['galfile'])
        bad.append((['-c', hp, '-r', mode, '-b', 'here'], 'sub-region'))
        for a, what in bad:
            try:
                code, txt = tool('redmapper_batch', a, cwd)
            except Exception:
                code = 1
            mon.check('job_refused', code != 0 and {f: open(f).read() for f in glob.glob(os.path.join(cwd, 'jobs', '*'))} == n0, what=what)
    finally:
        if oldhome is None:
            os.environ.pop('HOME')
        else:
            os.environ['HOME'] = oldhome
    # run the job with stand-ins for the programs
    job = files[int(rng.randint(len(files)))]
    b = stubs(d)
    log = os.path.join(d, 'log.txt')
    e = dict(os.environ, PATH=b + os.pathsep + os.environ['PATH'], RMLOG=log, PYTHONPATH=b)
    e.pop('LD_PRELOAD', None)
    txt = open(job).read()
    if kind == 'lsf':
        m = re.search(r'#BSUB -J (\S+)\[1-(\d+)\]', txt)
        n = int(m.group(2)) if m else 0
        mon.check('job_pixels', n == len(want) and m.group(1) == '%s_%s' % (outbase, jt), n=n, want=len(want))
        mon.check('job_pixels', re.search(r'#BSUB -W (\d+)', txt).group(1) == str(wall or {0: 4320, 1: 300}.get(mode, 600)), what='time')
        for i in range(1, n + 1):
            subprocess.run(['bash', job], env=dict(e, LSB_JOBINDEX=str(i)), cwd=cwd, timeout=60)
    else:
        subprocess.run([sys.executable, job], env=e, cwd=cwd, timeout=120)
    lines = [x.split('\t') for x in open(log).read().splitlines()] if os.path.isfile(log) else []
    runs = [x for x in lines if x[0] == prog]
    got = []
    ok = True
    for x in runs:
        o = dict(zip(x[1:-1:2], x[2:-1:2]))
        got.append(int(o.get('-p', -1)))
        ok = ok and os.path.isabs(o.get('-c', '')) and os.path.realpath(o['-c']) == os.path.realpath(cf) and o.get('-n') == str(ns) and os.path.realpath(o.get('-d', '')) == os.path.realpath(cd)
        if kind == 'lsf':
            ok = ok and x[-1] == 'MARK=ready'
    mon.check('job_pixels', sorted(got) == want, got=sorted(got)[:10], want=want[:10], batch=kind)
    mon.check('job_commands', ok and len(runs) > 0, lines=lines[:3])
    if kind == 'parsl':
        pv = [x for x in lines if x[0] == 'provider']
        mon.check('job_commands', len(pv) == 1 and pv[0][1] == {'local': 'LocalProvider', 'slurm': 'SlurmProvider'}[prov] and (prov == 'local' or pv[0][2] == str(nodes)), what='provider', got=pv)
        sh = [x for x in lines if x[0] == 'shifter']
        mon.check('job_commands', len(sh) == (len(want) if image else 0) and all(x[1] == '--image=' + image for x in sh), what='image', n=len(sh))
    mon.distinct('batch', kind, mode, prov if kind == 'parsl' else '', image if kind == 'parsl' else '', ns, case['region'])


def k_many(case, mon, env, rng):
    import vrun
    d = env.tmp()
    b = stubs(d)
    log = os.path.join(d, 'log.txt')
    pix = [str(int(x)) for x in rng.choice(3000, int(rng.choice([1, 2, 5, 9])), replace=False)]
    p = subprocess.run([sys.executable, os.path.join(vrun.REPO, 'bin', 'redmapper_run_many_pixels_same_node.py'), '-c', 'toolx -c f.yml -n 8', '-P', ','.join(pix)],
                       env=dict(os.environ, PATH=b + os.pathsep + os.environ['PATH'], RMLOG=log), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    lines = [x.split('\t') for x in open(log).read().splitlines()] if os.path.isfile(log) else []
    mon.check('many_pixels', p.returncode == 0 and sorted(tuple(x[:-1]) for x in lines) == sorted(('toolx', '-c', 'f.yml', '-n', '8', '-p', q) for q in pix), pixels=pix, lines=lines[:3], out=p.stdout.decode()[-300:])
    mon.distinct('many', len(pix))


def k_chain(case, mon, env, rng):
    """pixel tools followed by the matching consolidation tool: every cluster once."""
    import redmapper
    from redmapper import Configuration
    from redmapper.plotting import SpecPlot, NzPlot
    d = env.tmp()
    which = ['runcat', 'zmask', 'run', 'runcat'][case['j'] % 4]
    nside_tab, nside = 16, int(rng.choice([4, 8]))
    g = c17.sky(rng, case['region'], nside_tab)
    t, m = c17.make_truth(rng, g, 30)
    zl, rf = os.path.join(d, 'zl.fit'), os.path.join(d, 'r_master_table.fit')
    for f in (zl, rf):
        fitsio.write(f, np.zeros(1, dtype=[('x', 'f4')]))
    specfn, s = c17.spec_file(rng, d, t, m)
    out = os.path.join(d, 'out')
    cf = c17.conf(rng, env, d, g, nside_tab, zreds=True, out=out, bkgfile=c17.bkgfile(d), zlambdafile=zl, specfile=specfn, has_truth=False, outbase='cat', randfile=rf, calib_spec_max_zerr=0.001,
                  percolation_minlambda=3.0, max_maskfrac=0.2, consolidate_lambda_cuts=[5.0], consolidate_vlim_lstars=[], vlim_depthfiles=None, vlim_bands=None, vlim_nsigs=None)
    c17.TRUTH.clear()
    c17.TRUTH.update(t=t, m=m, log=os.path.join(d, 'events.log'), salt=int(case['seed']), faults={})
    pixels = [int(p) for p in np.unique(hpg.angle_to_pixel(nside, t['RA'], t['DEC'], nest=False))]
    name = {'runcat': 'redmapper_runcat_pixel', 'zmask': 'redmapper_run_zmask_pixel', 'run': 'redmapper_run_redmapper_pixel'}[which]
    fin = {'runcat': ('redmapper_consolidate_runcat', []), 'zmask': ('redmapper_consolidate_runcat', ['-r']), 'run': ('redmapper_consolidate_run', ['-l', 10.0])}[which]
    with c17.Standins():
        codes = [tool(name, ['-c', cf, '-p', p, '-n', nside, '-d', out], d)[0] for p in pixels]
    before = set(glob.glob(os.path.join(out, '*')))
    with Recorder((SpecPlot, ('plot_cluster_catalog', 'plot_cluster_catalog_from_members')), (NzPlot, ('plot_cluster_catalog',))) as R:
        code, txt = tool(fin[0], ['-c', cf] + fin[1], d)
    new = sorted(f for f in set(glob.glob(os.path.join(out, '*.fit'))) - before if 'members' not in f)
    ok = code == 0 and all(c == 0 for c in codes) and len(new) == 1
    mon.check('tools_chain', ok, which=which, code=code, new=[os.path.basename(f) for f in new])
    if ok:
        cat = fitsio.read(new[0], ext=1, lower=True)
        w = t if which != 'run' else t[(t['MASKFRAC'] < 0.2) & (t['LAMBDA'] > 10.0)]
        if which == 'run':
            c = Configuration(cf)
            lam = t['LAMBDA'] / (t['SCALEVAL'] if c.select_scaleval else 1.0)
            w = t[(t['MASKFRAC'] < 0.2) & (lam > 10.0)]
        mon.check('tools_chain', np.array_equal(np.sort(cat['tag']), np.sort(w['TAG'])), which=which, got=cat.size, want=w.size)
        mon.check('tools_chain', (len(R.events) > 0) == (which != 'zmask'), what='plots', which=which)
        mem = glob.glob(os.path.join(out, '*_redmapper_v*_members.fit'))
        mon.check('tools_chain', len(mem) == (0 if which == 'zmask' else 1), what='members', which=which)
    mon.distinct('chain', which, nside, len(pixels))


def matches_finding(f, v):
    return f['id'] == 'F-C24-1' and v['monitor'] == 'job_written' and v['witness'].get('batch') == 'pbs' and 'index_string' in str(v['witness'].get('error'))
