"""P36: schedules of the extension build, watched at the compiler."""
import glob
import json
import os
import shutil
import subprocess
import sys

ID = 'P36'
RULE = ('builds of the extension modules from clean copies of the source with '
        'one to eight jobs, in place and into a build folder, from nothing and '
        'over an earlier build; every compiler and linker call is held back '
        'for a random time and logged with its files; order of the log judged '
        'for each object file; distinct by order of calls')
WORKERS = 5
CPU_LIMIT = 600
STALL = 600
REQUIRED = {'build': 6, 'parallel jobs': 3, 'compiled': 50, 'linked': 18,
            'object linked': 40, 'import': 6,
            'package': 20}
REPO = os.environ.get('XMON_REPO', '/repo')

WRAPPER = r'''#!%(python)s -ISE
import json, os, random, subprocess, sys, time
args = sys.argv[1:]
rng = random.Random(' '.join(os.path.basename(a) for a in args)+%(seed)r +
                    str(os.getpid()))
begin = time.monotonic_ns()
time.sleep(rng.choice([0, 0, .1, .4])*%(slow)r)
rc = subprocess.call([%(real)r]+args)
time.sleep(rng.choice([0, 0, .1, .4])*%(slow)r)
end = time.monotonic_ns()
out = args[args.index('-o')+1] if '-o' in args else ''
rec = {'begin': begin, 'end': end, 'rc': rc, 'cwd': os.getcwd(),
       'kind': 'compile' if '-c' in args else 'link', 'out': out,
       'in': [a for a in args if a.endswith(('.o', '.cc', '.cpp', '.c'))
              and a != out]}
fd = os.open(%(log)r, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
os.write(fd, (json.dumps(rec)+'\n').encode())
os.close(fd)
sys.exit(rc)
'''

SMOKE = r'''
import json, sys
sys.modules['ROOT'] = None
import importlib, pkgutil, os
import xboa, xboa.core
from xboa.core import Hitcore, Bunchcore, WeightContext
out = {'where': os.path.realpath(xboa.__file__), 'names': []}
for name in ['xboa.core._hitcore', 'xboa.core._bunchcore',
             'xboa.core._weight_context']:
    out['names'].append(os.path.realpath(importlib.import_module(name).__file__))
from xboa.hit import Hit
from xboa.bunch import Bunch
hits = [Hit.new_from_dict({'x': float(i), 'pz': 200., 'mass': 105., 'pid': -13,
                            'event_number': i})
        for i in range(4)]
b = Bunch.new_from_hits(hits)
assert b.mean(['x'])['x'] == 1.5, b.mean(['x'])
assert b[2]['x'] == 2.
b[0]['local_weight'] = 0.
b[1]['global_weight'] = .5
assert b.bunch_weight() == 2.5
WeightContext()
for name in sys.argv[1:]:
    importlib.import_module(name)
print('SMOKE'+json.dumps(out))
'''


def quiet_env(**more):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'XMON', 'LD_PRELOAD', 'ASAN'))}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', **more)
    return env


def run(cmd, cwd, env):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=500)


def judge(m, log, root):
    """order of the calls for each object"""
    calls = []
    for rec in log:
        if not rec['out']:
            continue
        rec['out'] = os.path.normpath(os.path.join(rec['cwd'], rec['out']))
        rec['in'] = [os.path.normpath(os.path.join(rec['cwd'], f))
                     for f in rec['in']]
        calls.append(rec)
    compiles = [c for c in calls if c['kind'] == 'compile']
    links = [c for c in calls if c['kind'] == 'link']
    m.event('compiled', len(compiles))
    m.event('linked', len(links))
    writers, users = {}, {}
    for c in compiles:
        writers.setdefault(c['out'], []).append(c)
    for link in links:
        for obj in link['in']:
            if obj.endswith('.o'):
                users.setdefault(obj, []).append(link)
    short = os.path.basename
    for obj, cs in sorted(writers.items()):
        if len(users.get(obj, [])) > 1:
            m.event('object of two modules')
        cs.sort(key=lambda c: c['begin'])
        for a, b in zip(cs, cs[1:]):
            m.check(a['end'] <= b['begin'],
                    'one compilation at a time writes an object',
                    object=short(obj))
    for obj, ls in sorted(users.items()):
        for link in ls:
            m.event('object linked')
            cs = writers.get(obj, [])
            m.check(all(c['end'] <= link['begin'] or link['end'] <= c['begin']
                        for c in cs),
                    'no object is rewritten while it is linked',
                    object=short(obj), into=short(link['out']))
            if not any(c['end'] <= link['begin'] for c in cs):
                # from an earlier build
                m.check(not any(c['begin'] < link['begin'] for c in cs),
                        'objects are complete before they are linked',
                        object=short(obj), into=short(link['out']))
    outs = [c['out'] for c in links]
    for a in links:
        for b in links:
            if a is not b and a['out'] == b['out']:
                m.check(a['end'] <= b['begin'] or b['end'] <= a['begin'],
                        'one link at a time writes a module',
                        module=short(a['out']))
    m.check(all(c['rc'] == 0 for c in calls), 'every call succeeds')
    return outs


def build(r, m):
    m.event('build')
    here = m.scratch
    src = os.path.join(here, 'src')
    shutil.copytree(os.path.join(REPO, 'xboa'), os.path.join(src, 'xboa'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__',
                                                  '*.pyc', 'test.log'))
    for name in os.listdir(REPO):
        path = os.path.join(REPO, name)
        if os.path.isfile(path) and not name.startswith('.'):
            shutil.copy(path, src)
    seed = r.randrange(10**9)
    slow = r.choice([0, 1, 1, 2])
    jobs = r.choice([1, 2, 3, 3, 4, 8])
    inplace = r.random() < .7
    again = r.random() < .4
    opt = r.choice(['-O0', '-O1'])
    if jobs > 1:
        m.event('parallel jobs')
    m.note((jobs, slow, inplace, again, opt, seed))
    log = os.path.join(here, 'log')
    env = quiet_env(CFLAGS=opt+' -g0', CXXFLAGS=opt+' -g0')
    for var, real in (('CC', 'gcc'), ('CXX', 'g++')):
        path = os.path.join(here, 'wrap_'+real)
        with open(path, 'w') as f:
            f.write(WRAPPER % {'python': sys.executable, 'seed': str(seed),
                               'slow': slow, 'real': shutil.which(real),
                               'log': log})
        os.chmod(path, 0o755)
        env[var] = path
    cmd = [sys.executable, 'setup.py', 'build_ext', '-j', str(jobs)]
    if inplace:
        cmd += ['--inplace']
        where = src
    else:
        cmd = [sys.executable, 'setup.py', 'build', '--build-base',
               os.path.join(here, 'out'), '-j', str(jobs)]
        where = None
    order = []
    for turn in range(1+again):
        if os.path.exists(log):
            os.unlink(log)
        if turn:
            cmd = cmd+['--force']
        out = run(cmd, src, env)
        if not m.check(out.returncode == 0, 'the build succeeds',
                       said=out.stdout[-600:]):
            return
        records = [json.loads(line) for line in open(log)] \
            if os.path.exists(log) else []
        order += [(c['kind'], os.path.basename(c['out']))
                  for c in sorted(records, key=lambda c: c['begin'])]
        judge(m, records, src)
    m.distinct(order, jobs, slow, inplace, again)
    if where is None:
        where = [d for d in glob.glob(os.path.join(here, 'out', 'lib*'))][0]
    names = []
    for folder, dirs, files in os.walk(os.path.join(where, 'xboa')):
        dirs[:] = [d for d in dirs if d not in ('test', 'examples')]
        if '__init__.py' in files:
            names.append(os.path.relpath(folder, where).replace(os.sep, '.'))
    m.event('package', len(names))
    m.event('import')
    done = run([sys.executable, '-W', 'ignore', '-c', SMOKE]+sorted(names),
               here, quiet_env(PYTHONPATH=where))
    text = [l for l in done.stdout.splitlines() if l.startswith('SMOKE')]
    if m.check(done.returncode == 0 and len(text) == 1,
               'the modules import and work', said=done.stdout[-600:]):
        got = json.loads(text[0][5:])
        m.check(all(n.startswith(os.path.realpath(where)+os.sep)
                    for n in got['names']+[got['where']]),
                'the modules imported are those built', got=got)
    # nothing that can be imported from the source is missing from the build
    if where != src:
        for folder, dirs, files in os.walk(os.path.join(src, 'xboa')):
            dirs[:] = [d for d in dirs if d not in ('test', 'examples')]
            if '__init__.py' not in files:
                continue
            rel = os.path.relpath(folder, src)
            for name in files:
                if name.endswith('.py'):
                    m.check(os.path.exists(os.path.join(where, rel, name)),
                            'every module is in the build',
                            module=os.path.join(rel, name))
    shutil.rmtree(src)


SCENARIOS = [
    ('build', build, 10, 60, {}),
]
