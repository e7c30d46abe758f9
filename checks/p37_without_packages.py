"""P37: xboa runs without the packages that it can do without."""
import json
import os
import subprocess
import sys

ID = 'P37'
NEEDS_ROOT = True
RULE = ('about seventy features run in processes in which some of numpy, '
        'matplotlib, ROOT, scipy and multiprocessing cannot be imported, and '
        'compared with the same features where all of them can; distinct by '
        'set of missing packages and seed')
REQUIRED = {'process': 60, 'base feature': 1000, 'works the same': 1500,
            'refused': 1200, 'numpy missing': 10, 'matplotlib missing': 10,
            'ROOT missing': 10, 'scipy missing': 10,
            'multiprocessing missing': 10, 'several missing': 10,
            'one missing': 5, 'refused by numpy': 300,
            'refused by matplotlib': 60, 'refused by ROOT': 80,
            'refused by scipy': 15, 'refused by multiprocessing': 30}
OPTIONAL = ['numpy', 'matplotlib', 'ROOT', 'scipy', 'multiprocessing']
# config knows matplotlib by another name
KNOWN = {'numpy': 'numpy', 'matplotlib': 'matplot', 'ROOT': 'root',
         'scipy': 'scipy', 'multiprocessing': 'multiprocessing'}
SETS = [[n for i, n in enumerate(OPTIONAL) if k >> i & 1] for k in range(32)]
IMPLIED = {'numpy': ['matplotlib', 'scipy']}   # these import numpy themselves


def run(m, blocked, seeds):
    env = dict(os.environ)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env['PYTHONPATH'] = env['XMON_SITE']+':'+here
    where = os.path.join(m.scratch, 'w'+'_'.join(blocked))
    os.makedirs(where, exist_ok=True)
    out = subprocess.run(
        [sys.executable, '-B', '-W', 'ignore', '-m', 'xmon.without',
         json.dumps({'blocked': blocked, 'seeds': seeds})],
        cwd=where, env=env, timeout=300, stdout=subprocess.PIPE, text=True,
        stdin=subprocess.DEVNULL)
    lines = [json.loads(l) for l in out.stdout.splitlines()]
    m.event('process')
    return out.returncode, lines


def missing_of(blocked):
    out = set(blocked)
    for name in blocked:
        out |= set(IMPLIED.get(name, []))
    return out


def lacking(needs, missing):
    """The packages that keep a feature from working"""
    out = []
    for need in needs:
        if need == 'multiprocessing or no ROOT':
            if 'multiprocessing' in missing and 'ROOT' not in missing:
                out.append('multiprocessing')
        elif need in missing:
            out.append(need)
    return out


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        x, y = float(a['f']), float(b['f'])
        return x == y or (x != x and y != y) or \
            abs(x-y) <= 1e-9*max(abs(x), abs(y), 1e-12)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def without(r, m):
    seeds = [r.randint(0, 10**6) for _ in range(2)]
    code, full = run(m, [], seeds)
    m.check(code == 0 and full and full[-1].get('end'),
            'runs with every package', code=code)
    want = {(l['name'], l['seed']): l for l in full if 'name' in l}
    for line in want.values():
        m.check('value' in line, 'works with every package',
                name=line['name'], error=line.get('error'),
                text=line.get('text'))
    for blocked in r.sample(SETS[1:], 3)+[[r.choice(OPTIONAL)]]:
        missing = missing_of(blocked)
        m.note((blocked, seeds))
        m.distinct(blocked, seeds)
        for name in blocked:
            m.event(name+' missing')
        m.event('several missing' if len(blocked) > 1 else 'one missing')
        code, lines = run(m, blocked, seeds)
        if not m.check(code == 0 and lines and lines[-1].get('end'),
                       'imported and used without optional packages',
                       blocked=blocked, code=code):
            continue
        packages = lines[0]['packages']
        for name in OPTIONAL:
            m.equal(packages[KNOWN[name]], name not in missing,
                    'configuration knows what is there', name=name,
                    blocked=blocked)
        got = {(l['name'], l['seed']): l for l in lines if 'name' in l}
        m.equal(sorted(got), sorted(want), 'every feature tried')
        for key, line in got.items():
            if 'value' not in want.get(key, {}):
                continue
            lack = lacking(line['needs'], missing)
            if not line['needs']:
                m.event('base feature')
            if 'value' in line and 'multiprocessing or no ROOT' in \
                    line['needs'] and lack:
                m.fail('no fork under ROOT', name=key[0], blocked=blocked)
            elif 'value' in line:
                m.event('works the same')
                m.check(alike(line['value'], want[key]['value']),
                        'same result without optional packages',
                        name=key[0], blocked=blocked, got=line['value'],
                        want=want[key]['value'])
            elif not lack:
                m.fail('works without packages that it does not need',
                       name=key[0], blocked=blocked, error=line['error'],
                       text=line['text'])
            else:
                m.event('refused')
                for name in lack:
                    m.event('refused by '+name)
                m.check(line['import'], 'a missing package is an ImportError',
                        name=key[0], blocked=blocked, error=line['error'],
                        text=line['text'])
                m.check(line['kept'], 'refused without changing the bunch',
                        name=key[0], blocked=blocked)


SCENARIOS = [('without', without, 20, 300, {})]
