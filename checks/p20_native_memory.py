"""P20: the native core under sanitizers, with hostile callers."""
import importlib
import json
import os
import re
import subprocess
import sys
import threading

from xmon.monitor import Monitor
from xmon.native import pool_history
from xboa.bunch import Bunch
from xboa.core import Bunchcore, Hitcore
from xboa.hit import Hit

ID = 'P20'
STAGE = 'asan'
STAGE2 = 'debug'
CPU_LIMIT = 300
RULE = ('random call histories over a pool of native objects (and classes '
        'inheriting from them) built with address and undefined-behaviour '
        'sanitizers and the system allocator: valid and hostile arguments, '
        're-entrant comparators and number conversions, threads, interpreter '
        'shutdown and library workloads; any sanitizer report, crash, '
        'SystemError or foreign value violates; distinct by history')
REQUIRED = {'call': 20000, 'valid call': 8000, 'hostile call': 5000,
            'refused': 4000, 'whole pool read': 1000, 're-entrant': 1300,
            'mutated in comparator': 300, 'object dropped': 1500,
            'subclass': 500, 'uninitialised': 300, 'threads': 18,
            'shutdown': 8, 'library case': 60, 'copied': 100,
            'context switch': 300, 'self deletion': 100,
            'memcheck call': 2000}
def threads(r, m):
    """Comparators hand the interpreter to threads that change the bunch"""
    import random
    seeds = [r.getrandbits(40) for _ in range(4)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    bunch = Bunchcore()
    for i in range(20):
        h = Hitcore()
        h.set('x', float(i))
        bunch.set_item(h, i)
    errors = []
    calls = [0]*4

    def work(num):
        rr = random.Random(seeds[num])
        for _ in range(150):
            calls[num] += 1
            try:
                op = rr.randrange(6)
                if op == 0:
                    h = Hitcore()
                    h.set('x', rr.random())
                    bunch.set_item(h, bunch.length())
                elif op == 1 and bunch.length() > 3:
                    bunch.del_item(rr.randrange(bunch.length()))
                elif op in (2, 3):
                    def compare(a, b):
                        sum(range(rr.randrange(40)))
                        return a > b
                    bunch.cut_double('x', compare, rr.random(),
                                     rr.random() < .5)
                elif op == 4:
                    bunch.moment(['x', 'x'], {})
                else:
                    h = bunch.get_item(rr.randrange(bunch.length()+1))
                    if h is not None:
                        h.set('px', 3.)
            except SystemError as err:
                errors.append(repr(err))
            except Exception:
                pass
    team = [threading.Thread(target=work, args=(i,)) for i in range(4)]
    [t.start() for t in team]
    [t.join() for t in team]
    sys.setswitchinterval(interval)
    m.event('threads')
    m.event('call', sum(calls))
    m.equal(errors, [], 'ordinary errors only')
    m.distinct(seeds)


ENDINGS = [
    'h = Hitcore(); b.set_item(h, 0); sys.exit(0)',
    'import builtins; builtins.keep = [Hitcore(), b, WeightContext()]',
    'Hitcore.set_weight_context(WeightContext())',
    'w = WeightContext(); Hitcore.set_weight_context(w); del w',
    'class S(Hitcore):\n    def __del__(self):\n        b.set_item(self, 0)\n'
    's = S(); keep = [s]; keep.append(keep); del s',
    'class S:\n    def __del__(self):\n        b.set_item(self.h, 0)\n'
    's = S(); s.h = Hitcore(); b.set_item(s.h, 0); s.s = s',
    'import atexit; atexit.register(lambda: b.set_item(Hitcore(), 5))',
    'import threading, time\n'
    't = threading.Thread(target=lambda: [b.set_item(Hitcore(), 0) or '
    'time.sleep(0) for i in range(3000)], daemon=True)\nt.start()',
    'for k in list(sys.modules):\n    if k.startswith("xboa"):\n'
    '        del sys.modules[k]\nimport gc; gc.collect()',
    'import gc; gc.disable(); x = []; x.append(x); x.append(Hitcore()); '
    'x.append(b); del x',
    'h = Hitcore(); h.set("global_weight", 2.); '
    'b.cut_double("x", lambda p, q: True, 0., True)',
    'c = ~(WeightContext()+2.)*3; d = Hitcore.get_weight_context()',
    'import xboa.core._hitcore as m; n = m.Hitcore; del sys.modules['
    '"xboa.core._hitcore"]; import xboa.core._hitcore as k; k.Hitcore()',
]


def shutdown(r, m):
    lines = r.sample(ENDINGS, r.randint(1, 3))
    lines.sort(key=lambda s: 'sys.exit' in s)
    text = ('import sys\nsys.modules["ROOT"] = None\n'
            'from xboa.core import Hitcore, Bunchcore, WeightContext\n'
            'b = Bunchcore()\n'+'\n'.join(lines)+'\n')
    m.note(text)
    out = subprocess.run([sys.executable, '-B', '-c', text],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, timeout=200)
    m.event('shutdown')
    m.equal(out.returncode, 0, 'the interpreter ends normally',
            output=out.stdout[-900:])
    m.distinct(lines)


def memcheck(r, m):
    """Uninitialised values, which the sanitizers above cannot see"""
    env = {k: v for k, v in os.environ.items()
           if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS')}
    env['PYTHONPATH'] = os.environ['XMON_SITE2']+':'+os.path.dirname(
        os.path.dirname(os.path.abspath(__file__)))
    env['PYTHONMALLOC'] = 'malloc'
    log = os.path.join(m.scratch, 'memcheck.log')
    seed, count = r.getrandbits(40), 4
    out = subprocess.run(
        ['valgrind', '--error-exitcode=9', '--track-origins=yes',
         '--log-file='+log, '--errors-for-leak-kinds=none', sys.executable,
         '-B', '-m', 'xmon.native', str(seed), '0', str(count)], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    text = open(log, errors='replace').read() if os.path.exists(log) else ''
    m.note('xmon.native %d 0 %d under valgrind' % (seed, count))
    found = re.search(r'XMON(.*)', out.stdout)
    if not re.search('ERROR SUMMARY', text):
        m.fail('memcheck ran to its end', status=out.returncode,
               output=out.stdout[-800:], log=text[-800:])
        return
    lines = [line for line in text.splitlines()
             if re.search('uninit|Invalid|Conditional|Syscall|Mismatched|'
                          r' at 0x| by 0x', line)]
    m.check('ERROR SUMMARY: 0 errors' in text, 'memcheck is quiet',
            report=lines[:25])
    if found:
        rec = json.loads(found.group(1))
        m.equal(rec['violations'], [], 'quiet histories')
        m.event('memcheck call', rec['events'].get('call', 0))
    else:
        m.fail('histories ran to their end', status=out.returncode,
               output=out.stdout[-800:])
    m.distinct(seed)


OTHERS = ['p01_hit_fields', 'p03_copies', 'p05_global_weights',
          'p06_weight_contexts', 'p07_container', 'p08_moments', 'p12_cuts']


def library(r, m):
    """The library's own use of the core; other checks judge the answers"""
    m.event('library case')
    mod = importlib.import_module('checks.'+r.choice(OTHERS))
    name, fn = r.choice(mod.SCENARIOS)[:2]
    silent = Monitor(m.scratch)
    try:
        fn(r, silent)
    except SystemError as err:
        m.fail('ordinary error', raised=repr(err))
    except Exception:
        pass
    Hit.clear_global_weights()
    Bunch.set_geometric_momentum(False)
    m.distinct(mod.__name__, name, r.random())


SCENARIOS = [('pool_history', pool_history, 330, 6000),
             ('threads', threads, 30, 400),
             ('shutdown', shutdown, 16, 150),
             ('memcheck', memcheck, 6, 60),
             ('library', library, 90, 1500)]
