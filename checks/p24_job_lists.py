"""P24: lists of jobs over worker processes."""
import os
import re
import signal
import subprocess
import sys
import time

import xboa.common as Common

ID = 'P24'
RULE = ('random job counts, worker counts, durations and failing jobs (raising '
        'built-in, user-made and unsendable exceptions, leaving, returning '
        'unsendable, falsy and large values); every job logs its start and end '
        'to an append-only file that is judged off line for exactly-once, '
        'order, concurrency and leftovers; distinct by job list')
REQUIRED = {'list': 70, 'job started': 600, 'job ended': 400,
            'failing job': 120, 'unsendable exception': 25,
            'unsendable result': 12, 'exit in a job': 12, 'out of order end': 15,
            'rendezvous': 6, 'single process': 25, 'empty list': 3,
            'subprocess': 25, 'killed subprocess': 15, 'exit with children': 4,
            'children gone': 100}
WORKERS = 4
STALL = 100
STALL_VIOLATION = ('lists', 'meeting', 'processes', 'at_exit')
ASSUMPTIONS = ['a job fails by raising; a job that kills its own worker '
               'process is outside what process_list promises']

LOG = None


class Plain(Exception):
    pass


class TwoArgs(Exception):
    """Cannot be rebuilt from its args"""
    def __init__(self, one, two):
        super().__init__('one=%s' % one)
        self.two = two


class Holds(Exception):
    """Cannot be pickled"""
    def __init__(self, text):
        super().__init__(text)
        self.fn = lambda: None


class Halt(BaseException):
    pass


class Odd(object):
    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Odd) and other.value == self.value

    def __lt__(self, other):
        raise TypeError('not ordered')


def record(text):
    handle = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.write(handle, (text+'\n').encode())
    os.close(handle)


def job(number, kind, delay, value):
    record('start %d %d %.6f' % (number, os.getpid(), time.time()))
    try:
        if delay:
            time.sleep(delay)
        if kind == 'value':
            return (number, value)
        if kind == 'bare':
            return value
        if kind == 'odd':
            return Odd(value)
        if kind == 'lambda':
            return lambda: number
        if kind == 'raise':
            raise ValueError('job', number)
        if kind == 'plain':
            raise Plain('job %d' % number)
        if kind == 'two':
            raise TwoArgs('job%d' % number, 2)
        if kind == 'holds':
            raise Holds('job%d' % number)
        if kind == 'exit':
            sys.exit(number)
        if kind == 'interrupt':
            raise KeyboardInterrupt('job%d' % number)
        if kind == 'halt':
            raise Halt('job%d' % number)
        if kind == 'warning':
            raise UserWarning('job%d' % number)
    finally:
        record('end %d %d %.6f' % (number, os.getpid(), time.time()))


def children():
    """Live processes whose parent is this one"""
    out = []
    me = os.getpid()
    for name in os.listdir('/proc'):
        if not name.isdigit():
            continue
        try:
            text = open('/proc/%s/stat' % name).read()
        except OSError:
            continue
        state, parent = text.rsplit(')', 1)[1].split()[:2]
        if int(parent) == me and state != 'Z':
            out.append(int(name))
    return out


def alive(pid):
    try:
        text = open('/proc/%d/stat' % pid).read()
    except OSError:
        return False
    return text.rsplit(')', 1)[1].split()[0] != 'Z'


def all_gone(m, before, site):
    end = time.time()+20
    while time.time() < end:
        left = [p for p in children() if p not in before]
        if not left:
            m.event('children gone')
            return m.check(True, site)
        time.sleep(.02)
    for pid in left:
        os.kill(pid, signal.SIGKILL)
    return m.fail(site, left=left)


def read_log():
    starts, ends = {}, {}
    if os.path.exists(LOG):
        for line in open(LOG):
            what, number, pid, when = line.split()
            into = starts if what == 'start' else ends
            into.setdefault(int(number), []).append((int(pid), float(when)))
    return starts, ends


def lists(r, m):
    global LOG
    LOG = m.scratch+'/log'
    n_jobs = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 33])
    n_proc = r.choice([1, 1, 2, 3, 4, 7])
    mood = r.choice(['calm', 'mixed', 'broken'])
    delays = r.choice(['none', 'first slow', 'last slow', 'random'])
    jobs = []
    for i in range(n_jobs):
        kind = 'value'
        if mood == 'mixed' and r.random() < .4 or mood == 'broken':
            kind = r.choice(['raise', 'plain', 'two', 'holds', 'exit', 'lambda',
                             'interrupt', 'halt', 'warning'])
        elif r.random() < .2:
            kind = r.choice(['bare', 'odd'])
        wait = {'none': 0., 'first slow': .2 if i == 0 else 0.,
                'last slow': .2 if i == n_jobs-1 else 0.,
                'random': r.choice([0., .01, .05])}[delays]
        value = r.choice([None, 0, '', [], False, i, 'x'*10**r.randint(0, 6),
                          {'a': [i]}])
        jobs.append((i, kind, wait, value))
    if r.random() < .3:     # the same job several times over
        jobs = [r.choice(jobs) for _ in jobs]
    shape = r.choice([tuple, list])
    m.note([(j[0], j[1], j[2], str(j[3])[:20]) for j in jobs]+[n_proc])
    m.distinct([(j[0], j[1], j[2], str(j[3])[:20]) for j in jobs], n_proc)
    before = children()
    args = [shape(j) for j in jobs]
    kept = [shape(j) for j in jobs]
    m.event('list')
    if not jobs:
        m.event('empty list')
    if n_proc == 1:
        m.event('single process')
    ok, out = m.quiet(lambda: Common.process_list(job, args, n_proc),
                      'process_list gives results')
    finished = time.time()
    all_gone(m, before, 'no worker process left')
    starts, ends = read_log()
    want = {}
    for j in jobs:
        want[j[0]] = want.get(j[0], 0)+1
    m.equal({k: len(v) for k, v in starts.items()}, want,
            'every job started exactly once')
    m.equal({k: len(v) for k, v in ends.items()}, want,
            'every job ended exactly once')
    pids = set(p for v in starts.values() for p, _ in v)
    m.check(len(pids) <= n_proc, 'no more processes than asked', pids=pids,
            asked=n_proc)
    m.check(os.getpid() not in pids, 'jobs run in other processes')
    m.event('job started', sum(map(len, starts.values())))
    m.event('job ended', sum(map(len, ends.values())))
    spans = [(p, t, 1) for v in starts.values() for p, t in v]
    last = [t for v in ends.values() for _, t in v]
    if any(b < a for a, b in zip(last, last[1:])):
        m.event('out of order end')
    if last:
        m.check(finished-max(last) < 20, 'results come soon after the last job',
                waited=finished-max(last))
    if not ok:
        return
    if not m.equal(len(out), len(jobs), 'one result per job'):
        return
    for j, got in zip(jobs, out):
        number, kind, _, value = j
        if kind == 'value':
            m.equal(got, (number, value), 'result of a job, in order')
            continue
        if kind == 'bare':
            m.check(type(got) is type(value) and got == value,
                    'bare result of a job', got=got, want=value)
            continue
        if kind == 'odd':
            m.equal(got, Odd(value), 'result without an order')
            continue
        m.event('failing job')
        if kind == 'lambda':
            m.event('unsendable result')
            m.check(isinstance(got, Exception), 'unsendable result reported',
                    got=got)
        elif kind in ('raise', 'plain', 'exit', 'interrupt', 'halt',
                      'warning'):
            if kind == 'exit':
                m.event('exit in a job')
            cls, args_ = {
                'raise': (ValueError, ('job', number)),
                'plain': (Plain, ('job %d' % number,)),
                'exit': (SystemExit, (number,)),
                'halt': (Halt, ('job%d' % number,)),
                'warning': (UserWarning, ('job%d' % number,)),
                'interrupt': (KeyboardInterrupt, ('job%d' % number,))}[kind]
            m.check(type(got) is cls and got.args == args_,
                    'exception of a job, in place', got=got, want=args_)
        else:
            m.event('unsendable exception')
            m.check(isinstance(got, Exception) and
                    re.search(r'job%d\b' % number, str(got)+repr(got.args)),
                    'unsendable exception of a job, in place', got=got)


def meet(number, of, folder):
    """Every job of a group waits until all of the group run"""
    open(os.path.join(folder, 'here%d' % number), 'w').close()
    end = time.time()+30
    while time.time() < end:
        if len([n for n in os.listdir(folder) if n.startswith('here')]) >= of:
            return 'met'
        time.sleep(.005)
    return 'alone'


def meeting(r, m):
    n = r.choice([2, 3, 4, 7, 9])
    m.event('rendezvous')
    more = r.choice([0, 1, 1, 2, n-1, n, 2*n])
    m.note((n, more))
    m.distinct(n, more, r.random())
    before = children()
    # no job comes back before as many as there are processes have started
    out = Common.process_list(meet, [(i, n, m.scratch)
                                     for i in range(n+more)], n)
    m.equal(out, ['met']*(n+more), 'as many processes as asked run at once',
            processes=n, jobs=n+more)
    all_gone(m, before, 'no worker process left after meeting')


def last_words(number, frame):
    time.sleep(.06)
    os._exit(0)


def mark(path, text, delay):
    if delay > 1:
        signal.signal(signal.SIGTERM, last_words)
    with open(path, 'a') as f:
        f.write(text+'start\n')
    time.sleep(delay)
    with open(path, 'a') as f:
        f.write(text+'end\n')


def processes(r, m):
    n = r.randint(1, 4)
    before = children()
    plan, procs = [], []
    m.distinct(n, r.random())
    for i in range(n):
        path = m.scratch+'/p%d' % i
        slow = r.random() < .6
        plan.append((path, slow))
        m.event('subprocess')
        ok, proc = m.quiet(lambda: Common.subprocess(
            mark, (path, 'x', 1000. if slow else 0.)), 'subprocess starts')
        procs.append(proc)
    m.note(plan)
    for (path, slow), proc in zip(plan, procs):
        end = time.time()+30
        want = 'xstart\n' if slow else 'xstart\nxend\n'
        while time.time() < end and (not os.path.exists(path) or
                                     open(path).read() != want):
            time.sleep(.005)
        m.equal(open(path).read() if os.path.exists(path) else None, want,
                'the call is made once, with its arguments')
        if not slow:
            proc.join(20)
        m.equal(proc.is_alive(), slow, 'process runs while its call does')
    Common.kill_all_subprocesses()
    for (path, slow), proc in zip(plan, procs):
        m.check(not proc.is_alive(), 'gone when killing them all returns')
        m.equal(open(path).read(), 'xstart\n' if slow else 'xstart\nxend\n',
                'a killed call does not finish')
        if slow:
            m.event('killed subprocess')
    all_gone(m, before, 'no subprocess left')
    m.quiet(Common.kill_all_subprocesses, 'killing again')


EXIT = """
import os, sys, time
sys.modules['ROOT'] = None
import xboa.common as Common
def work(path, delay):
    with open(path, 'a') as f:
        f.write('pid %d\\n' % os.getpid())
    time.sleep(delay)
    with open(path, 'a') as f:
        f.write('done\\n')
Common._common.kill_subprocesses_at_exit = KILL
for i in range(COUNT):
    Common.subprocess(work, (sys.argv[1]+str(i), DELAY))
for i in range(COUNT):
    while not os.path.exists(sys.argv[1]+str(i)) or \\
            '\\n' not in open(sys.argv[1]+str(i)).read():
        time.sleep(.01)
END
"""


def at_exit(r, m):
    kill = r.random() < .6
    count = r.randint(1, 3)
    end = r.choice(['', 'sys.exit(0)', 'raise RuntimeError("over")'])
    m.event('exit with children')
    m.note((kill, count, end))
    m.distinct(kill, count, end)
    text = EXIT.replace('KILL', str(kill)).replace('COUNT', str(count))
    text = text.replace('DELAY', '300.' if kill else '.6').replace('END', end)
    path = m.scratch+'/e'
    with open(m.scratch+'/s.py', 'w') as f:
        f.write(text)
    try:
        subprocess.run([sys.executable, m.scratch+'/s.py', path], timeout=60,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        m.fail('the program ends')
    stop = time.time()+20
    for i in range(count):
        log = open(path+str(i)).read().split('\n')
        pid = int(log[0].split()[1])
        while alive(pid) and time.time() < stop:
            time.sleep(.02)
        if not m.check(not alive(pid), 'no subprocess outlives the program'):
            os.kill(pid, signal.SIGKILL)
        m.equal('done' in log, not kill, 'children killed only when asked')


SCENARIOS = [
    ('lists', lists, 260, 4000, {}),
    ('meeting', meeting, 12, 300, {}),
    ('processes', processes, 40, 500, {}),
    ('at_exit', at_exit, 14, 60, {}),
]
