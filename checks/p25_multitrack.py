"""P25: tracking over several processes, with processes that fail and die."""
import os
import shutil
import signal
import sys
import time

from xmon import gen
from xboa.hit import Hit
from xboa.tracking import MultiTrack, TrackingBase
from xboa.tracking.tracking_process import BSubProcess, ThisNodeProcess

ID = 'P25'
RULE = ('random hit lists, process counts and faults (a hit whose tracking '
        'raises, leaves, kills its process or waits; a result that kills the '
        'process while it is being written); every tracked hit is logged with '
        'its process and judged off line; random histories of set, start, '
        'join, kill and read on one process against a state machine; a stand-in '
        'batch system; distinct by input')
REQUIRED = {'track_many': 24, 'chunk': 60, 'good chunk': 40, 'failed chunk': 12,
            'killed process': 5, 'hit tracked': 100, 'partial result': 8,
            'run': 40, 'stale output': 6, 'refused': 60, 'half written': 4,
            'bsub job': 5, 'more processes than hits': 3, 'join limit': 6,
            'killed from outside': 8}
WORKERS = 6
STALL = 150
STALL_VIOLATION = ('many', 'partial', 'history', 'half', 'batch')
ASSUMPTIONS = ['the batch system is a stand-in that runs the command it is '
               'given and prints what bsub and bjobs print']

LOG = None


def record(text):
    handle = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.write(handle, (text+'\n').encode())
    os.close(handle)


class Bomb(object):
    """Kills the process that pickles it"""
    def __reduce__(self):
        os.kill(os.getpid(), signal.SIGKILL)


class Tracer(TrackingBase):
    """Logs what it tracks; the station of a hit says what goes wrong"""
    FAULTS = {1: 'raise', 2: 'exit', 3: 'kill', 4: 'gate', 5: 'bomb'}

    def __init__(self, log, gate, armed=True):
        TrackingBase.__init__(self)
        self.log, self.gate, self.armed = log, gate, armed

    def track_one(self, hit):
        global LOG
        if self.armed:
            LOG = self.log
            record('track %d %d' % (hit['event_number'], os.getpid()))
        fault = self.FAULTS.get(hit['station']) if self.armed else None
        if fault == 'raise':
            raise ValueError('cannot track this')
        if fault == 'exit':
            sys.exit(3)
        if fault == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        out = hit.deepcopy()
        out['x'] = hit['x']*2.+1.
        out['z'] = hit['z']+100.
        if fault == 'gate':
            end = time.time()+100
            while not os.path.exists(self.gate) and time.time() < end:
                time.sleep(.005)
        if fault == 'bomb':
            return [hit.deepcopy(), out, 'x'*500000, Bomb()]
        return [hit.deepcopy(), out]


BIN = []


def prepare():
    """The script of the staged package on the path, started with our python"""
    if BIN:
        return
    folder = os.path.join(os.environ['TMPDIR'], 'bin%d' % os.getpid())
    os.makedirs(folder+'/stub')
    src = os.path.join(os.environ['XMON_SITE'], 'xboa', 'tracking',
                       'tracking_process', 'xboa_tracking_process.py')
    shutil.copy(src, folder)
    os.chmod(folder+'/xboa_tracking_process.py', 0o755)
    with open(folder+'/python', 'w') as f:
        f.write('#!/bin/sh\nexec %s "$@"\n' % sys.executable)
    os.chmod(folder+'/python', 0o755)
    with open(folder+'/stub/ROOT.py', 'w') as f:
        f.write('raise ImportError("not needed here")\n')
    for name, text in [('bsub', BSUB), ('bjobs', BJOBS), ('bkill', BKILL)]:
        with open(os.path.join(folder, name), 'w') as f:
            f.write(text)
        os.chmod(os.path.join(folder, name), 0o755)
    os.environ['PATH'] = folder+':'+os.environ['PATH']
    os.environ['PYTHONPATH'] = folder+'/stub:'+os.environ['PYTHONPATH']
    os.environ['FAKE_CLUSTER'] = folder
    BIN.append(folder)


BSUB = r'''#!/bin/bash
if [ "$1" = -h ]; then exit 0; fi
while [ "${1#-}" != "$1" ]; do
  case $1 in -o) log=$2;; -e) err=$2;; esac
  shift 2
done
( "$@" >"$log" 2>"$err"; echo $? > "$FAKE_CLUSTER/code.tmp.$BASHPID"
  mv "$FAKE_CLUSTER/code.tmp.$BASHPID" "$FAKE_CLUSTER/code.$BASHPID" ) \
  </dev/null >/dev/null 2>&1 &
echo "Job <$!> is submitted to queue <scarf-ibis>."
'''
BJOBS = r'''#!/bin/bash
pid=$2
echo
if [ -e "$FAKE_CLUSTER/code.$pid" ]; then
  code=$(cat "$FAKE_CLUSTER/code.$pid")
  if [ "$code" = 0 ]; then
    echo "Job <$pid>, User <u>, Project <p>, Status <DONE>, Queue <q>"
  else
    echo "Job <$pid>, User <u>, Project <p>, Status <EXIT>, Queue <q>"
    echo "  Exited with exit code $code. The CPU time used is 0.1 seconds."
  fi
else
  echo "Job <$pid>, User <u>, Project <p>, Status <RUN>, Queue <q>"
fi
'''
BKILL = r'''#!/bin/bash
pkill -KILL -P $1
'''


def tracked():
    out = []
    if os.path.exists(LOG):
        for line in open(LOG):
            _, number, pid = line.split()
            out.append((int(number), int(pid)))
    return out


def new_process(m, tracking):
    """A ThisNodeProcess whose files are in the scratch directory"""
    proc = ThisNodeProcess(tracking)
    if proc.out_dir.startswith('/tmp/tracking/'):
        os.rmdir(proc.out_dir)     # the one just made for us
    proc.tmp_dir = m.scratch+'/tracking'
    proc.new_out_dir()
    return proc


def new_hits(r, n, faults, rate):
    hits = []
    for i in range(n):
        d = gen.hit_dict(r, station=0, event=i)
        if faults and r.random() < rate:
            d['station'] = r.choice(faults)
        hits.append(Hit.new_from_dict(d))
    return hits


def same(m, got, want, site):
    """Lists of lists of hits, variable by variable"""
    try:
        got = [[gen.state(h) for h in track] for track in got]
    except Exception as err:
        return m.fail(site, raised=repr(err))
    return m.equal(got, [[gen.state(h) for h in track] for track in want], site)


def expected(hits, gate=None):
    return Tracer('', '', False).track_many(hits)


def split_well(m, chunks, hits, n_proc):
    m.equal([h['event_number'] for c in chunks for h in c],
            [h['event_number'] for h in hits], 'chunks cover the hits in order')
    m.equal(len(chunks), n_proc, 'one chunk per process')
    sizes = [len(c) for c in chunks]
    m.check(not sizes or max(sizes)-min(sizes) <= 1, 'chunks of even size',
            sizes=sizes)


def many(r, m):
    global LOG
    prepare()
    LOG = m.scratch+'/log'
    n_proc = r.randint(1, 4)
    n = r.choice([0, 1, 2, 3, 5, 7, 8, 12])
    faults = r.choice([[], [1], [2], [3], [1, 2, 3, 5], [5]])
    hits = new_hits(r, n, faults, .25)
    m.note(([h['station'] for h in hits], n_proc))
    m.distinct([h['station'] for h in hits], [h['x'] for h in hits], n_proc)
    m.event('track_many')
    if n < n_proc:
        m.event('more processes than hits')
    before = [gen.state(h) for h in hits]
    kept = list(hits)
    template = new_process(m, Tracer(LOG, m.scratch+'/gate'))
    multi = MultiTrack(n_proc, template)
    again = r.random() < .3
    for turn in range(2 if again else 1):
        if os.path.exists(LOG):
            os.unlink(LOG)
        ok, out = m.quiet(lambda: multi.track_many(hits), 'track_many runs')
        if not ok:
            return
        m.equal([gen.state(h) for h in hits], before, 'hits are left alone')
        m.check(len(hits) == len(kept) and all(
            a is b for a, b in zip(hits, kept)), 'hit list is left alone')
        chunks = [job.hit_list for job in multi.job_list]
        split_well(m, chunks, hits, n_proc)
        want = []
        log = tracked()
        counts = {}
        for number, _ in log:
            counts[number] = counts.get(number, 0)+1
        owners = []
        for job, chunk in zip(multi.job_list, chunks):
            m.event('chunk')
            numbers = [h['event_number'] for h in chunk]
            bad = [h for h in chunk if h['station'] in (1, 2, 3, 5)]
            m.check(not job.is_alive(), 'every process has ended')
            m.check(isinstance(job.exitcode, int), 'an exit code is reported',
                    code=job.exitcode)
            pids = set(p for num, p in log if num in numbers)
            m.check(len(pids) <= 1, 'one process per chunk', pids=pids)
            if pids:
                owners.append(pids.pop())
            if bad:
                m.event('failed chunk')
                if bad[0]['station'] in (3, 5):
                    m.event('killed process')
                m.check(job.exitcode != 0, 'failure shows in the exit code')
                m.raises(RuntimeError, job.get_return_value,
                         'a failed process has no return value')
            else:
                m.event('good chunk')
                want += expected(chunk)
                m.equal(job.exitcode, 0, 'success shows in the exit code')
                m.equal([num for num, _ in log if num in numbers], numbers,
                        'each hit tracked once, in order')
        m.check(all(c == 1 for c in counts.values()), 'no hit tracked twice',
                counts=counts)
        m.event('hit tracked', len(log))
        m.check(len(set(owners)) == len(owners) and os.getpid() not in owners,
                'every chunk in a process of its own', owners=owners)
        same(m, out, want, 'one trajectory per hit of a good process, in order')
        same(m, multi.last, want, 'last holds the latest result')
        same(m, multi.get_return_value(), want, 'reading the result again')
        folders = [job.out_dir for job in multi.job_list]
        m.equal(len(set(folders)), len(folders), 'a directory per process')


def wait_for(cond, limit=40):
    end = time.time()+limit
    while time.time() < end:
        if cond():
            return True
        time.sleep(.01)
    return False


def partial(r, m):
    global LOG
    prepare()
    LOG = m.scratch+'/log'
    gate = m.scratch+'/gate'
    n_proc = r.randint(2, 4)
    hits = new_hits(r, n_proc*2+r.randint(0, 1), [], 0)
    held = r.randrange(len(hits))
    hits[held]['station'] = 4
    m.note((len(hits), n_proc, held))
    m.distinct(len(hits), n_proc, held, hits[0]['x'])
    m.event('partial result')
    multi = MultiTrack(n_proc, new_process(m, Tracer(LOG, gate)))
    jobs = multi.track_many_async(hits)
    m.check(jobs is multi.job_list or jobs == multi.job_list,
            'track_many_async returns its jobs')
    chunks = [job.hit_list for job in jobs]
    split_well(m, chunks, hits, n_proc)
    slow = [any(h['station'] == 4 for h in c) for c in chunks]
    if not m.check(wait_for(lambda: [j.is_alive() for j in jobs] == slow),
                   'only the slow process goes on'):
        for job in jobs:
            job.kill()
        return
    want = [t for c, s in zip(chunks, slow) if not s for t in expected(c)]
    same(m, multi.get_return_value(), want,
         'a running process is left out of the result')
    waiting = jobs[slow.index(True)]
    m.raises(RuntimeError, waiting.get_return_value,
             'a running process has no return value')
    m.raises(RuntimeError, waiting.start, 'a running process cannot start')
    m.check(waiting.is_alive(), 'still running')
    t0 = time.time()
    waiting.join(.2)
    m.event('join limit')
    m.check(.15 <= time.time()-t0 < 15, 'join comes back at its limit',
            took=time.time()-t0)
    m.check(waiting.is_alive(), 'join does not end the process')
    t0 = time.time()
    waiting.join(r.choice([0, 0., 1e-9]))
    m.check(time.time()-t0 < 15, 'join without patience comes back at once',
            took=time.time()-t0)
    m.check(waiting.is_alive(), 'join does not end the process')
    finish = r.choice(['open', 'open', 'kill', 'terminate'])
    if finish == 'open':
        open(gate, 'w').close()
        waiting.join()
        want = expected(hits)
        m.equal(waiting.exitcode, 0, 'the slow process ends well')
    else:
        m.event('killed from outside')
        getattr(waiting, finish)(30)
        m.check(waiting.exitcode not in (0, None),
                'a killed process shows in the exit code',
                code=waiting.exitcode)
    m.check(not waiting.is_alive(), 'the process is over')
    same(m, multi.get_return_value(), want, 'final result, in order')


def history(r, m):
    """One process through a random life, against what it should know"""
    global LOG
    prepare()
    LOG = m.scratch+'/log'
    gate = m.scratch+'/gate'
    proc = new_process(m, Tracer(LOG, gate))
    hits, running, result, started = None, None, None, False
    log = []
    m.distinct(r.random())

    def settle():
        """The process ends by itself"""
        nonlocal running, result
        if running is None:
            return
        fault = [h['station'] for h in running if h['station']]
        if not m.check(wait_for(lambda: not proc.is_alive()),
                       'the process ends by itself'):
            proc.kill()
        if fault:
            m.check(proc.exitcode not in (0, None), 'failed exit code',
                    code=proc.exitcode)
            result = None
        else:
            m.equal(proc.exitcode, 0, 'good exit code')
            result = expected(running)
        running = None
    for _ in range(r.randint(6, 12)):
        ops = ['set', 'set', 'start', 'start', 'start', 'read', 'read', 'early',
               'outside']
        op = r.choice(ops)
        log.append(op)
        m.note(log)
        if op == 'set' and running is None:
            hits = new_hits(r, r.randint(0, 3), [1, 3], r.choice([0, .4]))
            log.append([h['station'] for h in hits])
            m.quiet(lambda: proc.set_hit_list(hits), 'new hits are accepted')
            back = ThisNodeProcess.new_from_pickle(proc.out_dir)
            m.equal([gen.state(h) for h in back.hit_list],
                    [gen.state(h) for h in hits], 'hits come back from the file')
        elif op == 'start' and hits is not None:
            if running is None:
                if result is not None:
                    m.event('stale output')
                m.event('run')
                running = hits
                started = True
                proc.start()
                m.check(isinstance(proc.pid, int), 'a pid')
            if r.random() < .6:
                settle()
        elif op == 'outside' and running is not None:
            m.event('killed from outside')
            # still importing, so it cannot have ended
            how = r.choice([proc.kill, proc.terminate])
            how(30)
            m.check(proc.exitcode is not None and not proc.is_alive(),
                    'a killed process is over')
            if proc.exitcode == 0:
                result = expected(running)
            else:
                result = None
                m.raises(RuntimeError, proc.get_return_value,
                         'a killed process has no result')
            running = None
        elif op == 'early' and not started:
            m.event('refused', 3)
            m.raises(RuntimeError, proc.kill, 'kill before start refused')
            m.raises(RuntimeError, proc.terminate,
                     'terminate before start refused')
            m.raises(RuntimeError, proc.get_return_value,
                     'no result before start')
            m.equal(proc.is_alive(), False, 'not alive before start')
        elif op == 'read':
            settle()
            if result is None:
                m.event('refused')
                m.raises(RuntimeError, proc.get_return_value,
                         'no result of a failed or unstarted process')
            else:
                ok, got = m.quiet(proc.get_return_value, 'result is there')
                if ok:
                    same(m, got, result, 'result of the latest run')
    settle()
    if hits is not None and not [h for h in hits if h['station']]:
        ok, got = m.quiet(proc.run, 'run in this process')
        same(m, got, expected(hits), 'run in this process agrees')
        one = new_hits(r, 1, [], 0)[0]
        multi = MultiTrack(2, proc)
        ok, got = m.quiet(lambda: multi.track_one(one), 'track_one runs')
        if ok:
            same(m, [got], expected([one]), 'track_one agrees')
            same(m, multi.last, expected([one]), 'last after track_one')


def half(r, m):
    """Killed while the output is being written"""
    global LOG
    prepare()
    LOG = m.scratch+'/log'
    m.event('half written')
    proc = new_process(m, Tracer(LOG, m.scratch+'/gate'))
    first = r.random() < .5
    m.note(first)
    m.distinct(first, r.random())
    hits = new_hits(r, 2, [], 0)
    if first:
        proc.set_hit_list(hits)
        proc.start()
        proc.join()
        same(m, proc.get_return_value(), expected(hits), 'a good run first')
    hits[r.randint(0, 1)]['station'] = 5
    proc.set_hit_list(hits)
    proc.start()
    proc.join()
    m.check(proc.exitcode not in (0, None), 'dying shows in the exit code')
    m.raises(RuntimeError, proc.get_return_value,
             'half an output is not a result')


def batch(r, m):
    """The same through a batch system"""
    global LOG
    prepare()
    LOG = m.scratch+'/log'
    BSubProcess.scratch_dir = m.scratch+'/batch'
    m.check(BSubProcess.has_bsub(), 'bsub found')
    hits = new_hits(r, r.randint(1, 4), [1], r.choice([0, .4]))
    bad = [h for h in hits if h['station']]
    m.note([h['station'] for h in hits])
    m.distinct([h['x'] for h in hits])
    ok, proc = m.quiet(lambda: BSubProcess(Tracer(LOG, m.scratch+'/gate'),
                                           'scarf-ibis', '00:30'),
                       'bsub process is made')
    if not ok:
        return
    m.event('bsub job')
    m.equal(proc.is_alive(), False, 'job not alive before start')
    m.raises(RuntimeError, proc.kill, 'kill before submission refused')
    proc.set_hit_list(hits)
    ok, _ = m.quiet(proc.start, 'job is submitted')
    if not ok:
        return
    proc.join(60)
    m.equal(proc.is_alive(), False, 'job ends')
    if bad:
        m.equal(int(proc.exitcode), 1, 'exit code of the job')
        m.raises(RuntimeError, proc.get_return_value, 'no result of a failed job')
    else:
        m.equal(int(proc.exitcode), 0, 'exit code of a good job')
        same(m, proc.get_return_value(), expected(hits), 'result of the job')


SCENARIOS = [
    ('many', many, 42, 900, {}),
    ('partial', partial, 18, 300, {}),
    ('history', history, 40, 900, {}),
    ('half', half, 8, 120, {}),
    ('batch', batch, 10, 150, {}),
]
