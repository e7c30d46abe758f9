"""Drives one check: stages the tree, runs workers, decides, writes evidence.

Exit status: 0 held on everything observed, 1 violated, 2 inconclusive.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from xmon import stage as staging
from xmon.worker import load_check_source

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


def known_sites(ident):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            entry = json.loads(line)
            if entry.get('property') == ident and \
                    entry.get('status') == 'known':
                out[entry['site']] = entry
    return out


def meta_of(ident):
    """Constants of the check module, read without importing the library"""
    return load_check_source(ident)


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as fh:
            parts = fh.read().rsplit(')', 1)[1].split()
        tick = os.sysconf('SC_CLK_TCK')
        return (int(parts[11])+int(parts[12])+int(parts[13])+int(parts[14]))/tick
    except (OSError, IndexError, ValueError):
        return None


class Worker(object):
    def __init__(self, num, cmd, env, out, log, cwd):
        self.num, self.cmd, self.env, self.out = num, cmd, env, out
        self.log, self.cwd = log, cwd
        self.restarts = 0
        self.proc = None
        self.tag = None
        self.start([])

    def start(self, extra):
        self.handle = open(self.log, 'ab')
        self.proc = subprocess.Popen(self.cmd+extra, env=self.env,
                                     stdout=self.handle, stdin=subprocess.DEVNULL,
                                     stderr=subprocess.STDOUT, cwd=self.cwd,
                                     start_new_session=True)
        self.tag, self.since, self.cpu0 = None, time.time(), 0.

    def progress(self):
        try:
            with open(self.out+'.progress') as fh:
                return fh.read().strip()
        except OSError:
            return ''

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass


def sanitizer_reports(prefix):
    """[(kind, text)] from sanitizer logs"""
    out = []
    folder, base = os.path.split(prefix)
    for name in sorted(os.listdir(folder)):
        if not name.startswith(base+'.'):
            continue
        text = open(os.path.join(folder, name), errors='replace').read()
        for block in re.split(r'(?m)^(?===\d+==ERROR)', text):
            if 'ERROR: AddressSanitizer' in block:
                kind = re.search(r'AddressSanitizer: ([\w-]+)', block)
                out.append(('asan:'+(kind.group(1) if kind else 'error'), block))
        for line in re.findall(r'(?m)^.*runtime error: .*$', text):
            out.append(('ubsan', line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('XMON_WORKERS', '0')))
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('--keep', action='store_true')
    args = ap.parse_args()
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 1
    if args.replay:
        rec = json.load(open(args.replay))
        args.only = '%s:%d' % (rec['scenario'], rec['index'])
        args.tier, seed = rec.get('tier', args.tier), rec['seed']
    scratch = tempfile.mkdtemp(prefix='xmon_%s_' % args.id)
    os.chmod(scratch, 0o755)
    try:
        return run(args, seed, scratch)
    finally:
        if args.keep:
            print('scratch kept:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def run(args, seed, scratch):
    t0 = time.time()
    ident = args.id
    meta = meta_of(ident)
    os.makedirs(EVIDENCE, exist_ok=True)
    kind = meta.get('STAGE', 'plain')
    site = os.path.join(scratch, 'site')
    try:
        staging.stage(site, kind)
        if meta.get('STAGE2'):
            staging.stage(site+'2', meta['STAGE2'])
    except (staging.StageError, OSError, KeyError, SyntaxError) as err:
        print('INCONCLUSIVE property=%s cannot build: %s' % (ident, err))
        return 2
    budget = meta.get('WALL', {}).get(
        args.tier, 150. if args.tier == 'quick' else 700.)
    deadline = time.time()+budget
    n_work = args.workers or meta.get('WORKERS', 6)
    if args.only:
        n_work = 1
    env = dict(os.environ)
    for name in ('PYTHONPATH', 'LD_PRELOAD'):
        env.pop(name, None)
    home = os.path.join(scratch, 'home')
    os.makedirs(home)
    os.makedirs(os.path.join(scratch, 'mpl'))
    os.makedirs(os.path.join(scratch, 'tmp'))
    env.update({'PYTHONPATH': site+':'+VERIF, 'HOME': home,
                'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
                'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0',
                'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore',
                'TMPDIR': os.path.join(scratch, 'tmp'),
                'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
                'PYTHONUNBUFFERED': '1',
                'XMON_SITE': site, 'XMON_SITE2': site+'2'})
    if meta.get('NEEDS_ROOT'):
        env['XMON_ROOT'] = ident
    prefix = os.path.join(scratch, 'san')
    if kind == 'asan':
        lib = subprocess.run(['g++', '-print-file-name=libasan.so'],
                             stdout=subprocess.PIPE, text=True).stdout.strip()
        ub = subprocess.run(['g++', '-print-file-name=libubsan.so'],
                            stdout=subprocess.PIPE, text=True).stdout.strip()
        cxx = subprocess.run(['g++', '-print-file-name=libstdc++.so.6'],
                             stdout=subprocess.PIPE, text=True).stdout.strip()
        env.update({'LD_PRELOAD': ':'.join([lib, ub, cxx]),
                    'PYTHONMALLOC': 'malloc', 'XMON_ASAN': '1',
                    'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:'
                    'abort_on_error=1:handle_segv=1:'
                    'detect_stack_use_after_return=1:allocator_may_return_null=1:'
                    'log_path='+prefix,
                    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0:'
                    'log_path='+prefix})
    workers = []
    for num in range(n_work):
        out = os.path.join(scratch, 'out%d' % num)
        cmd = [sys.executable, '-B', '-m', 'xmon.worker', '--check', ident,
               '--tier', args.tier, '--seed', str(seed), '--worker', str(num),
               '--of', str(n_work), '--out', out, '--scratch', scratch,
               '--deadline', str(deadline)]
        if args.only:
            cmd += ['--only', args.only]
        workers.append(Worker(num, cmd, env, out,
                              os.path.join(scratch, 'log%d' % num), scratch))
    violations, problems = [], []
    stalls = meta.get('STALL_VIOLATION', ())
    hard = deadline+120.
    live = list(workers)
    while live:
        time.sleep(0.05)
        for wkr in list(live):
            code = wkr.proc.poll()
            now = time.time()
            tag = wkr.progress()
            if code is None:
                if tag != wkr.tag:
                    wkr.tag, wkr.since = tag, now
                    wkr.cpu0 = cpu_seconds(wkr.proc.pid) or 0.
                    continue
                cpu = (cpu_seconds(wkr.proc.pid) or 0.)-wkr.cpu0
                scen = (tag or 'import:0').rsplit(':', 1)[0]
                if cpu > 1.6*meta.get('CPU_LIMIT', 60)+20:
                    wkr.kill()
                    wkr.proc.wait()
                    violations.append(vio(tag, 'no_progress:'+scen,
                                          {'cpu_seconds': cpu}))
                    code = 'killed'
                elif now-wkr.since > meta.get('STALL', 240):
                    wkr.kill()
                    wkr.proc.wait()
                    if scen in stalls:
                        violations.append(vio(tag, 'stalled:'+scen,
                                              {'wall_seconds': now-wkr.since}))
                    else:
                        problems.append('worker stalled in '+str(tag))
                    code = 'killed'
                elif now > hard:
                    wkr.kill()
                    wkr.proc.wait()
                    problems.append('hard deadline in '+str(tag))
                    code = 'deadline'
                else:
                    continue
            wkr.kill()        # whatever a case left running
            wkr.handle.close()
            if code == 0 or code == 'deadline':
                live.remove(wkr)
                continue
            if isinstance(code, int):
                if code == -signal.SIGKILL:
                    problems.append('worker killed in '+str(tag))
                elif code < 0 or (kind == 'asan' and code in (1, 134)
                                  and sanitizer_reports(prefix)):
                    log = open(wkr.log, errors='replace').read()[-1500:]
                    violations.append(vio(tag, 'native_crash', {
                        'signal': code, 'log': log}))
                else:
                    log = open(wkr.log, errors='replace').read()[-1500:]
                    if tag:
                        violations.append(vio(tag, 'worker_died',
                                              {'status': code, 'log': log}))
                    elif 'xboa' in log and 'Error' in log:
                        violations.append(vio('import:0', 'import_failed',
                                              {'status': code, 'log': log}))
                    else:
                        problems.append('worker exit %s: %s' % (code, log))
            wkr.restarts += 1
            if tag and wkr.restarts <= 3 and not args.only and now < deadline:
                wkr.start(['--resume', tag])
            else:
                live.remove(wkr)
    return decide(args, seed, meta, scratch, workers, violations, problems,
                  prefix if kind == 'asan' else None, t0)


def vio(tag, site, detail):
    scen, index = (tag or 'import:0').rsplit(':', 1)
    return {'type': 'violation', 'scenario': scen, 'index': int(index),
            'site': site, 'detail': detail}


def decide(args, seed, meta, scratch, workers, violations, problems, san, t0):
    ident = args.id
    events, sites, cases, keys, samples = {}, {}, {}, set(), []
    skipped = 0
    for wkr in workers:
        if not os.path.exists(wkr.out):
            problems.append('worker %d left no record' % wkr.num)
            continue
        final = False
        for line in open(wkr.out):
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            if rec['type'] == 'violation':
                violations.append(rec)
            elif rec['type'] == 'inconclusive':
                problems.append('%(case)s: %(why)s' % rec)
            elif rec['type'] == 'summary':
                final = True
                for target, name in ((events, 'events'), (sites, 'sites'),
                                     (cases, 'cases')):
                    for key, num in rec[name].items():
                        target[key] = target.get(key, 0)+num
                keys.update(rec['keys'])
                samples += rec['samples']
                skipped += rec['skipped']
        if not final and not violations:
            problems.append('worker %d did not finish' % wkr.num)
    n_san = 0
    if san is not None:
        for kind, text in sanitizer_reports(san):
            n_san += 1
            violations.append(vio('sanitizer:0', kind, {'report': text[:2500]}))
    known = known_sites(ident)
    found_known = {k: v for k, v in known.items()}
    fresh = [v for v in violations if v['site'] not in known]
    if not args.only:
        for name, least in meta.get('REQUIRED', {}).items():
            if events.get(name, 0) < least and not fresh:
                problems.append('observed %d "%s", need %d' %
                                (events.get(name, 0), name, least))
    replay_dir = os.path.join(EVIDENCE, 'replay')
    status = 0
    lines = []
    for site, entry in sorted(found_known.items()):
        hits = sum(1 for v in violations if v['site'] == site)
        if hits or args.only == '':
            lines.append('KNOWN-FINDING: property=%s %s (seen %d times)' %
                         (ident, entry['what'], hits))
    if fresh:
        status = 1
        os.makedirs(replay_dir, exist_ok=True)
        by_site = {}
        for v in fresh:
            by_site.setdefault(v['site'], []).append(v)
        for num, (site, group) in enumerate(sorted(by_site.items())):
            group.sort(key=lambda v: (v['scenario'], v['index']))
            rec = dict(group[0], property=ident, seed=seed, tier=args.tier,
                       occurrences=len(group))
            path = os.path.join(replay_dir, '%s_%d.json' % (ident, num))
            json.dump(rec, open(path, 'w'), indent=1)
            if num < 12:
                lines.append('VIOLATION property=%s replay=%s' % (ident, path))
                lines.append('  %s (%d times) %s' % (
                    site, len(group), json.dumps(rec['detail'])[:1200]))
    elif problems:
        status = 2
        for text in problems[:10]:
            lines.append('INCONCLUSIVE property=%s %s' % (ident, text))
    total = sum(cases.values())
    evidence = {
        'property': ident, 'tier': args.tier, 'seed': seed,
        'level': meta.get('LEVEL', 'exploration'),
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(keys),
            'rule': meta['RULE'],
            'samples': samples[:6],
            'cases_per_scenario': cases,
            'cases_skipped_at_deadline': skipped,
            'judgements': sum(sites.values()),
            'judgement_sites': sites,
            'events_observed': events,
        },
        'assumptions': meta.get('ASSUMPTIONS', []),
        'wall_s': round(time.time()-t0, 2),
        'violations': len(fresh),
    }
    if san is not None:
        evidence['coverage']['sanitizer_reports'] = n_san
    if problems:
        evidence['coverage']['inconclusive'] = problems[:10]
    if not args.only:
        with open(os.path.join(EVIDENCE, ident+'.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1)
    print('\n'.join(lines))
    print('%s %s seed=%d: %d cases, %d judgements, %d distinct, %d skipped, '
          '%.1f s, %s' % (ident, args.tier, seed, total, sum(sites.values()),
                          len(keys), skipped, time.time()-t0,
                          {0: 'held', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[status]))
    if args.only and fresh:
        print(json.dumps(fresh, indent=1)[:6000])
    return status


if __name__ == '__main__':
    sys.exit(main())
