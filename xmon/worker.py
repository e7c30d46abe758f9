"""Runs a slice of a check's cases against the staged package."""
import argparse
import errno
import importlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback

from xmon.monitor import Monitor


class Hang(BaseException):
    pass


def load_check(ident):
    here = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'checks')
    for name in sorted(os.listdir(here)):
        if name.startswith(ident.lower()+'_') and name.endswith('.py'):
            return importlib.import_module('checks.'+name[:-3])
    raise ImportError('no check module for '+ident)


def load_check_source(ident):
    """Literal module constants of a check, without importing anything"""
    import ast
    here = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'checks')
    for name in sorted(os.listdir(here)):
        if name.startswith(ident.lower()+'_') and name.endswith('.py'):
            tree = ast.parse(open(os.path.join(here, name)).read())
            out = {}
            for node in tree.body:
                if isinstance(node, ast.Assign) and len(node.targets) == 1 \
                        and isinstance(node.targets[0], ast.Name):
                    try:
                        out[node.targets[0].id] = ast.literal_eval(node.value)
                    except ValueError:
                        pass
            return out
    raise ImportError('no check module for '+ident)


def scenarios(mod, tier):
    """[(name, fn, count, opts)]"""
    out = []
    for entry in mod.SCENARIOS:
        name, fn, quick, thorough = entry[:4]
        opts = entry[4] if len(entry) > 4 else {}
        out.append((name, fn, quick if tier == 'quick' else thorough, opts))
    return out


def case_rng(seed, scenario, index):
    return random.Random('%s:%s:%s' % (seed, scenario, index))


def reset_globals():
    """Every case starts from the state of a freshly imported library"""
    hit = sys.modules.get('xboa.hit')
    if hit is not None and hasattr(hit, 'Hit'):
        hit.Hit.clear_global_weights()
    bunch = sys.modules.get('xboa.bunch')
    if bunch is not None and hasattr(bunch, 'Bunch'):
        bunch.Bunch.set_geometric_momentum(False)


def resource_error(err):
    return isinstance(err, OSError) and err.errno in (
        errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT)


def run_case(mod, mon, fn, scen, index, seed, cpu_limit):
    mon.case_violations = []
    mon.case_note = None
    for name in os.listdir(mon.scratch):
        path = os.path.join(mon.scratch, name)
        shutil.rmtree(path, ignore_errors=True) if os.path.isdir(path) \
            and not os.path.islink(path) else os.unlink(path)
    os.chdir(mon.scratch)
    rng = case_rng(seed, scen, index)
    try:
        import numpy
        numpy.random.seed(rng.getrandbits(32))
    except ImportError:
        pass
    random.seed(rng.getrandbits(32))
    inconclusive = None
    pid = os.getpid()

    def on_cpu(_sig, _frame):
        raise Hang()
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        reset_globals()
        fn(rng, mon)
    except Hang:
        mon._violate('no_progress:'+scen,
                     {'cpu_seconds': cpu_limit,
                      'where': traceback.format_exc()[-900:]})
    except SystemExit as err:
        mon._violate('system_exit:'+scen, {'code': err.code})
    except Exception as err:
        if resource_error(err):
            inconclusive = repr(err)
        else:
            mon._violate('exception:%s:%s' % (scen, type(err).__name__),
                         {'raised': repr(err),
                          'where': traceback.format_exc()[-1200:]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if os.getpid() != pid:
        os._exit(111)     # a forked child escaped from the library
    return inconclusive


def cover(site, path):
    """Development aid: which lines of the package a check executes"""
    seen = set()
    mon = sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(site):
            seen.add((code.co_filename[len(site)+1:], line))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'xmon')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(path, 'w') as fh:
            json.dump(sorted(seen), fh)
    return dump


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--check', required=True)
    ap.add_argument('--tier', required=True)
    ap.add_argument('--seed', required=True)
    ap.add_argument('--worker', type=int, required=True)
    ap.add_argument('--of', type=int, required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--scratch', required=True)
    ap.add_argument('--deadline', type=float, required=True)
    ap.add_argument('--resume', default='')
    ap.add_argument('--only', default='')
    args = ap.parse_args()
    mod_block_root(args.check)
    if not os.environ.get('XMON_ASAN'):
        lim = 10*1024**3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    dump = None
    if os.environ.get('XMON_COVER'):
        dump = cover(os.environ['XMON_SITE'], '%s/%s_%d.json' % (
            os.environ['XMON_COVER'], args.check, args.worker))
    mod = load_check(args.check)
    work = os.path.join(args.scratch, 'case%d' % args.worker)
    os.makedirs(work, exist_ok=True)
    mon = Monitor(work)
    out = open(args.out, 'a')
    prog = os.open(args.out+'.progress', os.O_WRONLY | os.O_CREAT, 0o600)
    cpu_limit = getattr(mod, 'CPU_LIMIT', 60)
    cases, skipped = {}, 0

    def emit(obj):
        out.write(json.dumps(obj)+'\n')
        out.flush()

    def summary(final):
        emit({'type': 'summary', 'final': final, 'events': mon.events,
              'sites': mon.sites, 'keys': sorted(mon.keys),
              'samples': mon.samples, 'cases': cases, 'skipped': skipped})

    todo = []
    for scen, fn, count, opts in scenarios(mod, args.tier):
        if opts.get('serial'):
            idx = range(count) if args.worker == 0 else []
        else:
            idx = range(args.worker, count, args.of)
        todo.append((scen, fn, list(idx)))
    if args.only:
        scen, index = args.only.rsplit(':', 1)
        todo = [(s, f, [int(index)]) for s, f, _ in todo if s == scen]
    # interleave the scenarios so a deadline trims all of them evenly
    queue = []
    for scen, fn, idx in todo:
        for pos, index in enumerate(idx):
            queue.append(((pos+0.5)/len(idx), scen, fn, index))
    queue.sort(key=lambda t: (t[0], t[1]))
    skipping = bool(args.resume)
    n_viol, per_site = 0, {}
    for _, scen, fn, index in queue:
        tag = '%s:%d' % (scen, index)
        if skipping:
            if tag == args.resume:
                skipping = False
            continue
        if time.time() > args.deadline or n_viol >= 40:
            skipped += 1
            continue
        os.pwrite(prog, ('%-80s' % tag).encode(), 0)
        bad = run_case(mod, mon, fn, scen, index, args.seed, cpu_limit)
        cases[scen] = cases.get(scen, 0)+1
        if bad:
            emit({'type': 'inconclusive', 'case': tag, 'why': bad})
        for viol in mon.case_violations:
            per_site[viol['site']] = per_site.get(viol['site'], 0)+1
            if per_site[viol['site']] > 20:
                continue      # enough of these; go on looking for others
            n_viol += 1
            emit({'type': 'violation', 'scenario': scen, 'index': index,
                  'site': viol['site'], 'detail': viol['detail']})
    os.pwrite(prog, ('%-80s' % 'teardown:0').encode(), 0)
    fini = getattr(mod, 'teardown', None)
    if fini is not None:
        fini(mon)
        for viol in mon.case_violations:
            emit({'type': 'violation', 'scenario': 'teardown', 'index': 0,
                  'site': viol['site'], 'detail': viol['detail']})
    summary(True)
    if dump:
        dump()
    out.close()
    sys.stdout.flush()


def mod_block_root(ident):
    """ROOT is heavy and not needed by most checks"""
    if ident not in NEEDS_ROOT:
        sys.modules['ROOT'] = None


NEEDS_ROOT = set(filter(None, os.environ.get('XMON_ROOT', '').split(',')))

if __name__ == '__main__':
    main()
