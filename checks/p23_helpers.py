"""P23: numeric and text helpers against their contracts."""
import bisect
import copy
import math
import os
import sys

import numpy
import scipy.special

from xmon import gen
import xboa.common as Common
from xboa.common import config, utils

ID = 'P23'
NEEDS_ROOT = True
RULE = ('random lists (empty, single, constant, repeated, ten decades, values '
        'on bin edges), weights, margins, limits, tables, files and functions '
        'with a known root; each helper is compared with its contract written '
        'out independently; distinct by input')
REQUIRED = {'min_max': 600, 'weighted range': 200, 'multisort': 250,
            'n_bins': 250, 'bin edges': 250, 'binned value': 4000,
            'value on an edge': 300, '2d binning': 80, 'substitute': 120,
            'in place': 30, 'key of another type': 20, 'root found': 250, 'nonlinear root': 100,
            'ks': 120, 'ks with ties': 30, 'table': 3, 'unit': 100,
            'missing module': 80}


def numbers(r, n):
    k = r.random()
    if k < .15:
        return [r.choice([0., 1., -2.5])]*n
    if k < .4:
        return [float(r.randint(-4, 4)) for _ in range(n)]
    if k < .6:
        return [r.choice([1, -1])*10.**r.uniform(-6, 6) for _ in range(n)]
    if k < .7:
        return [r.randint(-100, 100) for _ in range(n)]
    centre = r.choice([0., 0., 1e3])
    return [r.gauss(centre, 10.**r.uniform(-2, 2)) for _ in range(n)]


def ranges(r, m):
    n = r.choice([0, 1, 2, 3, 5, 20])
    xs = numbers(r, n)
    kind = r.choice(['none', 'none', 'match', 'match', 'zeros', 'wrong'])
    ws = []
    if kind == 'match':
        ws = [r.choice([0., 1., 1., r.uniform(.01, 3.), 1e-9, -1.])
              for _ in range(n)]
    elif kind == 'zeros':
        ws = [0.]*n
    elif kind == 'wrong':
        ws = [0.]*(n+1+r.randint(0, 2))
    kept = [x for x, w in zip(xs, ws) if w != 0] if len(ws) == n else xs
    if ws and len(ws) == n:
        m.event('weighted range')
    args = {}
    if r.random() < .6:
        args['margin'] = r.choice([0., 0., .1, .5, 1., r.random()])
    if r.random() < .25:
        args['xmin'] = r.choice([0., -1., r.gauss(0, 100)])
    if r.random() < .25:
        args['xmax'] = r.choice([0., 1., r.gauss(0, 100)])
    m.note((xs, ws, args))
    m.distinct(xs, ws, sorted(args.items()))
    m.event('min_max')
    before = copy.deepcopy((xs, ws))
    lo, hi = (min(kept), max(kept)) if kept else (0., 0.)
    margin = args.get('margin', .1)
    wide = (hi-lo)*margin
    want = [lo-wide, hi+wide]
    if want[1]-want[0] < 1e-9:
        want = [want[0]-1., want[1]+1.]
    for i, key in enumerate(['xmin', 'xmax']):
        if key in args:
            want[i] = args[key]
    if kind == 'none' and r.random() < .5:
        got = Common.min_max(xs, **args)
    else:
        got = Common.min_max(xs, ws, **args)
    scale = max([abs(lo), abs(hi)])
    m.check(len(got) == 2, 'min_max returns a pair', got=got)
    m.close(list(got), want, 'range of the weighted values', rel=1e-12,
            abs_=1e-14*scale)
    m.equal((xs, ws), before, 'min_max leaves its arguments alone')
    again = Common.min_max(xs, ws, **args)
    m.equal(list(again), list(got), 'min_max twice')
    m.equal(list(Common.min_max([])), [-1., 1.],
            'nothing left over from an earlier range')


def sorts(r, m):
    m.event('multisort')
    n = r.choice([0, 1, 2, 3, 10, 40])
    width = r.randint(1, 4)
    first = numbers(r, n)
    rest = [[(j, i) if r.random() < .5 else float(i*10+j) for i in range(n)]
            for j in range(width-1)]
    if rest and r.random() < .3:     # things that cannot be compared
        rest[0] = [complex(i, 1) for i in range(n)]
    table = [list(first)]+[list(x) for x in rest]
    outer = table
    m.note((first, width))
    m.distinct(first, width)
    order = sorted(range(n), key=lambda i: first[i])
    ok, out = m.quiet(lambda: Common.multisort(table), 'multisort runs')
    if not ok:
        return
    want = [[first[i] for i in order]]+[[x[i] for i in order] for x in rest]
    m.equal([list(x) for x in out], want,
            'every list permuted by the stable order of the first')
    m.check(outer is table and len(table) == width, 'multisort keeps its lists')
    m.equal([list(x) for x in Common.multisort(
        [list(x) for x in want])], want, 'sorting again changes nothing')


def bins(r, m):
    m.event('n_bins')
    n = r.choice([0, 1, 9, 10, 11, 99, 100, 1000, 12345, r.randint(0, 10**6)])
    dim = r.randint(1, 3)
    over = [r.choice([None, None, r.randint(1, 50)]) for _ in range(3)]
    for i in range(dim, 3):
        over[i] = None
    m.note((n, dim, over))
    m.distinct(n, dim, over)
    got = Common.n_bins(n, over[0], over[1], over[2], dim)
    m.check(type(got) is tuple and len(got) == 3, 'n_bins gives three', got=got)
    power = {1: 1., 2: .7, 3: .5}[dim]
    raw = float(n)**power/10.
    for i in range(3):
        if i >= dim:
            m.equal(got[i], 0, 'no bins out of dimension')
        elif over[i] is not None:
            m.equal(got[i], over[i], 'requested number of bins')
        else:
            m.check(isinstance(got[i], int) and got[i] >= 1,
                    'at least one bin', got=got)
            m.check(abs(got[i]-1-math.floor(raw)) <= (1 if abs(
                raw-round(raw)) < 1e-6 else 0), 'number of bins', got=got,
                    raw=raw)


def edges(r, m):
    m.event('bin edges')
    xs = numbers(r, r.choice([0, 1, 2, 5, 30]))
    n = r.choice([1, 2, 3, 7, 10, 49, 50, r.randint(1, 300)])
    lo, hi = (min(xs), max(xs)) if xs else (0., 0.)
    if hi-lo < 1e-9:
        lo, hi = lo-1., hi+1.
    args = {}
    if r.random() < .3:
        args['xmin'] = lo = lo-abs(r.gauss(0, 10))
    if r.random() < .3:
        args['xmax'] = hi = hi+abs(r.gauss(0, 10))
    m.note((xs, n, args))
    m.distinct(xs, n, sorted(args.items()))
    before = list(xs)
    got = Common.get_bin_edges(xs, n, **args)
    m.equal(xs, before, 'get_bin_edges leaves the data alone')
    if not m.equal(len(got), n+1, 'number of edges'):
        return
    m.equal((got[0], got[-1]), (lo, hi), 'edges end at the limits')
    m.check(all(a <= b for a, b in zip(got, got[1:])), 'edges are sorted',
            got=got)
    scale = max(abs(lo), abs(hi))
    m.close(got, [lo+(hi-lo)*i/n for i in range(n+1)], 'equally spaced edges',
            rel=1e-12, abs_=1e-13*scale)


def binning(r, m):
    n = r.choice([0, 1, 5, 40])
    two = r.random() < .4

    def axis():
        if r.random() < .5:
            out = sorted(set(float(r.randint(-5, 5))
                             for _ in range(r.randint(4, 8))))
            if len(out) < 2:
                out = [0., 1.]
        else:
            out = sorted(r.uniform(-5, 5) for _ in range(r.randint(2, 8)))
        vals = [r.choice(out) if r.random() < .3 else
                r.choice([r.uniform(-6, 6), float(r.randint(-6, 6))])
                for _ in range(n)]
        return out, vals
    xb, xs = axis()
    yb, ys = axis()
    ws = None if r.random() < .3 else [r.choice([0., 1., r.uniform(0, 3)])
                                       for _ in range(n)]
    m.note((xb, xs, yb if two else None, ys if two else None, ws))
    m.distinct(xb, xs, yb, ys, ws, two)

    def cell(bounds, v):
        for i in range(len(bounds)-1):
            last = i == len(bounds)-2
            if bounds[i] <= v and (v < bounds[i+1] or
                                   (last and v == bounds[i+1])):
                return i
        return None
    want = numpy.zeros((len(xb)-1, len(yb)-1 if two else 1))
    for i in range(n):
        m.event('binned value')
        if xs[i] in xb:
            m.event('value on an edge')
        p = cell(xb, xs[i])
        q = cell(yb, ys[i]) if two else 0
        if p is not None and q is not None:
            want[p, q] += 1. if ws is None else ws[i]
    before = copy.deepcopy((xb, xs, yb, ys, ws))
    if two:
        m.event('2d binning')
        got = Common.histogram(xs, xb, ys, yb, ws)
    else:
        got = Common.histogram(xs, xb, weights=ws)
    m.close(numpy.array(got[0]), want, 'contents of the bins', rel=1e-12)
    m.equal(list(got[1]), xb, 'x edges returned')
    if two:
        m.equal(list(got[2]), yb, 'y edges returned')
    m.equal((xb, xs, yb, ys, ws), before, 'histogram leaves its data alone')


WORDS = ['energy', '__x__', 'pz', '%a%', '$HOME', '[b]', '(', '.*', 'ab\\n',
         '\\1', 'Ä', 'tab\t', 'a b']


def substitution(r, m):
    m.event('substitute')
    keys = r.sample(WORDS, r.randint(0, 4))
    # replaced text holds no key, no piece of a key and cannot join into one
    switch = {}
    for key in keys:
        switch[key] = r.choice(['<>', 17, -2.5, '', None, '\\g<0>', '0'])
    if r.random() < .3:
        m.event('key of another type')
        switch[r.choice([12, 1.25])] = r.choice(['<>', 7, None])
    # a value may not create another key: separators between all words
    lines = []
    for _ in range(r.choice([0, 1, 2, 10])):
        words = WORDS+['#', '@@', '12', '1.25']
        size = r.randint(0, 8)
        if r.random() < .15:
            words, size = r.sample(words, 2)+keys[:1], 90
        lines.append(';'.join(r.choice(words) for _ in range(size)))
    text = '\n'.join(lines)
    if r.random() < .7:
        text += '\n'
    want = []
    pieces = sorted(switch, key=lambda k: len(str(k)), reverse=True)
    for line in text.split('\n'):
        new = []
        for word in line.split(';'):
            for key in pieces:
                # keys contained in other words are replaced there too
                word = word.replace(str(key), str(switch[key]))
            new.append(word)
        want.append(';'.join(new))
    # keep to dictionaries where the order of replacement cannot matter
    for a in switch:
        for b in switch:
            if a != b and (str(a) in str(b)
                           or str(a) in str(switch[b])):
                return m.event('ambiguous')
    want = '\n'.join(want)
    src, dst = m.scratch+'/in.txt', m.scratch+'/out.txt'
    with open(src, 'w') as f:
        f.write(text)
    if r.random() < .3:
        m.event('in place')
        dst = src
    elif r.random() < .5:
        with open(dst, 'w') as f:
            f.write('older and longer content '*100)
    m.note((text, switch, dst == src))
    m.distinct(text, sorted(map(str, switch.items())), dst == src)
    before = dict(switch)
    ok, _ = m.quiet(lambda: Common.substitute(src, dst, switch),
                    'substitute runs')
    m.equal(open(dst).read(), want, 'text with every key replaced')
    if src != dst:
        m.equal(open(src).read(), text, 'input file untouched')
    m.equal(switch, before, 'dictionary untouched')


def roots(r, m):
    dim = r.randint(1, 4)
    while True:
        mat = numpy.array(gen.small_matrix(r, dim))
        if numpy.linalg.cond(mat) < 30:
            break
    root = numpy.array([r.gauss(0, 10.**r.uniform(-1, 2)) for _ in range(dim)])
    curve = 0.
    start = [r.gauss(0, 10) for _ in range(dim)]
    if r.random() < .4:
        m.event('nonlinear root')
        curve = r.uniform(.001, .02)
        start = [x+r.uniform(-.5, .5) for x in root]
    deltas = [r.choice([1., -1., .1, r.uniform(.05, 2)]) if not curve else
              r.choice([.1, -.1, .05]) for _ in range(dim)]
    tol = [10.**r.uniform(-6, -2) for _ in range(dim)]
    calls = []
    args_seen = []

    def y(x):
        d = numpy.array(x)-root
        out = mat.dot(d+curve*d**2)
        return [float(v) for v in out]

    def one(x):
        calls.append(1)
        args_seen.append(copy.deepcopy(x))
        return y(x)

    def many(xs):
        calls.append(len(xs))
        args_seen.extend(copy.deepcopy(xs))
        return [y(x) for x in xs]
    m.note((mat.tolist(), root.tolist(), start, deltas, tol, curve))
    m.distinct(mat.tolist(), root.tolist(), start)
    start0, deltas0, tol0 = list(start), list(deltas), list(tol)
    which = r.choice([1, 2])
    limit = 30
    if which == 1:
        fn = lambda n: Common.nd_newton_raphson1(one, tol, start, deltas, n,
                                                 verbose=r.random() < .1)
    else:
        fn = lambda n: Common.nd_newton_raphson2(many, tol, start, deltas, n,
                                                 verbose=False)
    ok, got = m.quiet(lambda: fn(limit), 'root finder runs')
    if not ok:
        return
    m.event('root found')
    m.equal((start, deltas, tol), (start0, deltas0, tol0),
            'root finder leaves its arguments alone')
    scale = 1e-12*(1+max(abs(root))+max(map(abs, start)))*abs(mat).sum()
    miss = [abs(v) for v in y(got)]
    m.check(all(v <= t+scale for v, t in zip(miss, tol)),
            'the function is within tolerance at the root', miss=miss, got=got)
    m.check(all(len(x) == dim for x in args_seen), 'vectors of the right size')
    del calls[:]
    ok, got1 = m.quiet(lambda: fn(1), 'one iteration runs')
    m.check(sum(calls) <= dim+2, 'one iteration evaluates once', calls=calls)
    if not curve and ok:
        m.close(got1, root.tolist(), 'one Newton step solves a linear system',
                rel=1e-7, abs_=1e-7*(1+max(abs(root))+max(map(abs, start))))
    del calls[:]
    ok, got0 = m.quiet(lambda: fn(0), 'no iteration runs')
    m.equal(list(got0), start, 'no iteration returns the start')


def kolmogorov(r, m):
    import xboa.common
    m.event('ks')
    n1, n2 = r.randint(3, 60), r.randint(3, 60)
    width = r.choice([0., .3, 1., 3.])
    a = [r.gauss(0, 1) for _ in range(n1)]
    b = [r.gauss(width, r.choice([1., 2.])) for _ in range(n2)]
    if r.random() < .4:
        m.event('ks with ties')
        a = [round(v) for v in a]
        b = [round(v) for v in b]
    if r.random() < .1:
        b = list(a)
    m.note((a, b))
    m.distinct(a, b)
    sa, sb = sorted(a), sorted(b)
    dist = max(abs(bisect.bisect_right(sa, v)/len(sa)
                   - bisect.bisect_right(sb, v)/len(sb)) for v in sa+sb)
    want = scipy.special.kolmogorov(
        dist*math.sqrt(len(sa)*len(sb)/(len(sa)+len(sb))))
    ok, got = m.quiet(lambda: Common.kolmogorov_smirnov_test(a, b), 'ks runs')
    if not ok:
        return
    m.check(0 <= got <= 1+1e-12, 'probability', got=got)
    m.close(got, want, 'probability of the same parent', rel=1e-6, abs_=1e-6)
    a0, b0 = list(a), list(b)
    r.shuffle(a)
    r.shuffle(b)
    a1, b1 = list(a), list(b)
    m.close(Common.kolmogorov_smirnov_test(a, b), got, 'any order of samples')
    m.equal((a, b), (a1, b1), 'samples untouched')
    m.close(Common.kolmogorov_smirnov_test(b0, a0), got, 'symmetric',
            rel=1e-6, abs_=1e-6)


# PDG Monte-Carlo numbers: (mass in MeV within the given tolerance, charge)
PDG = {11: (0.510998950, 1e-6, -1), 12: (0., 0., 0), 13: (105.6583755, 1e-3, -1),
       14: (0., 0., 0), 22: (0., 0., 0), 111: (134.9768, 1e-2, 0),
       211: (139.57039, 1e-2, 1), 321: (493.677, 5e-2, 1),
       2112: (939.565420, 1e-2, 0), 2212: (938.272088, 1e-2, 1),
       1000010020: (1875.6, 1., 1), 1000010030: (2808.9, 1., 1),
       1000020030: (2808.4, 1.5, 2), 1000020040: (3727.4, 1.5, 2),
       130: (497.611, 5e-2, 0), 310: (497.611, 5e-2, 0),
       311: (497.611, 5e-2, 0), 3122: (1115.683, 1e-2, 0)}
ICOOL = {1: -11, 2: -13, 3: 211, 4: 321, 5: 2212}
MARS = {1: 2212, 2: 2112, 3: 211, 4: -211, 5: 321, 6: -321, 7: -13, 8: 13,
        9: 22, 10: 11, 11: -11, 12: -2212, 13: 111, 14: 1000010020,
        15: 1000010030, 16: 1000020030, 17: 1000020040, 18: 14, 19: -14,
        20: 12, 21: -12, 22: 130, 23: 310, 24: 311, 25: -311, 26: 3122,
        27: -3122, 31: -2112}
NAMES = {11: 'e-', -11: 'e+', 13: 'mu-', -13: 'mu+', 211: 'pi+', -211: 'pi-',
         321: 'K+', -321: 'K-', 2212: 'proton', 22: 'photon'}


def tables(r, m):
    m.event('table')
    m.distinct('tables')
    for key, value in ICOOL.items():
        m.equal(Common.icool_pid_to_pdg.get(key), value, 'icool table')
        m.equal(Common.icool_pid_to_pdg.get(-key), -value, 'icool antiparticle')
    for key, value in MARS.items():
        m.equal(Common.mars_pid_to_pdg.get(key), value, 'mars table')
    for name, there, back in [
            ('icool', Common.icool_pid_to_pdg, Common.pdg_pid_to_icool),
            ('mars', Common.mars_pid_to_pdg, Common.pdg_pid_to_mars),
            ('muon1', Common.muon1_pid_to_pdg, Common.pdg_pid_to_muon1)]:
        for key, pid in there.items():
            if pid != 0:
                m.equal(back.get(pid), key, name+' inverse', pid=pid)
                m.check(abs(pid) in Common.pdg_pid_to_mass, name+' has a mass',
                        pid=pid)
                m.check(pid in Common.pdg_pid_to_charge, name+' has a charge',
                        pid=pid)
                m.check(pid in Common.pdg_pid_to_name, name+' has a name',
                        pid=pid)
        for pid, key in back.items():
            m.equal(there.get(key), pid, name+' forward', key=key)
    for pid, (mass, tol, charge) in PDG.items():
        m.close(Common.pdg_pid_to_mass.get(pid), mass, 'mass of %d' % pid,
                rel=0., abs_=tol)
        m.equal(Common.pdg_pid_to_charge.get(pid), charge, 'charge of %d' % pid)
        m.check(isinstance(Common.pdg_pid_to_name.get(pid), str),
                'name of %d' % pid)
    for pid, charge in Common.pdg_pid_to_charge.items():
        if -pid in Common.pdg_pid_to_charge:
            m.equal(Common.pdg_pid_to_charge[-pid], -charge,
                    'opposite charge of the antiparticle', pid=pid)
        m.check(abs(pid) in Common.pdg_pid_to_mass, 'charged species has a mass',
                pid=pid)
        m.check(pid in Common.pdg_pid_to_name, 'charged species has a name',
                pid=pid)
    for pid, name in NAMES.items():
        m.equal(Common.pdg_pid_to_name.get(pid), name, 'name of a particle')
    names = list(Common.pdg_pid_to_name.values())
    m.equal(len(set(names)), len(names), 'names are unique')


PI = math.pi
UNITS = {'': 1, 'mum': 1e-3, 'mm': 1, 'cm': 10, 'm': 1e3, 'km': 1e6, 'ns': 1,
         'mus': 1e3, 'ms': 1e6, 's': 1e9, 'Gauss': 1e-7, 'mT': 1e-6, 'T': 1e-3,
         'kT': 1, 'V': 1e-6, 'kV': 1e-3, 'MV': 1, 'GV': 1e3, 'kHz': 1e-6,
         'MHz': 1e-3, 'GHz': 1, 'GV/m': 1, 'GV/mm': 1e3, 'rad': 1,
         'radians': 1, 'radian': 1, 'deg': PI/180, 'degree': PI/180,
         'degrees': PI/180, 'echarge': 1, 'Coulomb': 1/1.602176634e-19,
         'kW': 1e3/1.602176634e-13*1e-9, 'MW': 1e6/1.602176634e-13*1e-9,
         'GW': 1e9/1.602176634e-13*1e-9}
for _tail in ['', '/c', '/c2']:
    for _pre, _size in [('', 1e-6), ('k', 1e-3), ('M', 1), ('G', 1e3),
                        ('T', 1e6)]:
        UNITS[_pre+'eV'+_tail] = _size


def units(r, m):
    m.distinct('units')
    for name, value in UNITS.items():
        m.event('unit')
        m.close(Common.units.get(name, float('nan')), value, 'unit '+name,
                rel=1e-6, abs_=0)
    m.close(Common.constants['c_light'], 299.792458, 'speed of light',
            rel=1e-12)
    m.close(Common.constants['pi'], math.pi, 'pi', rel=1e-8)
    m.equal(Common.constants['echarge'], 1, 'elementary charge')


def modules(r, m):
    m.event('missing module')
    names = ['json', 'xboa', 'numpy', 'no_such_module', 'xboa.nowhere', 'sys']
    want = [r.choice(names) for _ in range(r.randint(0, 4))]
    missing = [n for n in want if n not in sys.modules]
    m.note(want)
    m.distinct(want)
    arg = list(want)
    if len(want) == 1 and r.random() < .5:
        arg = want[0]
    if missing:
        try:
            utils.require_modules(arg)
            m.fail('missing module refused')
        except ImportError as err:
            m.check(all(n in str(err) for n in missing), 'names what is missing',
                    text=str(err))
    else:
        ok, out = m.quiet(lambda: utils.require_modules(arg), 'all present')
    if not isinstance(arg, str):
        m.equal(arg, want, 'require_modules leaves its list alone')
    for name in ['multiprocessing', 'numpy', 'scipy', 'matplot', 'matplotlib',
                 'json', 'root']:
        ok, out = m.quiet(lambda n=name: getattr(config, 'has_'+n)(),
                          'has_'+name)
        m.equal(out, True, 'an installed package is reported')
    key = r.choice(['numpy', 'scipy', 'json', 'root', 'maus', 'matplot',
                    'multiprocessing'])
    had = config.PACKAGES[key]
    config.PACKAGES[key] = False
    try:
        m.raises(ImportError, getattr(config, 'has_'+key),
                 'a missing package is refused')
    finally:
        config.PACKAGES[key] = had


SCENARIOS = [
    ('ranges', ranges, 1000, 40000, {}),
    ('sorts', sorts, 420, 15000, {}),
    ('bins', bins, 420, 8000, {}),
    ('edges', edges, 420, 15000, {}),
    ('binning', binning, 600, 20000, {}),
    ('substitution', substitution, 420, 10000, {}),
    ('roots', roots, 420, 15000, {}),
    ('kolmogorov', kolmogorov, 200, 6000, {}),
    ('tables', tables, 6, 6, {}),
    ('units', units, 6, 6, {}),
    ('modules', modules, 140, 1000, {}),
]
