"""P14: histograms against an independent binning."""
import math

import numpy

from xmon import gen
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit
from checks.p13_groups import SIZE

ID = 'P14'
RULE = ('generated weighted bunches binned in one and two dimensions, with '
        'automatic, partial and explicit limits and bin numbers, in base and '
        'other units, with given uneven edges and values that sit exactly on '
        'edges, empty and constant data; distinct by variables, units, edges '
        'and contents')
REQUIRED = {'one dimension': 400, 'two dimensions': 400, 'automatic': 300,
            'explicit limits': 300, 'out of range': 1500, 'binned': 9000,
            'on an edge': 1500, 'constant data': 50, 'given edges': 400,
            'derived': 150, 'other unit': 150}
BASE = {'x': ['', 'mm'], 'y': ['', 'mm'], 'z': ['', 'mm'], 't': ['', 'ns'],
        'px': ['', 'MeV/c'], 'pz': ['MeV/c'], 'energy': ['MeV', ''],
        'r': ['mm', ''], 'p': ['MeV/c'], 'ct': ['mm', ''],
        'phi': ['rad', ''], 'station': [''], 'weight': [''], 'ez': ['']}
OTHER = {'x': ['m', 'cm', 'mum'], 'z': ['m', 'km'], 't': ['s', 'mus'],
         'px': ['GeV/c'], 'energy': ['GeV', 'eV'], 'r': ['m']}


def draw(r, m):
    Hit.clear_global_weights()
    n = r.choice([r.randint(1, 30), r.randint(1, 30), r.randint(60, 150)])
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']))
    const = r.random() < .15
    for d in ds:
        d['station'] = r.randint(-2, 5)
        if const:
            d['x'] = d['t'] = 3.
        elif r.random() < .4:
            d['x'] = float(r.randint(-10, 10))
    b = gen.make_bunch(ds)
    if r.random() < .3:
        for h in b:
            h['global_weight'] = r.choice([1., 1., .5, 0.])
    return b


def numbers(b, var, unit):
    return [h[var]/SIZE[unit] for h in b]


def place(v, edges, tol):
    """(bin or None, is the decision within rounding of an edge?)"""
    doubt = any(abs(v-e) <= tol*abs(e) for e in edges)
    if v == edges[-1]:
        return len(edges)-2, doubt
    for i in range(len(edges)-1):
        if edges[i] <= v < edges[i+1]:
            return i, doubt
    return None, doubt


def judge(m, content, xs, xe, ys, ye, ws, tol, **kw):
    """content against an independent binning with the returned edges"""
    content = numpy.array(content)
    ny = len(ye)-1 if ye is not None else 1
    if not m.check(content.shape == (len(xe)-1, ny), 'shape',
                   got=content.shape, want=(len(xe)-1, ny), **kw):
        return
    want = numpy.zeros(content.shape)
    slack = numpy.zeros(content.shape)
    inside, loose = [], 0.
    for i, w in enumerate(ws):
        p, d1 = place(xs[i], xe, tol)
        q, d2 = (0, False) if ye is None else place(ys[i], ye, tol)
        if tol and (d1 or d2):
            slack += abs(w)
            loose += abs(w)
        m.event('binned')
        if d1 or d2:
            m.event('on an edge')
        if p is None or q is None:
            m.event('out of range')
            continue
        want[p, q] += w
        inside.append(w)
    total = math.fsum(inside)
    eps = 1e-9*(1.+sum(abs(w) for w in ws))
    m.check(bool((abs(content-want) <= slack+eps).all()),
            'each hit in the bin whose edges hold it', got=content.tolist(),
            want=want.tolist(), xedges=xe, yedges=ye, **kw)
    m.check(abs(content.sum()-total) <= loose+eps,
            'sum of bins is the weight in range', got=content.sum(),
            want=total, **kw)


def judge_edges(m, edges, count, vals, low, high, auto, unit, **kw):
    edges = list(edges)
    m.check(count is None or len(edges) == count+1, 'number of edges',
            got=len(edges), want=count, **kw)
    m.check(len(edges) >= 2 and all(a <= b for a, b in zip(edges, edges[1:])),
            'ascending edges', edges=edges, **kw)
    span = edges[-1]-edges[0]
    step = span/(len(edges)-1)
    m.check(all(abs(b-a-step) <= 1e-9*span+1e-12*abs(b)
                for a, b in zip(edges, edges[1:])), 'evenly spaced edges',
            edges=edges, **kw)
    size = SIZE[unit]
    for name, want, got in (('lower', low, edges[0]),
                            ('upper', high, edges[-1])):
        if want is not None:
            if size != 1. and abs(got-want*size) <= 1e-9*abs(want*size):
                m.check(want == 0, 'explicit limit scaled by its unit',
                        unit=unit, limit=want, edge=got, **kw)
            else:
                m.check(got == want, 'explicit limit honoured', got=got,
                        want=want, which=name, **kw)
    if low is None:
        m.check(edges[0] <= min(vals), 'edges cover the data',
                edge=edges[0], data=min(vals), **kw)
    if high is None:
        m.check(edges[-1] >= max(vals), 'edges cover the data',
                edge=edges[-1], data=max(vals), **kw)
    if low is None and high is None:
        spread = max(vals)-min(vals)
        m.check(span <= spread*1.5+2.1 if spread < 1e-6 else
                span <= spread*1.5, 'edges follow the data', span=span,
                spread=spread, **kw)


def limits(r, vals):
    low = high = None
    a, c = min(vals), max(vals)
    d = (c-a) or 1.
    if r.random() < .6:
        low = r.choice([a-d*r.random(), a+.4*d*r.random(), a, 0.
                        if c > 0 else a-1.])
    if r.random() < .6:
        high = r.choice([c+d*r.random(), c-.4*d*r.random(), c])
        if low is not None and high <= low:
            high = low+d
        if high <= a:
            high = a+d
    if low is not None and high is None and low >= c:
        low = a-d
    return low, high


def automatic(r, m):
    b = draw(r, m)
    hits = list(b)
    state = gen.snapshot_list(b)
    ws = [h['weight'] for h in b]
    two = r.random() < .5
    other = r.random() < .25
    table = OTHER if other else BASE
    axes = [r.choice(list(table)) for _ in range(2 if two else 1)]
    units = [r.choice(table[a]) for a in axes]
    data = [numbers(b, a, u) for a, u in zip(axes, units)]
    explicit = r.random() < .5
    lims = [limits(r, v) if explicit else (None, None) for v in data]
    counts = [r.choice([None, None, 1, 2, r.randint(1, 30)]) for _ in axes]
    kw = dict(axes=axes, units=units, limits=lims, counts=counts)
    call = {'x_axis_string': axes[0], 'nx_bins': counts[0],
            'xmin': lims[0][0], 'xmax': lims[0][1]}
    if units[0] or r.random() < .5:
        call['x_axis_units'] = units[0]
    if two:
        call.update(y_axis_string=axes[1], y_axis_units=units[1],
                    ny_bins=counts[1], ymin=lims[1][0], ymax=lims[1][1])
    if other and explicit:
        # the limits may be taken in other units (a known finding); only
        # limits that still span a range can be binned at all
        for (low, high), v, u in zip(lims, data, units):
            ends = [x*SIZE[u] if x is not None else y for x, y in
                    ((low, min(v)), (high, max(v)))]
            if ends[0] >= ends[1]:
                return
    out = b.histogram(**call)
    content, xe, ye = out
    judge_edges(m, xe, counts[0], data[0], lims[0][0], lims[0][1],
                not explicit, units[0], **kw)
    if two:
        judge_edges(m, ye, counts[1], data[1], lims[1][0], lims[1][1],
                    not explicit, units[1], **kw)
    else:
        m.equal(list(ye), [], 'no y edges in one dimension')
    exact = all(SIZE[u] == 1. for u in units)
    judge(m, content, data[0], list(xe), data[1] if two else None,
          list(ye) if two else None, ws, 0. if exact else 1e-12, **kw)
    if not explicit:
        m.close(numpy.array(content).sum(), math.fsum(ws),
                'automatic binning holds all weight', rel=1e-9, abs_=1e-9,
                **kw)
        m.event('automatic')
    else:
        m.event('explicit limits')
    m.event('two dimensions' if two else 'one dimension')
    if any(min(v) == max(v) for v in data):
        m.event('constant data')
    if any(a in ('r', 'p', 'ct', 'phi', 'weight') for a in axes):
        m.event('derived')
    if other:
        m.event('other unit')
    m.check(len(b) == len(hits), 'bunch untouched')
    m.equal(gen.snapshot_list(b), state, 'hits untouched')
    m.distinct(axes, units, list(xe), numpy.array(content).tolist())


def uneven(r, low, high):
    n = r.randint(1, 12)
    d = high-low or 1.
    edges = sorted({round(r.uniform(low-.3*d, high+.3*d), r.choice([0, 6]))
                    for _ in range(n+1)})
    return edges if len(edges) > 1 else [low-1., high+1.]


def given(r, m):
    b = draw(r, m)
    if r.random() < .2:     # e.g. a background that is subtracted
        m.event('negative weight')
        for h in b:
            if r.random() < .4:
                h['local_weight'] = -h['local_weight']
    ws = [h['weight'] for h in b]
    two = r.random() < .5
    table = OTHER if r.random() < .4 else BASE
    axes = [r.choice(list(table)) for _ in range(2 if two else 1)]
    units = [r.choice(table[a]) for a in axes]
    data = [numbers(b, a, u) for a, u in zip(axes, units)]
    edges = [uneven(r, min(v), max(v)) for v in data]
    if r.random() < .4:        # edges at data values
        for e, v in zip(edges, data):
            e[:] = sorted(set(e+r.sample(v, min(3, len(v)))))
    keep = [list(e) for e in edges]
    kw = dict(axes=axes, units=units)
    if two:
        content, xe, ye = b.histogram_var_bins(axes[0], edges[0], units[0],
                                               axes[1], edges[1], units[1])
    else:
        content, xe, ye = b.histogram_var_bins(axes[0], edges[0], units[0])
    m.check(edges == keep, 'given edges untouched')
    m.equal(list(xe), keep[0], 'given edges returned')
    m.equal(list(ye), keep[1] if two else [], 'given edges returned')
    exact = all(SIZE[u] == 1. for u in units)
    judge(m, content, data[0], keep[0], data[1] if two else None,
          keep[1] if two else None, ws, 0. if exact else 1e-12, **kw)
    m.event('given edges')
    m.distinct(axes, units, keep, numpy.array(content).tolist())
    # the plain helper on plain lists, with and without weights
    if r.random() < .5:
        weights = None
        ones = [1.]*len(data[0])
    else:
        weights, ones = list(ws), ws
    more = (list(data[1]), list(keep[1])) if two else (None, None)
    content, xe, ye = Common.histogram(list(data[0]), list(keep[0]), *more,
                                       weights=weights)
    judge(m, content, data[0], keep[0], data[1] if two else None,
          keep[1] if two else None, ones, 0., helper=True, **kw)


SCENARIOS = [('automatic', automatic, 1200, 16000),
             ('given', given, 700, 10000)]
