"""P30: smoothing against its kernel, and cuts against their windows."""
import copy
import math

import numpy

from xmon import gen
from xboa.algorithms.smoothing import (GaussianSmoothing, CutSmoothing,
                                       FitSmoothing)

ID = 'P30'
NEEDS_ROOT = True
RULE = ('random signals (length one to two hundred, noise, steps, constants, '
        'deltas, huge values) and kernels (width, truncation beyond and below '
        'the length, both normalisations) summed directly; linearity and '
        'reflection of random pairs; tables of columns cut in windows of '
        'random size; polynomials fitted; distinct by input')
REQUIRED = {'gauss': 360, 'adjusted': 150, 'fixed norm': 150, 'constant': 30,
            'kernel over the ends': 100, 'linear': 90, 'delta': 30,
            'cut': 400, 'cut point': 700, 'table': 150, 'ragged': 25,
            'short cut': 60, 'exact windows': 60, 'fit': 80, 'tuple': 60}


def signal(r, n):
    kind = r.choice(['noise', 'steps', 'constant', 'delta', 'ints', 'big'])
    if kind == 'noise':
        return [r.gauss(0, 1) for _ in range(n)], kind
    if kind == 'steps':
        return [float(r.randint(0, 3)) for _ in range(n)], kind
    if kind == 'constant':
        return [r.choice([0., 1., -3.5, 1e-200, 1e200])]*n, kind
    if kind == 'delta':
        y = [0.]*n
        y[r.randrange(n)] = 1.
        return y, kind
    if kind == 'ints':
        return [r.randint(-9, 9) for _ in range(n)], kind
    return [r.gauss(0, 1)*10**r.uniform(-50, 50) for _ in range(n)], kind


def kernel_sum(y, i, sigma, reach, adjust):
    top, bottom, whole = [], [], []
    for d in range(-reach, reach+1):
        w = math.exp(-.5*(d/float(sigma))**2)
        whole.append(w)
        if 0 <= i+d < len(y):
            top.append(w*y[i+d])
            bottom.append(w)
    return math.fsum(top)/math.fsum(bottom if adjust else whole)


def gauss(r, m):
    m.event('gauss')
    n = r.choice([r.randint(1, 10), r.randint(10, 80), r.randint(80, 200)])
    y, kind = signal(r, n)
    sigma = r.choice([r.uniform(.3, 12), 10.**r.uniform(-1, 3), 1, 2])
    reach = r.choice([0, 1, r.randint(0, 12), r.randint(0, 40), n, n+3])
    adjust = r.random() < .5
    m.event('adjusted' if adjust else 'fixed norm')
    if reach > n//2:
        m.event('kernel over the ends')
    m.note((kind, n, sigma, reach, adjust, y))
    m.distinct(n, sigma, reach, adjust, y)
    shape = r.choice([list, list, tuple, numpy.array])
    data = shape(y)
    smoother = GaussianSmoothing(sigma, reach, adjust)
    got = smoother.smooth(data)
    m.check(len(data) == n and all(a == b for a, b in zip(data, y)),
            'the signal is left alone')
    m.check(got is not data, 'a new signal')
    if not m.equal(len(got), n, 'length is kept'):
        return
    size = max(map(abs, y))
    pick = range(n) if n < 40 else sorted(set(
        r.sample(range(n), 20)+[0, 1, 2, n-3, n-2, n-1]))
    for i in pick:
        want = kernel_sum(y, i, sigma, reach, adjust)
        near = max(abs(v) for v in y[max(0, i-reach):i+reach+1])
        if not m.check(abs(got[i]-want) <= 1e-12*near+1e-300,
                       'weighted average of its neighbours', i=i, got=got[i],
                       want=want):
            return
    if adjust:
        m.check(all(min(y)-1e-12*size <= v <= max(y)+1e-12*size for v in got),
                'an average lies between its points')
        if kind == 'constant':
            m.event('constant')
            m.check(all(abs(v-y[0]) <= 1e-12*abs(y[0]) for v in got),
                    'a constant stays')
    if kind == 'delta' and not adjust:
        m.event('delta')
        at = y.index(1.)
        m.equal(max(range(n), key=lambda i: (got[i], -abs(i-at))), at,
                'a spike keeps its place')
    if r.random() < .4 and kind != 'big':
        m.event('linear')
        z, _ = [r.gauss(0, 1) for _ in range(n)], 0
        if size < 1e100:
            a, b = r.gauss(0, 3), r.gauss(0, 3)
            mix = smoother.smooth([a*p+b*q for p, q in zip(y, z)])
            part = smoother.smooth(z)
            m.check(all(abs(v-a*p-b*q) <= 1e-10*(abs(a)*size+abs(b)*9)
                        for v, p, q in zip(mix, got, part)), 'linear')
        back = smoother.smooth(y[::-1])[::-1]
        m.check(all(abs(p-q) <= 1e-11*size for p, q in zip(got, back)),
                'the same from the other end')
    m.check(all(a == b for a, b in zip(smoother.smooth(data), got)),
            'the same again')


def kept_rows(y, width, step):
    """Index of each point within its window's range, or None if too close"""
    n = len(y)
    out, close = [], False
    for i in range(n):
        if i < n//step*step:
            part = y[i//step*step:(i//step+1)*step]
        else:
            part = y[max(0, n-step):]
        gap = abs(y[i]-math.fsum(part)/len(part))
        if abs(gap-width) <= 1e-9*(abs(width)+max(map(abs, part))):
            close = True
        if gap <= width:
            out.append(i)
    return None if close else out


def cut(r, m):
    m.event('cut')
    n = r.choice([r.randint(1, 12), r.randint(12, 150)])
    y = [r.gauss(0, 1) for _ in range(n)]
    if r.random() < .6:
        for _ in range(r.randint(1, 1+n//5)):
            y[r.choice([0, -1, r.randrange(n)])] = r.gauss(0, 30)
    if r.random() < .3:
        y = [v+.3*i for i, v in enumerate(y)]
    step = r.choice([r.randint(1, 9), r.randint(1, n), n, n+r.randint(1, 9)])
    if step > n:
        m.event('short cut')
    elif n % step == 0:
        m.event('exact windows')
    width = r.choice([r.uniform(.1, 5), 1e9, 3., .01])
    want = kept_rows(y, width, step)
    m.note((y, step, width))
    m.distinct(y, step, width)
    if want is None:
        return
    m.event('cut point', n-len(want))
    smoother = CutSmoothing(width, step)
    data = list(y)
    ok, got = m.quiet(lambda: smoother.smooth(data), 'cut of a signal')
    if not ok:
        return
    m.equal(data, y, 'the signal is left alone')
    m.equal(got, [y[i] for i in want], 'points inside the range of their '
            'window, in order')
    m.check(got is not data, 'a new signal')
    if r.random() < .5:
        m.event('table')
        target = r.randint(0, 2)
        cols = [list(range(n)), [str(i) for i in range(n)], [None]*n]
        cols[target] = list(y)
        table = cols
        if r.random() < .4:
            m.event('tuple')
            table = tuple(cols)
        old = copy.deepcopy(table)
        ok, out = m.quiet(lambda: smoother.smooth_table(table, target),
                          'cut of a table')
        if ok:
            m.equal(table, old, 'the table is left alone')
            m.equal(type(out), type(table), 'type of the table')
            m.equal([list(c) for c in out], [[c[i] for i in want]
                                             for c in old],
                    'the same rows from every column')
    if r.random() < .1:
        m.event('ragged')
        table = [list(y), list(y)+[1.]]
        m.raises(IndexError, lambda: smoother.smooth_table(
            table, r.randint(0, 1)), 'columns of different length')
        m.equal(table, [list(y), list(y)+[1.]], 'refused table is left alone')


def fit(r, m):
    import ROOT
    m.event('fit')
    order = r.randint(0, 3)
    n = r.randint(order+3, 40)
    y = [r.gauss(0, 1) for _ in range(n)]
    m.note((order, y))
    m.distinct(y)
    name = 'smooth_%d' % r.randint(0, 10**9)
    func = ROOT.TF1(name, 'pol%d' % order, 0, n)
    data = r.choice([list, tuple])(y)
    got = FitSmoothing(func).smooth(data)
    m.equal(list(data), y, 'the signal is left alone')
    x = numpy.arange(n)
    want = numpy.polyval(numpy.polyfit(x, y, order), x)
    m.check(len(got) == n and bool((abs(numpy.array(got)-want) < 1e-6).all()),
            'least squares fit', got=got, want=want.tolist())


SCENARIOS = [
    ('gauss', gauss, 700, 50000, {}),
    ('cut', cut, 800, 50000, {}),
    ('fit', fit, 150, 4000, {}),
]
