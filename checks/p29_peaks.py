"""P29: peak finders against a brute-force reading of their criteria."""
import math
import random

import numpy

from xmon import gen
from xboa.algorithms.peak_finder import (WindowPeakFinder, RefinePeakFinder,
                                         UphillDownhillPeakFinder)

ID = 'P29'
NEEDS_ROOT = True
RULE = ('random signals (noise, sines, steps with ties, monotonic, spikes at '
        'the ends, plateaus, huge and tiny values, one to several hundred '
        'points) with random windows, thresholds and steps; peaks searched '
        'again by definition; quadratic and smooth peaks refined from seeds '
        'near and far; distinct by signal')
REQUIRED = {'window': 500, 'window peak': 2500, 'whole window': 40,
            'stepped': 150, 'threshold': 150, 'ties': 120, 'uphill': 300,
            'uphill peak': 2500, 'slope fit': 80, 'refine': 120, 'refined': 120,
            'several seeds': 40, 'bad seed': 25, 'noisy peak': 40,
            'near an end': 15}


def signal(r, m, lo=1):
    n = r.choice([r.randint(lo, 12), r.randint(12, 60), r.randint(60, 300)])
    n = max(n, lo)
    kind = r.choice(['noise', 'sine', 'steps', 'ramp', 'spikes', 'mixed',
                     'flat', 'ends'])
    scale = 10.**r.choice([0, 0, 0, -100, 100, 8])
    if kind == 'noise':
        y = [r.gauss(0, 1) for _ in range(n)]
    elif kind == 'sine':
        k, ph = r.uniform(2, n+2), r.uniform(0, 6)
        y = [math.sin(2*math.pi*i/k+ph)*math.exp(-i/(3.*n)) for i in range(n)]
    elif kind == 'steps':
        m.event('ties')
        y = [float(r.randint(0, 3)) for _ in range(n)]
    elif kind == 'ramp':
        y = [float(i) if r.random() < 2 else 0. for i in range(n)]
        if r.random() < .5:
            y.reverse()
    elif kind == 'spikes':
        y = [0.]*n
        for _ in range(r.randint(1, max(1, n//6))):
            y[r.randrange(n)] = r.choice([1., -1., r.random()])
    elif kind == 'mixed':
        k = r.uniform(3, 20)
        y = [math.sin(2*math.pi*i/k)+r.gauss(0, .3) for i in range(n)]
    elif kind == 'flat':
        m.event('ties')
        y = [1.]*n
    else:
        y = [r.random() for _ in range(n)]
        y[r.choice([0, -1])] = 2.
    return [v*scale for v in y], kind


def window_peaks(data, size, step):
    """Highest point of each window, unless it is on an inner edge of it"""
    size = min(size, len(data))
    out = []
    for i in range(0, len(data)-size+1, step):
        top = i
        for j in range(i, i+size):
            if data[j] > data[top]:
                top = j
        if top == i and i != 0:
            continue
        if top == i+size-1 and i+size != len(data):
            continue
        if top not in out:
            out.append(top)
    return out


def window(r, m):
    m.event('window')
    data, kind = signal(r, m)
    size = r.choice([r.randint(1, 8), r.randint(3, 40), len(data),
                     len(data)+r.randint(1, 50)])
    if size >= len(data):
        m.event('whole window')
    step = r.choice([1, 1, 1, 2, 3, r.randint(1, 15)])
    if step > 1:
        m.event('stepped')
    kept = list(data)
    m.note((kind, size, step, data))
    m.distinct(size, step, data)
    finder = WindowPeakFinder(r.choice([int, float])(size), r.choice(
        [0., 0, .5]), r.choice([int, float])(step))
    got = finder.find_peaks(data)
    m.equal(data, kept, 'the signal is left alone')
    want = window_peaks(data, size, step)
    m.event('window peak', len(want))
    m.equal(got, want, 'the highest point of a window, once, in order')
    m.equal(finder.find_peaks(data), got, 'the same answer again')
    for p in got:
        m.check(0 <= p < len(data) and type(p) is int, 'an index of the data')
        m.check((p == 0 or size == 1 or data[p] > data[p-1])
                and (p == len(data)-1 or data[p] >= data[p+1] or size == 1),
                'a local maximum', peak=p)
    if abs(data[0]) < 1e50 and r.random() < .4:
        m.event('threshold')
        # a threshold only ever takes peaks away, the lower ones first
        old = list(want)
        for t in sorted([1., r.uniform(1, 5), r.uniform(1, 50), 1e9]):
            new = WindowPeakFinder(size, t, step).find_peaks(data)
            m.check(set(new) <= set(old), 'a threshold only removes peaks',
                    threshold=t, got=new, want=old)
            m.equal(new, [p for p in want if p in new], 'still in order')
            old = new
            if step == 1 and size >= len(data) and new:
                m.check(max(data) > sum(data)/len(data),
                        'a peak is above the mean')
        if max(data) > min(data):
            m.equal(old, [], 'nothing passes a huge threshold')
        m.equal(data, kept, 'the signal is left alone')
        # a lone spike stands out of the mean by its height, of the spread by
        # the square root of the points
        n = r.randint(16, 90)
        spike = [0.]*n
        spike[r.randrange(1, n-1)] = 10.**r.uniform(-6, 6)
        t = r.uniform(1., .5*math.sqrt(n))
        m.equal(WindowPeakFinder(r.choice([n, n+5]), t, 1).find_peaks(spike),
                [spike.index(max(spike))], 'a lone spike passes', threshold=t)


def uphill(r, m):
    m.event('uphill')
    data, kind = signal(r, m)
    kept = list(data)
    m.note((kind, data))
    m.distinct(data)
    finder = UphillDownhillPeakFinder()
    got = finder.find_peaks(data)
    m.equal(data, kept, 'the signal is left alone')
    want = [i for i in range(1, len(data)-1)
            if data[i] > data[i-1] and data[i] > data[i+1]]
    m.event('uphill peak', len(want))
    m.equal(got, want, 'where the slope turns from up to down, once, in order')


def slope(r, m):
    """A straight slope crosses zero at the top of a parabola"""
    m.event('slope fit')
    n = r.randint(30, 90)
    count = r.randint(1, 3)
    peaks, tops, data = [], [], []
    for j in range(count):
        top = r.uniform(12, n-12)
        a, c = 10.**r.uniform(-3, 3), r.gauss(0, 10)
        data += [c-a*(i-top)**2 for i in range(n)]
        tops.append(top+len(data)-n)
        peaks.append(int(round(tops[-1]))+r.randint(-2, 2))
    kept = list(data), list(peaks)
    delta = r.randint(2, 7)
    m.note((tops, peaks, delta, n))
    m.distinct(tops)
    got = UphillDownhillPeakFinder().find_peak_errors_derivative(
        data, peaks, delta)
    m.equal((data, peaks), kept, 'signal and peaks are left alone')
    if not m.equal(len(got), count, 'one estimate per peak'):
        return
    for (x, err), top in zip(got, tops):
        # each difference belongs half way between two points
        m.check(abs(x-top) < .51 and err >= 0, 'zero of the slope', got=x,
                want=top)
        m.check(err < 1., 'error of a straight slope', got=err)


def judge_errors(m, data, peak, delta):
    """errors of a least squares parabola through one of the windows"""
    seed = peak['x_in']
    want = None
    for k in range(8):
        for width in (delta*2**k, delta*2**k//2):
            low = max(seed-width, 0)
            y = numpy.array(data[low:seed+width+1])
            x = numpy.arange(low-seed, low-seed+len(y), dtype=float)
            if len(y) < 5:
                continue
            rows = numpy.vstack([x**0, x, x*x]).T
            inv = numpy.linalg.inv(rows.T.dot(rows))
            p = inv.dot(rows.T.dot(y))
            left = y-rows.dot(p)
            if p[2] == 0 or left.std() < 1e-6*y.std():
                continue
            top = -p[1]/2/p[2]
            if abs(top+seed-peak['x']) > 1e-5:
                continue
            grad = numpy.array([[0., -1/2./p[2], p[1]/2./p[2]**2],
                                [1., top, top*top]])
            cov = inv*left.dot(left)/(len(y)-3)
            want = grad.dot(cov).dot(grad.T)
            size = numpy.sqrt(numpy.diag(want))
            if (abs(numpy.array(peak['cov(x,y)'])-want)
                    <= .02*numpy.outer(size, size)).all():
                m.event('errors of the fit')
                return
    if want is not None:
        m.fail('errors are those of the fit', got=peak['cov(x,y)'],
               want=want.tolist(), x=peak['x'], seed=seed)


def refine(r, m):
    m.event('refine')
    n = r.randint(60, 300)
    count = r.choice([1, 2, 3])
    if count > 1:
        m.event('several seeds')
    data, tops, seeds = [], [], []
    delta = r.choice([4, 6, 10])
    kind = r.choice(['parabola', 'sine', 'noisy'])
    noise = 0.
    for j in range(count):
        top = r.uniform(25, n-25)
        if kind == 'parabola':
            a = 10.**r.uniform(-2, 2)
            part = [5.-a*(i-top)**2 for i in range(n)]
        else:
            period = r.uniform(120, 200)
            amp = 10.**r.uniform(-2, 3)
            if kind == 'noisy':
                m.event('noisy peak')
                noise = .002*amp
            part = [amp*math.cos(2*math.pi*(i-top)/period)
                    + (r.gauss(0, noise) if noise else 0.) for i in range(n)]
        data += part
        tops.append(top+j*n)
        seeds.append(int(round(tops[-1]))+r.randint(-delta//2, delta//2))
    reach = r.choice([2*delta+1, 22])
    reach = min(reach, 22)
    kept = list(data), list(seeds)
    m.note((kind, tops, seeds, delta, reach, n))
    m.distinct(kind, tops, seeds)
    finder = RefinePeakFinder(seeds, delta, reach, False)
    ok, got = m.quiet(lambda: finder.find_peak_errors(data), 'refined peaks')
    if not ok:
        return
    m.equal((data, seeds), kept, 'signal and seeds are left alone')
    if not m.equal([p['x_in'] for p in got], seeds,
                   'one answer per seed, in order'):
        return
    for p, top in zip(got, tops):
        m.event('refined')
        near = {'parabola': 1e-3, 'sine': .8, 'noisy': 2.}[kind]
        m.check(abs(p['x']-top) <= near, 'refined to the top of the peak',
                got=p['x'], want=top, seed=p['x_in'])
        if kind == 'parabola':
            m.check(abs(p['y']-5.) <= 1e-3, 'height of the peak', got=p['y'])
        cov = numpy.array(p['cov(x,y)'], dtype=float)
        m.equal(cov.shape, (2, 2), 'errors of the peak')
        m.check(bool(numpy.isfinite(cov).all()) and cov[0, 0] >= 0
                and cov[1, 1] >= 0 and abs(cov[0, 1]-cov[1, 0])
                <= 1e-6*(abs(cov).max()+1e-300), 'errors are a covariance',
                cov=cov)
        if kind == 'noisy':
            m.check(abs(p['x']-top) <= 20*math.sqrt(cov[0, 0])+.7,
                    'the error covers the miss', got=p['x'], want=top,
                    cov=cov)
        judge_errors(m, data, p, delta)
    again = finder.find_peak_errors(data)
    m.close([p['x'] for p in again], [p['x'] for p in got],
            'the same answer again', rel=1e-6)
    index = finder.find_peaks(data)
    m.check(len(index) == len(got) and all(
        type(i) is int and abs(i-p['x']) <= 1.0001
        for i, p in zip(index, got)), 'the index next to each top', got=index,
        want=[p['x'] for p in got])
    # each seed is judged by itself
    for s, p in zip(seeds, got):
        one = RefinePeakFinder([s], delta, reach, False).find_peak_errors(data)
        m.check(len(one) == 1 and abs(one[0]['x']-p['x'])
                <= 1e-3+1e-6*abs(p['x']), 'a seed does not change the next',
                one=one, got=p)


def edges(r, m):
    """Seeds that lead nowhere are dropped, those at an end still work"""
    n = r.randint(80, 150)
    if r.random() < .6:
        m.event('bad seed')
        data = [.01*i+.002*i*i for i in range(n)]   # rises everywhere
        seeds = [r.randint(30, n-31) for _ in range(r.randint(1, 3))]
        m.note((n, seeds))
        m.distinct(n, seeds)
        got = RefinePeakFinder(seeds, 4, 10, False).find_peaks(data)
        m.equal(got, [], 'no peak on a slope')
        return
    if r.random() < .4:
        m.event('top off the data')
        over = r.uniform(1.2, 3)
        data = [-(i-n-over)**2+.01*math.sin(i) for i in range(n)]
        seed = n-r.randint(1, 3)
        m.note((n, over, seed))
        m.distinct(n, over)
        got = RefinePeakFinder([seed], 4, 20, False).find_peak_errors(data)
        m.check(all(0 <= p['x'] <= n for p in got),
                'peaks are within the data', got=[p['x'] for p in got])
        return
    m.event('near an end')
    seed = r.randint(9, 14)
    top = seed+r.uniform(-2, 2)
    data = [-(i-top)**2 for i in range(n)]
    if r.random() < .5:
        data.reverse()
        top, seed = n-1-top, n-1-seed
    m.note((n, seed, top))
    m.distinct(n, top)
    got = RefinePeakFinder([seed], 4, 9, False).find_peak_errors(data)
    if m.equal(len(got), 1, 'peak near an end'):
        m.check(abs(got[0]['x']-top) < 1e-3, 'refined near an end',
                got=got[0]['x'], want=top)


SCENARIOS = [
    ('window', window, 900, 60000, {}),
    ('uphill', uphill, 500, 60000, {}),
    ('slope', slope, 140, 5000, {}),
    ('refine', refine, 220, 7000, {}),
    ('edges', edges, 80, 2500, {}),
]
