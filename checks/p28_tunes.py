"""P28: tune finders on signals and trackings of known tune."""
import copy
import math

import numpy

from xmon import gen
from xboa.hit import Hit
from xboa.tracking import MatrixTracking
from xboa.algorithms.peak_finder import WindowPeakFinder
from xboa.algorithms.tune import FFTTuneFinder, DPhiTuneFinder

ID = 'P28'
RULE = ('random sampled oscillations (tune, phase, amplitude, offset, length, '
        'second frequency, exact bins, short data) given as lists, tuples and '
        'arrays, and random stable ellipses turned by random advances; the '
        'answer compared with the tune used, repeated, and compared with a '
        'direct Fourier sum; tracking through MatrixTracking with and without '
        'a choice of hits; distinct by input')
REQUIRED = {'signal': 200, 'refined': 150, 'even length': 60, 'odd length': 60,
            'array': 40, 'exact bin': 30, 'second line': 40, 'offset': 60,
            'short': 40, 'spectrum point': 8000, 'again': 150, 'ellipse': 150,
            'above half': 40, 'tracked': 50, 'some hits': 12, 'fresh data': 60,
            'hanning': 30, 'no data': 10,
            'peak of the fast transform': 2}


def folded(tune):
    """Frequency seen by a real sampled signal"""
    tune = tune % 1.
    return min(tune, 1-tune)


def fourier(u, k):
    n = numpy.arange(len(u))
    return abs(numpy.sum(numpy.asarray(u)*numpy.exp(-2j*math.pi*n*k)))


def as_kind(r, m, data):
    kind = r.choice(['list', 'list', 'tuple', 'array'])
    if kind == 'array':
        m.event('array')
        return numpy.array(data)
    return tuple(data) if kind == 'tuple' else list(data)


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def signal(r, m):
    n = r.choice([r.randint(40, 90), r.randint(90, 400), 128, 256, 101])
    used = n if n % 2 else n-1
    m.event('odd length' if n % 2 else 'even length')
    edge = 6./n
    if r.random() < .2:
        m.event('exact bin')
        tune = r.randint(6, used//2-6)/float(used)
    else:
        tune = r.uniform(edge, .5-edge)
    given = tune if r.random() < .5 else 1-tune
    amp = 10.**r.uniform(-6, 6)
    phase = r.uniform(0, 2*math.pi)
    offset = 0.
    if r.random() < .4:
        m.event('offset')
        offset = amp*r.uniform(-2, 2)
    u = [offset+amp*math.cos(2*math.pi*given*i+phase) for i in range(n)]
    second = None
    if r.random() < .3:
        second = r.uniform(edge, .5-edge)
        if abs(second-tune) > 12./n:
            m.event('second line')
            part = amp*r.uniform(.05, .4)
            u = [x+part*math.sin(2*math.pi*second*i) for i, x in enumerate(u)]
        else:
            second = None
    up = [math.sin(2*math.pi*given*i+phase) for i in range(n)]
    data = as_kind(r, m, u)
    other = r.choice([None, as_kind(r, m, up)])
    kept = list(data), None if other is None else list(other)
    m.note((n, tune, given, amp, phase, offset, second, type(data).__name__))
    m.distinct(n, tune, amp, phase)
    m.event('signal')
    finder = r.choice([None, None, WindowPeakFinder(5, 0., 1),
                       WindowPeakFinder(7, 0, 1)])
    tol = r.choice([None, None, 1e-3, 1e-5, .2])
    if r.random() < .5:
        fft = FFTTuneFinder(data, other, finder)
    else:
        fft = FFTTuneFinder(peak_finder=finder)
        fft.u, fft.up = data, other
    got = fft.get_tune(tol) if tol is not None else fft.get_tune()
    m.check(same(data, kept[0]) and type(data) is not None,
            'position data is left alone')
    if other is not None:
        m.check(same(other, kept[1]), 'divergence data is left alone')
    m.equal(fft.fractional_tune, got, 'the tune is kept')
    # how far the other lines can pull the top of a peak of width 1/n
    gap = min(tune, .5-tune)
    pull = 1./(n*gap)
    if second is not None:
        pull += .4
    pull += abs(offset)/amp/(n*gap)
    bound = min(1., pull)/n
    if tol == .2:
        bound = max(bound, .51/used+bound)
    else:
        m.event('refined')
        bound += tol or .01/used
    m.check(abs(got-tune) <= bound, 'tune of the oscillation', got=got,
            want=tune, bound=bound, error=(got-tune)*n)
    # every point of the spectrum is the transform at its frequency
    row = kept[0][:used]
    top = amp*n
    for i in r.sample(range(len(fft.k_mag_x)), min(60, len(fft.k_mag_x))):
        m.event('spectrum point')
        m.check(abs(fft.k_mag_y[i]-fourier(row, fft.k_mag_x[i]))
                <= 1e-9*top*(1+abs(offset)/amp),
                'spectrum is the Fourier transform', k=fft.k_mag_x[i],
                got=fft.k_mag_y[i], want=fourier(row, fft.k_mag_x[i]))
    m.check(all(a < b for a, b in zip(fft.k_mag_x, fft.k_mag_x[1:])),
            'spectrum is in order')
    m.equal(len(fft.k_mag_x), len(fft.k_mag_y), 'one height per frequency')
    m.equal(len(fft.peak_x_list), len(fft.peak_y_list), 'one height per peak')
    for x, y in zip(fft.peak_x_list, fft.peak_y_list):
        m.check(y == fft.k_mag_y[fft.k_mag_x.index(x)],
                'height of a peak is in the spectrum')
        m.check(y <= fourier(row, got)*(1+1e-9), 'the tune is the highest peak',
                height=y, top=fourier(row, got))
    rough = FFTTuneFinder(list(kept[0]), None, finder).get_tune(.4)
    m.check(fourier(row, got) >= fourier(row, rough)*(1-1e-9),
            'refining climbs', got=got, rough=rough)
    m.check(fourier(row, got)*(1+1e-9) >= max(
        y for x, y in zip(fft.k_mag_x, fft.k_mag_y) if abs(x-got)*used < .6),
        'the top of the points looked at', got=got, n=n, tol=tol)
    if r.random() < .5:
        m.event('again')
        m.equal(fft.get_tune(tol), got, 'the same answer again')
        m.equal(FFTTuneFinder(list(kept[0]), None, finder).get_tune(tol), got,
                'the same answer from another finder')
        scale = 2.**r.randint(-20, 20)
        m.equal(FFTTuneFinder([x*scale for x in kept[0]], None,
                              finder).get_tune(tol), got,
                'amplitude does not matter')
    if r.random() < .3:
        # another signal through the same object
        m.event('fresh data')
        tune2 = r.uniform(edge, .5-edge)
        fft.u = [math.cos(2*math.pi*tune2*i) for i in range(n)]
        m.equal(fft.get_tune(tol), FFTTuneFinder(
            [math.cos(2*math.pi*tune2*i) for i in range(n)], None,
            finder).get_tune(tol), 'new data replaces the old')


def short(r, m):
    """So few points that the fast transform may show no peak"""
    m.event('short')
    n = r.randint(5, 14)
    tune = r.uniform(.02, .48)
    phase = r.uniform(0, 2*math.pi)
    u = [math.cos(2*math.pi*tune*i+phase) for i in range(n)]
    used = n if n % 2 else n-1
    m.note((n, tune, phase))
    m.distinct(n, tune, phase)
    finder = r.choice([None, WindowPeakFinder(3, 0., 1)])
    fft = FFTTuneFinder(list(u), None, finder)
    tol = r.choice([None, 1e-3])
    try:
        got = fft.get_tune(tol)
    except ValueError:
        # there may be nothing to see, but then not in a fine scan either
        fine = [fourier(u[:used], i/2000.) for i in range(1001)]
        tops = [i for i in range(3, 998) if fine[i] > max(fine[i-3:i])
                and fine[i] > max(fine[i+1:i+4])]
        m.check(not tops, 'a peak that a scan shows is found', tops=tops)
        return
    m.check(0 < got <= .5, 'tune in its range', got=got)
    here = fourier(u[:used], got)
    step = (tol or .01/used)*4
    m.check(here >= .999*min(fourier(u[:used], got-step),
                             fourier(u[:used], got+step)),
            'the tune is not in a trough')
    # the peaks of the fast transform that stand out in their surroundings
    fast = [fourier(u[:used], i/float(used)) for i in range(used//2+1)]
    for i in range(2, len(fast)-4):
        around = fast[max(0, i-3):i]+fast[i+1:i+4]
        if fast[i] > 1.001*max(around):
            m.event('peak of the fast transform')
            m.check(here >= fast[i]*(1-1e-9), 'no higher peak is left out',
                    at=i/float(used), height=fast[i], got=got, here=here)
    if used >= 11 and .1 < tune < .4:
        m.check(abs(got-tune) <= 2.2/used, 'tune of a short signal', got=got,
                want=tune, n=n)


def hanning(r, m):
    m.event('hanning')
    n = r.randint(60, 200)
    used = n if n % 2 else n-1
    tune = r.uniform(8./n, .5-8./n)
    u = [math.cos(2*math.pi*tune*i+1) for i in range(n)]
    m.note((n, tune))
    m.distinct(n, tune)
    fft = FFTTuneFinder(list(u), None, None, True)
    got = fft.get_tune()
    m.check(abs(got-tune) <= 1./used, 'tune with the Hanning filter', got=got,
            want=tune)
    win = 2*numpy.sin(math.pi*numpy.arange(used)/used)**2
    fresh = FFTTuneFinder(list(u[:used]), None, None, True)
    for k in [r.random()*.5 for _ in range(5)]:
        m.close(fresh._sft(k), fourier(numpy.array(u[:used])*win, k),
                'filtered transform', rel=1e-8, abs_=1e-8*n)


def no_data(r, m):
    m.event('no data')
    m.raises(ValueError, FFTTuneFinder().get_tune, 'no position data')
    m.raises(ValueError, DPhiTuneFinder().get_tune, 'no data')
    m.raises(ValueError, DPhiTuneFinder([1., 2., 3.]).get_tune, 'no divergence')
    m.raises(ValueError, DPhiTuneFinder(None, [1., 2., 3.]).get_tune,
             'no position')
    m.distinct(r.random())


def turned(r, tune, n, alpha, beta, amp, phase, centre):
    u, up = [], []
    for i in range(n):
        a = 2*math.pi*tune*i+phase
        u.append(centre[0]+amp*math.sqrt(beta)*math.cos(a))
        up.append(centre[1]-amp/math.sqrt(beta)*(alpha*math.cos(a)
                                                 + math.sin(a)))
    return u, up


def ellipse(r, m):
    m.event('ellipse')
    n = r.choice([r.randint(20, 60), r.randint(60, 300)])
    tune = r.uniform(.06, .94)
    # no resonance that leaves the ellipse unseen
    while min(abs(tune*q-round(tune*q)) for q in (1, 2, 3, 4)) < 2./n:
        tune = r.uniform(.06, .94)
    if tune > .5:
        m.event('above half')
    beta, alpha = 10.**r.uniform(-2, 3), r.gauss(0, 1)
    amp = 10.**r.uniform(-3, 2)
    centre = [amp*r.choice([0., r.gauss(0, 20)]) for _ in range(2)]
    phase = r.uniform(0, 6)
    u, up = turned(r, tune, n, alpha, beta, amp, phase, centre)
    m.note((n, tune, alpha, beta, amp, phase, centre))
    m.distinct(n, tune, alpha)
    pair = as_kind(r, m, u), as_kind(r, m, up)
    kept = list(pair[0]), list(pair[1])
    dphi = DPhiTuneFinder(*pair)
    ok, got = m.quiet(dphi.get_tune, 'phase advance of an ellipse')
    if not ok:
        return
    m.check(same(pair[0], kept[0]) and same(pair[1], kept[1]),
            'phase space data is left alone')
    m.check(abs(got-tune) <= .3/n, 'mean phase advance', got=got, want=tune,
            error=(got-tune)*n)
    m.equal(dphi.tune, got, 'the tune is kept')
    m.equal(len(dphi.dphi), n-1, 'one advance per step')
    m.close(got, sum(dphi.dphi)/len(dphi.dphi), 'the tune is their mean',
            rel=1e-12)
    m.close(dphi.tune_error, math.sqrt(max(0., sum(
        (d-got)**2 for d in dphi.dphi)/len(dphi.dphi))), 'and their spread',
        rel=1e-6, abs_=1e-9)
    m.check(all(0 <= d <= 1 for d in dphi.dphi), 'advances within a turn')
    points = numpy.array(list(zip(*kept)))
    mean = points.mean(axis=0)
    cov = (points-mean).T.dot(points-mean)/n
    m.close(numpy.array(dphi.centre), mean, 'centre of the ellipse', rel=1e-9,
            abs_=1e-9*abs(points).max())
    circle = numpy.array(dphi.point_circles)
    low = numpy.linalg.cholesky(cov)
    m.equal(circle.shape, (n, 2), 'one circle point per point')
    m.check(bool((abs(circle.dot(low.T)+mean-points)
                  <= 1e-7*abs(points).max(axis=0)).all()),
            'circle points go back to the data')
    if r.random() < .6:
        m.event('again')
        m.equal(dphi.get_tune(), got, 'the same answer again')
        m.equal(len(dphi.dphi), n-1, 'one advance per step again')
    if r.random() < .4:
        m.event('fresh data')
        tune2 = .17+.3*r.random()*.4
        dphi.u, dphi.up = turned(r, tune2, n, alpha, beta, amp, phase, centre)
        fresh = DPhiTuneFinder(list(dphi.u), list(dphi.up))
        m.equal(dphi.get_tune(), fresh.get_tune(), 'new data replaces the old')
    flip = DPhiTuneFinder([-x for x in kept[0]], [-x for x in kept[1]])
    m.close(flip.get_tune(), got, 'the sign of the axes does not matter',
            rel=1e-9)


def slow(r, m):
    """Small steps, in either direction, for a whole number of turns"""
    m.event('slow')
    n = r.randint(150, 1500)
    turns = r.randint(1, 4)
    tune = turns/float(n)
    if r.random() < .6:
        m.event('backwards')
        tune = 1-tune
    beta, alpha = 10.**r.uniform(-2, 3), r.gauss(0, 1)
    amp, phase = 10.**r.uniform(-3, 2), r.uniform(0, 6)
    centre = [amp*r.choice([0., r.gauss(0, 20)]) for _ in range(2)]
    m.note((n, tune, alpha, beta, amp, phase, centre))
    m.distinct(n, tune, alpha)
    u, up = turned(r, tune, n, alpha, beta, amp, phase, centre)
    ok, got = m.quiet(lambda: DPhiTuneFinder(u, up).get_tune(),
                      'phase advance of an ellipse')
    if ok:
        m.check(abs(got-tune) <= 1e-2/n, 'slow advance', got=got, want=tune)


def tracked(r, m):
    m.event('tracked')
    n = r.choice([40, 61, 90])
    tune = r.uniform(.12, .38)
    beta, alpha = 10.**r.uniform(0, 3), r.gauss(0, 1)
    c, s = math.cos(2*math.pi*tune), math.sin(2*math.pi*tune)
    mat = numpy.identity(6)
    mat[:2, :2] = [[c+alpha*s, beta*s], [-(1+alpha**2)/beta*s, c-alpha*s]]
    mat[2:4, 2:4] = [[0, 1], [-1, 0]]
    full = numpy.matrix(mat)
    where = [r.gauss(0, 2), r.gauss(0, 2)]
    off = numpy.matrix([[where[0], where[1], 0., 0., 0., 400.]])
    track = MatrixTracking([full**(i+1) for i in range(n)], [off]*n, off)
    ref = Hit.new_from_dict({'pid': -13, 'mass': gen.MASS[13], 'energy': 400.,
                             'x': where[0], 'px': where[1]}, 'pz')
    before = gen.state(ref)
    delta = 10.**r.uniform(-2, 1)
    step = r.choice([None, None, 1, 2])
    use = None
    if step is not None:
        m.event('some hits')
        use = list(range(r.choice([0, 0, 1, 3]), n+1, step))
    m.note((n, tune, alpha, beta, where, delta, step))
    m.distinct(n, tune, alpha, delta)
    rows = [[delta, 0.]]
    for i in range(n):
        rows.append(list(mat[:2, :2].dot(rows[-1])))
    rows = [[a+where[0], b+where[1]] for i, (a, b) in enumerate(rows)
            if use is None or i in use]
    size = [max(abs(x[i]) for x in rows)+abs(where[i]) for i in (0, 1)]
    fft = FFTTuneFinder()
    fft.run_tracking('x', delta, ref, track, use)
    m.close(fft.u, [x[0] for x in rows], 'tracked positions', rel=1e-7,
            abs_=1e-9*size[0])
    m.close(fft.up, [x[1] for x in rows], 'tracked divergences', rel=1e-7,
            abs_=1e-9*size[1])
    m.equal(gen.state(ref), before, 'the reference is not moved')
    if use and use[0]:
        m.event('later hits')
        dphi = DPhiTuneFinder()
        dphi.run_tracking('x', 'px', delta, 0., ref, track, use)
        m.close([dphi.u, dphi.up], [[x[0] for x in rows],
                                    [x[1] for x in rows]],
                'positions of the hits asked for', rel=1e-7,
                abs_=1e-9*max(size))
        return
    dphi = DPhiTuneFinder()
    extra = r.choice([0., .1*delta/beta])
    dphi.run_tracking('x', 'px', delta, extra, ref, track, use)
    m.equal(gen.state(ref), before, 'the reference is not moved')
    first = [where[0]+delta, where[1]+extra]
    m.close([dphi.u[0], dphi.up[0]], first, 'displaced in both', rel=1e-9,
            abs_=1e-9)
    eff = (tune*(step or 1)) % 1.
    if min(abs(eff*q-round(eff*q)) for q in (1, 2, 3, 4)) > 3./len(rows):
        got = dphi.get_tune()
        m.check(abs(got-eff) < .4/len(rows), 'tune from tracking', got=got,
                want=eff)
        if 6./len(rows) < folded(eff) < .5-6./len(rows):
            fft.u = [x-where[0] for x in fft.u]
            m.check(abs(fft.get_tune()-folded(eff)) < 1./len(rows),
                    'frequency from tracking', got=fft.fractional_tune,
                    want=folded(eff))


SCENARIOS = [
    ('signal', signal, 420, 9000, {}),
    ('short', short, 400, 9000, {}),
    ('hanning', hanning, 60, 1500, {}),
    ('no_data', no_data, 20, 20, {}),
    ('ellipse', ellipse, 300, 9000, {}),
    ('slow', slow, 60, 1500, {}),
    ('tracked', tracked, 80, 2500, {}),
]
