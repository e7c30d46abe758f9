"""P27: the closed orbit finder on maps whose fixed point is known."""
import copy
import itertools
import json
import math

import numpy

from xmon import gen
from xboa.hit import Hit
from xboa.tracking import MatrixTracking, TrackingBase
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
import xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder as module

Iteration = module.EllipseClosedOrbitFinderIteration

ID = 'P27'
RULE = ('random stable maps in one and two planes (tunes, optical functions, '
        'coupling, weak sextupoles) about a random fixed point, random seeds, '
        'turns per call and number of points; each iteration is recomputed '
        'from the previous one, and the end compared with the fixed point; '
        'lossy and singular trackings; scans over random grids; distinct by '
        'input')
REQUIRED = {'ring': 150, 'iteration': 600, 'converged': 60, 'nonlinear': 40,
            'two planes': 40, 'limited': 30, 'unlimited': 20,
            'lost': 50, 'singular': 40, 'scan': 50, 'scan point': 900,
            'end on a step': 12, 'check': 100, 'refit': 100,
            'preserved ellipse': 60}
OTHERS = [k for k in gen.FLOATS+gen.INTS]


class Ring(TrackingBase):
    """x -> M (x + kick - c) + c, several turns per call"""

    def __init__(self, mat, fixed, keys, turns, kick=0., lose=None):
        TrackingBase.__init__(self)
        self.mat, self.fixed, self.keys = mat, fixed, keys
        self.turns, self.kick, self.lose = turns, kick, lose
        self.seen = []

    def turn(self, x):
        d = x-self.fixed
        if self.kick:
            d = d.copy()
            d[1] += self.kick*d[0]**2
        return self.mat.dot(d)+self.fixed

    def track_one(self, hit):
        self.seen.append(gen.state(hit))
        out = [hit.deepcopy()]
        x = numpy.array([hit[k] for k in self.keys])
        for i in range(self.turns):
            if self.lose is not None and i+1 >= self.lose:
                break
            x = self.turn(x)
            new = hit.deepcopy()
            for k, v in zip(self.keys, x):
                new[k] = float(v)
            out.append(new)
        return out


def plane(r, lo=.12, hi=.38):
    beta, alpha = 10.**r.uniform(0, 3), r.gauss(0, 1)
    gamma = (1+alpha**2)/beta
    tune = r.uniform(lo, hi)
    if r.random() < .5:
        tune = 1-tune
    c, s = math.cos(2*math.pi*tune), math.sin(2*math.pi*tune)
    return (numpy.array([[c+alpha*s, beta*s], [-gamma*s, c-alpha*s]]),
            numpy.array([[math.sqrt(beta), 0.],
                         [-alpha/math.sqrt(beta), 1/math.sqrt(beta)]]))


def ring(r, m):
    """A map, its normalising matrix (columns), fixed point and names"""
    planes = 1 if r.random() < .7 else 2
    names = ['x', 'px', 'y', 'py'][:2*planes]
    if planes == 1:
        mat, norm = plane(r)
        if r.random() < .3:
            names = r.choice([['y', 'py'], ['px', 'x'], ['t', 'energy']])
            if names == ['px', 'x']:
                swap = numpy.array([[0., 1.], [1., 0.]])
                mat, norm = swap.dot(mat).dot(swap), swap.dot(norm)
    else:
        m.event('two planes')
        mat, norm = numpy.zeros((4, 4)), numpy.zeros((4, 4))
        mat[:2, :2], norm[:2, :2] = plane(r, .12, .22)
        mat[2:, 2:], norm[2:, 2:] = plane(r, .28, .38)
        if r.random() < .5:      # coupled by a rotation
            t = r.uniform(0, 6)
            c, s = math.cos(t)*numpy.identity(2), math.sin(t)*numpy.identity(2)
            rot = numpy.block([[c, s], [-s, c]])
            mat, norm = rot.dot(mat).dot(rot.T), rot.dot(norm)
    fixed = numpy.array([r.choice([0., r.gauss(0, 10)]) for _ in names])
    if 'energy' in names:
        fixed[1] = 250.
    return mat, norm, fixed, names


def seed_hit(r, names, where):
    d = gen.hit_dict(r)
    for k, v in zip(names, where):
        d[k] = float(v)
    return Hit.new_from_dict(d)


def track_points(ring_, names, start, points, use_seed):
    """What the finder should see from this start"""
    x = numpy.array(start, dtype=float)
    out = [x] if use_seed else []
    while len(out) < points:
        for _ in range(ring_.turns):
            x = ring_.turn(x)
            out.append(x)
    return numpy.array(out)


def judge_iteration(m, co, names, want, eps_max):
    m.event('iteration')
    m.equal(list(co.keys), list(names), 'names of the variables')
    scale = numpy.abs(want).max(axis=0)+1e-9
    got = numpy.array(co.points)
    if not m.check(got.shape == want.shape and bool(
            (abs(got-want) <= 1e-9*scale).all()), 'points are the tracked ones',
            got=got.tolist(), want=want.tolist()):
        return
    mean = want.mean(axis=0)
    m.check(bool((abs(numpy.array(co.centre)-mean) <= 1e-11*scale).all()),
            'centre is the mean of the points', got=co.centre, want=mean)
    cov = (want-mean).T.dot(want-mean)/len(want)
    m.check(bool((abs(numpy.array(co.ellipse)-cov)
                  <= 1e-11*numpy.outer(scale, scale)).all()),
            'ellipse is the covariance of the points', got=co.ellipse, want=cov)
    # noise is judged from the ellipse itself, which may be near its limit
    ell = numpy.array(co.ellipse)
    inv = numpy.linalg.inv(ell/numpy.linalg.det(ell)**(1./len(names)))
    noise = [float((p-co.centre).dot(inv).dot(p-co.centre)) for p in got]
    big = max(map(abs, noise))
    if numpy.linalg.cond(inv) < 1e6:
        m.close(co.noise, noise, 'noise of the points', rel=1e-6,
                abs_=1e-6*big)
    mean_noise = sum(co.noise)/len(co.noise)
    m.close(co.get_mean_noise(), mean_noise, 'mean of the noise', rel=1e-9)
    var = sum((n-mean_noise)**2 for n in co.noise)/len(co.noise)
    top = max(abs(n) for n in co.noise)
    m.close(co.get_sigma_noise()**2, var, 'spread of the noise', rel=1e-6,
            abs_=1e-11*top**2)


def find(r, m):
    mat, norm, fixed, names = ring(r, m)
    inv = numpy.linalg.inv(norm)
    amp = 10.**r.uniform(-1, 1)
    shift = numpy.array([r.uniform(.5, 1)*r.choice([-1, 1]) for _ in names])
    start = fixed+norm.dot(amp*shift/numpy.sqrt(numpy.abs(norm).max()))
    points = r.choice([8, 10, 17, 25]) if len(names) == 2 else \
        r.choice([20, 30, 41])
    turns = r.choice([1, 2, 5, 12])
    kick = 0.
    if r.random() < .3 and names == ['x', 'px']:
        m.event('nonlinear')
        size = abs(start-fixed)
        kick = r.uniform(-1, 1)*.03*size[1]/(size[0]**2+1e-12)
    use_seed = r.random() < .3
    limit = r.choice([None, 100, 1, 2, 3, r.randint(0, 12)])
    track = Ring(mat, fixed, names, turns, kick)
    hit = seed_hit(r, names, start)
    before = gen.state(hit)
    m.note((mat.tolist(), fixed.tolist(), start.tolist(), names, points, turns,
            kick, use_seed, limit))
    m.distinct(mat.tolist(), fixed.tolist(), start.tolist())
    m.event('ring')
    eps = r.choice([1e9, 1e12, 3e10])
    finder = EllipseClosedOrbitFinder(track, hit, eps, use_seed)
    if limit is None:
        m.event('unlimited')
        walk = finder.find_closed_orbit_generator(names, points, None)
    elif limit == 100 and r.random() < .5:
        walk = finder.find_closed_orbit_generator(names, points)
    else:
        walk = finder.find_closed_orbit_generator(names, points, limit)
    here = start
    count, why = 0, 'ended'
    last = None
    done = False
    while True:
        try:
            co = next(walk)
        except StopIteration:
            break
        except RuntimeError as err:
            if 'StopIteration' in str(err):
                m.fail('the finder ends quietly', raised=repr(err))
            why = 'stopped'
            break
        final = co
        count += 1
        m.check(not done, 'the search ends when the noise is large')
        done = co.get_mean_noise() < .999*co.get_sigma_noise()
        if not m.check(bool(numpy.isfinite(co.centre).all()),
                       'the centre is a number', centre=co.centre):
            return
        want = track_points(track, names, here, points, use_seed)
        judge_iteration(m, co, names, want, eps)
        m.equal(co.json_repr()['eps_max'], eps, 'cut of the finder')
        if count == 1 and points >= 17 and not kick and len(names) == 2:
            # many turns sample the ellipse that the ring preserves
            m.event('preserved ellipse')
            ell = inv.dot(numpy.array(co.ellipse)).dot(inv.T)
            m.check(.4 < ell[0, 0]/ell[1, 1] < 2.5 and abs(ell[0, 1])
                    < .5*math.sqrt(abs(ell[0, 0]*ell[1, 1])),
                    'the ellipse is the one the ring preserves', ellipse=ell)
        last = co.centre
        here = numpy.array(co.centre)
        if count > 200:
            m.fail('the finder comes to an end')
            return
    m.equal(gen.state(hit), before, 'the seed is not modified')
    for seen in track.seen:
        m.check(all(seen[k] == before[k] for k in OTHERS if k not in names),
                'other variables come from the seed')
    if limit is not None:
        m.check(count <= limit, 'iteration limit respected', count=count)
        if count == limit:
            m.event('limited')
    if last is None:
        m.check(limit == 0, 'a stable ring gives at least one iteration')
        return
    if limit is None or count < limit:
        m.event('converged')
        if why == 'ended' and len(final.points) <= points:
            m.event('noise limit')
            m.check(final.get_mean_noise() <= 1.001*final.get_sigma_noise(),
                    'the search goes on until the noise is large',
                    mean=final.get_mean_noise(),
                    sigma=final.get_sigma_noise())
        error = numpy.linalg.norm(inv.dot(last-fixed))
        floor = sum(numpy.linalg.norm(inv[:, i])*abs(fixed[i])
                    for i in range(len(names)))
        first = numpy.linalg.norm(inv.dot(start-fixed))
        # two modes may be sampled badly, which reads as noise: less is known
        m.check(error <= 2e-5*floor+(2e-5 if len(names) == 2 else .1)*first,
                'a finished search is on the fixed point', error=error,
                floor=floor, first=first, count=count, why=why)


def lost(r, m):
    """A particle that is lost, or tracking that goes nowhere"""
    mat, norm, fixed, names = ring(r, m)
    kind = r.choice(['at once', 'later', 'identity', 'line'])
    use_seed = r.random() < .5
    start = fixed+norm.dot(numpy.ones(len(names)))
    hit = seed_hit(r, names, start)
    before = gen.state(hit)
    points = r.randint(8, 20)
    m.note((kind, use_seed, names, points))
    m.distinct(kind, use_seed, mat.tolist())
    if kind == 'at once':
        m.event('lost')
        track = Ring(mat, fixed, names, 5, 0., 1)
    elif kind == 'later':
        m.event('lost')
        track = Ring(mat, fixed, names, 5)
        plain, calls = track.track_one, []

        def give_up(h):
            calls.append(1)
            return plain(h) if len(calls) < 2 else [h.deepcopy()]
        track.track_one = give_up
    elif kind == 'identity':
        m.event('lost')
        track = Ring(numpy.identity(len(names)), fixed, names, 5)
    else:
        m.event('singular')
        line = numpy.zeros((len(names), len(names)))
        line[0, 0] = -1.
        start = numpy.array(fixed)
        start[0] += 1.
        hit = seed_hit(r, names, start)
        before = gen.state(hit)
        track = Ring(line, fixed, names, 3)
    finder = EllipseClosedOrbitFinder(track, hit, 1e6, use_seed)
    try:
        got = list(finder.find_closed_orbit_generator(names, points, 20))
        if kind != 'line':
            m.fail('a lost particle is reported', got=len(got))
        else:
            m.check(all(numpy.isfinite(co.centre).all() for co in got),
                    'no orbit made up from a line')
    except RuntimeError as err:
        m.check('StopIteration' not in str(err), 'the finder ends quietly')
    if kind != 'line':
        m.raises(RuntimeError, lambda: finder.check_closed_orbit(
            dict(zip(names, map(float, start))), points*2),
            'check of a lost particle refused')
    m.equal(gen.state(hit), before, 'the seed is not modified')


def check(r, m):
    """check_closed_orbit and the iteration object by itself"""
    m.event('check')
    mat, norm, fixed, names = ring(r, m)
    track = Ring(mat, fixed, names, r.choice([1, 4, 9]))
    hit = seed_hit(r, names, fixed+1)
    before = gen.state(hit)
    start = fixed+norm.dot([r.gauss(0, 1) for _ in names])
    points = r.choice([10, 24])
    use_seed = r.random() < .4
    finder = EllipseClosedOrbitFinder(track, hit, 1e9, use_seed)
    values = {k: float(v) for k, v in zip(names, start)}
    kept = dict(values)
    m.note((mat.tolist(), fixed.tolist(), values, points, use_seed))
    m.distinct(mat.tolist(), values)
    co = finder.check_closed_orbit(values, points)
    m.equal(values, kept, 'values are not modified')
    m.equal(gen.state(hit), before, 'the seed is not modified')
    order = sorted(names)
    pick = [names.index(k) for k in order]
    want = track_points(track, names, start, points, use_seed)[:, pick]
    judge_iteration(m, co, order, want, 1e9)
    m.event('refit')
    text = json.loads(json.dumps(co.json_repr()))
    lazy = r.random() < .5
    again = Iteration(text['keys'], text['points'], text['eps_max'], not lazy)
    if lazy:
        m.check(again.centre is None and again.noise is None,
                'nothing fitted before it is asked for')
        if r.random() < .5:
            m.close(again.get_mean_noise(), co.get_mean_noise(),
                    'asking for the noise fits the ellipse', rel=1e-12)
        else:
            m.close(again.get_sigma_noise(), co.get_sigma_noise(),
                    'asking for the spread fits the ellipse', rel=1e-12)
    m.close(numpy.array(again.centre), numpy.array(co.centre),
            'rebuilt from its record: centre', rel=1e-12)
    m.close(numpy.array(again.ellipse), numpy.array(co.ellipse),
            'rebuilt from its record: ellipse', rel=1e-12)
    m.close(again.noise, co.noise, 'rebuilt from its record: noise', rel=1e-12)


def scan(r, m):
    m.event('scan')
    mat, norm, fixed, names = ring(r, m)
    track = Ring(mat, fixed, names, r.choice([0, 1, 3]))
    hit = seed_hit(r, names, fixed)
    before = gen.state(hit)
    keys = sorted(r.sample(names, r.randint(1, min(3, len(names)))))
    if r.random() < .3 and 'z' not in keys:
        keys = sorted(keys+['z'])
    start, end, step, grid = {}, {}, {}, []
    for k in keys:
        n = r.randint(1, 5)
        step[k] = float(r.choice([.5, 1., 2., .25]))
        start[k] = float(r.randint(-4, 4))
        exact = r.random() < .5
        if exact:
            m.event('end on a step')
        end[k] = start[k]+step[k]*(n if exact else n-r.choice([.5, .9, .1]))
        grid.append([start[k]+step[k]*i for i in range(n)])
    if r.random() < .1:
        end[keys[0]] = start[keys[0]]-r.choice([0., 1.])
        grid[0] = []
    m.note((start, end, step, names, track.turns))
    m.distinct(start, end, step, mat.tolist())
    kept = copy.deepcopy((start, end, step))
    finder = EllipseClosedOrbitFinder(track, hit, 1e6)
    ok, got = m.quiet(lambda: list(finder.scan_generator(start, end, step)),
                      'scan runs to its end')
    if not ok:
        return
    m.equal((start, end, step), kept, 'scan leaves its limits alone')
    m.equal(gen.state(hit), before, 'the seed is not modified')
    want = [list(p) for p in itertools.product(*grid)]
    if not m.equal([list(co.points[0]) for co in got], want,
                   'every point of the grid once, in order'):
        return
    for co, point in zip(got, want):
        m.event('scan point')
        m.equal(list(co.keys), keys, 'names of the scan')
        x = numpy.array([point[keys.index(k)] if k in keys else before[k]
                         for k in names])
        rows = []
        for i in range(track.turns+1):
            values = dict(zip(names, x))
            rows.append([float(values.get(k, dict(zip(keys, point)).get(k)))
                         for k in keys])
            x = track.turn(x)
        m.close([list(p) for p in co.points], rows, 'points of a scan step',
                rel=1e-9, abs_=1e-9*max(1, max(abs(v) for q in rows
                                               for v in q)))


def by_matrix(r, m):
    """The same through MatrixTracking"""
    m.event('ring')
    mat, norm = plane(r)
    fixed = numpy.array([r.gauss(0, 10), r.gauss(0, 5)])
    full = numpy.identity(6)
    full[:2, :2] = mat
    full = numpy.matrix(full)
    off = numpy.matrix([[fixed[0], fixed[1], 0., 0., 0., 500.]])
    n = r.choice([3, 5, 10])
    track = MatrixTracking([full**(i+1) for i in range(n)], [off]*n, off)
    amp = r.uniform(.5, 3)
    hit = Hit.new_from_dict({'pid': -13, 'mass': gen.MASS[13], 'energy': 500.,
                             'x': fixed[0]+amp, 'px': fixed[1]-amp/10}, 'pz')
    m.note((mat.tolist(), fixed.tolist(), amp, n))
    m.distinct(mat.tolist(), amp)
    finder = EllipseClosedOrbitFinder(track, hit)
    same = [next(g) for g in (f.find_closed_orbit_generator(['x', 'px'], 20)
            for f in (finder, EllipseClosedOrbitFinder(track, hit, 1e6,
                                                       False)))]
    m.equal([float(c) for c in same[0].centre],
            [float(c) for c in same[1].centre], 'default of the seed')
    last = None
    try:
        for co in finder.find_closed_orbit_generator(['x', 'px'], 20):
            last = co.centre
            m.event('iteration')
    except RuntimeError as err:
        m.check('StopIteration' not in str(err), 'the finder ends quietly')
    if m.check(last is not None, 'an orbit is found'):
        end = gen.state(hit)
        end.update({'x': float(last[0]), 'px': float(last[1])})
        turned = track.track_one(Hit.new_from_dict(end))[1]
        inv = numpy.linalg.inv(norm)
        gap = numpy.linalg.norm(inv.dot([turned['x']-last[0],
                                         turned['px']-last[1]]))
        floor = numpy.linalg.norm(inv.dot(numpy.diag(abs(fixed)+amp)))
        m.event('converged')
        m.check(gap < 2e-5*floor, 'tracking the orbit once more closes it',
                gap=gap, floor=floor)


SCENARIOS = [
    ('find', find, 520, 9000, {}),
    ('by_matrix', by_matrix, 60, 1500, {}),
    ('lost', lost, 200, 4000, {}),
    ('check', check, 200, 6000, {}),
    ('scan', scan, 120, 4000, {}),
]
