"""P35: fitted ellipses and bounding ellipses."""
import math

import numpy

from xmon import gen
import xboa.common as Common
from xboa.bunch.weighting import BoundingEllipse

ID = 'P35'
RULE = ('random point sets in one to five dimensions, gaussian, with tails, on '
        'shells and on grids, over many orders of size and far from 0, with '
        'and without weights, cut from never to nearly everything; the cut and '
        'the moments iterated again with exact sums; bounds of every size and '
        'shape with points inside, outside and on them; distinct by points')
REQUIRED = {'fit': 400, 'no point cut': 80, 'some points cut': 150,
            'several iterations': 150, 'weights': 120, 'tiny ellipse': 50,
            'far from 0': 60, 'turned': 250, 'shuffled': 250, 'singular': 40,
            'cut away': 30, 'bound': 150, 'point inside': 1000,
            'point outside': 1000, 'bounding point': 4000}
WORKERS = 6


def mean_cov(points, weights):
    n = len(points[0])
    total = math.fsum(weights)
    mean = [math.fsum(w*p[i] for p, w in zip(points, weights))/total
            for i in range(n)]
    cov = [[math.fsum(w*(p[i]-mean[i])*(p[j]-mean[j])
                      for p, w in zip(points, weights))/total
            for i in range(n)] for j in range(n)]
    return numpy.array(mean), numpy.array(cov)


def reference(points, weights, eps_cut, most):
    """mean and covariance of each iteration; None where the answer hangs on
    rounding"""
    n = len(points[0])
    keep = list(range(len(points)))
    rounds = []
    first = min(max(p[i] for p in points)-min(p[i] for p in points)
                for i in range(n))
    for _ in range(most):
        w = [weights[i] for i in keep]
        if not w or sum(w) == 0:
            return rounds, 'cut away'
        mean, cov = mean_cov([points[i] for i in keep], w)
        scale = numpy.sqrt(numpy.diag(cov))
        if min(scale) <= 1e-9*first or numpy.linalg.cond(
                cov/numpy.outer(scale, scale)) > 1e7:
            return None, 'badly conditioned'
        rounds.append((mean, cov, len(keep)))
        inv = numpy.linalg.inv(cov)
        root = numpy.linalg.det(cov)**(1./n)
        new = []
        for i, p in enumerate(points):
            d = numpy.array(p)-mean
            eps = float(d.dot(inv).dot(d))*root
            if abs(eps-eps_cut) < 1e-7*eps_cut:
                return None, 'on the cut'
            if eps < eps_cut:
                new.append(i)
        if new == keep and len(rounds) > 1:
            return rounds, 'converged'
        keep = new
    return rounds, 'stopped'


def cloud(r, m, dim):
    n = r.choice([dim+3, 15, 30, 60])
    kind = r.choice(['gauss', 'tails', 'shell', 'mixed'])
    mix = numpy.array([[r.gauss(0, 1)+2*(i == j) for i in range(dim)]
                       for j in range(dim)])
    size = 10.**r.choice([0, 0, r.uniform(-6, -3), r.uniform(2, 5)])
    off = numpy.array([r.gauss(0, 1)*r.choice([0, 1, 1e5])
                       for _ in range(dim)])
    if size < 1e-2:
        m.event('tiny ellipse')
    if abs(off).max() > 1e3:
        m.event('far from 0')
    pts = []
    for i in range(n):
        v = numpy.array([r.gauss(0, 1) for _ in range(dim)])
        if kind == 'shell' or (kind == 'mixed' and i % 2):
            v = v/numpy.linalg.norm(v)
        elif kind == 'tails' and r.random() < .2:
            v = v*r.uniform(3, 12)
        pts.append([float(x) for x in size*(mix.dot(v)+off)])
    return pts


def fit(r, m):
    dim = r.choice([1, 2, 2, 2, 3, 4, 5])
    m.event('fit')
    pts = cloud(r, m, dim)
    n = len(pts)
    weights = None
    if r.random() < .5:
        m.event('weights')
        weights = [r.choice([0., 1., r.uniform(.1, 4)]) for _ in range(n)]
        if sum(1 for w in weights if w) < dim+2:
            weights = [1.]*n
    w = weights or [1.]*n
    mean, cov = mean_cov(pts, w)
    scale = numpy.sqrt(numpy.diag(cov))
    if min(scale) == 0 or numpy.linalg.cond(
            cov/numpy.outer(scale, scale)) > 1e7:
        m.event('badly conditioned')
        return
    root = numpy.linalg.det(cov)**(1./dim)
    eps_cut = root*r.choice([1e6, dim*r.uniform(1, 6), dim*r.uniform(.5, 3),
                             dim*r.uniform(.01, .6)])
    most = r.choice([1, 2, 3, 10, 10, 10, 40])
    m.note((pts, weights, eps_cut, most))
    m.distinct(pts, eps_cut, most)
    rounds, why = reference(pts, w, eps_cut, most)
    given = r.choice([[tuple(p) for p in pts], [list(p) for p in pts],
                      [numpy.array(p) for p in pts]])
    args = [given, eps_cut, list(weights) if weights else None, most, False]
    ok, got = m.quiet(lambda: Common.fit_ellipse(*args), 'fit')
    if not ok:
        return
    m.equal([list(p) for p in given], pts, 'points are left alone')
    m.equal(args[2], weights, 'weights are left alone')
    if not rounds:
        m.event(why)
        return
    if why == 'cut away':
        m.event('cut away')
    m.event('no point cut' if rounds[-1][2] == n else 'some points cut')
    if len(rounds) > 2:
        m.event('several iterations')
    want = rounds[-1]
    near = numpy.sqrt(numpy.diag(want[1]))
    far = max(max(abs(v) for v in p) for p in pts)
    tol = 1e-9*near+1e-14*far
    a, b = numpy.array(got[0]), numpy.array(got[1])
    if not m.check(a.shape == (dim,) and b.shape == (dim, dim),
                   'an ellipse of the dimension of the points'):
        return
    m.check(bool((abs(a-want[0]) <= tol).all()),
            'centre of the points inside the cut', got=a.tolist(),
            want=want[0].tolist(), why=why)
    m.check(bool((abs(b-want[1]) <= 1e-8*numpy.outer(near, near)+numpy.outer(
        tol, near)+numpy.outer(near, tol)).all()),
        'covariance of the points inside the cut', got=b.tolist(),
        want=want[1].tolist(), why=why, iterations=len(rounds))
    m.check(bool((b == b.T).all()) or
            abs(b-b.T).max() <= 1e-12*abs(b).max(), 'a symmetric ellipse')
    # in another order
    m.event('shuffled')
    order = list(range(n))
    r.shuffle(order)
    again = Common.fit_ellipse([pts[i] for i in order], eps_cut,
                               [w[i] for i in order], most, False)
    m.check(bool((abs(again[0]-a) <= tol).all()) and bool(
        (abs(again[1]-b) <= 1e-8*numpy.outer(near, near)+numpy.outer(
            tol, near)+numpy.outer(near, tol)).all()),
        'the order of the points does not matter')
    # turned, stretched and moved
    m.event('turned')
    turn = numpy.array([[r.gauss(0, 1)+2*(i == j) for i in range(dim)]
                        for j in range(dim)])*10.**r.choice([0, 0, -4, 3])
    if numpy.linalg.cond(turn) > 100:
        return
    move = numpy.array([r.gauss(0, 1) for _ in range(dim)])
    grow = abs(numpy.linalg.det(turn))**(2./dim)
    moved = [[float(v) for v in turn.dot(p)+move] for p in pts]
    third, why_moved = reference(moved, w, eps_cut*grow, most)
    if why_moved != why or not third or len(third) != len(rounds):
        return
    c = Common.fit_ellipse(moved, eps_cut*grow, list(w), most, False)
    m.check(bool((abs(c[0]-turn.dot(a)-move) <= 1e-9*(
        abs(turn).max()*(far+near.max())*dim+abs(move).max())).all()),
        'the centre moves with the points')
    to = turn.dot(b).dot(turn.T)
    away = max(max(abs(v) for v in p) for p in moved)
    wide = math.sqrt(max(third[-1][1][i, i] for i in range(dim)))
    slack = 1e-7*wide**2+1e-12*away*wide + \
        abs(turn).max()**2*dim**2*1e-12*far*near.max()
    m.check(abs(c[1]-to).max() <= slack, 'the ellipse turns with the points',
            got=c[1].tolist(), want=to.tolist())


def singular(r, m):
    """points on a line or all at one place: the covariance all the same"""
    m.event('singular')
    dim = r.choice([2, 2, 3])
    n = r.randint(1, 12)
    line = [0.]*dim
    line[r.randrange(dim)] = float(r.randint(-3, 3))
    off = [float(r.randint(-5, 5)) for _ in range(dim)]
    pts = []
    for _ in range(n):
        s = float(r.randint(-4, 4))
        pts.append([s*a+b for a, b in zip(line, off)])
    m.note(pts)
    m.distinct(pts)
    ok, got = m.quiet(lambda: Common.fit_ellipse(pts, 1e9, verbose=False),
                      'points on a line')
    if ok:
        mean, cov = mean_cov(pts, [1.]*n)
        m.check(abs(numpy.array(got[0])-mean).max() <= 1e-9 and
                abs(numpy.array(got[1])-cov).max() <= 1e-9,
                'mean and covariance of points on a line', points=pts,
                got=(got[0].tolist(), got[1].tolist()))


def bound(r, m):
    m.event('bound')
    dim = r.choice([1, 2, 2, 3, 3, 4])
    v = numpy.array(gen.posdef(r, dim), dtype=float)
    scale = numpy.sqrt(numpy.diag(v))
    if numpy.linalg.cond(v/numpy.outer(scale, scale)) > 1e6:
        v = numpy.diag(numpy.diag(v))
    v = v/scale.max()**2*10.**r.choice([0, 0, r.uniform(-6, 6)])
    scale = numpy.sqrt(numpy.diag(v))
    mean = numpy.array([r.choice([0., r.gauss(0, 10)])*s for s in scale])
    n = r.choice([2, 2, 3, 3, 4, 5])
    m.note((v.tolist(), mean.tolist(), n))
    m.distinct(v.tolist(), mean.tolist(), n)
    kept = v.copy(), mean.copy()
    ok, b = m.quiet(lambda: BoundingEllipse(v, mean, n), 'bounding ellipse')
    if not ok:
        return
    inv = numpy.linalg.inv(v)
    cond = numpy.linalg.cond(v/numpy.outer(scale, scale))

    def size(p):
        d = numpy.array(p)-mean
        return float(d.dot(inv).dot(d))

    shell = numpy.array(b.bounding_points)
    want = n**dim-(n % 2)
    if m.check(shell.shape == (want, dim), 'number of bounding points',
               got=shell.shape, want=want):
        far = 1+abs(mean/scale).max()
        for p in shell:
            m.event('bounding point')
            m.close(size(p), 1., 'bounding points lie on the bound',
                    abs_=1e-11*cond*far)
        middle = shell.mean(axis=0)
        m.check(bool((abs(middle-mean) <= 1e-9*scale*far).all()),
                'bounding points surround the centre')
    lower = numpy.linalg.cholesky(v)
    pts, inside = [], []
    for i in range(r.choice([0, 1, 5, 40])):
        u = numpy.array([r.gauss(0, 1) for _ in range(dim)])
        u = u/numpy.linalg.norm(u)*r.choice(
            [r.uniform(0, .9), r.uniform(1.1, 3), 1-1e-4, 1+1e-4])
        p = mean+lower.dot(u)
        s = size(p)
        if abs(s-1) < 1e-5 or abs(s-u.dot(u)) > 1e-5:
            continue
        if s < 1:
            inside.append(len(pts))
            m.event('point inside')
        else:
            m.event('point outside')
        pts.append(p)
    given = numpy.array(pts).reshape(len(pts), dim)
    before = given.copy()
    ok, got = m.quiet(lambda: b.cut_on_bound(given), 'cut on the bound')
    if ok:
        m.equal([int(i) for i in got[1]], inside,
                'points inside the bound are kept, in order')
        m.equal(numpy.array(got[0]).tolist(),
                [before[i].tolist() for i in inside],
                'points inside the bound are given as they were')
        if len(inside):
            twice = b.cut_on_bound(numpy.array(got[0]))
            m.equal(list(twice[1]), list(range(len(inside))),
                    'a second cut keeps everything')
    m.check(bool((given == before).all()), 'points are left alone')
    m.check(bool((v == kept[0]).all() and (mean == kept[1]).all()),
            'the ellipse is left alone')
    # numbers which are exact, so that the edge is the edge
    half = [2.**r.randint(-3, 3) for _ in range(dim)]
    centre = [float(r.randint(-4, 4)) for _ in range(dim)]
    edge = BoundingEllipse(numpy.diag([h*h for h in half]),
                           numpy.array(centre), 2)
    axis, sign = r.randrange(dim), r.choice([-1., 1.])
    rim = [list(centre) for _ in range(3)]
    for p, s in zip(rim, (1., 1+2.**-20, 1-2.**-20)):
        p[axis] += sign*s*half[axis]
    ok, got = m.quiet(lambda: edge.cut_on_bound(numpy.array(rim)),
                      'cut on the bound')
    if ok:
        m.event('point on the edge')
        m.equal([int(i) for i in got[1]], [0, 2], 'the edge is inside')
    kind = r.choice(['n', 'shape', 'mean', 'type'])
    if kind == 'n':
        m.raises(ValueError, lambda: BoundingEllipse(v, mean, 0), 'no points')
    elif kind == 'type':
        m.raises(ValueError, lambda: BoundingEllipse(v, mean, 2.5),
                 'a number of points that is no integer')
    elif kind == 'mean':
        m.raises(ValueError, lambda: BoundingEllipse(
            v, numpy.zeros(dim+1), n), 'a mean of another size')
    else:
        m.raises(ValueError, lambda: BoundingEllipse(
            numpy.ones((dim, dim+1)), mean, n), 'an ellipse that is not square')


SCENARIOS = [
    ('fit', fit, 2400, 24000, {}),
    ('singular', singular, 80, 2000, {}),
    ('bound', bound, 300, 12000, {}),
]
