"""P33: moments of bunches weighted by a polynomial."""
import itertools
import math

import numpy

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.bunch.weighting import MultipoleWeighting

ID = 'P33'
RULE = ('random bunches in one to three variables with weights of every kind '
        'already set, asked for raw moments of any order up to the maximum '
        'pole, in any order, or for a mean and an ellipse; moments summed '
        'again from the hits with math.fsum; distinct by bunch and target')
WORKERS = 6
REQUIRED = {'bunch': 200, 'moment reached': 700, 'raw moments': 100,
            'ellipse': 70, 'offset mean': 40, 'order three or more': 25,
            'global': 80, 'prior weights': 80, 'cut hit': 60,
            'weight changed': 2000, 'again': 130, 'own moments': 30,
            'one variable': 40, 'three variables': 40, 'refused': 60,
            'shuffled target': 60, 'too high': 15, 'second target': 40}
OTHERS = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'pid', 'mass',
          'status', 'charge', 'event_number', 'ex', 'bx', 'particle_number',
          'station']
KINDS = ['local_weight', 'global_weight']


def state(bunch):
    return [[hit[v] for v in OTHERS] for hit in bunch]


def moment(points, weights, index):
    num = math.fsum(w*math.prod(x**k for x, k in zip(p, index))
                    for p, w in zip(points, weights))
    size = math.fsum(abs(w)*math.prod(abs(x)**k for x, k in zip(p, index))
                     for p, w in zip(points, weights))
    total = math.fsum(weights)
    return num/total, size/abs(total)


def matrix(points, weights, indices, targets):
    n = len(indices)
    a = numpy.zeros((n, n))
    u = numpy.zeros(n)
    for i in range(n):
        for j in range(n):
            both = [p+q for p, q in zip(indices[i], indices[j])]
            a[i, j] = moment(points, weights, both)[0] - \
                targets[i]*moment(points, weights, indices[j])[0]
        u[i] = targets[i]-moment(points, weights, indices[i])[0]
    return a, u


def orders(dim, low, high):
    return [list(i) for i in itertools.product(range(high+1), repeat=dim)
            if low <= sum(i) <= high]


def some_bunch(r, m):
    dim = r.choice([1, 2, 2, 2, 3])
    names = r.sample(['x', 'y', 'px', 'py', 't', 'pz'], dim)
    n = r.choice([30, 60, 120])
    wide = r.choice([.4, .4, 4])
    scale = [10.**r.uniform(-wide, wide) for _ in range(dim)]
    off = [r.choice([0, 0, r.uniform(-1, 1)])*(s if wide > 1 else 1)
           for s in scale]
    mix = numpy.eye(dim)
    if r.random() < .5:
        mix = numpy.array([[r.uniform(-.4, .4)+(i == j) for i in range(dim)]
                           for j in range(dim)])
    points = []
    for _ in range(n):
        p = mix.dot([r.gauss(0, 1) for _ in range(dim)])
        points.append([float(s*v+o) for s, v, o in zip(scale, p, off)])
    hits = []
    Bunch.clear_global_weights()
    prior = r.random() < .5
    if prior:
        m.event('prior weights')
    for i, p in enumerate(points):
        values = {'event_number': i, 'pid': -13, 'mass': 105.658,
                  'charge': 1, 'status': r.randint(0, 3),
                  'ex': r.gauss(0, 1), 'bx': r.gauss(0, 1), 'z': r.gauss(0, 9)}
        values.update(zip(names, p))
        hit = Hit.new_from_dict(values)
        if prior:
            hit['local_weight'] = r.choice([0., 1., r.uniform(.2, 2)])
            hit['global_weight'] = r.choice([0., 1., 1., r.uniform(.2, 2)])
        hits.append(hit)
    return Bunch.new_from_hits(hits), dim, names


def points_of(bunch, names):
    return [[hit[v] for v in names] for hit in bunch]


def targets_for(r, m, bunch, dim, names):
    """targets near to the moments the bunch has, so that they are reachable"""
    points = points_of(bunch, names)
    weights = [hit['weight'] for hit in bunch]
    pole = r.choice([1, 2, 2, 2, 3, 4] if dim < 3 else [1, 2, 2])
    own = r.random() < .2
    if r.random() < .6:
        m.event('raw moments')
        indices = orders(dim, 1, pole)
        r.shuffle(indices)
        indices = indices[:r.randint(1, len(indices))]
        if indices != sorted(indices):
            m.event('shuffled target')
        values = []
        for i in indices:
            got, size = moment(points, weights, i)
            values.append(got+(0 if own else r.uniform(-.08, .08)*size))
        if max(sum(i) for i in indices) > 2:
            m.event('order three or more')
        w = MultipoleWeighting(pole, names, numpy.eye(dim), [0.]*dim)
        w.set_target_moments(indices, values)
    else:
        m.event('ellipse')
        pole = max(pole, 2)
        mean = [moment(points, weights, [int(i == j) for j in range(dim)])[0]
                for i in range(dim)]
        total = math.fsum(weights)
        ell = numpy.array([[math.fsum(
            w*(p[i]-mean[i])*(p[j]-mean[j]) for p, w in zip(points, weights)
        )/total for i in range(dim)] for j in range(dim)])
        if not own:
            root = numpy.sqrt(numpy.diag(ell))
            mean = [a+r.uniform(-.1, .1)*s for a, s in zip(mean, root)]
            scale = numpy.diag([r.uniform(.9, 1.1) for _ in range(dim)])
            ell = scale.dot(ell).dot(scale)
        if any(abs(a) > .1 for a in mean):
            m.event('offset mean')
        w = MultipoleWeighting(pole, names, ell.copy(), numpy.array(mean))
        indices, values = [], []
        for i in range(dim):
            indices.append([int(i == j) for j in range(dim)])
            values.append(mean[i])
        for i in range(dim):
            for j in range(i, dim):
                indices.append([int(i == k)+int(j == k) for k in range(dim)])
                values.append(ell[i, j]+mean[i]*mean[j])
    if own:
        m.event('own moments')
    return w, pole, indices, values, own


def reach(r, m):
    bunch, dim, names = some_bunch(r, m)
    m.event('bunch')
    if dim != 2:
        m.event('one variable' if dim == 1 else 'three variables')
    for turn in range(2):
        one_target(r, m, bunch, dim, names)
        if r.random() < .6:
            break
        m.event('second target')
    Bunch.clear_global_weights()


def one_target(r, m, bunch, dim, names):
    points = points_of(bunch, names)
    weights = [hit['weight'] for hit in bunch]
    w, pole, indices, values, own = targets_for(r, m, bunch, dim, names)
    m.note((names, pole, indices, values, len(bunch)))
    m.distinct(points[0], indices, values)
    a, u = matrix(points, weights, indices, values)
    # columns and rows in units of their size
    size = [moment(points, weights, i)[1] for i in indices]
    if min(size) <= 0:
        return
    scaled = a/numpy.outer(size, size)
    if not numpy.isfinite(scaled).all() or not numpy.isfinite(u).all():
        m.event('too near to singular')
        return
    cond = numpy.linalg.cond(scaled)
    if not cond < 1e6:
        m.event('too near to singular')
        return
    coefficients = numpy.linalg.solve(a, u)
    wanted = [1+math.fsum(c*math.prod(x**k for x, k in zip(p, i))
                          for c, i in zip(coefficients, indices))
              for p in points]
    total = math.fsum(p*q for p, q in zip(wanted, weights))
    plain = math.fsum(wanted)
    if abs(total) < .01*sum(weights) or \
            abs(total) < .05*sum(abs(p*q) for p, q in zip(wanted, weights)) or \
            abs(plain) < .05*sum(abs(p) for p in wanted):
        m.event('weights cancel')
        return
    kind = int(r.random() < .5)
    m.event(['local', 'global'][kind])
    before, other = state(bunch), [h[KINDS[1-kind]] for h in bunch]
    was = [h[KINDS[kind]] for h in bunch]
    hits = list(bunch)
    ok, got = m.quiet(lambda: w.apply_weights(bunch, bool(kind)),
                      'targets within reach')
    if not ok:
        return
    m.check(got is bunch and len(bunch) == len(hits) and all(
        p is q for p, q in zip(bunch, hits)), 'the same hits in order')
    m.equal(state(bunch), before, 'weights only are changed')
    m.equal([h[KINDS[1-kind]] for h in bunch], other,
            'one kind of weight is changed')
    new = [h[KINDS[kind]] for h in bunch]
    tol = 1e-12*cond+1e-9
    big = max(abs(p) for p in wanted)
    for p, q, x in zip(new, was, wanted):
        if q == 0:
            m.event('cut hit')
            m.check(p == 0, 'a cut hit stays cut', got=p)
        else:
            m.event('weight changed')
    # weights go as the polynomial
    scale = math.fsum(new)*1.
    base = math.fsum(q*x for q, x in zip(was, wanted))
    if abs(base) > .05*math.fsum(abs(q*x) for q, x in zip(was, wanted)):
        for p, q, x in zip(new, was, wanted):
            m.close(p/scale, q*x/base, 'weight is the polynomial',
                    abs_=tol*abs(q)*big*10/abs(base))
    if all(q == 1 for q in was):
        m.close(scale, len(bunch), 'weights add up to the number of hits',
                rel=1e-9)
    final = [h['weight'] for h in bunch]
    for i, value in zip(indices, values):
        m.event('moment reached')
        have, width = moment(points, final, i)
        m.close(have, value, 'moment takes the value asked for',
                abs_=tol*10*width)
    # the bunch agrees
    for i, name in enumerate(names):
        one = [int(i == j) for j in range(dim)]
        if one in indices:
            _, width = moment(points, final, one)
            m.close(bunch.mean([name])[name], values[indices.index(one)],
                    'mean of the bunch', abs_=tol*10*width+1e-12)
    if own:
        ratio = [p/q for p, q in zip(new, was) if q != 0]
        if ratio:
            m.check(max(ratio)-min(ratio) <= 1e-9*abs(ratio[0]) +
                    tol*abs(ratio[0]), 'own moments change nothing',
                    got=(min(ratio), max(ratio)))
    if not (cond < 1e4 and all(x > 0 for x in wanted)):
        return
    m.event('again')
    ok, _ = m.quiet(lambda: w.apply_weights(bunch, bool(r.randint(0, 1))),
                    'the same targets again')
    if ok:
        last = [h['weight'] for h in bunch]
        p, q = math.fsum(last), math.fsum(final)
        m.check(all(abs(a/p-b/q) <= 1e-7*max(map(abs, final))/abs(q)
                    for a, b in zip(last, final)),
                'the same targets again change nothing')


def refused(r, m):
    m.event('refused')
    dim = r.choice([1, 2, 2, 3])
    names = r.sample(['x', 'y', 'px', 'py', 't', 'pz'], dim)
    w = MultipoleWeighting(2, names, numpy.eye(dim), [0.]*dim)
    indices = orders(dim, 1, 3)
    r.shuffle(indices)
    values = [r.uniform(.5, 2) for _ in indices]
    m.distinct(indices, values)
    m.note((names, indices))
    at = r.randrange(len(indices))
    kind = r.choice(['short', 'width', 'type', 'twice', 'high'])
    if kind == 'short':
        m.raises(ValueError, lambda: w.set_target_moments(
            indices, r.choice([values[1:], values+[1.]])), 'one value each')
    elif kind == 'width':
        indices[at] = r.choice([indices[at]+[0], indices[at][1:]])
        m.raises(ValueError, lambda: w.set_target_moments(indices, values),
                 'one power for each variable')
    elif kind == 'type':
        indices[at] = [float(indices[at][0])]+indices[at][1:]
        m.raises(ValueError, lambda: w.set_target_moments(indices, values),
                 'powers are integers')
    elif kind == 'twice':
        extra = list(r.choice(indices))
        indices.insert(r.randint(0, len(indices)), extra)
        m.raises(ValueError, lambda: w.set_target_moments(
            indices, values+[1.]), 'a moment is asked for once')
    else:
        m.event('too high')
        Bunch.clear_global_weights()
        bunch = Bunch.new_from_hits([Hit.new_from_dict(dict(
            [(v, r.gauss(0, 1)) for v in names], pid=-13, mass=105.,
            event_number=i)) for i in range(40)])
        high = r.choice(orders(dim, 3, 4))
        w.set_target_moments([high], [r.uniform(-1, 1)])
        before = [h['weight'] for h in bunch]
        m.raises(ValueError, lambda: w.apply_weights(bunch, False),
                 'a moment above the maximum pole')
        m.equal([h['weight'] for h in bunch], before,
                'refused weighting changes nothing')


SCENARIOS = [
    ('reach', reach, 900, 14000, {}),
    ('refused', refused, 300, 3000, {}),
]
