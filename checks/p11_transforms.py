"""P11: transform_to and period_transformation."""
import math

import numpy

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit

ID = 'P11'
RULE = ('generated weighted beams, target covariances, origins and '
        'translations; folded variables near and thousands of periods from '
        'zero; distinct by target or by frequency and offset')
REQUIRED = {'transformed': 500, 'explicit origin': 150, 'translated': 150,
            'mass shell': 100, 'folded': 4000, 'folded again': 300,
            'far': 500}


def weights_of(b):
    return numpy.array([h['weight'] for h in b])


def cov_about(b, names, origin=None):
    ws = weights_of(b)
    v = numpy.array([[h[n] for n in names] for h in b])
    mean = (ws[:, None]*v).sum(0)/ws.sum()
    o = mean if origin is None else numpy.array(
        [origin.get(n, mu) for n, mu in zip(names, mean)])
    d = v-o
    return (ws[:, None]*d).T @ d/ws.sum(), v


def matching(r, m):
    n = r.randint(15, 40)
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']))
    b = gen.make_bunch(ds)
    if r.random() < .3:
        for h in b:
            h['global_weight'] = r.choice([1., .5, 2.])
    pool = ['x', 'px', 'y', 'py', 't', 'z', 'sx']
    names = r.sample(pool, r.randint(1, 5))
    target = gen.posdef(r, len(names), 10.**r.uniform(-1, 4))
    if r.random() < .5:
        target = numpy.matrix(target)
    elif r.random() < .3:
        target = target.tolist()
    keep = numpy.array(target)
    shift, origin, shell = {}, {}, ''
    if r.random() < .4:
        shift = {k: r.gauss(0, 50) for k in names if r.random() < .7}
    if r.random() < .4:
        origin = {k: r.gauss(0, 30) for k in names}
        m.event('explicit origin')
    if r.random() < .3 and 'energy' not in names:
        shell = 'energy'
    before, v0 = cov_about(b, names, origin or None)
    if numpy.linalg.cond(before) > 1e8:
        return
    others = [k for k in gen.FLOATS+gen.INTS if k not in names and k != shell]
    rest = [[h[k] for k in others] for h in b]
    hits = list(b)
    given = dict(shift), dict(origin)
    b.transform_to(list(names), target, shift, origin, shell)
    kw = dict(names=names, shift=shift, origin=origin)
    m.check((shift, origin) == given and
            bool((numpy.array(target) == keep).all()), 'arguments untouched')
    m.check(len(b) == n and all(a is c for a, c in zip(b, hits)),
            'hits and order kept')
    m.check(rest == [[h[k] for k in others] for h in b],
            'other variables and weights untouched', **kw)
    moved = {k: origin[k]+shift.get(k, 0.) for k in names} if origin else None
    after, v1 = cov_about(b, names, moved)
    d = numpy.sqrt(numpy.diag(keep))
    shape = keep/numpy.outer(d, d)
    ratio = numpy.linalg.det(before)/numpy.linalg.det(keep)
    factor = ratio**(1./len(names))
    err = abs(after/numpy.outer(d, d)/factor-shape).max()
    m.check(err < 1e-6, 'covariance is the target up to scale',
            error=err, after=after.tolist(), target=keep.tolist(), **kw)
    m.close(numpy.linalg.det(after/numpy.outer(d, d)) /
            numpy.linalg.det(before/numpy.outer(d, d)), 1.,
            'determinant one', rel=1e-6, **kw)
    # one linear map took every hit there
    a0 = numpy.hstack([v0, numpy.ones((n, 1))])
    coef, _, rank, _ = numpy.linalg.lstsq(a0, v1, rcond=None)
    if rank == len(names)+1:
        err = abs(a0 @ coef-v1).max()/(1.+abs(v1).max())
        m.check(err < 1e-7, 'every hit is mapped by one affine map', err=err)
        m.close(abs(numpy.linalg.det(coef[:-1])), 1., 'unit determinant map',
                rel=1e-5, **kw)
        o = [origin.get(k, 0.) for k in names]
        image = numpy.array(o+[1.]) @ coef
        want = numpy.array([a+shift.get(k, 0.) for a, k in zip(o, names)])
        if origin:
            m.check(abs(image-want).max() < 1e-6*(1.+abs(v1).max()),
                    'origin only translated', got=image.tolist(),
                    want=want.tolist(), **kw)
    if shell:
        m.check(all(abs(h['energy']**2-h['p']**2-h['mass']**2) <
                    1e-9*h['energy']**2 for h in b), 'on the mass shell')
        m.event('mass shell')
    if shift:
        m.event('translated')
    m.event('transformed')
    m.distinct(keep.tolist())


def folding(r, m):
    n = r.randint(1, 30)
    ds = gen.bunch_dicts(r, n, weights=r.choice(['wild', 'zeros']))
    var = r.choice(['t', 't', 'z', 'x', 'energy'])
    f = 10.**r.uniform(-3, 1)
    offset = r.choice([0., r.gauss(0, 3./f), r.gauss(0, 1e3)])
    for d in ds:
        k = r.choice([0, 0, 1, -1, r.randint(-20, 20),
                      r.randint(-5000, 5000)])
        if abs(k) > 100:
            m.event('far')
        d[var] = offset+(k+r.uniform(-.499, .499))/f
    if r.random() < .2:
        ds[0][var] = offset
    b = gen.make_bunch(ds)
    hits = list(b)
    before = [gen.state(h) for h in b]
    if var == 't' and r.random() < .5:
        b.period_transformation(offset, f)
    else:
        b.period_transformation(offset, f, var)
    m.check(len(b) == n and all(a is c for a, c in zip(b, hits)),
            'hits and order kept')
    for old, h in zip(before, b):
        new = gen.state(h)
        eps = 1e-12*(abs(old[var])+abs(offset)+1./f)
        got = new.pop(var)
        was = old.pop(var)
        m.check(new == old, 'other variables and weights untouched', var=var)
        m.check(abs(got) <= .5/f+eps, 'within one period', got=got, f=f)
        turns = (was-offset-got)*f
        m.check(abs(turns-round(turns)) <= 1e-12*(abs(turns)+1)+eps*f,
                'moved by whole periods', was=was, got=got, offset=offset,
                f=f, var=var)
        m.event('folded')
    mid = [h[var] for h in b]
    b.period_transformation(0., f, var)
    for a, h in zip(mid, b):
        if abs(abs(a)*f-.5) > 1e-6:
            m.check(h[var] == a, 'folding again changes nothing', a=a,
                    got=h[var])
    m.event('folded again')
    m.distinct(f, offset)


SCENARIOS = [('matching', matching, 700, 12000),
             ('folding', folding, 500, 8000)]
