"""P09: emittance and Twiss quantities against independent covariances."""
import math

import numpy

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit

ID = 'P09'
RULE = ('generated weighted beams in one to three planes, both momentum '
        'conventions, linear maps of them and matched beams; non-trivial when '
        'the covariance is not degenerate; distinct by beam')
REQUIRED = {'emittance': 900, 'twiss': 900, 'amplitude': 300,
            'average amplitude': 300, 'dispersion': 300,
            'angular momentum': 300, 'mapped': 300, 'matched': 300,
            'geometric': 150}
AXES = ['x', 'y', 'z', 't', 'ct']


def momentum(axis, geometric):
    if geometric:
        return axis+"'"
    return 'energy' if axis in ('t', 'ct') else 'p'+axis


def value(h, var):
    if var == 'ct':
        return h['t']*gen.C_LIGHT
    if var in ("x'", "y'"):
        return h['p'+var[0]]/h['pz']
    return h[var]


def cov_of(hits, names):
    ws = numpy.array([h['local_weight']*h['global_weight'] for h in hits])
    v = numpy.array([[value(h, n) for n in names] for h in hits])
    mean = (ws[:, None]*v).sum(0)/ws.sum()
    d = v-mean
    return mean, (ws[:, None]*d).T @ d/ws.sum(), d, ws


def names_of(axes, geometric):
    return [n for a in axes for n in (a, momentum(a, geometric))]


def good(cov):
    d = numpy.sqrt(numpy.diag(cov))
    if not (d > 1e-12).all():
        return False
    return numpy.linalg.cond(cov/numpy.outer(d, d)) < 1e6


def pick_axes(r):
    """Planes with independent momenta"""
    pool = ['x', 'y', r.choice(['t', 'ct', 'z'])]
    k = r.randint(1, 3)
    return r.sample(pool, k)


def given_cov(r, n, scale):
    """A covariance; half of them of weakly coupled planes"""
    if n == 2 or r.random() < .5:
        return gen.posdef(r, n, scale)
    m = numpy.zeros((n, n))
    for i in range(0, n, 2):
        m[i:i+2, i:i+2] = gen.posdef(r, 2, scale)
    d = numpy.sqrt(numpy.diag(m))
    eps = r.choice([1e-3, 5e-3, .02, .05, .1])
    for i in range(n):
        for j in range(i//2*2):
            m[i, j] = m[j, i] = r.uniform(-eps, eps)*d[i]*d[j]
    if not (numpy.linalg.eigvalsh(m/numpy.outer(d, d)) > 1e-3).all():
        return gen.posdef(r, n, scale)
    return m


def draw(r):
    n = r.randint(12, 40)
    ds = gen.bunch_dicts(r, n, pid=r.choice([-13, 13, 2212, 11, 211]),
                         weights=r.choice(['unit', 'wild', 'zeros']),
                         pz=r.uniform(150, 400))
    sx, k = r.uniform(.2, 3), r.gauss(0, .5)
    for d in ds:
        d['x'] = d['x']*sx+k*d['px']+5.
        d['y'] += r.choice([0, .3])*d['x']
        d['bz'] = 4e-3
    b = gen.make_bunch(ds)
    if r.random() < .3:
        for h in b:
            h['global_weight'] = r.choice([1., 1., .5, 2., 0.])
    return b


def emittance(cov, geometric, mass):
    n = cov.shape[0]//2
    e = numpy.linalg.det(cov)**(1./(2*n))
    return e if geometric else e/mass


def optics(r, m):
    b = draw(r)
    hits, mass = list(b), b[0]['mass']
    if sum(1 for h in hits if h['weight'] > 0) < 8:
        return
    geometric = r.random() < .5
    m.event('geometric' if geometric else 'normalised')
    Bunch.set_geometric_momentum(geometric)
    for _ in range(3):
        axes = pick_axes(r)
        names = names_of(axes, geometric)
        mean, cov, d, ws = cov_of(hits, names)
        if not good(cov):
            continue
        m.distinct(cov.tolist())
        n = len(axes)
        e = emittance(cov, geometric, mass)
        kw = dict(axes=axes, geometric=geometric)
        m.close(b.get_emittance(list(axes)), e, 'emittance', rel=1e-7, **kw)
        m.close(b.get('emittance', list(axes)), e, 'emittance by get',
                rel=1e-7, **kw)
        given = numpy.matrix(given_cov(r, 2*n, 10.))
        keep = given.copy()
        m.close(b.get_emittance(list(axes), given),
                emittance(numpy.array(given), geometric, mass),
                'emittance of a given covariance', rel=1e-7, **kw)
        m.check(bool((given == keep).all()), 'given covariance untouched')
        m.event('emittance')
        qq = sum(cov[2*i, 2*i] for i in range(n))
        pp = sum(cov[2*i+1, 2*i+1] for i in range(n))
        qp = sum(cov[2*i, 2*i+1] for i in range(n))
        p = math.fsum(w*math.sqrt(h['px']**2+h['py']**2+h['pz']**2)
                      for w, h in zip(ws, hits))/math.fsum(ws)
        if geometric:
            want = qq/e/n, -qp/e/n, pp/e/n
        else:
            want = qq*p/(e*mass*n), -qp/(e*mass*n), pp/(p*e*mass*n)
        got = (b.get_beta(list(axes)), b.get_alpha(list(axes)),
               b.get_gamma(list(axes)))
        size = abs(want[0]*want[2])**.5
        m.close(got[0], want[0], 'beta', rel=1e-7, **kw)
        m.close(got[1], want[1], 'alpha', rel=1e-7, abs_=1e-9*size, **kw)
        m.close(got[2], want[2], 'gamma', rel=1e-7, **kw)
        for name, w in zip(('beta', 'alpha', 'gamma'), want):
            m.close(b.get(name, list(axes)), w, name+' by get', rel=1e-7,
                    abs_=1e-9*size, **kw)
        if n == 1:
            m.close(got[0]*got[2]-got[1]**2, 1., 'beta gamma - alpha^2 = 1',
                    rel=1e-6*max(1., got[0]*got[2]), **kw)
        m.event('twiss')
        amplitudes(r, m, b, hits, axes, cov, d, ws, e, geometric, mass)
    others(r, m, b, hits, geometric)
    linear_maps(r, m, hits, geometric, mass)


def amplitudes(r, m, b, hits, axes, cov, d, ws, e, geometric, mass):
    inv = numpy.linalg.inv(cov)
    want = [e*float(v @ inv @ v) for v in d]
    kw = dict(axes=axes, geometric=geometric)
    name = 'amplitude '+' '.join(axes)
    tol = 1e-6*max(want)
    got = b.list_get_hit_variable([name])[0]
    m.close(got, want, 'listed amplitudes', rel=1e-6, abs_=tol, **kw)
    for i in r.sample(range(len(hits)), 2):
        for a in (Bunch.get_amplitude(b, hits[i], list(axes)),
                  b.get_hit_variable(hits[i], name)):
            m.close(a, want[i], 'amplitude', rel=1e-6, abs_=tol, **kw)
        given = given_cov(r, len(cov), 50.)
        means = {k: r.gauss(0, 5) for k in names_of(axes, geometric)}
        v = numpy.array([value(hits[i], k)-means[k]
                         for k in names_of(axes, geometric)])
        a = Bunch.get_amplitude(b, hits[i], list(axes), numpy.matrix(given),
                                dict(means))
        w = emittance(given, geometric, mass)*float(
            v @ numpy.linalg.inv(given) @ v)
        m.close(a, w, 'amplitude with given covariance and means', rel=1e-6,
                **kw)
        m.event('amplitude')
    average = math.fsum(w*a for w, a in zip(ws, got))/math.fsum(ws)
    m.close(average, 2*len(axes)*e, 'average amplitude', rel=1e-6, **kw)
    m.event('average amplitude')


def others(r, m, b, hits, geometric):
    axis = r.choice(['x', 'y', 't'])
    pvar = momentum(axis, geometric)
    if pvar != 'energy':
        mean, cov, _, _ = cov_of(hits, [axis, pvar, 'energy'])
        size = math.sqrt(cov[0, 0]/cov[2, 2])*mean[2]
        m.close(b.get_dispersion(axis), cov[0, 2]*mean[2]/cov[2, 2],
                'dispersion', rel=1e-7, abs_=1e-9*size)
        m.close(b.get('dispersion', [axis]), cov[0, 2]*mean[2]/cov[2, 2],
                'dispersion by get', rel=1e-7, abs_=1e-9*size)
        size = math.sqrt(cov[1, 1]/cov[2, 2])*mean[2]
        m.close(b.get_dispersion_prime(axis), cov[1, 2]*mean[2]/cov[2, 2],
                'dispersion prime', rel=1e-7, abs_=1e-9*size)
        m.close(b.get('dispersion_prime', [axis]),
                cov[1, 2]*mean[2]/cov[2, 2], 'dispersion prime by get',
                rel=1e-7, abs_=1e-9*size)
        m.event('dispersion')
    ws = [h['local_weight']*h['global_weight'] for h in hits]
    t = math.fsum(ws)

    def mom(f):
        return math.fsum(w*f(h) for w, h in zip(ws, hits))/t
    for centre in (None, {k: r.gauss(0, 10) for k in
                          ('x', 'y', 'px', 'py', "x'", "y'")}):
        c = centre or dict.fromkeys(('x', 'y', 'px', 'py', "x'", "y'"), 0.)
        if geometric:
            kin = (mom(lambda h: (h['x']-c['x'])*(h['py']/h['pz']-c["y'"])) -
                   mom(lambda h: (h['y']-c['y'])*(h['px']/h['pz']-c["x'"])))
            kin *= mom(lambda h: h['pz'])
        else:
            kin = (mom(lambda h: (h['x']-c['x'])*(h['py']-c['py'])) -
                   mom(lambda h: (h['y']-c['y'])*(h['px']-c['px'])))
        args = (dict(centre),) if centre else ()
        m.close(b.get_kinetic_angular_momentum(*args), kin,
                'kinetic angular momentum', rel=1e-8, abs_=1e-4)
        bz = r.gauss(0, 4e-3)
        fld = {'x': r.gauss(0, 5), 'y': r.gauss(0, 5)}
        r2 = mom(lambda h: (h['x']-fld['x'])**2+(h['y']-fld['y'])**2)
        rot = dict(c)
        m.close(b.get_canonical_angular_momentum(bz, dict(fld), rot),
                kin+gen.C_LIGHT*bz*r2/2., 'canonical angular momentum',
                rel=1e-8, abs_=1e-4)
        if not centre:
            m.close(b.get('angular_momentum', ['x']), kin,
                    'angular momentum by get', rel=1e-8, abs_=1e-4)
            if not geometric:
                r2 = mom(lambda h: h['x']**2+h['y']**2)
                m.close(b.get_canonical_angular_momentum(),
                        kin+gen.C_LIGHT*hits[0]['bz']*r2/2.,
                        'canonical angular momentum with the beam field',
                        rel=1e-8, abs_=1e-4)
    m.event('angular momentum')


def linear_maps(r, m, hits, geometric, mass):
    """Emittance under drifts, rotations, scaling and reordering"""
    Bunch.set_geometric_momentum(False)
    b = Bunch.new_from_hits(hits)
    for h, o in zip(b, hits):
        h['global_weight'] = o['global_weight']
    _, cov, _, _ = cov_of(hits, ['x', 'px', 'y', 'py'])
    if not good(cov):
        return
    e1, e2 = b.get_emittance(['x']), b.get_emittance(['x', 'y'])
    m.close(b.get_emittance(['y', 'x']), e2, 'order of axes', rel=1e-7)
    kind = r.randrange(4)
    if kind == 0:
        k = r.gauss(0, 1)
        b.abelian_transformation(['x', 'px'], [[1, k], [0, 1]])
        f1 = f2 = 1.
    elif kind == 1:
        a = r.uniform(0, 2*math.pi)
        c, s = math.cos(a), math.sin(a)
        b.abelian_transformation(['x', 'y', 'px', 'py'],
                                 [[c, s, 0, 0], [-s, c, 0, 0],
                                  [0, 0, c, s], [0, 0, -s, c]])
        f1, f2 = None, 1.
    elif kind == 2:
        u, v = r.uniform(.3, 3), r.uniform(.3, 3)
        b.abelian_transformation(['x', 'px'], [[u, 0], [0, v]])
        f1, f2 = u*v, (u*v)**.5
    else:
        b.translate({'x': r.gauss(0, 100), 'py': r.gauss(0, 10)})
        f1 = f2 = 1.
    if f1:
        m.close(b.get_emittance(['x']), e1*f1, 'emittance of a mapped beam',
                rel=1e-6, kind=kind)
    m.close(b.get_emittance(['x', 'y']), e2*f2,
            'emittance of a mapped beam', rel=1e-6, kind=kind)
    m.event('mapped')


def matched(r, m):
    geometric = r.random() < .5
    Bunch.set_geometric_momentum(geometric)
    n = r.randint(10, 30)
    mass, pz = gen.MASS[13], r.uniform(180, 300)
    beta, alpha = 10**r.uniform(1.5, 4), r.gauss(0, 1.5)
    e = 10**r.uniform(-2, .5) if geometric else 10**r.uniform(-1, 1)
    ell = numpy.array(Bunch.build_ellipse_2d(beta, alpha, e, pz, mass,
                                             geometric))
    pts = numpy.array([[r.gauss(0, 1), r.gauss(0, 1)] for _ in range(n)])
    ws = numpy.array([r.choice([1., .5, 2.]) for _ in range(n)])
    mean = (ws[:, None]*pts).sum(0)/ws.sum()
    d = pts-mean
    cov = (ws[:, None]*d).T @ d/ws.sum()
    white = d @ numpy.linalg.inv(numpy.linalg.cholesky(cov)).T
    pts = white @ numpy.linalg.cholesky(ell).T
    b = Bunch()
    axis = r.choice(['x', 'y'])
    off = r.gauss(0, 10)
    for (q, p), w in zip(pts, ws):
        d = {'pid': -13, 'mass': mass, 'pz': pz, axis: q+off,
             'p'+axis: p*pz if geometric else p, 'local_weight': w}
        b.append(Hit.new_from_dict(d, 'energy'))
    pm = b.mean(['p'])['p']
    kw = dict(geometric=geometric, beta=beta, alpha=alpha, e=e)
    m.close(b.get_emittance([axis]), e, 'matched emittance', rel=1e-6, **kw)
    m.close(b.get_alpha([axis]), alpha, 'matched alpha', rel=1e-6,
            abs_=1e-6, **kw)
    gamma = (1+alpha**2)/beta
    if geometric:
        pm = pz
    m.close(b.get_beta([axis]), beta*pm/pz, 'matched beta', rel=1e-6, **kw)
    m.close(b.get_gamma([axis]), gamma*pz/pm, 'matched gamma', rel=1e-6, **kw)
    m.event('matched')
    m.distinct(beta, alpha, e)


def refused(r, m):
    b = gen.make_bunch(gen.bunch_dicts(r, 10))
    for axis in ('px', 'energy', 'nonsense', ''):
        for fn in (lambda: b.get_emittance([axis]),
                   lambda: b.get_beta(['x', axis]),
                   lambda: b.get_dispersion_prime(axis),
                   lambda: b.get_hit_variable(b[0], 'amplitude '+axis)):
            m.raises((IndexError, KeyError), fn, 'not an axis', axis=axis)
    m.raises(KeyError, lambda: b.get('nonsense', ['x']), 'unknown refused')


SCENARIOS = [('optics', optics, 500, 8000), ('matched', matched, 400, 6000),
             ('refused', refused, 20, 100)]
