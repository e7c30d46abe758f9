"""P22: ellipses, shells and grids made to order."""
import copy
import itertools
import math

import numpy

from xmon import gen
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit

ID = 'P22'
RULE = ('random optical functions (signs, ten decades, both conventions, both '
        'charges) built into ellipses and read back through the definitions, '
        'the queries on the matrix and the queries on bunches given exactly '
        'that covariance; shells and grids of every size and dimension on '
        'random, correlated and badly scaled ellipses; distinct by input')
REQUIRED = {'ellipse': 500, 'geometric': 200, 'normalised': 200, 'penn': 300,
            'read back from hits': 400, 'read back stored': 400,
            'refused': 150, 'grid': 60, 'shell point': 4800,
            'shell with mean': 80, 'hit shell': 100, 'shell hit': 2500,
            'odd shell': 60, 'even shell': 60, 'solenoid': 200}


def decade(r, lo, hi):
    return 10**r.uniform(lo, hi)


def exact_beam(r, cov, means, names, n, extra):
    """Hits whose covariance is exactly cov and whose means are exactly means"""
    dim = len(names)
    raw = numpy.array([[r.gauss(0, 1) for _ in range(dim)] for _ in range(n)])
    raw -= raw.mean(axis=0)
    have = raw.T.dot(raw)/n
    white = raw.dot(numpy.linalg.inv(numpy.linalg.cholesky(have)).T)
    pts = white.dot(numpy.linalg.cholesky(cov).T)
    out = []
    for row in pts:
        d = dict(extra)
        for name, v, mean in zip(names, row, means):
            d[name] = v+mean
        out.append(d)
    return out


def relation(m, cov, site, size):
    cov = numpy.array(cov)
    m.check(cov.shape == (size, size), site+': shape', shape=cov.shape)
    m.check(bool((abs(cov-cov.T) <= 1e-13*numpy.sqrt(numpy.outer(
        numpy.diag(cov), numpy.diag(cov)))).all()), site+': symmetric',
            matrix=cov.tolist())
    scale = numpy.sqrt(numpy.diag(cov))
    m.check(bool((numpy.diag(cov) > 0).all()), site+': positive diagonal')
    return cov/numpy.outer(scale, scale)


def ellipse_2d(r, m):
    geo = r.random() < .5
    m.event('ellipse')
    m.event('geometric' if geo else 'normalised')
    pid = r.choice([13, 11, 211, 2212])
    mass = gen.MASS[pid]
    p = decade(r, 0, 4)
    beta, emit = decade(r, -1, 4), decade(r, -3, 2)
    alpha = r.choice([0., r.gauss(0, 1), r.uniform(-20, 20)])
    cov = Bunch.build_ellipse_2d(beta, alpha, emit, p, mass, geo)
    inputs = (beta, alpha, emit, p, mass, geo)
    m.note(inputs)
    relation(m, cov, 'ellipse', 2)
    gamma = (1+alpha**2)/beta
    k = (1., 1., 1.) if geo else (mass/p, mass, mass*p)
    want = [[beta*emit*k[0], -alpha*emit*k[1]],
            [-alpha*emit*k[1], gamma*emit*k[2]]]
    m.close(cov, want, 'covariance from optical functions', rel=1e-12)
    m.close(numpy.linalg.det(numpy.array(cov)), (emit*(1. if geo else mass))**2,
            'area is the emittance', rel=1e-9*(1+alpha**2))
    m.distinct(inputs)
    # the queries give back what was asked for
    ax = r.choice(['x', 'y'])
    Bunch.set_geometric_momentum(False)
    where = {'pid': -pid, 'mass': mass, 'pz': p, 'event_number': 0}
    b = Bunch()
    b.append(Hit.new_from_dict(where, 'energy'))
    m.close(b.get_emittance([ax], cov, geo), emit, 'emittance of the matrix',
            rel=1e-9*(1+alpha**2))
    names = [ax, ax+"'"] if geo else [ax, 'p'+ax]
    if not geo or gamma*emit < .05:
        m.event('read back from hits')
        centre = [r.gauss(0, 10), 0.]
        rows = exact_beam(r, numpy.array(cov), centre, names,
                          r.randint(6, 20), where)
        beam = Bunch()
        for d in rows:
            mom = d.pop(names[1])
            d['p'+ax] = mom*p if geo else mom
            hit = Hit.new_from_dict(d, 'energy')
            beam.append(hit)
        p_mean = beam.mean(['p'])['p']
        tol = 1e-7*(1+alpha**2)
        factor = 1. if geo else p_mean/p
        m.close(beam.get_emittance([ax], None, geo), emit,
                'emittance of a beam', rel=tol)
        m.close(beam.get_beta([ax], geo), beta*factor, 'beta of a beam',
                rel=tol)
        m.close(beam.get_alpha([ax], geo), alpha, 'alpha of a beam', rel=tol,
                abs_=tol)
        m.close(beam.get_gamma([ax], geo), gamma/factor, 'gamma of a beam',
                rel=tol)
    # stored in a bunch as its covariance
    m.event('read back stored')
    Bunch.set_geometric_momentum(geo)
    axes = Bunch.get_axes()
    full = numpy.eye(2*len(axes))
    at = axes.index(ax)*2
    full[at:at+2, at:at+2] = cov
    order = Bunch.axis_list_to_covariance_list(axes)
    means = {v: 0. for v in order}
    b.set_covariance_matrix(True, numpy.matrix(full), means)
    m.close(b.get_emittance([ax]), emit, 'emittance of a stored ellipse',
            rel=1e-9*(1+alpha**2))
    m.close(b.get_beta([ax]), beta, 'beta of a stored ellipse',
            rel=1e-8*(1+alpha**2))
    m.close(b.get_alpha([ax]), alpha, 'alpha of a stored ellipse',
            rel=1e-8*(1+alpha**2), abs_=1e-9)
    Bunch.set_geometric_momentum(False)
    # nonsense is refused
    m.event('refused')
    bad = r.choice([(0., alpha, emit), (-beta, alpha, emit),
                    (beta, alpha, 0.), (beta, alpha, -emit)])
    m.raises(ValueError, lambda: Bunch.build_ellipse_2d(
        *bad, p, mass, geo), 'impossible optical functions refused', given=bad)


def penn(r, m):
    m.event('penn')
    pid = r.choice([13, 11, 211, 2212])
    mass = gen.MASS[pid]
    q = r.choice([1., -1.])
    p = decade(r, 1, 3.5)
    beta, emit = decade(r, .5, 3.5), decade(r, -2, 1.5)
    alpha = r.choice([0., r.gauss(0, 1), r.uniform(-8, 8)])
    ltw = r.choice([0., r.gauss(0, 1)])
    bz = r.choice([0., r.uniform(-5e-3, 5e-3)])
    inputs = (emit, mass, beta, alpha, p, ltw, bz, q)
    m.note(inputs)
    cov = Bunch.build_penn_ellipse(*inputs)
    relation(m, cov, 'solenoid ellipse', 4)
    m.distinct(inputs)
    kappa = gen.C_LIGHT*bz/2./p
    twist = beta*kappa-ltw
    gamma = (1+alpha**2+twist**2)/beta
    cond = 1e-8*(1+alpha**2+twist**2)**2
    a = numpy.array(cov)
    m.close(a[0, 0], emit*mass*beta/p, 'solenoid beta', rel=1e-12)
    m.close(a[0, 1], -emit*mass*alpha, 'solenoid alpha', rel=1e-12)
    m.close(a[1, 1], emit*mass*p*gamma, 'solenoid gamma', rel=1e-12)
    m.close([a[2, 2], a[2, 3], a[3, 3]], [a[0, 0], a[0, 1], a[1, 1]],
            'same in both planes', rel=1e-12)
    m.close([a[0, 2], a[1, 3]], [0., 0.], 'cylindrical symmetry')
    m.close([a[0, 3], a[1, 2]], [-emit*mass*twist*q, emit*mass*twist*q],
            'angular momentum', rel=1e-11, abs_=1e-14*emit*mass)
    m.close(abs(numpy.linalg.det(a))**.25/mass, emit,
            'four dimensional emittance', rel=cond)
    b = Bunch()
    b.append(Hit.new_from_dict({'pid': -pid, 'mass': mass, 'pz': p}, 'energy'))
    m.close(b.get_emittance(['x', 'y'], cov), emit, 'emittance of the matrix',
            rel=cond)
    if numpy.linalg.cond(a/numpy.sqrt(numpy.outer(numpy.diag(a),
                                                  numpy.diag(a)))) < 1e6:
        m.event('solenoid')
        rows = exact_beam(r, a, [0.]*4, ['x', 'px', 'y', 'py'],
                          r.randint(10, 25), {'pid': -pid, 'mass': mass,
                                              'pz': p, 'bz': bz})
        beam = Bunch()
        for d in rows:
            beam.append(Hit.new_from_dict(d, 'energy'))
        pm = beam.mean(['p'])['p']/p
        m.close(beam.get_emittance(['x', 'y']), emit, 'emittance of a beam',
                rel=1e3*cond)
        m.close(beam.get_beta(['x', 'y']), beta*pm, 'beta of a beam',
                rel=1e3*cond)
        m.close(beam.get_alpha(['x', 'y']), alpha, 'alpha of a beam',
                rel=1e3*cond, abs_=1e3*cond)
        m.close(beam.get_kinetic_angular_momentum(), -2*emit*mass*twist*q,
                'kinetic angular momentum', rel=1e-6, abs_=1e-8*emit*mass)
        if q > 0:
            m.close(beam.get_canonical_angular_momentum(),
                    2*emit*mass*ltw, 'canonical angular momentum', rel=1e-6,
                    abs_=1e-7*emit*mass*(1+abs(beta*kappa)))
    m.event('refused')
    bad = list(inputs)
    bad[r.choice([0, 1, 2])] *= r.choice([0., -1.])
    m.raises(ValueError, lambda: Bunch.build_penn_ellipse(*bad),
             'impossible optical functions refused', given=bad)


def flat(v):
    return numpy.array(v).flatten().tolist()


def grid(r, m):
    m.event('grid')
    dim, per = r.choice([(1, 2), (1, 7), (2, 2), (2, 3), (2, 6), (3, 2),
                         (3, 4), (4, 2), (4, 3), (5, 2), (1, 40), (2, 11)])
    got = Common.make_grid(dim, per)
    m.equal(len(got), per**dim, 'grid count', dim=dim, per=per)
    line = [2.*j/(per-1)-1. for j in range(per)]
    want = sorted(itertools.product(line, repeat=dim))
    rows = sorted(tuple(flat(v)) for v in got)
    m.close([list(x) for x in rows], [list(x) for x in want],
            'grid points on the lattice, each once', rel=1e-12)
    got[0][0, 0] = 99.
    m.check(all(99. not in flat(v) for v in got[1:]), 'points independent')
    m.distinct(dim, per)


def an_ellipse(r, dim):
    kind = r.choice(['eye', 'random', 'scaled'])
    if kind == 'eye':
        return numpy.eye(dim)
    cov = numpy.array(gen.posdef(r, dim))
    if kind == 'scaled':
        s = numpy.array([decade(r, -3, 3) for _ in range(dim)])
        cov = cov*numpy.outer(s, s)
    return cov


def shell_points(per, dim, cov):
    """The documented construction, independently"""
    inv = numpy.linalg.inv(cov)
    line = [2.*j/(per-1)-1. for j in range(per)]
    out = []
    for v in itertools.product(line, repeat=dim):
        v = numpy.array(v)
        if (abs(v) < 1e-9).all():
            continue
        out.append((v/math.sqrt(v.dot(inv).dot(v))).tolist())
    return out


def match(m, got, want, scale, site):
    """Same points, each as often, in any order"""
    def key(v):
        return tuple(round(x/s, 7)+0. for x, s in zip(v, scale))
    a, b = sorted(map(key, got)), sorted(map(key, want))
    if a == b:
        return m.check(True, site)
    left = [numpy.array(v)/scale for v in want]
    for v in got:
        near = [k for k, w in enumerate(left)
                if abs(numpy.array(v)/scale-w).max() < 1e-6]
        if not near:
            return m.fail(site, unexpected=list(v))
        left.pop(near[0])
    return m.equal(len(left), 0, site)


def shell(r, m):
    dim, per = r.choice([(1, 2), (1, 3), (1, 6), (2, 2), (2, 3), (2, 4),
                         (2, 7), (2, 10), (3, 2), (3, 3), (3, 5), (4, 2),
                         (4, 3), (5, 2), (6, 2)])
    m.event('odd shell' if per % 2 else 'even shell')
    cov = an_ellipse(r, dim)
    scale = numpy.sqrt(numpy.diag(cov))
    mean = None
    if r.random() < .5:
        mean = numpy.array([r.gauss(0, 1) for _ in range(dim)])*scale*3
        m.event('shell with mean')
    given = numpy.matrix(cov) if r.random() < .7 else numpy.array(cov)
    keep = copy.deepcopy(given)
    kept = copy.deepcopy(mean)
    got = Common.make_shell(per, given) if mean is None and r.random() < .5 \
        else Common.make_shell(per, given, mean)
    m.check(bool((given == keep).all()), 'ellipse not changed')
    if mean is not None:
        m.check(bool((mean == kept).all()), 'mean not changed')
    m.note((dim, per, cov.tolist(), None if mean is None else mean.tolist()))
    m.equal(len(got), per**dim-per % 2, 'shell count')
    inv = numpy.linalg.inv(cov)
    centre = numpy.zeros(dim) if mean is None else mean
    rows = []
    for v in got:
        m.event('shell point')
        u = numpy.array(flat(v))-centre
        rows.append(u.tolist())
        m.close(u.dot(inv).dot(u), 1., 'point on the ellipse', rel=1e-7)
    match(m, rows, shell_points(per, dim, cov), scale,
          'one point for each direction of the grid')
    m.distinct(dim, per, cov.tolist())
    v = numpy.matrix([[r.gauss(0, 1) for _ in range(dim)]])
    v_keep = v.copy()
    u = numpy.array(flat(Common.normalise_vector(v, numpy.matrix(inv))))
    m.close(u.dot(inv).dot(u), 1., 'normalised vector on the ellipse',
            rel=1e-8)
    m.check((u*v_keep.A1 >= -1e-12).all() and bool((v == v_keep).all()),
            'normalised vector keeps its direction, argument kept')


PLANES = {'x': ['x', 'px'], 'y': ['y', 'py'], 't': ['t', 'energy']}


def hit_shell(r, m):
    m.event('hit shell')
    Bunch.set_geometric_momentum(False)
    axes = r.choice([['x'], ['y'], ['x', 'y'], ['t'], ['x', 't']])
    per = r.choice([2, 3, 4, 5] if len(axes) == 1 else [2, 3])
    pid = r.choice([13, 211, 2212, 11])
    mass = gen.MASS[pid]
    pz = r.uniform(150., 400.)
    names = [v for a in axes for v in PLANES[a]]
    cov = numpy.array(gen.posdef(r, len(names)))
    s = numpy.array([r.uniform(.3, 3.) for _ in names])
    cov = cov*numpy.outer(s, s)/numpy.diag(cov).max()
    shell_var = 'pz' if 't' in axes else r.choice(['energy', 'energy', 'p'])
    ref = {'pid': -pid, 'mass': mass, 'pz': pz, 'station': r.randrange(9),
           'particle_number': r.randrange(5), 'charge': 1., 'bz': .003,
           'z': r.gauss(0, 1000), 'x': r.gauss(0, 20), 'px': r.gauss(0, 10),
           'y': r.choice([0., 5.])}
    ref['energy'] = math.sqrt(mass**2+pz**2+ref['px']**2+200.)
    keep, keep_cov = dict(ref), numpy.matrix(cov)
    given = keep_cov.copy()
    order = list(names)
    b = Bunch.new_hit_shell(per, given, order, shell_var, ref)
    m.note((per, cov.tolist(), names, shell_var, keep))
    m.check(ref == keep and order == names and bool((given == keep_cov).all()),
            'arguments not changed')
    m.equal(len(b), per**len(names)-per % 2, 'hit count')
    solved = {'pz': ['pz'], 'energy': ['energy'],
              'p': ['px', 'py', 'pz']}[shell_var]
    inv = numpy.linalg.inv(cov)
    rows = []
    for i, hit in enumerate(b):
        m.event('shell hit')
        m.equal(hit['event_number'], i, 'event numbers count from 0')
        m.close(hit['energy']**2, mass**2+sum(hit[v]**2 for v in (
            'px', 'py', 'pz')), 'mass shell', rel=1e-9)
        for v in keep:
            if v not in names and v not in solved:
                m.equal(hit[v], keep[v], 'reference data carried',
                        variable=v)
        if shell_var == 'p':
            continue
        u = numpy.array([hit[v]-keep.get(v, 0.) for v in names])
        rows.append(u.tolist())
        m.close(u.dot(inv).dot(u), 1., 'hit on the ellipse about the '
                'reference', rel=1e-6)
        mean = {v: keep.get(v, 0.) for v in names}
        m.close(Bunch.get_amplitude(b, hit, axes, numpy.matrix(cov), mean),
                b.get_emittance(axes, numpy.matrix(cov)),
                'amplitude is the emittance of the ellipse', rel=1e-6)
    if rows:
        match(m, rows, shell_points(per, len(names), cov),
              numpy.sqrt(numpy.diag(cov)), 'one hit for each direction')
    m.distinct(per, names, cov.tolist())


SCENARIOS = [('ellipse_2d', ellipse_2d, 800, 20000),
             ('penn', penn, 500, 12000),
             ('grid', grid, 90, 400),
             ('shell', shell, 220, 4000),
             ('hit_shell', hit_shell, 180, 3000)]


def teardown(mon):
    Bunch.set_geometric_momentum(False)
