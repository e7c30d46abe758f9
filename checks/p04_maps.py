"""P04: translations and affine maps of hits and bunches."""
import copy
import math

import numpy

from xmon import gen
from xboa.hit import Hit

ID = 'P04'
RULE = ('hits and weighted bunches mapped by random translations and affine '
        'maps; non-trivial when the map is not the identity; distinct by the '
        'map and the data')
REQUIRED = {'hit translated': 500, 'hit mapped': 800, 'bunch mapped': 250,
            'bunch translated': 150, 'law of covariance': 250,
            'inverse restores': 150}
VARS = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'ez', 'sx',
        'path_length', 'proper_time', 'e_dep', 'charge', 'mass']
SHELL = ['', '', 'energy', 'p', 'px', 'py', 'pz']


def shell_model(state, var):
    """The state after mass_shell_condition, or None if near its edge"""
    s = dict(state)
    e2, m2 = s['energy']**2, s['mass']**2
    p2 = s['px']**2+s['py']**2+s['pz']**2
    if var == '':
        return s
    if var == 'energy':
        s['energy'] = math.sqrt(m2+p2)
        return s
    if var == 'p':
        val = e2-m2
        if val < 1e-3*e2 or p2 < 1e-9:
            return None
        f = math.sqrt(val/p2)
        for c in ('px', 'py', 'pz'):
            s[c] *= f
        return s
    val = e2-m2-(p2-s[var]**2)
    if val < 1e-3*e2:
        return None
    s[var] = math.sqrt(val)
    return s


def compare(m, got, want, site, before, touched, **kw):
    for key in got:
        if key in touched:
            scale = max(1., abs(want[key]))
            if key in ('px', 'py', 'pz'):
                scale = max(scale, abs(want['energy']))
            m.close(got[key], want[key], site, rel=1e-9, abs_=1e-8*scale,
                    key=key, **kw)
        else:
            m.check(got[key] == before[key], site+': other data untouched',
                    key=key, got=got[key], want=before[key], **kw)


def touched_by(shell):
    return {'': [], 'p': ['px', 'py', 'pz']}.get(shell, [shell])


def choose(r, n=None):
    n = n or r.randint(1, 6)
    return r.sample(VARS, n)


def matrix(r, n):
    kind = r.randrange(5)
    if kind == 0:
        a = numpy.identity(n)
        for i in range(n-1):
            a[i, i+1] = r.gauss(0, 1)
    elif kind == 1:
        a = numpy.array(gen.small_matrix(r, n))
    elif kind == 2:
        a = numpy.linalg.qr(numpy.array(gen.small_matrix(r, n)))[0]
    elif kind == 3:
        a = numpy.identity(n)[:, r.sample(range(n), n)]
    else:
        a = numpy.array(gen.small_matrix(r, n))+3*numpy.identity(n)
    return a


def as_arg(r, a):
    return r.choice([numpy.matrix(a), numpy.array(a), a.tolist()])


def some(r, keys, scale):
    keys = [k for k in keys if r.random() < 0.6]
    return {k: r.gauss(0, scale) for k in keys}


def hit_translate(r, m):
    d = gen.hit_dict(r)
    hit = Hit.new_from_dict(d)
    trans = {k: r.choice([0., r.gauss(0, 10), float(r.randint(-50, 50))])
             for k in choose(r)}
    ints = {}
    if r.random() < 0.3:
        k = r.choice(['station', 'event_number', 'status'])
        ints[k] = r.randint(-3, 3)
    shell = r.choice(SHELL)
    m.note((d, trans, ints, shell))
    arg = dict(trans)
    arg.update(ints)
    keep = dict(arg)
    ok, _ = m.quiet(lambda: hit.translate(arg, shell), 'translate works')
    if not ok:
        return
    m.check(arg == keep, 'arguments untouched')
    want = dict(d)
    for k in keep:
        want[k] = d[k]+keep[k]
    want = shell_model(want, shell)
    if want is None:
        return
    got = gen.state(hit)
    if shell == '':
        m.equal(got, want, 'translation adds the offsets')
    else:
        compare(m, got, want, 'translation', d,
                list(keep)+touched_by(shell), shell=shell)
    m.event('hit translated')
    m.distinct('t', trans, shell, d['x'])


def map_model(d, names, a, trans, origin, shell):
    v = numpy.array([d[k] for k in names])
    o = numpy.array([origin.get(k, 0.) for k in names])
    t = numpy.array([trans.get(k, 0.) for k in names])
    out = a.dot(v-o)+o+t
    want = dict(d)
    for k, val in zip(names, out):
        want[k] = float(val)
    return shell_model(want, shell)


def hit_map(r, m):
    d = gen.hit_dict(r)
    hit = Hit.new_from_dict(d)
    names = choose(r)
    a = matrix(r, len(names))
    trans, origin = some(r, names, 10.), some(r, names, 30.)
    shell = r.choice(SHELL)
    arg = as_arg(r, a)
    m.note((d, names, a.tolist(), trans, origin, shell, type(arg).__name__))
    keep = copy.deepcopy((names, arg, trans, origin))
    ok, ret = m.quiet(lambda: hit.abelian_transformation(
        names, arg, trans, origin, shell), 'map works')
    if not ok:
        return
    m.check(repr(keep) == repr((names, arg, trans, origin)),
            'arguments untouched')
    m.check(ret is hit, 'map returns the hit')
    want = map_model(d, names, a, trans, origin, shell)
    if want is None:
        return
    compare(m, gen.state(hit), want, 'affine map', d,
            names+touched_by(shell), shell=shell)
    m.event('hit mapped')
    m.distinct('m', names, a.tolist(), shell)
    vec = hit.get_vector(names, origin)
    m.close(numpy.array(vec).flatten(),
            [hit[k]-origin.get(k, 0.) for k in names], 'vector')
    m.check(numpy.shape(vec) == (1, len(names)), 'vector shape')


def stats(bunch, names):
    w = numpy.array([h['local_weight']*h['global_weight'] for h in bunch])
    v = numpy.array([[h[k] for k in names] for h in bunch])
    mean = (w[:, None]*v).sum(0)/w.sum()
    c = v-mean
    return mean, (w[:, None]*c).T.dot(c)/w.sum()


def bunch_map(r, m):
    n = r.randint(1, 12)
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']),
                         pid=r.choice(gen.CHARGED))
    ds[-1]['local_weight'] = ds[-1]['local_weight'] or 1.
    bunch = gen.make_bunch(ds)
    names = choose(r)
    a = matrix(r, len(names))
    trans, origin = some(r, names, 10.), some(r, names, 30.)
    full = r.random() < 0.6
    if full:
        for k in names:
            origin.setdefault(k, r.gauss(0, 10))
    else:
        origin = {}
    shell = r.choice(SHELL) if full else ''
    arg = as_arg(r, a)
    m.note((n, names, a.tolist(), trans, origin, shell, ds[0]))
    mean0, cov0 = stats(bunch, names)
    keep = copy.deepcopy((names, arg, trans, origin))
    hits = list(bunch)
    if full:
        call = lambda: bunch.abelian_transformation(
            names, arg, trans, origin, shell)
    else:
        call = lambda: bunch.abelian_transformation(names, arg, trans)
    ok, _ = m.quiet(call, 'bunch map works')
    if not ok:
        return
    m.check(repr(keep) == repr((names, arg, trans, origin)),
            'arguments untouched')
    m.check(len(bunch) == n and all(x is y for x, y in zip(hits, bunch)),
            'same hits in the same order')
    m.event('bunch mapped')
    m.distinct('b', names, a.tolist(), shell, n)
    if full:
        for h, d in zip(bunch, ds):
            want = map_model(d, names, a, trans, origin, shell)
            if want is None:
                continue
            compare(m, gen.state(h), want, 'bunch affine map', d,
                    names+touched_by(shell), shell=shell, n=n)
    else:
        for h, d in zip(bunch, ds):
            for k in gen.FLOATS+gen.INTS:
                if k not in names:
                    m.check(h[k] == d[k], 'bunch map: other data untouched',
                            key=k)
    if shell != '':
        return
    mean1, cov1 = stats(bunch, names)
    want = a.dot(cov0).dot(a.T)
    scale = max(1e-6, float(numpy.abs(a).max()**2*numpy.abs(cov0).max()))
    m.close(cov1, want, 'covariance law', rel=1e-7, abs_=1e-7*scale)
    got = numpy.array(bunch.covariance_matrix(names))
    m.close(got, want, 'bunch reports transformed covariance', rel=1e-7,
            abs_=1e-6*scale)
    m.event('law of covariance')
    if full:
        o = numpy.array([origin[k] for k in names])
        t = numpy.array([trans.get(k, 0.) for k in names])
        want = a.dot(mean0-o)+o+t
        mags = max(1., float(numpy.abs(want).max()),
                   float(numpy.abs(mean0).max()))
        m.close(mean1, want, 'mean law', rel=1e-8, abs_=1e-8*mags)
        got = bunch.mean(names)
        m.close([got[k] for k in names], want, 'bunch reports mapped mean',
                rel=1e-8, abs_=1e-8*mags)
        if abs(numpy.linalg.det(a)) > 1e-2 and numpy.linalg.cond(a) < 1e3:
            inv = numpy.linalg.inv(a)
            # v = inv (v' - o - t) + o
            back = -inv.dot(t)
            bunch.abelian_transformation(
                names, numpy.matrix(inv),
                dict(zip(names, [float(b) for b in back])), origin, '')
            for h, d in zip(bunch, ds):
                for k in names:
                    m.close(h[k], d[k], 'inverse map restores', rel=1e-6,
                            abs_=1e-6*mags, key=k)
            m.event('inverse restores')


def bunch_translate(r, m):
    n = r.randint(0, 12)
    ds = gen.bunch_dicts(r, n, weights=r.choice(['wild', 'zeros']))
    bunch = gen.make_bunch(ds)
    trans = {k: r.gauss(0, 10) for k in choose(r)}
    shell = r.choice(SHELL)
    m.note((n, trans, shell))
    keep = dict(trans)
    hits = list(bunch)
    if shell == '' and r.random() < 0.5:
        ok, _ = m.quiet(lambda: bunch.translate(trans), 'translate works')
    else:
        ok, _ = m.quiet(lambda: bunch.translate(trans, shell),
                        'translate works')
    if not ok:
        return
    m.check(trans == keep, 'arguments untouched')
    m.check(len(bunch) == n and all(x is y for x, y in zip(hits, bunch)),
            'same hits in the same order')
    for h, d in zip(bunch, ds):
        want = dict(d)
        for k in keep:
            want[k] += keep[k]
        want = shell_model(want, shell)
        if want is not None:
            compare(m, gen.state(h), want, 'bunch translation', d,
                    list(keep)+touched_by(shell), shell=shell)
    m.event('bunch translated')
    m.distinct('bt', n, trans, shell)
    if shell == '' and n:
        bunch.translate({k: -v for k, v in keep.items()}, '')
        for h, d in zip(bunch, ds):
            for k in keep:
                m.close(h[k], d[k], 'inverse translation restores',
                        abs_=1e-9*max(1, abs(d[k])))
        m.event('inverse restores')


def refused(r, m):
    d = gen.hit_dict(r)
    hit = Hit.new_from_dict(d)
    m.raises(Exception, lambda: hit.translate({'nonsense': 1.}, ''),
             'unknown variable refused')
    m.raises(Exception, lambda: hit.abelian_transformation(
        ['x', 'bogus'], numpy.identity(2)), 'unknown variable refused')
    m.check(gen.state(hit) == d, 'refused map changes nothing')


SCENARIOS = [
    ('hit_translate', hit_translate, 1200, 20000),
    ('hit_map', hit_map, 2000, 30000),
    ('bunch_map', bunch_map, 700, 12000),
    ('bunch_translate', bunch_translate, 400, 6000),
    ('refused', refused, 50, 500),
]
