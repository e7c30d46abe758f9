"""P08: moments against their defining sums."""
import itertools
import math

import numpy

from xmon import gen
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Bunchcore, Hitcore

ID = 'P08'
RULE = ('generated bunches with unit, random and zero weights, stored and '
        'derived variables, orders 1 to 5, complete, partial and absent means, beams far from the origin; '
        'non-trivial when more than one hit has weight; distinct by bunch')
REQUIRED = {'moment': 4000, 'partial mean': 900, 'derived variable': 1200,
            'covariance': 800, 'tensor': 250, 'no weight': 150,
            'native': 1500, 'permuted': 250, 'global weight': 200,
            'far beam': 8000, 'negative weight': 150, 'many hits': 6}
STORED = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'by', 'bz',
          'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time',
          'e_dep', 'charge', 'mass']
DERIVED = ['p', 'r', 'pt', "x'", "y'", 'r_squared', 'kinetic_energy', 'ct',
           'l_kin', 'spin', 'station', 'event_number', 'pid', 'weight']


def value(h, var):
    """The variable from stored data, independent of the hit's own getters"""
    if var in STORED or var in ('station', 'event_number', 'pid'):
        return float(h[var])
    x, y, px, py, pz = (h[k] for k in ('x', 'y', 'px', 'py', 'pz'))
    if var == 'p':
        return math.sqrt(px*px+py*py+pz*pz)
    if var == 'r':
        return math.hypot(x, y)
    if var == 'pt':
        return math.hypot(px, py)
    if var == "x'":
        return px/pz
    if var == "y'":
        return py/pz
    if var == 'r_squared':
        return x*x+y*y
    if var == 'kinetic_energy':
        return h['energy']-h['mass']
    if var == 'ct':
        return h['t']*gen.C_LIGHT
    if var == 'l_kin':
        return x*py-y*px
    if var == 'spin':
        return math.sqrt(h['sx']**2+h['sy']**2+h['sz']**2)
    if var == 'weight':
        return h['local_weight']*h['global_weight']
    raise KeyError(var)


def table(hits, names):
    ws = [h['local_weight']*h['global_weight'] for h in hits]
    return ws, {v: [value(h, v) for h in hits] for v in names}


def reference(ws, cols, names, means):
    """(moment, scale of the summed terms) about means, filled where absent"""
    t = math.fsum(ws)
    full = {}
    for v in set(names):
        full[v] = means[v] if v in means else \
            math.fsum(w*x for w, x in zip(ws, cols[v]))/t
    terms, scale = [], 0.
    for i, w in enumerate(ws):
        prod, size = w, abs(w)
        for v in names:
            prod *= cols[v][i]-full[v]
            size *= abs(cols[v][i])+abs(full[v])
        terms.append(prod)
        scale += size
    return math.fsum(terms)/t, scale/abs(t)


def near(m, got, want, scale, site, **kw):
    ok = isinstance(got, float) and abs(got-want) <= 3e-12*scale+1e-290
    return m.check(ok, site, got=got, want=want, scale=scale, **kw)


def draw(r, m, weights=None, n=None):
    n = n or r.choice([1, 2, 3, 5, 8, 20, 40])
    ds = gen.bunch_dicts(r, n, pid=r.choice([-13, 13, 2212, -11]),
                         weights=weights or r.choice(['unit', 'wild', 'zeros']))
    for d in ds:
        if r.random() < .3:
            d['spill'] = r.randint(0, 2)
    b = gen.make_bunch(ds)
    if r.random() < .3:
        for h in b:
            if r.random() < .4:
                h['global_weight'] = r.choice([0., .5, 2.])
        m.event('global weight')
    if r.random() < .3:    # hits may count against the others
        total = sum(h['local_weight']*h['global_weight'] for h in b)
        for h in r.sample(list(b), len(b)//3):
            w = h['local_weight']*h['global_weight']
            if 0. < w <= total/len(b):
                h['local_weight'] = -h['local_weight']
                m.event('negative weight')
    return b


def moments(r, m):
    b = draw(r, m)
    hits = list(b)
    ws = [h['local_weight']*h['global_weight'] for h in hits]
    if math.fsum(ws) < 1e-6:
        no_weight(r, m, b)
        return
    m.close(b.bunch_weight(), math.fsum(ws), 'bunch weight', rel=1e-13)
    m.close(b.get('bunch_weight', []), math.fsum(ws), 'bunch weight by get',
            rel=1e-13)
    names = r.sample(STORED, 4)+r.sample(DERIVED, 2)
    ws, cols = table(hits, names)
    if sum(1 for w in ws if w) > 1:
        m.distinct([cols[n] for n in names[:2]])
    for v in names:
        want, scale = reference(ws, cols, [v], {v: 0.})
        near(m, b.mean([v])[v], want, scale, 'mean', var=v)
        near(m, b.get('mean', [v]), want, scale, 'mean by get', var=v)
        if v in DERIVED:
            m.event('derived variable')
    got = b.mean(names)
    m.check(set(got) == set(names), 'mean of a list', got=sorted(got))
    for _ in range(6):
        order = r.choice([1, 2, 2, 2, 3, 4, 5])
        axes = [r.choice(names) for _ in range(order)]
        style = r.randrange(4)
        means = {}
        if style == 1:
            means = {v: r.gauss(0, 30) for v in axes}
        elif style == 2:
            means = {v: r.gauss(0, 30) for v in set(axes)
                     if r.random() < .5}
            m.event('partial mean')
        elif style == 3:
            means = {v: 0. for v in axes}
        keep = dict(means)
        want, scale = reference(ws, cols, axes, means)
        got = b.moment(list(axes), means)
        near(m, got, want, scale, 'moment', axes=axes, means=means)
        m.check(means == keep, 'mean dict untouched')
        m.event('moment')
        if any(v in DERIVED for v in axes):
            m.event('derived variable')
        if not means:
            near(m, b.get('moment', list(axes)), want, scale,
                 'moment by get', axes=axes)
    if min(ws) < 0.:
        covariances(r, m, b, ws, cols, names)
        return
    v = r.choice(names)
    want, scale = reference(ws, cols, [v, v], {})
    got = b.standard_deviation(v)
    m.check(abs(got**2-want) <= 1e-11*scale, 'standard deviation', got=got,
            want=want, var=v)
    about = r.gauss(0, 10)
    want, scale = reference(ws, cols, [v, v], {v: about})
    for arg in (about, {v: about}):
        got = b.standard_deviation(r.choice([v, [v]]), arg)
        m.check(abs(got**2-want) <= 1e-11*scale,
                'standard deviation about a mean', got=got, want=want, var=v)
    got = b.get('standard_deviation', [v])
    want, scale = reference(ws, cols, [v, v], {})
    m.check(abs(got**2-want) <= 1e-11*scale, 'standard deviation by get')
    covariances(r, m, b, ws, cols, names)
    if len(hits) > 1:
        invariances(r, m, hits, ws, cols, names)


def covariances(r, m, b, ws, cols, names):
    axes = r.sample(names, r.randint(1, len(names)))
    origin = {}
    if r.random() < .5:
        origin = {v: r.gauss(0, 20) for v in axes if r.random() < .6}
    keep = dict(origin)
    cov = numpy.array(b.covariance_matrix(list(axes), origin))
    m.check(origin == keep, 'origin dict untouched')
    m.check(cov.shape == (len(axes), len(axes)), 'shape of the covariance')
    scales = numpy.zeros(cov.shape)
    for i, j in itertools.product(range(len(axes)), repeat=2):
        want, scale = reference(ws, cols, [axes[i], axes[j]], origin)
        scales[i, j] = scale
        near(m, float(cov[i, j]), want, scale, 'covariance', pair=(axes[i], axes[j]),
             origin=origin)
    m.check(bool((cov == cov.T).all()), 'covariance symmetric')
    d = numpy.sqrt(numpy.maximum(numpy.diag(scales), 1e-300))
    low = numpy.linalg.eigvalsh(cov/numpy.outer(d, d)).min()
    m.check(low > -1e-9 or min(ws) < 0., 'covariance positive semi-definite', lowest=low)
    m.event('covariance')


def invariances(r, m, hits, ws, cols, names):
    order = list(range(len(hits)))
    r.shuffle(order)
    k = r.choice([.5, 3., 7.5])
    other = Bunch()
    for i in order:
        h = hits[i].deepcopy()
        h['local_weight'] = ws[i]*k
        h['spill'] = 77    # no global weights
        other.append(h)
    for _ in range(2):   # hits without weight are irrelevant
        h = hits[0].deepcopy()
        h['spill'] = 77
        for v in ('x', 'px', 'energy', 'pz', 'bz'):
            h[v] = r.gauss(0, 1e4)
        h['local_weight'] = 0.
        other.append(h)
    m.close(other.bunch_weight(), k*math.fsum(ws), 'weights scale',
            rel=1e-12)
    for _ in range(3):
        axes = [r.choice(names) for _ in range(r.choice([1, 2, 3]))]
        if 'weight' in axes:
            continue
        want, scale = reference(ws, cols, axes, {})
        if len(axes) == 1:
            want, scale = reference(ws, cols, axes, {axes[0]: 0.})
            got = other.mean(axes)[axes[0]]
        else:
            got = other.moment(axes)
        m.check(abs(got-want) <= 1e-11*scale+1e-290,
                'order, common weight and weightless hits do not matter',
                axes=axes, got=got, want=want)
    m.event('permuted')


def no_weight(r, m, b=None):
    b = b or draw(r, m, 'unit')
    for h in b:
        h['local_weight'] = 0.
    if r.random() < .3:
        b = Bunch()
    m.check(b.bunch_weight() == 0., 'bunch weight without weight')
    for fn in (lambda: b.moment(['x']), lambda: b.moment(['x', 'px']),
               lambda: b.mean(['x']), lambda: b.standard_deviation('x'),
               lambda: b.moment(['p', 'r'], {'p': 0., 'r': 0.}),
               lambda: b.moment(['x', 'px'], {'x': 1., 'px': r.gauss(0, 9)}),
               lambda: b.moment(['y'], {'y': 0.}),
               lambda: b.covariance_matrix(['x', 'px'])):
        m.raises(ZeroDivisionError, fn, 'no statistic without weight')
    m.event('no weight')


def many(r, m):
    """A beam of thousands of hits"""
    b = draw(r, m, n=r.choice([700, 1500, 3000]))
    names = r.sample(STORED, 3)
    ws, cols = table(list(b), names)
    m.close(b.bunch_weight(), math.fsum(ws), 'bunch weight', rel=1e-12)
    for v in names:
        want, scale = reference(ws, cols, [v], {v: 0.})
        near(m, b.mean([v])[v], want, scale, 'mean', var=v)
        axes = [v, r.choice(names)]
        want, scale = reference(ws, cols, axes, {})
        near(m, b.moment(axes), want, scale, 'moment', axes=axes)
    m.event('many hits')


def native(r, m):
    """The native container against the same definitions"""
    core, ws = Bunchcore(), []
    n = r.choice([1, 2, 3, 6, 15])
    names = r.sample(STORED, r.choice([3, 3, 4, 6]))
    cols = {v: [] for v in names}
    small = r.choice([1., 1., 1e-3, 1e-7])
    for i in range(n):
        h = Hitcore()
        for v in names:
            h.set(v, r.gauss(r.gauss(0, 5), 10))
            cols[v].append(h.get(v))
        w = small*r.choice([0., 1., 2., r.uniform(.1, 3)])
        h.set('local_weight', w)
        ws.append(w)
        core.set_item(h, i)
    if math.fsum(ws) == 0.:
        m.raises(Exception, lambda: core.moment(['x'], {}),
                 'native: no statistic without weight')
        m.raises(Exception, lambda: core.covariance_matrix(['x'], {}),
                 'native: no statistic without weight')
        m.raises(Exception, lambda: core.moment_tensor(['x'], 2),
                 'native: no statistic without weight')
        return
    for _ in range(4):
        axes = [r.choice(names) for _ in range(r.choice([1, 2, 3, 4]))]
        means = {v: r.gauss(0, 10) for v in names if r.random() < .5}
        want, scale = reference(ws, cols, axes, means)
        near(m, core.moment(axes, means), want, scale, 'native moment',
             axes=axes, means=means)
        m.event('native')
    means = {v: r.gauss(0, 10) for v in names if r.random() < .5}
    cov = core.covariance_matrix(names, means)
    for i, j in itertools.product(range(len(names)), repeat=2):
        want, scale = reference(ws, cols, [names[i], names[j]], means)
        near(m, cov[i][j], want, scale, 'native covariance', means=means)
    axes = names[:r.randint(1, len(names))]
    power = r.randint(1, 4 if len(axes) < 4 else 2)
    index = core.index_by_power(power, len(axes))
    tensor = core.moment_tensor(axes, power)
    want = [list(p) for p in itertools.product(range(power+1),
                                               repeat=len(axes))
            if sum(p) <= power]
    m.check(sorted(map(list, index)) == sorted(want),
            'powers: each combination once', got=index)
    m.check(len(tensor) == len(index), 'one moment per combination')
    for p, got in zip(index, tensor):
        seq = [v for v, k in zip(axes, p) for _ in range(k)]
        want, scale = reference(ws, cols, seq, {v: 0. for v in axes})
        near(m, got, want, scale, 'moment tensor', power=p)
    m.event('tensor')
    for fn in (lambda: core.moment(['nonsense'], {}),
               lambda: core.covariance_matrix(['x', 'p '], {}),
               lambda: core.moment_tensor(['nonsense'], 2),
               lambda: core.moment_tensor(['x'], -1)):
        m.raises(Exception, fn, 'native: unknown variable refused')


def far(r, m):
    """Beams narrow compared with their distance from the origin

    Moments about a mean have to come from the deviations: here products of
    the values themselves would drown the moment in rounding.
    """
    n = r.choice([2, 4, 10, 30])
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']))
    names = r.sample(['x', 'y', 'z', 't', 'px', 'pz', 'energy', 'bz', 'ex',
                      'path_length', 'proper_time', 'e_dep'], 3)
    if 'energy' not in names and 'px' not in names and 'pz' not in names:
        names.append(r.choice(['ct', 'p', 'r', 'pt']))
    for v in ('t', 'x', 'y', 'px', 'py', 'pz')+tuple(names):
        width = 10.**r.uniform(-3, 1)
        centre = r.choice([1, -1])*width*10.**r.uniform(3, 9)
        for d in ds:
            if v in d:
                d[v] = centre+r.gauss(0, width)
    if math.fsum(d['local_weight'] for d in ds) < 1e-3:
        ds[0]['local_weight'] = 1.
    b = gen.make_bunch(ds)
    hits = list(b)
    ws, cols = table(hits, names)
    eps = 2.3e-16
    core = None
    if names[-1] in STORED:
        core = Bunchcore()
        for i, h in enumerate(hits):
            c = Hitcore()
            for v in names+['local_weight']:
                c.set(v, h[v])
            c.set('spill', 999)
            core.set_item(c, i)

    def judge(got, axes, means, site):
        total = math.fsum(ws)
        full = {v: means[v] if v in means else
                math.fsum(w*x for w, x in zip(ws, cols[v]))/total
                for v in set(axes)}
        slip = {v: 4*(n+6)*eps*max(abs(x) for x in cols[v]+[full[v]])
                for v in full}
        want, tol = [], 0.
        for i, w in enumerate(ws):
            prod, size, worst = w, w, w
            for v in axes:
                d = cols[v][i]-full[v]
                prod, size = prod*d, size*abs(d)
                worst *= abs(d)+slip[v]
            want.append(prod)
            tol += (worst-size)+1e-12*size
        want = math.fsum(want)/total
        tol /= total
        m.check(abs(got-want) <= tol+1e-290, site, got=got, want=want,
                tol=tol, axes=axes, means=means)
        m.event('far beam')

    for _ in range(5):
        axes = [r.choice(names) for _ in range(r.choice([2, 2, 2, 3, 4]))]
        means = {}
        if r.random() < .4:
            v = r.choice(axes)
            means = {v: cols[v][0]+r.gauss(0, abs(cols[v][0]-cols[v][1]))}
        judge(b.moment(list(axes), dict(means)), axes, means, 'far moment')
        if core:
            judge(core.moment(list(axes), dict(means)), axes, means,
                  'far native moment')
    cov = numpy.array(b.covariance_matrix(list(names), {}))
    nat = core.covariance_matrix(list(names), {}) if core else None
    for i, j in itertools.product(range(len(names)), repeat=2):
        judge(cov[i, j], [names[i], names[j]], {}, 'far covariance')
        if core:
            judge(nat[i][j], [names[i], names[j]], {}, 'far native covariance')
    for v in names:
        judge(b.standard_deviation(v)**2, [v, v], {}, 'far deviation')


def empty(r, m):
    no_weight(r, m)
    m.raises(Exception, lambda: gen.make_bunch(
        gen.bunch_dicts(r, 3)).moment(['nonsense']), 'unknown refused')
    m.raises(Exception, lambda: gen.make_bunch(
        gen.bunch_dicts(r, 3)).mean(['x', 'nonsense']), 'unknown refused')


SCENARIOS = [('moments', moments, 900, 15000), ('native', native, 500, 8000),
             ('far beams', far, 400, 6000), ('empty', empty, 150, 1000),
             ('many', many, 8, 80)]
