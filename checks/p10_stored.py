"""P10: stored covariances and the geometric convention."""
import copy
import math

import numpy

from xmon import gen
from xboa.bunch import Bunch
from checks.p09_optics import AXES, cov_of, emittance, good, momentum, \
    names_of, value

ID = 'P10'
RULE = ('random histories of setting, replacing, clearing and querying stored '
        'covariances and means (own, or those of another beam, whole or in '
        'part), of changing hits in between and of changing the convention; '
        'non-trivial when a stored value is in force; distinct by history')
REQUIRED = {'query with stored values': 900, 'foreign covariance': 300,
            'stale after hits changed': 90, 'cleared': 120,
            'per-call convention': 800, 'foreign means': 120}


def all_names(geometric):
    return names_of(AXES, geometric)


def draw(r, n=None):
    ds = gen.bunch_dicts(r, n or r.randint(12, 24), pid=-13,
                         weights=r.choice(['unit', 'wild']),
                         pz=r.uniform(180, 300))
    k, s = r.gauss(0, .4), r.uniform(.3, 2)
    for d in ds:
        d['x'] = d['x']*s+k*d['px']+r.choice([0, 3.])
    return gen.make_bunch(ds)


def snapshot(b, geometric):
    mean, cov, _, _ = cov_of(list(b), all_names(geometric))
    return cov, dict(zip(all_names(geometric), mean))


def histories(r, m):
    b, other = draw(r), draw(r)
    Bunch.set_geometric_momentum(r.random() < .4)
    stored, ops = None, []    # stored: cov, means, convention, current
    for step in range(r.randint(5, 14)):
        op = r.choice(['store', 'store', 'foreign', 'foreign cov',
                       'foreign means', 'clear', 'convention', 'move',
                       'query', 'query', 'query', 'copy'])
        g = Bunch.get_geometric_momentum()
        names = all_names(g)
        if op == 'store':
            b.set_covariance_matrix(*r.choice([(), (True,)]))
            stored = snapshot(b, g)+(g, True)
        elif op == 'foreign':
            cov, means = snapshot(other, g)
            if r.random() < .5:
                cov = numpy.matrix(cov)
            keep, kept = copy.deepcopy(cov), dict(means)
            b.set_covariance_matrix(True, cov, means)
            m.check(bool((keep == cov).all()) and kept == means,
                    'given covariance and means untouched')
            stored = (numpy.array(keep), kept, g, False)
            m.event('foreign covariance')
        elif op == 'foreign cov':
            cov, _ = snapshot(other, g)
            b.set_covariance_matrix(True, numpy.matrix(cov))
            stored = (cov, snapshot(b, g)[1], g, False)
            m.event('foreign covariance')
        elif op == 'foreign means':
            _, means = snapshot(other, g)
            if r.random() < .5:      # only some of them
                means = {k: means[k] for k in means if r.random() < .7}
            if not means:
                continue
            b.set_covariance_matrix(True, mean_dict=dict(means))
            cov, own = snapshot(b, g)
            # variables left out of the means are taken from the hits
            own.update(means)
            stored = (cov, own, g, False)
            m.event('foreign means')
        elif op == 'clear':
            b.set_covariance_matrix(False)
            stored = None
            m.event('cleared')
        elif op == 'convention':
            Bunch.set_geometric_momentum(not g)
        elif op == 'move':
            b.translate({'x': r.gauss(0, 20), 'px': r.gauss(0, 5)})
            k = r.gauss(0, .5)
            b.abelian_transformation(['x', 'px'], [[1, k], [0, 1]])
            if stored is not None:
                m.event('stale after hits changed')
                if 'foreign means' in ops:
                    # means left out are taken from the moved hits: refresh
                    b.set_covariance_matrix(False)
                    stored = None
                else:
                    stored = stored[:3]+(False,)
        elif op == 'copy':
            c = b.deepcopy()
            judge(r, m, c, stored, ops)
            c.set_covariance_matrix(False)   # must not reach the original
        ops.append(op)
        m.note(ops)
        m.check(b.covariances_set() == (stored is not None),
                'covariances_set', op=op)
        m.check(b.means_set() == (stored is not None), 'means_set', op=op)
        judge(r, m, b, stored, ops)
    m.distinct(ops)
    m.sample(ops)


def judge(r, m, b, stored, ops):
    g = Bunch.get_geometric_momentum()
    ask = r.choice([None, None, True, False])
    use = g if ask is None else ask
    hits, mass = list(b), b[0]['mass']
    if stored is not None and stored[2] == use:
        cov_all, means = stored[0], stored[1]
        m.event('query with stored values')
    elif stored is None or stored[3]:
        cov_all, means = snapshot(b, use)
    else:
        return      # stored for the other convention: not specified
    args = () if ask is None else (ask,)
    names = all_names(use)
    axes = r.sample(['x', 'y', r.choice(['t', 'ct', 'z'])], r.randint(1, 3))
    pick = [names.index(n) for a in axes for n in (a, momentum(a, use))]
    # energy appears twice in the list: both columns are equal
    cov = cov_all[numpy.ix_(pick, pick)]
    if not good(cov):
        return
    n = len(axes)
    e = emittance(cov, use, mass)
    kw = dict(axes=axes, ask=ask, convention=g)
    m.close(b.get_emittance(list(axes), None, *args), e, 'emittance',
            rel=1e-6, **kw)
    if args:
        m.event('per-call convention')
    m.check(Bunch.get_geometric_momentum() is g,
            'a per-call convention does not outlive the call', **kw)
    qq = sum(cov[2*i, 2*i] for i in range(n))
    pp = sum(cov[2*i+1, 2*i+1] for i in range(n))
    qp = sum(cov[2*i, 2*i+1] for i in range(n))
    ws = [h['weight'] for h in hits]
    p = math.fsum(w*h['p'] for w, h in zip(ws, hits))/math.fsum(ws)
    want = (qq/e/n, -qp/e/n, pp/e/n) if use else \
        (qq*p/(e*mass*n), -qp/(e*mass*n), pp/(p*e*mass*n))
    size = abs(want[0]*want[2])**.5
    for name, fn, w in zip(('beta', 'alpha', 'gamma'),
                           (b.get_beta, b.get_alpha, b.get_gamma), want):
        m.close(fn(list(axes), *args), w, name, rel=1e-6, abs_=1e-8*size,
                **kw)
    h = r.choice(hits)
    v = numpy.array([value(h, k)-means[k] for k in names_of(axes, use)])
    w = e*float(v @ numpy.linalg.inv(cov) @ v)
    got = Bunch.get_amplitude(b, h, list(axes), None, {}, *args)
    m.close(got, w, 'amplitude', rel=1e-5, abs_=1e-7*e, **kw)
    if use == g:
        name = 'amplitude '+' '.join(axes)
        m.close(b.get_hit_variable(h, name), w, 'amplitude of a hit',
                rel=1e-5, abs_=1e-7*e, **kw)
        listed = b.list_get_hit_variable([name])[0]
        m.close(listed[[o is h for o in hits].index(True)], w,
                'listed amplitude', rel=1e-5, abs_=1e-7*e, **kw)
    axis = axes[0]
    i, j, k = (names.index(axis), names.index(momentum(axis, use)),
               names.index('energy') if 'energy' in names else None)
    if k is not None and axis in ('x', 'y'):
        me = means['energy']
        m.close(b.get_dispersion(axis), cov_all[i, k]*me/cov_all[k, k],
                'dispersion', rel=1e-6, abs_=1e-5, **kw)
        m.close(b.get_dispersion_prime(axis, *args),
                cov_all[j, k]*me/cov_all[k, k], 'dispersion prime',
                rel=1e-6, abs_=1e-5, **kw)
    if use == g:
        a, c = r.choice(names), r.choice(names)
        scale = math.sqrt(cov_all[names.index(a), names.index(a)] *
                          cov_all[names.index(c), names.index(c)]) + \
            1e-6*abs(means[a]*means[c])    # a constant variable, z'
        m.close(b.moment([a, c]), cov_all[names.index(a), names.index(c)],
                'moment', rel=1e-7, abs_=1e-9*scale, pair=(a, c), **kw)
        about = {a: means[a]+r.gauss(0, 3)}
        if a != c:
            about[c] = means[c]+r.gauss(0, 3)
        shift = (means[a]-about[a])*(means[c]-about[c])
        m.close(b.moment([a, c], dict(about)),
                cov_all[names.index(a), names.index(c)]+shift,
                'moment about given means', rel=1e-7,
                abs_=1e-8*(scale+abs(shift)), pair=(a, c), **kw)
        m.close(b.mean([a])[a], means[a], 'mean', rel=1e-9, abs_=1e-9,
                var=a, **kw)
        got = numpy.array(b.covariance_matrix(names_of(axes, use)))
        d = numpy.sqrt(numpy.diag(cov))
        m.check(bool((abs(got-cov) <= 1e-7*numpy.outer(d, d)).all()),
                'covariance matrix', got=got.tolist(), want=cov.tolist(), **kw)


def conventions(r, m):
    """Per-call choice against global choice, with nothing stored"""
    b = draw(r)
    start = r.random() < .5
    axes = r.sample(['x', 'y', 't'], r.randint(1, 3))
    h = r.choice(list(b))
    calls = {
        'emittance': lambda *g: b.get_emittance(list(axes), None, *g),
        'beta': lambda *g: b.get_beta(list(axes), *g),
        'alpha': lambda *g: b.get_alpha(list(axes), *g),
        'gamma': lambda *g: b.get_gamma(list(axes), *g),
        'dispersion prime': lambda *g: b.get_dispersion_prime('x', *g),
        'covariance list': lambda *g:
            Bunch.axis_list_to_covariance_list(list(axes), *g),
        'amplitude': lambda *g:
            Bunch.get_amplitude(b, h, list(axes), None, {}, *g)}
    for name, fn in calls.items():
        for choice in (True, False):
            Bunch.set_geometric_momentum(choice)
            want = fn()
            for other in (True, False):
                Bunch.set_geometric_momentum(other)
                m.close(fn(choice), want, 'per-call = global convention',
                        rel=1e-9, what=name, choice=choice) \
                    if name != 'covariance list' else \
                    m.equal(fn(choice), want, 'covariance list')
                m.check(Bunch.get_geometric_momentum() is other,
                        'a per-call convention does not outlive the call',
                        what=name)
                m.event('per-call convention')
    Bunch.set_geometric_momentum(start)
    for bad in ('nonsense',):
        m.raises((IndexError, KeyError),
                 lambda: b.get_emittance([bad], None, not start), 'refused')
        m.check(Bunch.get_geometric_momentum() is start,
                'a failed call leaves the convention')


def separate(r, m):
    """Storing on one bunch says nothing about another"""
    a, b = draw(r), draw(r)
    Bunch.set_geometric_momentum(False)
    want = b.get_emittance(['x', 'y'])
    a.set_covariance_matrix()
    c = Bunch.new_from_hits(list(b))
    d = Bunch()
    for x in (b, c, d):
        m.check(not x.covariances_set() and not x.means_set(),
                'other bunches store nothing')
    m.close(b.get_emittance(['x', 'y']), want, 'other bunch unaffected')
    m.close(c.get_emittance(['x', 'y']), want, 'other bunch unaffected')
    a.translate({'x': 50.})
    m.close(c.mean(['x'])['x'], b.mean(['x'])['x'], 'other bunch unaffected')


SCENARIOS = [('histories', histories, 350, 6000),
             ('conventions', conventions, 60, 1000),
             ('separate', separate, 60, 600)]
