"""P03: copies, printed forms, pickles and equality of hits and bunches."""
import copy
import pickle

from xmon import gen
from xboa.hit import Hit
from xboa.bunch import Bunch
import numpy

ID = 'P03'
RULE = ('hits and bunches with wild data, copied by every mechanism, then one '
        'side mutated; non-trivial when the mutated value differs; distinct '
        'by mechanism, data and mutation')
REQUIRED = {'copy compared': 1500, 'mutation isolated': 1500,
            'difference detected': 1500, 'bunch copied': 300,
            'shallow shared': 100, 'equal within a tolerance': 500}
ALL = gen.FLOATS+gen.INTS


def wild(r):
    d = {k: gen.any_float(r) for k in gen.FLOATS}
    d.update({k: gen.any_int(r) for k in gen.INTS})
    return d


def via_repr(hit):
    return eval(repr(hit), {'Hit': Hit, 'Bunch': Bunch, 'numpy': numpy})


def reuse_state(hit):
    other = Hit.new_from_dict({'x': 1.5, 'pid': 211, 'global_weight': 1.})
    other.__setstate__(hit.__getstate__())
    return other


COPIES = [('deepcopy', lambda h: h.deepcopy()),
          ('copy.deepcopy', copy.deepcopy),
          ('dict', lambda h: Hit.new_from_dict(h.dict_from_hit())),
          ('repr', via_repr),
          ('str', lambda h: eval(str(h), {'Hit': Hit})),
          ('pickle0', lambda h: pickle.loads(pickle.dumps(h, 0))),
          ('pickle2', lambda h: pickle.loads(pickle.dumps(h, 2))),
          ('pickleN', lambda h: pickle.loads(pickle.dumps(h, -1))),
          ('setstate', reuse_state),
          ('list pickle', lambda h: pickle.loads(pickle.dumps([h, h]))[1])]


def other_value(r, key, old):
    if key in gen.INTS:
        return old-1 if old > 0 else old+1
    new = old+r.choice([1., -1.])*max(1., abs(old)*r.uniform(1e-3, 1.))
    return new


def hits(r, m):
    d = wild(r)
    hit = Hit.new_from_dict(d)
    if r.random() < 0.3:
        hit['global_weight'] = r.choice([0., 0.5, 3.])
    gw = hit['global_weight']
    name, fn = r.choice(COPIES)
    m.note((name, d))
    bystander = Hit()
    before_by = bystander['global_weight']
    ok, twin = m.quiet(lambda: fn(hit), 'copying works', how=name)
    if not ok:
        return
    same_id = all(d[k] == 0 for k in ('spill', 'event_number',
                                      'particle_number'))
    if not same_id:
        m.check(bystander['global_weight'] == before_by,
                'copying leaves other particles alone', how=name)
    m.check(twin is not hit, 'copy is a new object', how=name)
    m.equal(gen.state(twin), d, 'copy carries all data', how=name)
    m.check([str(twin[k]) for k in ALL] == [str(hit[k]) for k in ALL],
            'signs of zero carried', how=name)
    m.equal(gen.state(hit), d, 'original unchanged by copying', how=name)
    m.check(twin['global_weight'] == gw, 'global weight kept', how=name,
            got=twin['global_weight'], want=gw)
    m.check(twin == hit and hit == twin and not (twin != hit),
            'copy equals original', how=name)
    m.event('copy compared')
    # mutate one side
    a, b = (hit, twin) if r.random() < 0.5 else (twin, hit)
    key = r.choice(ALL)
    new = other_value(r, key, d[key])
    try:
        a[key] = new
    except Exception as err:
        m.fail('mutating a copy works', raised=repr(err))
        return
    if a[key] == d[key]:
        return
    m.equal(gen.state(b), d, 'mutation does not leak', how=name, key=key)
    m.event('mutation isolated')
    if key in gen.INTS or abs(a[key]-d[key]) > 1e-3:
        m.check(not (a == b) and a != b and not (b == a) and b != a,
                'single difference detected', key=key, new=new, old=d[key])
        m.event('difference detected')
    m.distinct(name, key, new, d['x'])
    m.sample((name, key, d[key], new))
    # make them equal again
    b[key] = a[key]
    m.check(a == b, 'equal again after same change', key=key)
    Hit.clear_global_weights()


def relations(r, m):
    ds = [wild(r)]
    ds.append(dict(ds[0]))
    ds.append(dict(ds[0]))
    key = r.choice(ALL)
    if r.random() < 0.5:
        ds[2][key] = other_value(r, key, ds[2][key])
    h = [Hit.new_from_dict(d) for d in ds]
    for x in h:
        m.check(x == x and not x != x, 'reflexive')
        for other in (None, 3, 'hit', ds[0], [x]):
            m.check((x == other) is False and (x != other) is True,
                    'not equal to other types')
    for x in h:
        for y in h:
            m.check((x == y) == (y == x), 'symmetric')
            m.check((x == y) == (not x != y), 'ne is not eq')
            for z in h:
                if x == y and y == z:
                    m.check(x == z, 'transitive')
    m.event('relation triple')
    shallow = r.choice([lambda v: v.copy(), copy.copy])(h[0])
    h[0]['x'] = 123.25
    m.check(shallow['x'] == 123.25, 'shallow copy shares data')
    shallow['pid'] = 7
    m.check(h[0]['pid'] == 7, 'shallow copy shares data')
    m.event('shallow shared')


def bunches(r, m):
    n = r.choice([0, 1, 2, 3, 5, 8])
    ds = [wild(r) for _ in range(n)]
    bunch = gen.make_bunch(ds)
    covs = None
    if n and r.random() < 0.4:
        covs = numpy.matrix(gen.posdef(r, 8))
        kind = r.randrange(2)
        if kind == 0:
            given = {'x': 1., 'y': 2.}
            bunch.set_covariance_matrix(True, covs, given)
        else:
            given = {'x': 1.5, 'px': -2.}
            bunch = Bunch.new_from_hits(bunch.hits(), covs, given)
        m.event('covariance carried')
    how = r.choice(['deepcopy', 'copy.deepcopy', 'repr', 'new_from_hits'])
    m.note((how, n, covs is not None, ds[:2]))
    if how == 'deepcopy':
        ok, twin = m.quiet(bunch.deepcopy, 'bunch copy works')
    elif how == 'copy.deepcopy':
        ok, twin = m.quiet(lambda: copy.deepcopy(bunch), 'bunch copy works')
    elif how == 'repr':
        ok, twin = m.quiet(lambda: via_repr(bunch), 'bunch repr evaluates')
    else:
        covs = None
        bunch.set_covariance_matrix(False)
        ok, twin = m.quiet(lambda: Bunch.new_from_hits(bunch.hits()),
                           'new_from_hits works')
    if not ok:
        return
    m.event('bunch copied')
    m.check(twin is not bunch, 'bunch copy is new')
    m.equal(gen.snapshot_list(twin), ds, 'bunch copy carries data', how=how)
    m.check(len(twin) == n, 'bunch copy length')
    m.check(twin == bunch and not twin != bunch and bunch == twin,
            'bunch copy equal', how=how, covs=covs is not None)
    m.check(twin.hit_equality(bunch) is True and
            bunch.hit_equality(twin) is True,
            'hit_equality of a copy', how=how, n=n)
    near = bunch.deepcopy()
    if n:
        i, key = r.randrange(n), r.choice(['x', 'py', 't', 'energy', 'bz'])
        near[i][key] += r.choice([0.1, 0.3, 1e-6, 1e-12])
        for tol in (None, 1e-3, 0.2, 1.):
            args = () if tol is None else (tol,)
            want = all(u.__eq__(v, *args) for u, v in zip(near, bunch))
            m.check(near.hit_equality(bunch, *args) is want and
                    bunch.hit_equality(near, *args) is want,
                    'hit_equality keeps to its tolerance', key=key, tol=tol,
                    want=want)
            if tol and want:
                m.event('equal within a tolerance')
    m.check(bunch == bunch, 'bunch reflexive')
    m.check(str(bunch) == '<Bunch of %d Hits>' % n, 'bunch str',
            got=str(bunch))
    if how in ('deepcopy', 'copy.deepcopy') and covs is not None and \
            r.random() < .5 and bunch.bunch_weight():
        m.event('stored data changed')
        stored = twin.moment(['x', 'px']), twin.mean(['x'])
        old = covs.copy()
        covs *= 3.
        given['x'] += 7.
        m.equal((twin.moment(['x', 'px']), twin.mean(['x'])), stored,
                'stored covariances of a copy are its own')
        covs[:] = old
        given['x'] = {True: 1., False: 1.5}[kind == 0]
    for other in (None, 1, ds, 'bunch'):
        m.check((bunch == other) is False, 'bunch not equal to other types')
    if how != 'new_from_hits' and covs is not None:
        i = r.randrange(8)
        c2 = covs.copy()
        c2[i, i] *= 1.5
        means = {'x': 1., 'y': 2.}
        third = bunch.deepcopy()
        third.set_covariance_matrix(True, c2, means)
        fourth = bunch.deepcopy()
        fourth.set_covariance_matrix(True, covs, means)
        m.check(third != fourth, 'covariance difference detected')
        m.check(third.hit_equality(fourth) is True,
                'hit_equality only looks at hits')
        fourth.set_covariance_matrix(True, covs, {'x': 1., 'y': 2.5})
        fifth = bunch.deepcopy()
        fifth.set_covariance_matrix(True, covs, means)
        m.check(fifth != fourth, 'mean difference detected')
        fifth = Bunch.new_from_hits(bunch.hits())
        fourth = Bunch.new_from_hits(bunch.hits(), covs, {})
        m.check(fifth != fourth, 'stored against absent detected')
    if not n:
        return
    a, b = (bunch, twin) if r.random() < 0.5 else (twin, bunch)
    i = r.randrange(n)
    kind = r.randrange(5)
    ident = gen.snapshot_list(b)
    if kind == 0:
        key = r.choice(ALL)
        a[i][key] = other_value(r, key, a[i][key])
    elif kind == 1:
        a.append(gen.make_hit(wild(r)))
    elif kind == 2:
        del a[i]
    elif kind == 3:
        a[i] = gen.make_hit(wild(r))
    else:
        if n < 2:
            return
        j = (i+1) % n
        hi, hj = a[i], a[j]
        a[i], a[j] = hj, hi
    m.equal(gen.snapshot_list(b), ident, 'bunch mutation does not leak',
            how=how, kind=kind)
    m.check(a != b and not a == b and b != a, 'bunch difference detected',
            kind=kind, n=n)
    m.check(a.hit_equality(b) is False and b.hit_equality(a) is False,
            'hit_equality detects a difference', kind=kind, n=n)
    m.event('difference detected')
    m.distinct('bunch', how, kind, n, ds[0])
    shared = r.choice([bunch.copy, lambda: copy.copy(bunch)])()
    bunch.append(gen.make_hit(wild(r)))
    m.check(len(shared) == len(bunch), 'shallow bunch copy shares data')
    m.event('shallow shared')


SCENARIOS = [
    ('hits', hits, 2500, 40000),
    ('relations', relations, 200, 3000),
    ('bunches', bunches, 700, 12000),
]
