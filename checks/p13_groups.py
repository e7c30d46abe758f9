"""P13: split, select and list."""
import math
import operator

import numpy

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit
from checks.p09_optics import cov_of, emittance, good, names_of

ID = 'P13'
RULE = ('generated bunches with repeated and unique values, off-shell hits and '
        'hits held twice; split by integer, stored and derived variables, '
        'selected by value and by comparator, listed with units, and families '
        'of bunches listed with every bunch quantity; distinct by grouping, '
        'selection or list')
REQUIRED = {'split': 250, 'split by derived': 60, 'negative key': 80,
            'selected': 900, 'nothing selected': 100, 'listed': 500,
            'amplitude listed': 50, 'units': 500, 'family': 200,
            'tied first column': 15, 'selected by amplitude': 80, 'held twice': 60, 'empty': 10}
KEYS = ['station', 'status', 'pid', 'event_number', 'particle_number',
        'spill', 'x', 't', 'pz', 'charge', 'local_weight', 'weight', 'r', 'p',
        'ct', 'energy', 'eventNumber']
DERIVED = ('weight', 'r', 'p', 'ct')
UNITS = {'x': ['mm', 'm', 'cm', 'mum', ''], 't': ['ns', 's', 'mus', ''],
         'px': ['MeV/c', 'GeV/c', ''], 'energy': ['MeV', 'GeV', 'eV', ''],
         'bz': ['T', 'Gauss', ''], 'r': ['m', ''], 'p': ['GeV/c', ''],
         'ct': ['km', ''], 'station': [''], 'weight': [''],
         'event_number': [''], 'charge': ['', 'Coulomb'],
         'phi': ['deg', 'rad', ''], 'mass': ['GeV/c2']}
SIZE = {'': 1., 'mm': 1., 'm': 1e3, 'cm': 10., 'mum': 1e-3, 'km': 1e6,
        'ns': 1., 's': 1e9, 'mus': 1e3, 'MeV/c': 1., 'GeV/c': 1e3,
        'MeV': 1., 'GeV': 1e3, 'eV': 1e-6, 'T': 1e-3, 'Gauss': 1e-7,
        'Coulomb': 6.24150974e18, 'deg': math.pi/180, 'rad': 1.,
        'GeV/c2': 1e3}


def draw(r, m, n=None, minimum=0):
    Hit.clear_global_weights()
    n = r.randint(minimum, 25) if n is None else n
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']))
    for d in ds:
        d['station'] = r.choice([0, 1, 2, -1, 7])
        d['status'] = r.choice([0, 1, -3, 2**31-1])
        d['x'] = r.choice([d['x'], float(r.randint(-3, 3)),
                           r.uniform(-1, 1)])
        if r.random() < .2:
            d['energy'] += 20.     # off shell
    b = gen.make_bunch(ds) if ds else Bunch()
    if n and r.random() < .3:
        b.append(b[r.randrange(n)])
        m.event('held twice')
    if not n:
        m.event('empty')
    return b


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def splitting(r, m):
    b = draw(r, m)
    hits = list(b)
    key = r.choice(KEYS)
    state = gen.snapshot_list(b)
    got = b.split(key)
    want = {}
    for h in hits:
        want.setdefault(int(h[key]), []).append(h)
    m.equal(set(got), set(want), 'keys of the groups', key=key)
    m.check(all(type(k) is int for k in got), 'integer keys')
    for k in want:
        if k in got:
            m.check(isinstance(got[k], Bunch) and same(got[k], want[k]),
                    'group holds its hits in order', key=key, value=k,
                    got=len(got[k]), want=len(want[k]))
            m.close(got[k].bunch_weight(),
                    math.fsum(h['weight'] for h in want[k]), 'group weight')
            w = math.fsum(h['weight'] for h in want[k])
            if w > 1e-3:
                m.close(got[k].mean(['y'])['y'],
                        math.fsum(h['weight']*h['y'] for h in want[k])/w,
                        'group mean', rel=1e-9, abs_=1e-8)
            if k < 0:
                m.event('negative key')
    m.check(same(b, hits), 'the bunch keeps its hits')
    m.equal(gen.snapshot_list(b), state, 'splitting changes no hit')
    if got:
        one = next(iter(got.values()))
        one.append(Hit())
        m.check(len(b) == len(hits), 'groups are bunches of their own')
    m.event('split')
    if key in DERIVED:
        m.event('split by derived')
    m.distinct(key, sorted((k, len(v)) for k, v in want.items()))
    m.raises((KeyError, IndexError, ValueError), lambda: b.split('nonsense'),
             'unknown variable refused') if hits else None


def selecting(r, m):
    b = draw(r, m)
    hits = list(b)
    state = gen.snapshot_list(b)
    for _ in range(4):
        key = r.choice(KEYS)
        vals = [h[key] for h in hits]
        k = r.random()
        v = r.choice(vals) if vals and k < .7 else \
            r.choice([0, 1, -1, 0.5, 100., 1e9])
        comp = r.choice([None, None, operator.eq, operator.lt, operator.gt,
                         operator.ge, operator.le, operator.ne,
                         lambda a, c: abs(a-c) < 1., lambda a, c: 1])
        got = b.get_hits(key, v) if comp is None else b.get_hits(key, v, comp)
        test = comp or operator.eq
        want = [h for h, x in zip(hits, vals) if test(x, v)]
        m.check(same(got, want), 'exactly the matching hits in order',
                key=key, value=v, got=len(got), want=len(want))
        m.event('selected')
        if not want:
            m.event('nothing selected')
        m.distinct(key, v, len(want))
    axes = r.choice([['x'], ['x', 'y'], ['y', 't']])
    Bunch.set_geometric_momentum(False)
    if len(hits) > 12 and sum(h['weight'] for h in hits) > 1:
        mean, cov, d, ws = cov_of(hits, names_of(axes, False))
        if good(cov):
            e = emittance(cov, False, hits[0]['mass'])
            inv = numpy.linalg.inv(cov)
            amp = [e*float(v @ inv @ v) for v in d]
            cut = r.choice(sorted(amp))*r.choice([.99, 1.01])
            if all(abs(a-cut) > 1e-4*cut for a in amp):
                comp = r.choice([operator.lt, operator.ge])
                m.check(same(b.get_hits('amplitude '+' '.join(axes), cut,
                                        comp),
                             [h for h, a in zip(hits, amp) if comp(a, cut)]),
                        'hits selected by amplitude', axes=axes, cut=cut)
                m.event('selected by amplitude')
    m.check(same(b, hits), 'the bunch keeps its hits')
    m.equal(gen.snapshot_list(b), state, 'selecting changes no hit')


def listing(r, m):
    b = draw(r, m)
    hits = list(b)
    names = [r.choice(list(UNITS)) for _ in range(r.randint(1, 5))]
    mean, cov, d, ws = (None,)*4
    Bunch.set_geometric_momentum(False)
    amp = None
    if len(hits) > 12 and sum(h['weight'] for h in hits) > 1 and \
            r.random() < .5:
        axes = r.choice([['x'], ['x', 'y'], ['y', 't']])
        cols = names_of(axes, False)
        mean, cov, d, ws = cov_of(hits, cols)
        if good(cov):
            e = emittance(cov, False, hits[0]['mass'])
            inv = numpy.linalg.inv(cov)
            amp = [e*float(v @ inv @ v) for v in d]
            names.insert(r.randint(0, len(names)),
                         'amplitude '+' '.join(axes))
            m.event('amplitude listed')
    units = [r.choice(UNITS.get(n, ['', 'mm', 'm'])) for n in names]
    with_units = r.random() < .7
    asked, given = list(names), list(units)
    got = b.list_get_hit_variable(asked, given) if with_units else \
        b.list_get_hit_variable(asked)
    m.check(asked == names and given == units, 'arguments untouched')
    m.equal(len(got), len(names), 'one list per variable')
    for name, unit, column in zip(names, units, got):
        size = SIZE[unit] if with_units else 1.
        if name.startswith('amplitude'):
            want = [a/size for a in amp]
            m.close(column, want, 'amplitudes in order', rel=1e-5,
                    abs_=1e-7*max(want, default=1.), unit=unit)
        else:
            want = [h[name]/size for h in hits]
            # degrees are defined through pi to nine digits
            m.close(column, want, 'values in order, in their unit',
                    rel=1e-8 if unit == 'deg' else 1e-14, abs_=0.,
                    name=name, unit=unit)
        if with_units:
            m.event('units')
    for h in r.sample(hits, min(2, len(hits))):
        for name in names:
            if name.startswith('amp'):
                m.close(b.get_hit_variable(h, name), amp[hits.index(h)],
                        'single amplitude', rel=1e-5, abs_=1e-7*max(amp))
            else:
                m.equal(b.get_hit_variable(h, name), h[name], 'single value')
    m.event('listed')
    m.distinct(names, units, with_units)


def families(r, m):
    Bunch.set_geometric_momentum(r.random() < .3)
    Hit.clear_global_weights()
    family = {}
    for k in r.sample(range(-5, 20), r.randint(1, 6)):
        ds = gen.bunch_dicts(r, r.randint(10, 16),
                             weights=r.choice(['unit', 'wild']))
        at = r.uniform(-1000, 1000)
        for d in ds:
            d['z'] = at+r.gauss(0, 1)
        family[k if r.random() < .7 else str(k)] = gen.make_bunch(ds)
    if len(family) > 2 and r.random() < .3:
        keys = list(family)
        family[keys[0]] = family[keys[1]].deepcopy()
        family[keys[0]].translate({'y': 3.})
        m.event('tied first column')
    queries = []
    for _ in range(r.randint(1, 5)):
        what = r.choice(Bunch.get_variables())
        if what == 'mean':
            args = [r.choice(['x', 'px', 'z', 'energy', 'r', 'p'])]
        elif what in ('dispersion', 'dispersion_prime'):
            args = [r.choice(['x', 'y'])]
        elif what == 'moment':
            args = [r.choice(['x', 'px', 'y']) for _ in range(2)]
        elif what == 'standard_deviation':
            args = [r.choice(['x', 'px', 'y', 't'])]
        elif what in ('bunch_weight', 'angular_momentum'):
            args = []
        else:
            args = r.choice([['x'], ['y'], ['x', 'y']])
        queries.append((what, args))
    if r.random() < .6:
        queries[0] = ('mean', ['z'])
    names = [q[0] for q in queries]
    lists = [list(q[1]) for q in queries]
    got = Bunch.list_get(family, names, lists)
    m.check(lists == [q[1] for q in queries] and
            names == [q[0] for q in queries], 'arguments untouched')
    alone = {'emittance': lambda b, a: b.get_emittance(a),
             'beta': lambda b, a: b.get_beta(a),
             'alpha': lambda b, a: b.get_alpha(a),
             'gamma': lambda b, a: b.get_gamma(a),
             'mean': lambda b, a: b.mean(a)[a[0]],
             'moment': lambda b, a: b.moment(a),
             'standard_deviation': lambda b, a: b.standard_deviation(a),
             'bunch_weight': lambda b, a: b.bunch_weight(),
             'dispersion': lambda b, a: b.get_dispersion(a[0]),
             'dispersion_prime': lambda b, a: b.get_dispersion_prime(a[0]),
             'angular_momentum': lambda b, a:
                 b.get_kinetic_angular_momentum()}
    rows = [[alone[w](b, list(a)) for w, a in queries]
            for b in family.values()]
    for (w, a), b in [(q, b) for q in queries for b in family.values()]:
        m.equal(b.get(w, list(a)), alone[w](b, list(a)),
                'get is the named query', what=w, args=a)
    m.equal(len(got), len(queries), 'one list per quantity')
    m.check(all(len(c) == len(family) for c in got), 'one value per bunch')
    m.check(all(x <= y for x, y in zip(got[0], got[0][1:])),
            'sorted by the first quantity')
    m.equal(sorted(zip(*got)), sorted(map(tuple, rows)),
            'each row is one bunch asked on its own', queries=queries)
    m.event('family')
    m.distinct(queries)
    m.raises(KeyError, lambda: next(iter(family.values())).get('nonsense',
                                                               ['x']),
             'unknown quantity refused')


SCENARIOS = [('splitting', splitting, 450, 8000),
             ('selecting', selecting, 450, 8000),
             ('listing', listing, 900, 14000),
             ('families', families, 350, 6000)]
