"""P12: which weights a cut zeroes, and nothing else."""
import math
import operator

import numpy

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit
from checks.p09_optics import cov_of, emittance, good, names_of, value

ID = 'P12'
RULE = ('generated bunches whose hits share particles, cut on stored, integer, '
        'derived and amplitude variables with thresholds that include values '
        'equal to data, by every comparator, plain and in standard deviations, '
        'local and global, one after another, refused and interrupted; '
        'distinct by variable, comparator, threshold and pattern of cut hits')
REQUIRED = {'cut': 2500, 'sigma cut': 500, 'global cut': 700,
            'equal to data': 700, 'derived': 500, 'integer': 300,
            'amplitude': 40, 'several variables': 200, 'no weight left': 30,
            'failing comparator': 100, 'removed': 400, 'transmission': 300,
            'near match': 200, 'another hit of the particle': 150}
COMPARATORS = {'ge': operator.ge, 'le': operator.le, 'gt': operator.gt,
               'lt': operator.lt, 'eq': operator.eq, 'ne': operator.ne,
               'outside': lambda a, b: abs(a) > abs(b),
               'always': lambda a, b: True, 'never': lambda a, b: False}
DERIVED = ['p', 'pt', 'r', 'r_squared', 'ct', 'kinetic_energy', "x'", "y'",
           'phi', 'weight', 'l_kin', 'pphi', 'spin']
STORED = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bz', 'ez',
          'path_length', 'charge', 'mass', 'local_weight', 'e_dep']
INTEGER = ['station', 'status', 'pid', 'event_number', 'particle_number',
           'spill']


def draw(r, n=None):
    Hit.clear_global_weights()
    n = r.randint(1, 25) if n is None else n
    ds = gen.bunch_dicts(r, n, weights=r.choice(['unit', 'wild', 'zeros']))
    span = r.choice([3, 100])
    for i, d in enumerate(ds):
        d['station'] = r.randint(0, 3)
        d['status'] = r.choice([0, 1, -7])
        d['event_number'] = r.randrange(span)
        d['particle_number'] = r.choice([0, 1])
        if r.random() < .2:      # ties
            d['x'] = ds[0]['x']
    b = gen.make_bunch(ds)
    for h in b:
        if r.random() < .3:
            h['global_weight'] = r.choice([1., .5, 2., 0.])
    return b


def record(hits):
    out = []
    for h in hits:
        d = gen.state(h)
        d['global_weight'] = h['global_weight']
        out.append(d)
    return out


def particle(d):
    return d['spill'], d['event_number'], d['particle_number']


def values(b, var):
    """The variable of every hit, from independent definitions"""
    if var.startswith('amplitude'):
        axes = var.split()[1:]
        g = Bunch.get_geometric_momentum()
        names = names_of(axes, g)
        mean, cov, d, _ = cov_of(list(b), names)
        if not good(cov):
            return None
        e = emittance(cov, g, b[0]['mass'])
        inv = numpy.linalg.inv(cov)
        return [e*float(v @ inv @ v) for v in d]
    return [h[var] for h in b]


def usable(vals, cuts, var):
    """Drop thresholds that sit on a recomputed value within rounding"""
    if not var.startswith('amplitude'):
        return True
    return all(abs(v-cuts) > 1e-6*(abs(v)+abs(cuts)) for v in vals)


def pick(r, b):
    k = r.random()
    if k < .45:
        return r.choice(STORED), 'stored'
    if k < .65:
        return r.choice(INTEGER), 'integer'
    if k < .9 or len(b) < 12:
        return r.choice(DERIVED), 'derived'
    return r.choice(['amplitude x y', 'amplitude x', 'amplitude x y t',
                     'amplitude y']), 'amplitude'


def threshold(r, m, vals):
    k = r.random()
    if k < .5:
        m.event('equal to data')
        return r.choice(vals)
    if k < .6:
        return r.choice([min(vals), max(vals)])
    if k < .7:
        return 0
    return r.choice(vals)+r.gauss(0, 1)*(max(vals)-min(vals)+1e-9)


def apply_model(before, chosen, global_cut):
    """What the records must be after the hits numbered in chosen were cut"""
    after = [dict(d) for d in before]
    if global_cut:
        gone = {particle(before[i]) for i in chosen}
        for d in after:
            if particle(d) in gone:
                d['global_weight'] = 0.
    else:
        for i in chosen:
            after[i]['local_weight'] = 0.
    return after


def weighted_std(d, vals):
    ws = [x['local_weight']*x['global_weight'] for x in d]
    total = math.fsum(ws)
    mean = math.fsum(w*v for w, v in zip(ws, vals))/total
    return math.sqrt(math.fsum(w*(v-mean)**2
                               for w, v in zip(ws, vals))/total)


def cuts(r, m):
    b = draw(r)
    n = len(b)
    hits = list(b)
    spare = [gen.make_hit(dict(gen.hit_dict(r, station=0),
                               spill=h['spill'],
                               event_number=h['event_number'],
                               particle_number=r.choice([0, 1])))
             for h in r.sample(hits, min(3, n))]
    Bunch.set_geometric_momentum(r.random() < .3)
    log = []
    for step in range(r.randint(1, 5)):
        global_cut = r.random() < .4
        sigma = r.random() < .25
        name = r.choice(list(COMPARATORS))
        comp = COMPARATORS[name]
        count = r.choice([1, 1, 1, 2, 3])
        chosen_vars = {}
        for _ in range(count):
            var, kind = pick(r, b)
            if kind == 'amplitude' and \
                    sum(h['weight'] > 0 for h in hits) < 10:
                continue
            chosen_vars[var] = kind
        if len(chosen_vars) > 1 and \
                any(k == 'amplitude' for k in chosen_vars.values()):
            chosen_vars = {v: k for v, k in chosen_vars.items()
                           if k == 'amplitude'}
            chosen_vars = dict(list(chosen_vars.items())[:1])
        if not chosen_vars:
            continue
        model = record(hits+spare)
        request, refused, dull = {}, False, False
        for var, kind in chosen_vars.items():
            if global_cut and var == 'weight' or refused:
                # the weight of a hit changes as its particle is cut
                continue
            vals = values(b, var)
            if vals is None:
                dull = True
                break
            if var in ('local_weight', 'weight'):
                vals = [d['local_weight']*(d['global_weight']
                                           if var == 'weight' else 1.)
                        for d in model[:n]]
            if sigma:
                given = r.choice([1, 2., .5, 0, r.uniform(0, 3)])
                ws = math.fsum(d['local_weight']*d['global_weight']
                               for d in model[:n])
                if abs(ws) < 1e-9:
                    request[var] = given
                    refused = True
                    continue
                if ws < 1e-4:
                    dull = True
                    break
                std = weighted_std(model[:n], vals)
                limit = given*std
                close = [v for v in vals
                         if abs(v-limit) <= 1e-8*(abs(v)+abs(limit)) +
                         1e-6*given*max(abs(v) for v in vals)*(std == 0 or
                         std < 1e-6*max(abs(v) for v in vals))]
                if close and name not in ('always', 'never'):
                    dull = True
                    break
            else:
                given = limit = threshold(r, m, vals)
                if not usable(vals, limit, var):
                    dull = True
                    break
            request[var] = given
            cut_now = [i for i, v in enumerate(vals) if comp(v, limit)]
            model = apply_model(model, cut_now, global_cut)
            m.event({'derived': 'derived', 'integer': 'integer',
                     'amplitude': 'amplitude'}.get(kind, 'stored'))
            m.distinct(var, name, limit, cut_now)
        if dull or not request:
            continue
        keep = dict(request)
        kw = dict(request=request, comparator=name, sigma=sigma,
                  global_cut=global_cut, step=step)
        args = [request, comp]
        if sigma or global_cut or r.random() < .3:
            args.append(sigma)
        if global_cut:
            args.append(True)
        if refused:
            m.raises(ZeroDivisionError, lambda: b.cut(*args),
                     'a sigma cut of a bunch without weight is reported', **kw)
            m.event('no weight left')
        else:
            b.cut(*args)
        m.equal(request, keep, 'cut values untouched', **kw)
        m.check(len(b) == n and all(x is y for x, y in zip(b, hits)),
                'hits stay in the bunch', **kw)
        got = record(hits+spare)
        for i, (g, w) in enumerate(zip(got, model)):
            m.equal({k: v for k, v in g.items() if 'weight' not in k},
                    {k: v for k, v in w.items() if 'weight' not in k},
                    'other variables untouched', hit=i, **kw)
            m.equal((g['local_weight'], g['global_weight']),
                    (w['local_weight'], w['global_weight']),
                    'weights after the cut', hit=i, in_bunch=i < n,
                    values={v: hits[i][v] for v in request
                            if i < n and not v.startswith('ampl')}, **kw)
        if global_cut and any(g['global_weight'] == 0 for g in got[n:]):
            m.event('another hit of the particle')
        m.close(b.bunch_weight(),
                math.fsum(d['local_weight']*d['global_weight']
                          for d in model[:n]), 'bunch weight', **kw)
        m.event('cut')
        if sigma:
            m.event('sigma cut')
        if global_cut:
            m.event('global cut')
        if len(request) > 1:
            m.event('several variables')
        log.append(kw)
    m.sample(log)


class Refused(Exception):
    pass


def failing(r, m):
    """A comparator that raises part way, and unknown variables"""
    b = draw(r, r.randint(1, 10))
    hits = list(b)
    var, _ = pick(r, [1])
    at = r.randrange(len(b))
    vals = [h[var] for h in b]
    before = record(hits)
    calls = []

    def comp(a, c):
        calls.append((a, c))
        if len(calls) > at:
            raise Refused()
        return True
    global_cut = r.random() < .4
    if var in ('weight', 'local_weight'):
        return
    m.raises((Refused, TypeError), lambda: b.cut({var: 3.}, comp, False, global_cut),
             'an error of the comparator is reported', var=var)
    m.check([c for _, c in calls] == [3.]*len(calls), 'cut value passed on')
    m.check([a for a, _ in calls] == vals[:len(calls)],
            'values passed in order', calls=calls, vals=vals)
    want = apply_model(before, range(at), global_cut)
    got = record(hits)
    for i, (g, w) in enumerate(zip(got, want)):
        if i < at:
            # hits judged before the error may or may not be cut already
            key = 'global_weight' if global_cut else 'local_weight'
            m.check(g[key] in (0., before[i][key]), 'cut or not', hit=i)
            g = dict(g, **{key: w[key]})
        elif global_cut:
            g, w = dict(g, global_weight=0), dict(w, global_weight=0)
        m.equal(g, w, 'hits not judged are untouched', hit=i, var=var)
    m.event('failing comparator')
    state = record(hits)
    m.raises((KeyError, IndexError, ValueError),
             lambda: b.cut({'nonsense': 1.}, operator.ge),
             'unknown variable refused')
    m.equal(record(hits), state, 'refused cut changes nothing')


def removal(r, m):
    b = draw(r)
    hits = list(b)
    state = record(hits)
    name = r.choice(list(COMPARATORS))
    comp = COMPARATORS[name]
    sigma = r.random() < .3
    var, kind = pick(r, [1])
    vals = [h[var] for h in b]
    if sigma:
        given = r.choice([1, 2., .5, r.uniform(0, 3)])
        ws = math.fsum(h['weight'] for h in b)
        if abs(ws) < 1e-9:
            m.raises(ZeroDivisionError,
                     lambda: b.conditional_remove({var: given}, comp, True),
                     'no weight is reported')
            m.check(len(b) == len(hits), 'refused removal keeps the hits')
            return
        std = weighted_std(state, vals)
        limit = given*std
        top = max(abs(v) for v in vals)
        if any(abs(v-limit) < 1e-6*top for v in vals):
            return
    else:
        given = limit = threshold(r, m, vals)
    want = [h for h, v in zip(hits, vals) if not comp(v, limit)]
    b.conditional_remove({var: given}, comp, sigma)
    m.check(len(b) == len(want) and all(x is y for x, y in zip(b, want)),
            'exactly the hits for which the comparison is false remain',
            var=var, comparator=name, limit=limit, got=len(b), want=len(want))
    m.equal(record(hits), state, 'removal changes no hit')
    m.close(b.bunch_weight(), math.fsum(h['weight'] for h in want),
            'bunch weight')
    m.event('removed')
    m.distinct(var, name, limit, len(want))


def transmission(r, m):
    a = draw(r)
    n = len(a)
    kind = r.choice(['default', 'default', 'event', 'names', 'float',
                     'floats', 'mixed'])
    tol = 1e-9
    names = {'default': ['spill', 'event_number', 'particle_number'],
             'event': 'event_number',
             'names': r.sample(INTEGER, 2), 'float': r.choice(['x', 't']),
             'floats': r.sample(['x', 'y', 'px', 'e_dep'], 2),
             'mixed': r.sample(['station', 'x', 'event_number', 'y'], 3)
             }[kind]
    listed = [names] if isinstance(names, str) else names
    others = []
    for h in r.sample(list(a), r.randint(0, n)):
        d = gen.state(h)
        for v in listed:
            k = r.random()
            if v in INTEGER:
                d[v] += r.choice([0, 0, 0, 1, -1])
            elif k < .4:
                d[v] += r.choice([1, -1])*tol*r.choice([.2, .3, 5., 1e3])
                m.event('near match')
            elif k < .5:
                d[v] += 1.
        others.append(d)
    for _ in range(r.randint(0, 5)):
        others.append(gen.hit_dict(r))
    r.shuffle(others)
    test = gen.make_bunch(others) if others else Bunch()
    args = [test]
    global_cut = r.random() < .4
    if kind != 'default':
        args += [global_cut, list(names) if isinstance(names, list)
                 else names]
    elif global_cut or r.random() < .3:
        args += [global_cut]
    if r.random() < .2 and kind != 'default':
        tol = r.choice([1e-3, 1e-6])
        args += [tol]
    hits, tested = list(a), list(test)
    before, before_test = record(hits), record(tested)
    gone = []
    for i, h in enumerate(hits):
        mine = [h[v] for v in listed]
        dist = [sum(abs(x-t[v]) for x, v in zip(mine, listed))
                for t in tested]
        if any(abs(s-tol) < 1e-4*tol for s in dist):
            return
        if not any(s < tol for s in dist):
            gone.append(i)
    a.transmission_cut(*args)
    want = apply_model(before, gone, global_cut)
    after = record(hits)
    for i, (g, w) in enumerate(zip(after, want)):
        m.equal(g, w, 'transmission cut', hit=i, names=names,
                global_cut=global_cut, gone=gone, size=len(others))
    m.check(len(a) == n and all(x is y for x, y in zip(a, hits)),
            'hits stay in the bunch')
    m.check(len(test) == len(tested), 'target bunch untouched')
    if global_cut:
        lost = {particle(before[i]) for i in gone}
        for d in before_test:
            if particle(d) in lost:
                d['global_weight'] = 0.
    m.equal(record(tested), before_test, 'target bunch untouched')
    m.event('transmission')
    m.distinct(kind, gone, global_cut)


SCENARIOS = [('cuts', cuts, 1500, 25000),
             ('failing', failing, 250, 3000),
             ('removal', removal, 900, 12000),
             ('transmission', transmission, 500, 9000)]
