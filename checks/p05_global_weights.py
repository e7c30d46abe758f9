"""P05: global weights belong to particles."""
import copy
import math
import pickle

from xmon import gen
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore

ID = 'P05'
RULE = ('histories over hits whose spill, event and particle numbers collide '
        'partly; non-trivial when at least two hits share and two differ; '
        'distinct by the operation sequence')
REQUIRED = {'global set': 3000, 'renumbered': 1500, 'created later': 1500,
            'permuted identifiers': 200, 'cleared': 300, 'statistics': 1500,
            'confusable particles': 5000,
            'read back': 30000}


class Model(object):
    def __init__(self):
        self.table = {}

    def get(self, d):
        return self.table.get(key(d), 1.)


def key(d):
    return (d['spill'], d['event_number'], d['particle_number'])


def weight(r):
    return r.choice([0., 1., 0.5, 2., -1., r.uniform(0, 3), 1e-6, 1e9])


def judge(m, hits, model, table, step):
    for hit, d in zip(hits, model):
        gw = table.get(d)
        m.check(hit['global_weight'] == gw, 'global weight of particle',
                got=hit['global_weight'], want=gw, ident=key(d), step=step,
                table=table.table)
        m.check(hit.get_global_weight() == gw, 'get_global_weight', step=step)
        m.check(hit['local_weight'] == d['local_weight'] ==
                hit.get_local_weight(), 'local weight', step=step,
                got=hit['local_weight'], want=d['local_weight'])
        total = d['local_weight']*gw
        m.close(hit['weight'], total, 'total weight', rel=1e-14, step=step)
        m.close(hit.get_weight(), total, 'total weight', rel=1e-14, step=step)
        m.check([hit[k] for k in ('spill', 'event_number',
                                  'particle_number')] == list(key(d)),
                'identifiers', step=step)
        m.event('read back')


def judge_bunch(m, bunch, model, table, step):
    ws = [d['local_weight']*table.get(d) for d in model]
    scale = math.fsum(abs(w) for w in ws)
    total = math.fsum(ws)
    m.close(bunch.bunch_weight(), total, 'bunch weight', abs_=1e-12*scale,
            step=step)
    if total > 1e-3*scale and total > 1e-6:
        got = bunch.mean(['x'])['x']
        want = math.fsum(w*d['x'] for w, d in zip(ws, model))/total
        m.close(got, want, 'mean uses total weight', rel=1e-9,
                abs_=1e-9*scale/total*max(abs(d['x']) for d in model),
                step=step)
        m.event('statistics')


def history(r, m):
    Hit.clear_global_weights()
    span = r.choice([2, 2, 3, 4])
    table = Model()
    hits, model = [], []
    bunch = Bunch()
    ops = []

    def ident():
        return {k: r.randrange(span) for k in
                ('spill', 'event_number', 'particle_number')}

    def fresh():
        d = ident()
        d['x'] = r.gauss(0, 10)
        d['local_weight'] = r.choice([1., 1., 0.5, 2., 0.])
        return d

    for step in range(r.randint(10, 40)):
        op = r.choice(['new', 'new', 'set', 'set', 'set', 'renumber',
                       'renumber', 'local', 'copy', 'clear', 'clear local',
                       'drop', 'dict', 'core'])
        if not hits or op == 'new':
            op = 'new'
            d = fresh()
            hit = Hit.new_from_dict(d)
            hits.append(hit)
            model.append(d)
            bunch.append(hit)
            if key(d) in table.table:
                m.event('created later')
        elif op == 'set':
            i = r.randrange(len(hits))
            w = weight(r)
            r.choice([lambda: hits[i].set('global_weight', w),
                      lambda: hits[i].__setitem__('global_weight', w),
                      lambda: hits[i].set_global_weight(w)])()
            table.table[key(model[i])] = w
            m.event('global set')
            idents = [key(d) for d in model]
            for k in idents:
                if k != key(model[i]) and sorted(k) == sorted(key(model[i])):
                    m.event('permuted identifiers')
                    break
        elif op == 'renumber':
            i = r.randrange(len(hits))
            name = r.choice(['spill', 'event_number', 'particle_number',
                             'eventNumber', 'particleNumber'])
            v = r.randrange(span)
            hits[i][name] = v
            model[i][gen.ALIASES.get(name, name)] = v
            m.event('renumbered')
        elif op == 'local':
            i = r.randrange(len(hits))
            w = weight(r)
            r.choice([lambda: hits[i].set('local_weight', w),
                      lambda: hits[i].set_local_weight(w)])()
            model[i]['local_weight'] = w
        elif op == 'copy':
            i = r.randrange(len(hits))
            how = r.choice([lambda h: h.deepcopy(), copy.deepcopy,
                            lambda h: pickle.loads(pickle.dumps(h)),
                            lambda h: Hit.new_from_dict(h.dict_from_hit())])
            hit = how(hits[i])
            # the copy states its global weight, which is its particle's
            hits.append(hit)
            model.append(dict(model[i]))
            bunch.append(hit)
            m.event('created later')
        elif op == 'clear':
            r.choice([Hit.clear_global_weights, Bunch.clear_global_weights,
                      bunch.clear_global_weights,
                      Hitcore.clear_global_weights])()
            table.table.clear()
            m.event('cleared')
        elif op == 'clear local':
            if r.random() < 0.5:
                bunch.clear_local_weights()
            else:
                bunch.clear_weights()
                table.table.clear()
            for d in model:
                d['local_weight'] = 1.
            m.event('cleared')
        elif op == 'drop':
            if len(hits) < 3:
                continue
            i = r.randrange(len(hits))
            del hits[i], model[i], bunch[i]
        elif op == 'dict':
            d = fresh()
            w = weight(r)
            items = list(d.items())+[('global_weight', w)]
            r.shuffle(items)
            hit = Hit.new_from_dict(dict(items))
            hits.append(hit)
            model.append(d)
            bunch.append(hit)
            table.table[key(d)] = w
            m.event('global set')
        elif op == 'core':
            d = ident()
            core = Hitcore()
            for k, v in d.items():
                core.set(k, v)
            m.check(core.get('global_weight') == table.get(d),
                    'core hit sees particle weight', ident=key(d))
            w = weight(r)
            core.set('global_weight', w)
            table.table[key(d)] = w
        ops.append(op)
        m.note(ops)
        judge(m, hits, model, table, step)
        judge_bunch(m, bunch, model, table, step)
    # hits of untouched particles
    for _ in range(3):
        d = ident()
        m.check(Hit.new_from_dict(d)['global_weight'] == table.get(d),
                'later hit sees particle weight', ident=key(d))
    far = {'spill': span, 'event_number': 0, 'particle_number': 0}
    m.check(Hit.new_from_dict(far)['global_weight'] == 1.,
            'unset global weight is one')
    m.distinct(ops)
    m.sample(ops)
    Hit.clear_global_weights()


def wide(r, m):
    """Identifiers anywhere in the integer range, including negative"""
    Hit.clear_global_weights()
    seen = {}
    for _ in range(12):
        base = gen.any_int(r)
        d = {'spill': r.choice([base, gen.any_int(r), 0]),
             'event_number': r.choice([base, gen.any_int(r), 1]),
             'particle_number': r.choice([base, gen.any_int(r), -1])}
        w = r.uniform(0.1, 9)
        Hit.new_from_dict(d)['global_weight'] = w
        seen[key(d)] = w
        m.event('global set')
        for k, v in seen.items():
            h = Hit.new_from_dict(dict(zip(
                ('spill', 'event_number', 'particle_number'), k)))
            m.check(h['global_weight'] == v, 'global weight of particle',
                    ident=k)
            near = dict(zip(('spill', 'event_number', 'particle_number'), k))
            n = r.choice(list(near))
            near[n] = near[n]+1 if near[n] < 0 else near[n]-1
            m.check(Hit.new_from_dict(near)['global_weight'] ==
                    seen.get(key(near), 1.), 'neighbouring particle', ident=k)
            m.event('read back')
    m.distinct('wide', sorted(seen))
    Hit.clear_global_weights()
    m.check(all(Hit.new_from_dict(dict(zip(
        ('spill', 'event_number', 'particle_number'), k)))['global_weight']
        == 1. for k in seen), 'cleared everywhere')


NAMES = ('spill', 'event_number', 'particle_number')


def confusable(r, m):
    """Particles whose numbers would fall together in a packed or hashed key"""
    Hit.clear_global_weights()
    base = tuple(r.choice([0, 1, r.randint(0, 30), r.randint(-5, 5),
                           r.randint(0, 1 << 20), gen.any_int(r)])
                 for _ in range(3))
    others = gen.near_ids(r, base)
    wide_ids = [tuple(gen.any_int(r) for _ in range(3)) for _ in range(20)]
    ids = [base]+others[:r.choice([60, 400])]+wide_ids
    ids = list(dict.fromkeys(ids))
    r.shuffle(ids)
    hits = [Hit.new_from_dict(dict(zip(NAMES, k))) for k in ids]
    want = {}
    for i, h in enumerate(hits):
        if r.random() < 0.75 or ids[i] == base:
            want[ids[i]] = 2.+i
            h['global_weight'] = 2.+i
    m.event('global set', len(want))
    for h, k in zip(hits, ids):
        m.check(h['global_weight'] == want.get(k, 1.),
                'one particle, one weight', ident=k, base=base,
                got=h['global_weight'], want=want.get(k, 1.))
    for k in r.sample(ids, min(40, len(ids))):
        h = Hit.new_from_dict(dict(zip(NAMES, k)))
        m.check(h['global_weight'] == want.get(k, 1.),
                'later hit of the particle', ident=k, base=base)
    m.event('confusable particles', len(ids))
    m.distinct('confusable', base)
    Hit.clear_global_weights()
    m.check(all(h['global_weight'] == 1. for h in hits),
            'cleared for all particles')


SCENARIOS = [
    ('confusable', confusable, 60, 1500),
    ('history', history, 900, 15000),
    ('wide', wide, 120, 2000),
]
