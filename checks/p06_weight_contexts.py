"""P06: weight contexts against a dict-with-default model."""
import gc
import math
import operator

from xmon import gen
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext

ID = 'P06'
RULE = ('random expression histories over a pool of contexts and switches of '
        'the current context; non-trivial when particles overlap and '
        'defaults differ; distinct by the operation sequence')
REQUIRED = {'binary': 3000, 'with number': 900, 'not': 400, 'switch': 1500,
            'restored': 300, 'statistics': 1500, 'weight set': 2000,
            'collected': 300}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv}


class Model(object):
    def __init__(self, table=None, default=1.):
        self.table = dict(table or {})
        self.default = default

    def get(self, k):
        return self.table.get(k, self.default)

    def clone(self):
        return Model(self.table, self.default)

    def combine(self, fn, other):
        if isinstance(other, Model):
            keys = set(self.table) | set(other.table)
            return Model({k: fn(self.get(k), other.get(k)) for k in keys},
                         fn(self.default, other.default))
        return Model({k: fn(v, other) for k, v in self.table.items()},
                     fn(self.default, other))

    def invert(self):
        return Model({k: self.default if v == 0. else 0.
                      for k, v in self.table.items()}, 0.)

    def nonzero(self):
        vals = list(self.table.values())+[self.default]
        return all(v != 0. and abs(v) < 1e100 for v in vals)


KEYS = [(a, b, c) for a in range(3) for b in range(3) for c in range(3)]


def ident(r):
    return r.choice(KEYS)


def choose_particles(r):
    """27 particles: small numbers, or ones that a narrow key would mix up"""
    global KEYS
    KEYS = [(a, b, c) for a in range(3) for b in range(3) for c in range(3)]
    if r.random() < 0.4:
        base = tuple(r.choice([0, 1, r.randint(0, 1 << 20), gen.any_int(r)])
                     for _ in range(3))
        extra = [tuple(gen.any_int(r) for _ in range(3)) for _ in range(4)]
        KEYS = list(dict.fromkeys(
            [base]+extra+gen.near_ids(r, base)[:22]+KEYS))[:27]


def same(a, b):
    return a == b or abs(a-b) <= 1e-13*max(abs(a), abs(b))


def judge(m, wc, model, site, **kw):
    ok = m.check(same(wc.get_default_weight(), model.default),
                 site+': default', got=wc.get_default_weight(),
                 want=model.default, **kw)
    for k in KEYS:
        got, want = wc.get_weight(*k), model.get(k)
        if not same(got, want):
            ok = m.fail(site, ident=k, got=got, want=want, **kw)
            break
    else:
        m.check(True, site)
    return ok


def number(r):
    return r.choice([0.5, 2., 3, 1, -1., 0.25, r.uniform(0.1, 4)])


def algebra(r, m):
    choose_particles(r)
    pool = []

    def fresh():
        wc, model = WeightContext(), Model()
        if r.random() < 0.6:
            model.default = number(r)
            wc.set_default_weight(model.default)
        for _ in range(r.randint(0, 5)):
            k, w = ident(r), r.choice([0., 1., 2., -1., r.uniform(0, 4)])
            set_weight(r, m, wc, model, k, w)
        pool.append((wc, model))

    for _ in range(3):
        fresh()
    ops = []
    for step in range(r.randint(6, 20)):
        op = r.choice(['bin', 'bin', 'bin', 'num', 'num', 'not', 'inplace',
                       'set', 'set', 'default', 'fresh', 'drop', 'refuse'])
        a, am = r.choice(pool)
        b, bm = r.choice(pool)
        if op == 'bin':
            s = r.choice(list(OPS))
            if s == '/' and not bm.nonzero():
                s = '+'
            out = OPS[s](a, b)
            want = am.combine(OPS[s], bm)
            judge(m, out, want, 'combination', op=s)
            m.check(out is not a and out is not b, 'new context', op=s)
            pool.append((out, want))
            m.event('binary')
        elif op == 'num':
            s, x = r.choice(list(OPS)), number(r)
            if r.random() < 0.3 and s in '+*':
                out = OPS[s](x, a)
            else:
                out = OPS[s](a, x)
            want = am.combine(OPS[s], float(x))
            judge(m, out, want, 'combination with number', op=s, x=x)
            pool.append((out, want))
            m.event('with number')
        elif op == 'not':
            out, want = ~a, am.invert()
            judge(m, out, want, 'not')
            pool.append((out, want))
            m.event('not')
        elif op == 'inplace':
            s = r.choice(['+', '-', '*'])
            x, xm = r.choice([(b, bm), (2., 2.)])
            i = r.randrange(len(pool))
            c, cm = pool[i]
            want = cm.combine(OPS[s], xm)
            alias = c
            if s == '+':
                c += x
            elif s == '-':
                c -= x
            else:
                c *= x
            if c is alias:     # genuinely in place
                cm.table, cm.default = want.table, want.default
            pool[i] = (c, want)
            judge(m, c, want, 'in-place combination', op=s)
            m.event('binary')
        elif op == 'set':
            k, w = ident(r), r.choice([0., 1., r.uniform(-2, 4)])
            set_weight(r, m, a, am, k, w)
        elif op == 'default':
            am.default = number(r)
            a.set_default_weight(am.default)
        elif op == 'fresh':
            fresh()
        elif op == 'drop' and len(pool) > 3:
            i = r.randrange(len(pool))
            pool[i] = None
            a = b = c = out = alias = x = None
            pool = [p for p in pool if p is not None]
            gc.collect()
            m.event('collected')
        elif op == 'refuse':
            bad = r.choice(['cheese', None, [], {}])
            s = r.choice(list(OPS))
            m.raises(Exception, lambda: OPS[s](a, bad), 'bad operand refused')
            m.raises(Exception, lambda: OPS[s](bad, a), 'bad operand refused')
        ops.append(op)
        m.note(ops)
        for wc, model in pool:
            judge(m, wc, model, 'operands and bystanders unchanged',
                  step=step, op=op)
    m.distinct(ops)


def set_weight(r, m, wc, model, k, w):
    how = r.randrange(3)
    if how == 0:
        wc.set_weight(w, *k)
    elif how == 1:
        wc.set_weight(weight=w, spill=k[0], event_number=k[1],
                      particle_number=k[2])
    else:
        wc.set_weight(w, k[0], eventNumber=k[1], particleNumber=k[2])
    model.table[k] = w
    m.event('weight set')
    got = r.choice([lambda: wc.get_weight(*k),
                    lambda: wc.get_weight(spill=k[0], event_number=k[1],
                                          particle_number=k[2]),
                    lambda: wc.get_weight(k[0], eventNumber=k[1],
                                          particleNumber=k[2])])()
    m.check(got == w, 'weight read back', got=got, want=w, ident=k)


NAMES = ('spill', 'event_number', 'particle_number')


def switching(r, m):
    choose_particles(r)
    original = Hitcore.get_weight_context()
    start = WeightContext()
    Hitcore.set_weight_context(start)
    try:
        _switching(r, m, start)
    finally:
        Hitcore.set_weight_context(original)
        Hit.clear_global_weights()


def _switching(r, m, start):
    ds = []
    for i in range(r.randint(2, 8)):
        k = ident(r)
        d = dict(zip(NAMES, k))
        d.update({'x': r.gauss(0, 10), 'local_weight': r.choice([1., 1., .5])})
        ds.append(d)
    bunch = gen.make_bunch(ds)
    pool = [(start, Model())]
    for _ in range(r.randint(1, 3)):
        wc, model = WeightContext(), Model()
        if r.random() < 0.5:
            model.default = r.choice([0.5, 2., 1.5])
            wc.set_default_weight(model.default)
        for _ in range(r.randint(0, 5)):
            set_weight(r, m, wc, model, ident(r), r.choice([0., .5, 2., 3.]))
        pool.append((wc, model))
    current = 0
    stack = []
    ops = []
    for step in range(r.randint(6, 24)):
        op = r.choice(['switch', 'switch', 'write', 'write', 'context write',
                       'push', 'pop', 'new hit', 'drop handle', 'clear',
                       'combine'])
        if op == 'switch':
            current = r.randrange(len(pool))
            Hitcore.set_weight_context(pool[current][0])
            m.event('switch')
        elif op == 'write':
            h = r.choice(bunch.hits())
            w = r.choice([0., 1., 2., r.uniform(0, 3)])
            h['global_weight'] = w
            pool[current][1].table[tuple(h[k] for k in NAMES)] = w
        elif op == 'context write':
            i = r.randrange(len(pool))
            set_weight(r, m, pool[i][0], pool[i][1], ident(r),
                       r.choice([0., 1., 2., .5]))
        elif op == 'push':
            handle = Hitcore.get_weight_context()
            stack.append((handle, current))
            judge(m, handle, pool[current][1], 'current context handle')
        elif op == 'pop' and stack:
            handle, current = stack.pop()
            Hitcore.set_weight_context(handle)
            m.event('restored')
            m.event('switch')
        elif op == 'new hit':
            k = ident(r)
            d = dict(zip(NAMES, k))
            d.update({'x': r.gauss(0, 10), 'local_weight': 1.})
            ds.append(d)
            bunch.append(Hit.new_from_dict(d))
        elif op == 'drop handle':
            # the current context must survive without any handle of ours
            keep = Hitcore.get_weight_context()
            pool[current] = (keep, pool[current][1])
            keep = None
            gc.collect()
            junk = [WeightContext() for _ in range(5)]
            for j in junk:
                j.set_weight(77., *ident(r))
            junk = j = None
            m.event('collected')
        elif op == 'clear':
            # all weights are 1 then, those that were never set included
            Hit.clear_global_weights()
            pool[current][1].table.clear()
            pool[current][1].default = 1.
            m.event('cleared')
        elif op == 'combine':
            i = r.randrange(len(pool))
            out = pool[i][0]*pool[current][0]
            pool.append((out, pool[i][1].combine(operator.mul,
                                                 pool[current][1])))
            m.event('binary')
        ops.append(op)
        m.note(ops)
        model = pool[current][1]
        ws = []
        for h, d in zip(bunch, ds):
            k = tuple(d[n] for n in NAMES)
            want = model.get(k)
            m.check(same(h['global_weight'], want),
                    'hit uses the current context', got=h['global_weight'],
                    want=want, ident=k, step=step)
            m.check(same(h['weight'], want*d['local_weight']),
                    'total weight uses the current context', step=step)
            ws.append(want*d['local_weight'])
        for wc, mod in pool:
            judge(m, wc, mod, 'contexts do not leak', step=step, op=op)
        total = math.fsum(ws)
        m.close(bunch.bunch_weight(), total, 'bunch weight', step=step)
        if total > 1e-6:
            mean = math.fsum(w*d['x'] for w, d in zip(ws, ds))/total
            m.close(bunch.mean(['x'])['x'], mean,
                    'mean uses the current context', rel=1e-10, abs_=1e-10,
                    step=step)
            var = math.fsum(w*(d['x']-mean)**2
                            for w, d in zip(ws, ds))/total
            m.close(bunch.moment(['x', 'x']), var,
                    'moment uses the current context', rel=1e-9, abs_=1e-9,
                    step=step)
            m.event('statistics')
    m.distinct(ops)
    m.sample(ops)


def refused(r, m):
    choose_particles(r)
    before = Hitcore.get_weight_context()
    for bad in (None, 1., 'x', [], Hitcore()):
        m.raises(Exception, lambda: Hitcore.set_weight_context(bad),
                 'non-context refused')
    h = Hit.new_from_dict({'spill': 1})
    m.check(h['global_weight'] == before.get_weight(1, 0, 0),
            'refusal keeps the context')
    wc = WeightContext()
    for args in ((), ('x',), (1., 'a'), (1., 0, 0, 0, 0, 0, 0),
                 (1., 2**40, 0, 0)):
        m.raises(Exception, lambda: wc.set_weight(*args), 'bad call refused',
                 args=args)
    m.check(all(wc.get_weight(*k) == 1. for k in KEYS),
            'refused write changes nothing')


SCENARIOS = [
    ('algebra', algebra, 700, 12000),
    ('switching', switching, 700, 12000),
    ('refused', refused, 20, 200),
]
