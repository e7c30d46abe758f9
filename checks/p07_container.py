"""P07: a bunch against a plain list driven by the same operations."""
import math
import operator

from xmon import gen
from xboa.hit import Hit
from xboa.bunch import Bunch
from xboa.core import Bunchcore, Hitcore

ID = 'P07'
RULE = ('random container histories over bunches that share hits, with '
        'refused operations; non-trivial when negative or slice indices or '
        'shared hits occur; distinct by operation sequence')
REQUIRED = {'append': 900, 'set': 800, 'slice set': 500, 'delete': 800,
            'slice delete': 400, 'refused': 600, 'statistics': 6000,
            'split': 300, 'removed by condition': 300, 'deepcopy': 300,
            'hit changed': 700, 'native container': 800}


def fresh(r, counter):
    counter[0] += 1
    d = {'x': r.gauss(0, 10), 'px': r.gauss(0, 20), 'station': r.randint(0, 3),
         'event_number': counter[0], 'spill': r.randint(0, 2),
         'local_weight': r.choice([0., 1., 1., .5, r.uniform(.1, 3)])}
    return Hit.new_from_dict(d)


def judge(m, b, model, step, op):
    m.check(len(b) == len(model), 'length', got=len(b), want=len(model),
            step=step, op=op)
    got = list(b)
    same = len(got) == len(model) and \
        all(g is w for g, w in zip(got, model))
    m.check(same, 'iteration gives the hits in order', step=step, op=op)
    same = len(b.hits()) == len(model) and \
        all(g is w for g, w in zip(b.hits(), model))
    m.check(same, 'hits() gives the hits in order', step=step, op=op)
    n = len(model)
    for i in range(-n, n):
        if not b[i] is model[i]:
            m.fail('indexing', index=i, step=step, op=op)
    ws = [h['local_weight']*h['global_weight'] for h in model]
    xs = [h['x'] for h in model]
    ps = [h['px'] for h in model]
    total = math.fsum(ws)
    m.close(b.bunch_weight(), total, 'bunch weight', step=step, op=op)
    vals = b.list_get_hit_variable(['x', 'px'])
    m.check(vals == [xs, ps], 'listed values', step=step, op=op)
    if total > 1e-6:
        mx = math.fsum(w*x for w, x in zip(ws, xs))/total
        mp = math.fsum(w*x for w, x in zip(ws, ps))/total
        got = b.mean(['x', 'px'])
        m.close(got, {'x': mx, 'px': mp}, 'mean', rel=1e-9, abs_=1e-9,
                step=step, op=op)
        cov = math.fsum(w*(x-mx)*(p-mp)
                        for w, x, p in zip(ws, xs, ps))/total
        m.close(b.moment(['x', 'px']), cov, 'moment', rel=1e-8, abs_=1e-8,
                step=step, op=op)
        m.event('statistics')
    else:
        m.raises(ZeroDivisionError, lambda: b.moment(['x']),
                 'no statistic without weight')


def rslice(r, n):
    def pick():
        return r.choice([None, r.randint(-n-2, n+2)])
    step = r.choice([None, None, 1, 2, -1, -2, 3])
    return slice(pick(), pick(), step)


def histories(r, m):
    counter = [0]
    pool = [fresh(r, counter) for _ in range(6)]
    start = [r.choice(pool) for _ in range(r.randint(0, 5))]
    b = Bunch()
    for h in start:
        b.append(h)
    pairs = [(b, list(start))]
    ops = []
    for step in range(r.randint(8, 24)):
        i = r.randrange(len(pairs))
        b, model = pairs[i]
        n = len(model)
        op = r.choice(['append', 'append', 'set', 'set', 'slice set',
                       'delete', 'delete', 'slice delete', 'bad', 'bad',
                       'remove', 'split', 'deepcopy', 'copy', 'change',
                       'change', 'cut', 'getslice'])
        ops.append(op)
        m.note(ops)
        h = r.choice([fresh(r, counter), r.choice(pool)])
        if op == 'append':
            b.append(h)
            model.append(h)
            m.event('append')
        elif op == 'set' and n:
            k = r.randrange(-n, n)
            b[k] = h
            model[k] = h
            m.event('set')
        elif op == 'slice set':
            s = rslice(r, n)
            size = len(model[s]) if s.step not in (None, 1) else r.randint(0, 3)
            new = [r.choice(pool) for _ in range(size)]
            b[s] = new
            model[s] = new
            m.event('slice set')
        elif op == 'delete' and n:
            k = r.randrange(-n, n)
            del b[k]
            del model[k]
            m.event('delete')
        elif op == 'slice delete':
            s = rslice(r, n)
            if len(model[s]) > 3:
                s = slice(0, 1)
            del b[s]
            del model[s]
            m.event('slice delete')
        elif op == 'getslice':
            s = rslice(r, n)
            got = b[s]
            m.check([id(g) for g in got] == [id(w) for w in model[s]],
                    'slicing', s=s)
        elif op == 'bad':
            refused(r, m, b, n, h)
        elif op == 'remove':
            cut = r.gauss(0, 10)
            cmp_ = r.choice([operator.gt, operator.lt, operator.ge])
            b.conditional_remove({'x': cut}, cmp_)
            model[:] = [x for x in model if not cmp_(x['x'], cut)]
            m.event('removed by condition')
        elif op == 'split':
            groups = b.split('station')
            want = {}
            for x in model:
                want.setdefault(x['station'], []).append(x)
            m.check(set(groups) == set(want), 'split keys')
            for k in want:
                judge(m, groups[k], want[k], step, 'split')
            if want and len(pairs) < 4:
                k = r.choice(sorted(want))
                pairs.append((groups[k], want[k]))
            m.event('split')
        elif op == 'deepcopy':
            c = r.choice([b.deepcopy, lambda: __import__('copy').deepcopy(b),
                          lambda: Bunch.new_from_hits(b.hits())])()
            cm = list(c)
            m.check(len(cm) == n and all(
                gen.state(a) == gen.state(w) and a is not w
                for a, w in zip(cm, model)), 'deep copy has own equal hits')
            if len(pairs) < 4:
                pairs.append((c, cm))
            m.event('deepcopy')
        elif op == 'copy':
            c = b.copy()
            judge(m, c, model, step, 'copy')
        elif op == 'change' and n:
            k = r.randrange(n)
            var = r.choice(['x', 'px', 'local_weight', 'station'])
            value = r.randint(0, 3) if var == 'station' else \
                abs(r.gauss(0, 3)) if var == 'local_weight' else r.gauss(0, 10)
            target = r.choice([model[k], b[k], b.hits()[k]])
            target[var] = value
            m.event('hit changed')
        elif op == 'cut':
            cut = r.gauss(0, 10)
            before = [(x, x['local_weight'], x['x']) for x in model]
            b.cut({'x': cut}, operator.gt)
            m.check(all(x['local_weight'] == (0. if v > cut else w)
                        for x, w, v in before), 'cut reaches the listed hits')
        for b, model in pairs:
            judge(m, b, model, step, op)
    m.distinct(ops)
    m.sample(ops)


def refused(r, m, b, n, h):
    kind = r.randrange(7)
    if kind == 0:
        k = r.choice([n, n+3, -n-1, 10**6])
        m.raises(IndexError, lambda: operator.setitem(b, k, h),
                 'index out of range refused', k=k)
    elif kind == 1:
        k = r.choice([n, n+3, -n-1, -10**6])
        m.raises(IndexError, lambda: operator.delitem(b, k),
                 'index out of range refused', k=k)
    elif kind == 2:
        k = r.choice([n, -n-1])
        m.raises(IndexError, lambda: b[k], 'index out of range refused', k=k)
    elif kind == 3:
        bad = r.choice([None, 1., 'hit', [], Hitcore()])
        m.raises(Exception, lambda: b.append(bad), 'non-hit refused')
    elif kind == 4 and n:
        bad = r.choice([None, 1., 'hit', [], Hitcore()])
        m.raises(Exception, lambda: operator.setitem(b, r.randrange(n), bad),
                 'non-hit refused')
    elif kind == 5 and n > 1:
        m.raises(ValueError, lambda: operator.setitem(
            b, slice(None, None, 2), [h]*(n+5)), 'wrong size refused')
    else:
        bad = r.choice([[h, None], [1.], 5])
        m.raises(Exception, lambda: operator.setitem(
            b, slice(0, 1), bad), 'non-hits refused')
    m.event('refused')


def native(r, m):
    """The native container on its own"""
    core = Bunchcore()
    model = []
    for step in range(r.randint(5, 20)):
        op = r.choice(['append', 'append', 'set', 'change', 'bad'])
        n = len(model)
        h = Hitcore()
        h.set('x', r.gauss(0, 10))
        h.set('px', r.gauss(0, 10))
        h.set('local_weight', r.uniform(.1, 2))
        if op == 'append':
            core.set_item(h, n)
            model.append(h)
        elif op == 'set' and n:
            k = r.randrange(n)
            core.set_item(h, k)
            model[k] = h
        elif op == 'change' and n:
            k = r.randrange(n)
            handle = r.choice([model[k], core.get_item(k)])
            handle.set('x', r.gauss(0, 5))
        elif op == 'bad':
            m.raises(Exception, lambda: core.set_item(None, 0), 'refused')
            m.raises(Exception, lambda: core.set_item(h, 'a'), 'refused')
            m.raises(Exception, lambda: core.get_item(n+1+r.randrange(5)),
                     'refused')
            huge = r.choice([2**63, 2**64+1, 10**30, -2**63-1, -10**30])
            m.raises(Exception, lambda: core.get_item(huge), 'refused')
            m.raises(Exception, lambda: core.set_item(h, huge), 'refused')
            m.raises(Exception, lambda: core.del_item(huge), 'refused')
        m.check(core.length() == len(model) and len(core) == len(model),
                'native length')
        for k, w in enumerate(model):
            g = core.get_item(k)
            if (g.get('x'), g.get('px')) != (w.get('x'), w.get('px')):
                m.fail('native item', index=k, step=step, op=op)
        if model:
            ws = [w.get('local_weight') for w in model]
            xs = [w.get('x') for w in model]
            t = math.fsum(ws)
            m.close(core.moment(['x'], {'x': 0.}),
                    math.fsum(a*b for a, b in zip(ws, xs))/t,
                    'native mean', rel=1e-9, abs_=1e-9)
        m.event('native container')


def long(r, m):
    """Growth over many hits, past any reserve of the native vector"""
    counter = [0]
    b, model = Bunch(), []
    for k in range(r.choice([33, 129, 300, 300, 1100, 4100])):
        h = fresh(r, counter)
        b.append(h)
        model.append(h)
    judge(m, b, model, 0, 'long')
    for k in range(20):
        i = r.randrange(len(model))
        del b[i]
        del model[i]
        h = fresh(r, counter)
        i = r.randrange(-len(model), len(model))
        b[i] = h
        model[i] = h
    judge(m, b, model, 1, 'long')
    s = slice(r.randrange(50), None, r.randint(1, 4))
    del b[s]
    del model[s]
    judge(m, b, model, 2, 'long')


SCENARIOS = [('long', long, 12, 200),
             ('histories', histories, 700, 12000),
             ('native', native, 300, 4000)]
