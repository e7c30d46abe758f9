"""P21: reference counts, shared data and memory of the native core."""
import collections
import ctypes
import gc
import sys
import weakref

from xmon import gen
from xboa.bunch import Bunch
from xboa.core import Bunchcore, Hitcore, WeightContext
from xboa.hit import Hit

ID = 'P21'
CPU_LIMIT = 200
RULE = ('ownership histories over hits, wrappers and bunches compared with a '
        'model of who holds what after every step (through the core\'s own '
        'table of live data); reference counts of every argument around valid '
        'and failing calls; growth of native and Python heaps over hundreds '
        'of repetitions of every call; distinct by history or call')
REQUIRED = {'ownership step': 15000, 'table compared': 12000,
            'data outlived its maker': 700, 'released': 1500,
            'reference counts': 4000, 'failing call': 1200,
            'repeated call': 60000, 'growth judged': 90,
            'library object released': 200, 'context lifetime': 400}


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
        'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info


def heap():
    info = LIBC.mallinfo2()
    return info.uordblks+info.hblkhd


def live():
    """How many owners each piece of shared hit data has"""
    return collections.Counter(Hitcore.dump_memory().values())


# -- who owns what -----------------------------------------------------------
def ownership(r, m):
    gc.collect()
    base = live()
    hits = []                  # [(wrapper, identity)]
    bunches = [[Bunchcore(), []] for _ in range(3)]
    fresh = [0]
    names = []
    made = {}

    def judge(name):
        m.event('ownership step')
        owners = collections.Counter()
        for _, ident in hits:
            owners[ident] += 1
        for _, slots in bunches:
            for ident in slots:
                if ident is not None:
                    owners[ident] += 1
        want = collections.Counter(owners.values())
        got = live()
        got.subtract(base)
        got = +got
        m.event('table compared')
        for ident in list(made):
            if ident not in owners:
                del made[ident]
                m.event('released')
            elif not any(i == ident for _, i in hits) and \
                    not made[ident]:
                made[ident] = True
                m.event('data outlived its maker')
        return m.check(got == want, 'live data is exactly what is held',
                       operation=name, table=dict(got), held=dict(want),
                       history=names[-8:])

    for _ in range(60):
        op = r.choice(['new', 'new', 'put', 'put', 'put', 'get', 'del',
                       'drop hit', 'drop hit', 'drop bunch', 'alias', 'reinit',
                       'bad', 'cut', 'gc', 'pad', 'drop while cutting'])
        b = r.randrange(3)
        bunch, slots = bunches[b]
        names.append(op)
        if op == 'new':
            fresh[0] += 1
            h = Hitcore()
            h.set('x', float(fresh[0]))
            hits.append((h, fresh[0]))
            made[fresh[0]] = False
            del h
        elif op == 'put' and hits:
            h, ident = r.choice(hits)
            k = r.randrange(len(slots)+1)
            bunch.set_item(h, k)
            slots[k:k+1] = [ident]
            del h
        elif op == 'pad' and hits:
            h, ident = r.choice(hits)
            k = len(slots)+r.randint(1, 4)
            bunch.set_item(h, k)
            slots.extend([None]*(k+1-len(slots)))
            slots[k] = ident
            del h
        elif op == 'get' and slots:
            k = r.randrange(len(slots))
            h = bunch.get_item(k)
            m.equal(None if h is None else int(h.get('x')), slots[k],
                    'a slot holds the data put there')
            if h is not None:
                hits.append((h, slots[k]))
            del h
        elif op == 'del' and slots:
            k = r.randrange(len(slots))
            bunch.del_item(k)
            del slots[k]
        elif op == 'drop hit' and hits:
            del hits[r.randrange(len(hits))]
        elif op == 'drop bunch':
            del bunch
            bunches[b] = [Bunchcore(), []]
            slots = bunches[b][1]
        elif op == 'alias' and hits:
            hits.append(r.choice(hits))     # same wrapper, one owner
            h, ident = hits.pop()
            for k, (other, _) in enumerate(hits):
                if other is h:
                    break
            del h, other
        elif op == 'reinit' and hits:
            hits[r.randrange(len(hits))][0].__init__()
        elif op == 'bad':
            for call in (lambda: bunch.set_item(3, 0),
                         lambda: bunch.get_item(10**6),
                         lambda: bunch.del_item(10**6),
                         lambda: bunch.moment(['nope'], {}),
                         lambda: bunch.moment([1], {}),
                         lambda: Hitcore().set('nope', 1.)):
                try:
                    call()
                except Exception:
                    pass
            del call
        elif op == 'cut' and None not in slots:
            bunch.cut_double('x', lambda p, q: False, 0., False)
        elif op == 'drop while cutting' and None not in slots and slots:
            def compare(p, q):
                while bunch.length():
                    bunch.del_item(0)
                return False
            try:
                bunch.cut_double('x', compare, 0., False)
            except Exception:
                pass
            del compare
            if bunch.length() == 0:
                del slots[:]
        elif op == 'gc':
            gc.collect()
        bunch = None
        if op == 'drop while cutting':
            gc.collect()
        if not judge(op):
            break
    order = r.sample(['hits', 'bunches'], 2)
    for name in order:
        if name == 'hits':
            hits[:] = []
        else:
            bunches[:] = []
            bunches.extend([Bunchcore(), []] for _ in range(3))
        names.append('end '+name)
        judge(names[-1])
    m.distinct(names)


WIDE = ('x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy')


# -- reference counts of arguments -------------------------------------------
class Weird(object):
    pass


def calls(r):
    """(name, function, positional arguments)"""
    hits = [Hitcore() for _ in range(6)]
    bunch = Bunchcore()
    for i, h in enumerate(hits[:5]):
        h.set('x', float(i)+.25)
        h.set('px', float(i)*.5)
        bunch.set_item(h, i)
    ctx, ctx2 = WeightContext(), WeightContext()
    ctx.set_weight(2.5, 1, 2, 3)
    odd = Weird()
    axes = [''.join(['x']), ''.join(['p', 'x'])]
    means = {''.join(['x']): 1.5}
    big = 123456789012345678901
    text = ''.join(['no ', 'such'])
    number = float(r.choice(['12.75', '0', '1', '-3.5', 'inf', '-0.']))
    whole = int('987654')

    def cmp(a, b):
        return a > b

    def boom(a, b):
        raise ValueError('boom')

    def junk(a, b):
        return odd
    return [
        ('get', hits[0].get, (axes[0],)), ('get pid', hits[0].get, ('pid',)),
        ('get bad', hits[0].get, (text,)), ('get type', hits[0].get, (odd,)),
        ('set', hits[5].set, ('y', number)),
        ('set int', hits[5].set, ('pid', whole)),
        ('set bad', hits[5].set, (text, number)),
        ('set type', hits[5].set, ('y', odd)),
        ('set big', hits[5].set, ('pid', big)),
        ('set float to int', hits[5].set, ('pid', number)),
        ('set none', hits[5].set, ('y', None)),
        ('vars', Hitcore.get_variables, ()),
        ('set vars', Hitcore.set_variables, ()),
        ('dump', Hitcore.dump_memory, ()),
        ('current', Hitcore.get_weight_context, ()),
        ('switch', Hitcore.set_weight_context, (ctx,)),
        ('switch bad', Hitcore.set_weight_context, (odd,)),
        ('clear', Hitcore.clear_global_weights, ()),
        ('hit ==', hits[0].__eq__, (hits[1],)),
        ('hit == odd', hits[0].__eq__, (odd,)),
        ('hit !=', hits[0].__ne__, (hits[0],)),
        ('new hit', Hitcore, ()), ('new bunch', Bunchcore, ()),
        ('new context', WeightContext, ()),
        ('init', hits[0].__init__, ()),
        ('get_item', bunch.get_item, (2,)),
        ('get_item bad', bunch.get_item, (whole,)),
        ('get_item big', bunch.get_item, (big,)),
        ('get_item type', bunch.get_item, (odd,)),
        ('set_item', bunch.set_item, (hits[5], 3)),
        ('set_item back', bunch.set_item, (hits[3], 3)),
        ('set_item type', bunch.set_item, (odd, 1)),
        ('set_item index', bunch.set_item, (hits[0], odd)),
        ('set_item big', bunch.set_item, (hits[0], big)),
        ('set_item huge', bunch.set_item, (hits[0], 2**62)),
        ('set_item memory', bunch.set_item, (hits[0], 2**45)),
        ('del_item bad', bunch.del_item, (whole,)),
        ('length', bunch.length, ()),
        ('moment', bunch.moment, (axes, means)),
        ('moment none', bunch.moment, (axes, {})),
        ('moment bad axis', bunch.moment, ([text], {})),
        ('moment odd axis', bunch.moment, ([axes[0], odd], {})),
        ('moment odd mean', bunch.moment, (axes, {axes[0]: odd})),
        ('moment odd key', bunch.moment, (axes, {odd: number})),
        ('moment types', bunch.moment, (odd, odd)),
        ('matrix', bunch.covariance_matrix, (axes, means)),
        ('matrix bad', bunch.covariance_matrix, ([text], means)),
        ('matrix odd', bunch.covariance_matrix, (axes, odd)),
        ('tensor', bunch.moment_tensor, (axes, 2)),
        ('tensor wide', bunch.moment_tensor, (list(WIDE), 4)),
        ('tensor bad', bunch.moment_tensor, ([text], 2)),
        ('tensor odd', bunch.moment_tensor, (axes, odd)),
        ('power', bunch.index_by_power, (3, 2)),
        ('power wide', bunch.index_by_power, (5, 8)),
        ('power bad', bunch.index_by_power, (-1, 2)),
        ('cut', bunch.cut_double, (axes[0], cmp, number, False)),
        ('cut global', bunch.cut_double, (axes[0], cmp, number, True)),
        ('cut boom', bunch.cut_double, (axes[0], boom, number, False)),
        ('cut junk', bunch.cut_double, (axes[0], junk, number, False)),
        ('cut bad', bunch.cut_double, (text, cmp, number, False)),
        ('cut odd', bunch.cut_double, (axes[0], odd, number, False)),
        ('ctx get', ctx.get_weight, (1, 2, 3)),
        ('ctx set', ctx.set_weight, (number, 1, 2, 3)),
        ('ctx set bad', ctx.set_weight, (odd,)),
        ('ctx default', ctx.get_default_weight, ()),
        ('ctx set default', ctx.set_default_weight, (number,)),
        ('ctx set default bad', ctx.set_default_weight, (odd,)),
        ('ctx +', ctx.__add__, (ctx2,)), ('ctx -', ctx.__sub__, (ctx2,)),
        ('ctx *', ctx.__mul__, (ctx2,)), ('ctx /', ctx.__truediv__, (ctx2,)),
        ('ctx + number', ctx.__add__, (number,)),
        ('ctx * number', ctx.__mul__, (number,)),
        ('number + ctx', ctx.__radd__, (number,)),
        ('number / ctx', ctx.__rtruediv__, (number,)),
        ('ctx + odd', ctx.__add__, (odd,)),
        ('odd + ctx', ctx.__radd__, (odd,)),
        ('ctx + whole', ctx.__add__, (whole,)),
        ('~ctx', ctx.__invert__, ()), ('ctx ==', ctx.__eq__, (ctx2,)),
        ('ctx == odd', ctx.__eq__, (odd,)),
    ]


def run(fn, args):
    try:
        fn(*args)
    except Exception:
        return False
    return True


def deep(obj):
    """Everything an argument is made of"""
    out = [obj]
    if isinstance(obj, (list, tuple)):
        for x in obj:
            out += deep(x)
    if isinstance(obj, dict):
        for k, v in obj.items():
            out += deep(k)+deep(v)
    return out


def references(r, m):
    import os
    null = os.open(os.devnull, os.O_WRONLY)
    os.close(null)
    for name, fn, args in calls(r):
        run(fn, args)           # whatever is cached is cached now
        objs = [o for a in args for o in deep(a)]+[fn.__self__ if getattr(
            fn, '__self__', None) is not None else fn]
        gc.disable()
        was = [sys.getrefcount(o) for o in objs]
        for _ in range(7):
            ok = run(fn, args)
        now = [sys.getrefcount(o) for o in objs]
        gc.enable()
        m.event('reference counts', len(objs))
        if not ok:
            m.event('failing call', 7)
        m.equal(now, was, 'reference counts come back', call=name,
                objects=objs)
        m.distinct(name)
    Hitcore.set_weight_context(WeightContext())


# -- growth ------------------------------------------------------------------
REPEAT = 300


def growth(r, m):
    table = calls(r)
    name, fn, args = r.choice(table)
    judge_growth(m, name, lambda: run(fn, args))
    Hitcore.set_weight_context(WeightContext())
    m.distinct(name)


def judge_growth(m, name, act, repeat=REPEAT):
    for _ in range(40):
        act()
    rounds = []
    for _ in range(4):
        gc.collect()
        blocks, bytes_, table = (sys.getallocatedblocks(), heap(),
                                 sum(live().values()))
        for _ in range(repeat):
            act()
        gc.collect()
        rounds.append((sys.getallocatedblocks()-blocks, heap()-bytes_,
                       sum(live().values())-table))
        m.event('repeated call', repeat)
    m.event('growth judged')
    for k, what in enumerate(['python objects', 'native memory',
                              'live hit data']):
        # a leak of anything per call shows in every round
        least = min(x[k] for x in rounds)
        limit = (.7, 8., .5)[k]*repeat
        m.check(least < limit, what+' bounded under repetition', call=name,
                rounds=rounds, repetitions=repeat)


def library_growth(r, m):
    """Whole operations of the library, as a long-running user repeats them"""
    ds = gen.bunch_dicts(r, 6, pid=-13, weights='unit')
    b = gen.make_bunch(ds)
    other = gen.make_bunch(ds)

    def fail(fn):
        try:
            fn()
        except Exception:
            pass
    acts = {
        'hit copy': lambda: b[0].deepcopy(),
        'hit from dict': lambda: gen.make_hit(ds[0]),
        'bunch deepcopy': lambda: b.deepcopy(),
        'bunch copy': lambda: b.copy(),
        'slice': lambda: b[1:4],
        'index': lambda: b[2],
        'iterate': lambda: [h['x'] for h in b],
        'append and delete': lambda: (b.append(other[0]),
                                      b.__delitem__(len(b)-1)),
        'replace': lambda: b.__setitem__(1, other[1]),
        'moments': lambda: b.covariance_matrix(['x', 'px', 'y']),
        'mean': lambda: b.mean(['x', 'energy', 'p']),
        'emittance': lambda: b.get_emittance(['x', 'y']),
        'cut': lambda: (b.cut({'x': 0.}, lambda p, q: p > q),
                        b.clear_local_weights()),
        'global cut': lambda: (b.cut({'x': 0.}, lambda p, q: p > q, True),
                               Hit.clear_global_weights()),
        'split': lambda: b.split('station'),
        'transform': lambda: b.translate({'x': 1.}),
        'bad query': lambda: fail(lambda: b.mean(['no_such'])),
        'bad set': lambda: fail(lambda: b[0].set('x', 'text')),
        'bad get': lambda: fail(lambda: b[0].get('no_such')),
        'repr': lambda: repr(b),
        'compare': lambda: b == other,
        'weights': lambda: (b[0].set('global_weight', 2.),
                            Hit.clear_global_weights()),
    }
    name = r.choice(sorted(acts))
    judge_growth(m, name, acts[name])
    m.distinct('library', name)
    m.event('library object released')


def library_release(r, m):
    """Everything made in a round is gone when the round ends"""
    def make():
        ds = gen.bunch_dicts(r, r.randint(1, 9), pid=-13, weights='wild')
        b = gen.make_bunch(ds)
        c = b.deepcopy()
        d = b[0:len(b)//2]
        [c.append(x) for x in b[0:r.randint(1, 3)]]
        del c[0]
        h = b[0].deepcopy()
        e = b.get_hits('station', ds[0]['station'])
        f = b.split('station')
        keep = [b, c, d, h, e, f]
        r.shuffle(keep)
        while keep:
            keep.pop()
            if r.random() < .3 and keep and isinstance(keep[-1], Bunch):
                for hit in keep[-1]:
                    m.check(isinstance(hit['x'], float), 'shared data lives')
        if r.random() < .3:
            try:
                b.mean(['nope'])
            except Exception:
                pass
    make()
    gc.collect()
    base = live()
    for _ in range(5):
        make()
        gc.collect()
        m.equal(live(), base, 'nothing is left of what went out of scope')
        m.event('library object released')
    m.distinct(r.random())


def context_lifetime(r, m):
    """A context lives while it is current or held, not longer"""
    class Sub(WeightContext):
        pass
    names = []
    current = 1.
    Hitcore.set_weight_context(WeightContext())
    h = Hitcore()
    pool = []
    for _ in range(25):
        op = r.choice(['new', 'use', 'use', 'drop', 'drop', 'current',
                       'arith'])
        names.append(op)
        if op == 'new':
            c = r.choice([WeightContext, WeightContext, Sub])()
            c.set_default_weight(float(r.randrange(2, 9)))
            pool.append((c, c.get_default_weight()))
            ref = weakref.ref(Sub())
            m.check(ref() is None, 'wrapper of a context released')
            del c
        elif op == 'use' and pool:
            c, current = r.choice(pool)
            Hitcore.set_weight_context(c)
            del c
        elif op == 'drop' and pool:
            del pool[r.randrange(len(pool))]
            gc.collect()
        elif op == 'current':
            pool.append((Hitcore.get_weight_context(), current))
        elif op == 'arith' and pool:
            c, w = r.choice(pool)
            pool.append((c+1., w+1.))
            del c
        h.set('event_number', r.randrange(1000))
        m.equal(h.get('global_weight'), current,
                'the current context stays alive', history=names[-6:])
        for c, w in pool:
            m.equal(c.get_default_weight(), w, 'a held context stays alive',
                    history=names[-6:])
        m.event('context lifetime')
    Hitcore.set_weight_context(WeightContext())
    m.distinct(names)


SCENARIOS = [('ownership', ownership, 500, 12000),
             ('references', references, 30, 300),
             ('growth', growth, 240, 1500),
             ('library_growth', library_growth, 60, 600),
             ('library_release', library_release, 60, 900),
             ('context_lifetime', context_lifetime, 60, 1200)]
