"""Hostile histories on the native core alone (imports nothing but it)."""
import contextlib
import copy
import gc
import io
import json
import math
import pickle
import random
import sys
import weakref

from xmon.monitor import Monitor
from xboa.core import Bunchcore, Hitcore, WeightContext

DOUBLES = [v for v in Hitcore.set_variables() if v in (
    'x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'mass', 'bx', 'ex',
    'local_weight', 'global_weight', 'proper_time', 'path_length')]
WORDS = ['x', 'y', 'px', 'energy', 'pid', 'station', 'event_number',
         'particle_number', 'spill', 'local_weight', 'global_weight', 'weight',
         '', 'no such', 'x\0y', '\u00e9', '\ud800', 'x'*5000, "x'", 'X']


class SubHit(Hitcore):
    def __init__(self, *args):
        Hitcore.__init__(self)
        self.a, self.b, self.c = 'a'*40, [1, 2], {}
        self.me = self            # a cycle


class SlotHit(Hitcore):
    __slots__ = ('one', 'two', 'three', 'four', '__weakref__')


class SubBunch(Bunchcore):
    def __init__(self):
        Bunchcore.__init__(self)
        self.held = [self, 'b'*50]


class SubContext(WeightContext):
    def __init__(self):
        WeightContext.__init__(self)
        self.extra = {'k': [1]*30}


class Lazy(Hitcore):
    """Never calls the constructor of the native class"""
    def __init__(self):
        self.z = 1


class LazyBunch(Bunchcore):
    def __init__(self):
        self.z = 1


class Evil(object):
    """Runs caller's code whenever the core asks it for anything"""
    def __init__(self, action, value):
        self.action, self.value = action, value

    def __float__(self):
        self.action()
        return self.value

    def __index__(self):
        self.action()
        return int(self.value)

    def __bool__(self):
        self.action()
        return self.value > 0

    def __eq__(self, other):
        self.action()
        return True

    def __hash__(self):
        self.action()
        return 3


class EvilFloat(float):
    def __float__(self):
        return 1.5


class Fake(object):
    """Claims a class it does not have"""
    def __init__(self, kind):
        self.kind = kind

    @property
    def __class__(self):
        return self.kind


class Pool(object):
    def __init__(self, r, m):
        self.r, self.m = r, m
        self.hits, self.bunches, self.contexts = [], [], []
        self.tags = 0
        for _ in range(4):
            self.new_hit()
            self.new_bunch()
        self.new_context()

    def new_hit(self):
        r = self.r
        kind = r.choice([Hitcore]*4+[SubHit, SlotHit, Lazy])
        if kind is not Hitcore:
            self.m.event('subclass')
        if r.random() < .05:
            self.m.event('uninitialised')
            self.hits.append(kind.__new__(kind))
            return
        if kind is Lazy:
            self.m.event('uninitialised')
        h = kind()
        if kind is not Lazy:
            self.tag(h)
        self.hits.append(h)

    def tag(self, h):
        """The same number in two fields: a mismatch is someone else's data"""
        self.tags += 1
        h.set('y', float(self.tags))
        h.set('station', self.tags)

    def new_bunch(self):
        kind = self.r.choice([Bunchcore]*3+[SubBunch, LazyBunch])
        if kind is not Bunchcore:
            self.m.event('subclass')
        self.bunches.append(kind())

    def new_context(self):
        self.contexts.append(self.r.choice([WeightContext, SubContext])())

    def drop(self):
        self.m.event('object dropped')
        group = self.r.choice([self.hits, self.bunches, self.contexts])
        if len(group) > 1:
            del group[self.r.randrange(len(group))]
        if self.r.random() < .1:
            gc.collect()

    def read_all(self):
        """Touch every byte that is reachable, and check the tags"""
        m = self.m
        m.event('whole pool read')
        seen = list(self.hits)
        for b in self.bunches:
            try:
                n = b.length()
            except TypeError:
                continue
            m.check(0 <= n < 10**7, 'sane length', length=n)
            for i in range(min(n, 400)):
                h = b.get_item(i)
                if h is not None:
                    seen.append(h)
        for h in seen:
            try:
                y = h.get('y')
            except TypeError:
                continue          # never initialised
            m.check(isinstance(y, float) and y == h.get('station'),
                    'a hit reads its own data', y=y, station=h.get('station'))
            for v in Hitcore.get_variables():
                h.get(v)
        for c in self.contexts:
            m.check(isinstance(c.get_weight(1, 1, 1), float),
                    'a context reads a number')
            c.get_default_weight()


def hostile(pool):
    r = pool.r
    return r.choice([
        0, 1, -1, 5, -7, 2**31-1, 2**31, -2**31-1, 2**63-1, 2**63, -2**63-1,
        2**200, 2**60+3, True, 0., -0., math.nan, math.inf, -math.inf, 1e308,
        5e-324, 'x', '', 'x\0y', '\ud800', b'x', b'', None, [], {}, (), set(),
        object(), Hitcore, type, print, ['x'], ['x', 1], [None], {'x': 1.},
        {'x': 1}, {1: 2.}, {'x': None}, 3+4j, r.choice(pool.hits),
        r.choice(pool.bunches), r.choice(pool.contexts), slice(1),
        Evil(lambda: None, 1.), Evil(lambda: 1/0, 1.), EvilFloat(3.),
        Fake(WeightContext), Fake(Hitcore), Fake(Bunchcore), Fake(float),
        Fake(int), Fake(str), Fake(list),
        Evil(pool.drop, 2.), NotImplemented, range(3)])


def invoke(pool, fn, args=(), kwargs=None):
    """Call; anything but an ordinary error or answer is a violation"""
    m = pool.m
    m.event('call')
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return True, fn(*args, **(kwargs or {}))
    except SystemError as err:
        m.fail('ordinary error', function=getattr(fn, '__name__', fn),
               raised=repr(err), arguments=args, cause=repr(err.__cause__))
    except Exception:
        m.event('refused')
    return False, None


def scramble(pool, bunch, index):
    """A comparator or conversion that changes what the core is walking"""
    r, m = pool.r, pool.m
    m.event('mutated in comparator')
    kind = r.randrange(8)
    try:
        if kind == 0:
            while bunch.length():
                bunch.del_item(0)
        elif kind == 1:
            for _ in range(r.choice([1, 3, 40])):
                bunch.set_item(r.choice(pool.hits), bunch.length())
        elif kind == 2:
            bunch.del_item(r.randrange(max(1, bunch.length())))
            gc.collect()
        elif kind == 3:
            pool.drop()
        elif kind == 4 and index < 3:
            cut(pool, bunch, index+1)
        elif kind == 5:
            h = Hitcore()
            pool.tag(h)
            bunch.set_item(h, r.randrange(bunch.length()+1))
        elif kind == 6:
            Hitcore.clear_global_weights()
            Hitcore.set_weight_context(r.choice(pool.contexts))
        else:
            bunch.moment(['x', 'px'], {})
    except Exception as err:
        m.check(not isinstance(err, SystemError), 'ordinary error',
                raised=repr(err))


def cut(pool, bunch, depth=0):
    r, m = pool.r, pool.m
    m.event('re-entrant')
    plan = r.choice(['cmp', 'cut', 'global', 'none', 'junk', 'raise'])
    count = [0]

    def compare(a, b):
        count[0] += 1
        if count[0] > 50:
            return False
        if plan == 'cmp' and r.random() < .5:
            scramble(pool, bunch, depth)
        if plan == 'raise' and count[0] == 2:
            raise ValueError('comparator')
        if plan == 'junk' and count[0] == 2:
            return r.choice([None, 1, 'yes', object()])
        return a > b
    value = .5
    flag = r.choice([True, False, 1, None])
    if plan == 'cut':
        value = Evil(lambda: scramble(pool, bunch, depth), .5)
    if plan == 'global':
        flag = Evil(r.choice([lambda: scramble(pool, bunch, depth),
                              lambda: 1/0]), 1.)
    invoke(pool, bunch.cut_double, (r.choice(['x', 'y', 'pz', 'weight',
                                              'r', 'nope']),
                                    compare, value, flag))


def step(pool):
    r, m = pool.r, pool.m
    hit, other = r.choice(pool.hits), r.choice(pool.hits)
    bunch = r.choice(pool.bunches)
    ctx, ctx2 = r.choice(pool.contexts), r.choice(pool.contexts)
    kind = r.choice(['make', 'make', 'drop', 'drop', 'get', 'set', 'set',
                     'set item', 'set item', 'set item', 'get item', 'del',
                     'del', 'moment', 'matrix', 'tensor', 'power', 'cut',
                     'cut', 'context', 'arith', 'arith', 'compare', 'weights',
                     'hostile', 'hostile', 'hostile', 'hostile', 'hostile',
                     'hostile', 'hostile', 'init', 'copy', 'evil set',
                     'class', 'weak'])
    if kind != 'hostile':
        m.event('valid call')
    try:
        n = bunch.length()
    except TypeError:
        n = 0
    if kind == 'make':
        r.choice([pool.new_hit, pool.new_hit, pool.new_bunch,
                  pool.new_context])()
        for group in (pool.hits, pool.bunches, pool.contexts):
            if len(group) > 14:
                del group[:5]
    elif kind == 'drop':
        pool.drop()
    elif kind == 'get':
        invoke(pool, hit.get, (r.choice(Hitcore.get_variables()),))
    elif kind == 'set':
        v = r.choice(DOUBLES+['pid', 'event_number', 'particle_number',
                              'spill', 'charge', 'status'])
        if v != 'y':
            invoke(pool, hit.set, (v, r.choice([1, -3, 2**31-1, 0])
                                   if v not in DOUBLES else
                                   r.gauss(0, 10)))
    elif kind == 'set item':
        where = r.choice([n, n, n, 0, n//2, n+3, n+60, -1, -n])
        invoke(pool, bunch.set_item, (hit, where))
    elif kind == 'get item' and n:
        ok, h = invoke(pool, bunch.get_item, (r.randrange(n),))
        if ok and h is not None:
            pool.hits.append(h)
    elif kind == 'del':
        invoke(pool, bunch.del_item, (r.choice([0, n-1, n//2, n, -1]),))
    elif kind == 'moment':
        axes = [r.choice(['x', 'px', 'energy', 't', 'nope', 'pid'])
                for _ in range(r.randint(0, 4))]
        ok, got = invoke(pool, bunch.moment, (axes, r.choice(
            [{}, {'x': 1.}, {'nope': 2.}, {a: 0. for a in axes}])))
        if ok:
            m.check(isinstance(got, float), 'a moment is a float', got=got)
    elif kind == 'matrix':
        axes = r.sample(['x', 'px', 'y', 'py', 'energy'], r.randint(0, 5))
        invoke(pool, bunch.covariance_matrix, (axes, r.choice(
            [{}, {a: 1. for a in axes}])))
    elif kind == 'tensor':
        axes = [r.choice(['x', 'px', 'y', 'nope']) for _ in
                range(r.randint(0, 3))]
        invoke(pool, bunch.moment_tensor, (axes, r.choice([0, 1, 2, 3])))
    elif kind == 'power':
        invoke(pool, bunch.index_by_power, (r.randint(0, 4),
                                            r.randint(-1, 4)))
    elif kind == 'cut':
        cut(pool, bunch)
    elif kind == 'context':
        m.event('context switch')
        if r.random() < .5:
            invoke(pool, Hitcore.set_weight_context, (ctx,))
        else:
            ok, got = invoke(pool, Hitcore.get_weight_context)
            if ok:
                pool.contexts.append(got)
    elif kind == 'arith':
        op = r.choice([lambda a, b: a+b, lambda a, b: a-b, lambda a, b: a*b,
                       lambda a, b: a/b, lambda a, b: ~a, lambda a, b: a+2.,
                       lambda a, b: 2*a, lambda a, b: a/0., lambda a, b: 3-a,
                       lambda a, b: '4'+a, lambda a, b: a*None,
                       lambda a, b: a+Evil(pool.drop, 1.), lambda a, b: a-a,
                       lambda a, b: 2./a, lambda a, b: a+Evil(
                           lambda: 1/0, 1.), lambda a, b: [1]*a,
                       lambda a, b: a**2, lambda a, b: -a])
        ok, got = invoke(pool, op, (ctx, ctx2))
        if ok:
            m.check(isinstance(got, WeightContext), 'arithmetic gives a '
                    'context', got=got)
            pool.contexts.append(got)
    elif kind == 'compare':
        for op in (lambda a, b: a == b, lambda a, b: a != b,
                   lambda a, b: a < b):
            invoke(pool, op, (hit, other))
            invoke(pool, op, (hit, hostile(pool)))
            invoke(pool, op, (ctx, r.choice([ctx2, hostile(pool)])))
            invoke(pool, op, (bunch, hostile(pool)))
    elif kind == 'weights':
        invoke(pool, ctx.set_weight, (r.gauss(0, 1), r.randrange(3),
                                      r.randrange(3), r.randrange(3)))
        invoke(pool, ctx.set_default_weight, (r.gauss(0, 1),))
        invoke(pool, ctx.get_weight, (), {'spill': 1, 'particle_number': 2})
        invoke(pool, ctx.set_weight, (), {'weight': 2., 'event_number': 1})
        invoke(pool, ctx.print_address)
        invoke(pool, Hitcore.clear_global_weights)
    elif kind == 'init':
        for obj in (hit, bunch, ctx):
            if not isinstance(obj, (Lazy, LazyBunch, SubHit)):
                invoke(pool, obj.__init__, r.choice([(), (1, 'x')]))
                if isinstance(obj, Hitcore):
                    fix_tag(pool, obj)
    elif kind == 'copy':
        m.event('copied')
        for obj in (hit, bunch, ctx):
            for how in (copy.copy, copy.deepcopy,
                        lambda o: pickle.loads(pickle.dumps(o))):
                if type(obj) in (Hitcore, Bunchcore, WeightContext):
                    ok, got = invoke(pool, how, (obj,))
                    if ok and isinstance(got, Hitcore):
                        invoke(pool, got.get, ('x',))
                        invoke(pool, bunch.set_item, (got, 0))
                    elif ok and isinstance(got, Bunchcore):
                        invoke(pool, got.length)
    elif kind == 'evil set':
        m.event('self deletion')
        place = len(pool.hits)
        victim = Hitcore()
        pool.tag(victim)
        pool.hits.append(victim)

        def vanish():
            pool.hits[place:] = []
            gc.collect()
            if r.random() < .3:
                raise KeyError('no number')
        h = victim
        del victim
        invoke(pool, h.set, (r.choice(['x', 'pid', 'spill']),
                             Evil(vanish, 3.)))
        invoke(pool, bunch.set_item, (h, Evil(lambda: scramble(
            pool, bunch, 2), 0)))
        pool.hits.append(h)
    elif kind == 'class':
        invoke(pool, Hitcore.get_variables)
        invoke(pool, Hitcore.set_variables)
        ok, table = invoke(pool, Hitcore.dump_memory)
        if ok:
            m.check(all(v >= 1 for v in table.values()), 'live references')
    elif kind == 'weak':
        h = SlotHit()
        ref = weakref.ref(h)
        pool.tag(h)
        invoke(pool, bunch.set_item, (h, n))
        del h
        m.check(ref() is None, 'wrapper released')
    elif kind == 'hostile':
        m.event('hostile call')
        obj = r.choice([hit, bunch, bunch, ctx, ctx, Hitcore])
        name = r.choice([a for a in dir(obj) if not a.startswith('_')])
        if name in ('a', 'b', 'c', 'me', 'held', 'extra', 'one', 'two',
                    'three', 'four', 'z') or name == 'dump_memory':
            return name
        args = [hostile(pool) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6]))]
        if name in ('set', 'get') and args and r.random() < .6:
            args[0] = r.choice(WORDS)
        if name in ('set_item', ) and len(args) > 1:
            if type(args[1]) is int and 10**6 < abs(args[1]) < 2**59:
                args[1] = 17      # a giant but possible allocation
            args[0] = r.choice([args[0], hit])
        if name in ('moment_tensor', 'index_by_power'):
            args = [min(a, 3) if type(a) is int else a for a in args]
            if any(isinstance(a, Evil) for a in args):
                args = args[:1]
        if name == 'get_weight_context' or name == 'print_address':
            args = args[:1]
        kwargs = {}
        if r.random() < .15:
            kwargs = {r.choice(['index', 'value', 'axes', 'weight', 'spill',
                                'zz', 'means', 'eventNumber']): hostile(pool)}
        if name == 'set_item' and 'index' in kwargs:
            kwargs = {}
        if name == 'set_item' and len(args) > 1 and isinstance(args[1], Evil):
            args[1] = 1
        before = name == 'set' and args and type(args[0]) is str and \
            args[0] in ('y', 'station')
        invoke(pool, getattr(obj, name), tuple(args), kwargs)
        if before:
            fix_tag(pool, obj)
        return 'hostile '+name
    return kind


def fix_tag(pool, h):
    """A caller wrote one of the two tagged fields on purpose"""
    try:
        h.get('y')
    except TypeError:
        return
    except AttributeError:
        return
    pool.tag(h)


def pool_history(r, m):
    pool = Pool(r, m)
    names = []
    for i in range(120):
        names.append(step(pool))
        if i % 12 == 11:
            pool.read_all()
    pool.read_all()
    m.distinct(names)
    Hitcore.set_weight_context(WeightContext())
    order = r.sample(range(3), 3)
    for k in order:
        [pool.hits, pool.bunches, pool.contexts][k][:] = []
        pool.read_all()
    gc.collect()


def main():
    """Driver for runs under an external tool: seed, first case, cases"""
    sys.modules['ROOT'] = None
    seed, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    mon = Monitor('.')
    for i in range(first, first+count):
        pool_history(random.Random('native:%s:%d' % (seed, i)), mon)
    print('XMON'+json.dumps({'events': mon.events, 'sites': mon.sites,
                             'violations': mon.case_violations[:5]}))


if __name__ == '__main__':
    main()
