"""P01: a hit stores what it is told and derives quantities by definition."""
import math

from xmon import gen
from xboa.hit import Hit

ID = 'P01'
RULE = ('random histories of reads and writes on one hit, each step judged '
        'against a dictionary model; a history is non-trivial when it holds '
        'both accepted and refused writes; distinct by its operation list')
REQUIRED = {'plain write': 500, 'derived write': 200, 'refused write': 200,
            'derived read': 1000, 'built from dict': 50}

DERIVED_SET = ['p', "x'", "y'", "t'", 'ct', 'kinetic_energy']


def formulas(s, gw=1.):
    """Definition of every derived quantity from the stored data"""
    p2 = s['px']**2+s['py']**2+s['pz']**2
    pt = math.sqrt(s['px']**2+s['py']**2)
    out = {'p': math.sqrt(p2), 'pt': pt,
           'r': math.sqrt(s['x']**2+s['y']**2),
           'r_squared': s['x']**2+s['y']**2,
           'phi': math.atan2(s['y'], s['x']),
           'pphi': math.atan2(s['py'], s['px']),
           'spin': math.sqrt(s['sx']**2+s['sy']**2+s['sz']**2),
           'ct': s['t']*gen.C_LIGHT,
           'kinetic_energy': s['energy']-s['mass'],
           'l_kin': s['x']*s['py']-s['y']*s['px'],
           "z'": 1., 'weight': s['local_weight']*gw}
    if s['pz'] != 0.:
        out.update({"x'": s['px']/s['pz'], "y'": s['py']/s['pz'],
                    "t'": -s['energy']/s['pz'], "r'": pt/s['pz'],
                    "ct'": -s['energy']/s['pz']})
    return out


def safe(s):
    """Squares of the data neither overflow nor underflow"""
    return all(v == 0. or 1e-140 < abs(v) < 1e140 for v in
               (s[k] for k in gen.FLOATS))


def same(a, b):
    return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b))


def judge_state(m, hit, model, site, step):
    got = gen.state(hit)
    diff = {k: (got[k], model[k]) for k in model if not same(got[k], model[k])}
    m.check(not diff, site, differs=diff, step=step)
    for alias, name in gen.ALIASES.items():
        m.check(hit[alias] == model[name], 'alias', alias=alias,
                got=hit[alias], want=model[name])
    return not diff


def judge_derived(m, hit, model, step):
    if not safe(model):
        return
    for key, want in formulas(model).items():
        m.event('derived read')
        scale = 1e-12*(abs(model['energy'])+abs(model['mass'])) \
            if key == 'kinetic_energy' else 0.
        if key == 'l_kin':
            scale = 1e-12*(abs(model['x']*model['py']) +
                           abs(model['y']*model['px']))
        m.close(hit.get(key), want, 'derived:'+key, rel=1e-11,
                abs_=scale+1e-300, step=step, model=model)
    m.close(hit.get_weight(), model['local_weight'], 'get_weight')
    for name, key in (('get_p', 'p'), ('get_r', 'r'), ('get_phi', 'phi'),
                      ('get_pt', 'pt'), ('get_pphi', 'pphi'),
                      ('get_r_squared', 'r_squared'), ('get_spin', 'spin'),
                      ('get_ct', 'ct'), ('get_ek', 'kinetic_energy'),
                      ('get_l_kin', 'l_kin')):
        got, want = getattr(hit, name)(), hit.get(key)
        m.check(got == want, 'method agrees with key', name=name, got=got,
                want=want)


BAD_FLOAT = ['abc', None, [1.], {}, object, 1j, 'x', (), b'1']
BAD_INT = ['abc', None, [1], {}, object, 1j, 1.5, 2**31, -2**31-1, 2**40,
           2**63, -2**70, b'1']
BAD_KEYS = ['nonsense', 'X', 'pxx', ' x', 'x ', 'event', 'particle',
            'e', 'xp', 'l', 'weight ', 'statio', 'mas', "''"]


def history(r, m):
    hit = Hit()
    model = dict.fromkeys(gen.FLOATS, 0.)
    model.update(dict.fromkeys(gen.INTS, 0))
    model['local_weight'] = 1.
    judge_state(m, hit, model, 'fresh hit', 'init')
    if r.random() < 0.5:
        d = gen.hit_dict(r)
        hit = Hit.new_from_dict(d)
        model.update(d)
        m.event('built from dict')
        judge_state(m, hit, model, 'new_from_dict', 'init')
    ops = []
    wide = r.random() < 0.3
    refused = accepted = 0
    for _ in range(r.randint(5, 40)):
        kind = r.random()
        setter = hit.set if r.random() < 0.5 else hit.__setitem__
        if kind < 0.4:
            key = r.choice(gen.FLOATS)
            val = gen.any_float(r, wide)
            if r.random() < 0.2:
                val = r.choice([r.randint(-1000, 1000), True])
            ops.append(('set', key, val))
            ok, _ = m.quiet(lambda: setter(key, val), 'plain write accepted',
                            key=key, value=val)
            if ok:
                model[key] = float(val)
            m.event('plain write')
            accepted += 1
        elif kind < 0.55:
            key = r.choice(gen.INTS+list(gen.ALIASES))
            val = gen.any_int(r)
            ops.append(('set', key, val))
            ok, _ = m.quiet(lambda: setter(key, val), 'plain write accepted',
                            key=key, value=val)
            if ok:
                model[gen.ALIASES.get(key, key)] = val
            m.event('plain write')
            accepted += 1
        elif kind < 0.75:
            if not safe(model):
                continue
            key = r.choice(DERIVED_SET)
            val = r.choice([1, -1])*10.**r.uniform(-3, 3)
            if key == 'p':
                val = abs(val)
            ops.append(('set', key, val))
            derived_write(m, hit, model, key, val, setter, ops)
        elif kind < 0.9:
            which = r.random()
            if which < 0.4:
                key, val = r.choice(gen.FLOATS), r.choice(BAD_FLOAT)
            elif which < 0.55:
                key = r.choice(DERIVED_SET)
                val = r.choice(['abc', None, {}, object])
            else:
                key = r.choice(gen.INTS+list(gen.ALIASES))
                val = r.choice(BAD_INT)
            ops.append(('bad value', key, val))
            m.raises(Exception, lambda: setter(key, val), 'bad value refused',
                     key=key, value=val)
            m.event('refused write')
            refused += 1
        else:
            key = r.choice(BAD_KEYS+['weight', 'r', 'phi', 'pt', 'pphi',
                                     'spin', 'l_kin', 'r_squared', "r'"])
            ops.append(('bad key', key))
            m.raises(Exception, lambda: setter(key, 1.), 'bad key refused',
                     key=key)
            if key in BAD_KEYS:
                m.raises(Exception, lambda: hit.get(key),
                         'bad key read refused', key=key)
                m.raises(Exception, lambda: hit[key],
                         'bad key read refused', key=key)
            m.event('refused write')
            refused += 1
        if not judge_state(m, hit, model, 'state after '+ops[-1][0], ops[-1]):
            return
        if r.random() < 0.4:
            judge_derived(m, hit, model, ops[-1])
            judge_state(m, hit, model, 'state after reading', ops[-1])
    if refused and accepted:
        m.distinct(ops)
        m.sample(ops[:6])


def derived_write(m, hit, model, key, val, setter, ops):
    m.event('derived write')
    before = dict(model)
    if key in ("x'", "y'", "t'") and abs(model['pz']) < 1e-9:
        m.raises(Exception, lambda: setter(key, val),
                 'divergence refused at pz=0', key=key)
        return
    if key == "t'" and -val*abs(model['pz']) < model['mass'] and \
            (val > 0 or -val*abs(model['pz']) < model['mass']*(1-1e-9)):
        m.raises(Exception, lambda: setter(key, val),
                 'energy below mass refused', value=val)
        return
    if key == 'ct':
        model['t'] = None
        touched = {'t': val/gen.C_LIGHT}
    elif key == 'kinetic_energy':
        touched = {'energy': val+model['mass']}
    elif key == "x'":
        touched = {'px': val*model['pz']}
    elif key == "y'":
        touched = {'py': val*model['pz']}
    elif key == "t'":
        if abs(-val*abs(model['pz'])-model['mass']) < 1e-9*model['mass']:
            return
        touched = {'energy': -val*abs(model['pz']), 'pz': abs(model['pz'])}
    else:
        p0 = formulas(before)['p']
        if p0 == 0.:
            touched = {'px': 0., 'py': 0., 'pz': val}
        else:
            touched = {k: before[k]*val/p0 for k in ('px', 'py', 'pz')}
    ok, _ = m.quiet(lambda: setter(key, val), 'derived write accepted',
                    key=key, value=val, model=before)
    if not ok:
        return
    for k, want in touched.items():
        m.close(hit[k], want, 'derived write:'+key, rel=1e-11, abs_=1e-300,
                variable=k, value=val)
        model[k] = hit[k]
    if key == 'kinetic_energy':
        m.close(hit.get(key), val, 'derived write reads back', rel=1e-9,
                abs_=1e-12*(abs(model['mass'])+abs(val)), key=key)
    else:
        m.close(hit.get(key), val, 'derived write reads back', rel=1e-9,
                key=key)


def listings(r, m):
    """The advertised variable lists are honest"""
    d = gen.hit_dict(r)
    hit = Hit.new_from_dict(d)
    gets, sets = set(Hit.get_variables()), set(Hit.set_variables())
    for key in gen.FLOATS+gen.INTS+['weight', 'global_weight', 'p', "x'"]:
        m.check(key in gets, 'readable variable listed', key=key)
    for key in gen.FLOATS+gen.INTS+DERIVED_SET+['global_weight']:
        m.check(key in sets, 'writable variable listed', key=key)
    for key in gets:
        m.quiet(lambda: hit.get(key), 'listed variable readable', key=key)
    for key in sets:
        if key == '':
            continue
        h = Hit.new_from_dict(d)
        val = 3 if (key in gen.INTS or key in gen.ALIASES) else 3.
        if key == "t'":
            val = -3.-d['mass']
        m.quiet(lambda: h.set(key, val), 'listed variable writable', key=key)
        m.close(h.get(key), val, 'listed variable reads back', key=key)
    m.distinct('listing', d)
    # refused dictionaries raise
    bad = dict(d)
    bad[r.choice(BAD_KEYS)] = 1.
    m.raises(Exception, lambda: Hit.new_from_dict(bad), 'bad dict refused')


def two_hits(r, m):
    """Writing one hit never changes another"""
    dicts = [gen.hit_dict(r) for _ in range(r.randint(2, 6))]
    hits = [Hit.new_from_dict(d) for d in dicts]
    for _ in range(12):
        i = r.randrange(len(hits))
        key = r.choice(gen.FLOATS)
        val = gen.moderate(r)
        hits[i][key] = val
        dicts[i][key] = val
        m.event('plain write')
        for h, d in zip(hits, dicts):
            m.check(gen.state(h) == d, 'hits are independent', key=key)
    m.distinct('two', dicts)


SCENARIOS = [
    ('history', history, 900, 20000),
    ('listings', listings, 60, 600),
    ('two_hits', two_hits, 60, 1500),
]
