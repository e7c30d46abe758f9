"""P02: mass-shell forcing and Hit.check."""
import math

from xmon import gen
from xboa.hit import Hit

ID = 'P02'
RULE = ('hits on and off shell, light to heavy, forced onto the shell through '
        'every variable; non-trivial when the forcing changes the hit or is '
        'unsolvable; distinct by the input values')
REQUIRED = {'solvable': 800, 'unsolvable': 300, 'check accepts': 200,
            'check rejects': 400}
VARS = ['p', 'px', 'py', 'pz', 'energy']


def forced(r, m):
    d = gen.hit_dict(r, pids=list(gen.MASS) + [-p for p in gen.MASS])
    k = r.random()
    if k < 0.2:
        d['energy'] = d['mass']*r.uniform(0., 0.999)
    elif k < 0.6:
        d['energy'] *= r.uniform(0.5, 2.)
    if r.random() < 0.3:
        d['pz'] *= -1.
    for c in ('px', 'py', 'pz'):
        if r.random() < 0.15:
            d[c] = 0.
    if r.random() < 0.1:
        d['px'] = d['py'] = d['pz'] = 0.
    var = r.choice(VARS)
    m.note({'var': var, 'hit': d})
    how = r.randrange(4)
    hit = Hit.new_from_dict(d)
    before = gen.state(hit)
    ret = 'none'
    if how == 0:
        ok, ret = m.quiet(lambda: hit.mass_shell_condition(var),
                          'forcing does not raise')
    elif how == 1:
        ok, hit2 = m.quiet(lambda: Hit.new_from_dict(d, var),
                           'forcing does not raise')
        hit = hit2 if ok else hit
    elif how == 2:
        ok, _ = m.quiet(lambda: hit.translate({}, var),
                        'forcing does not raise')
    else:
        ok, _ = m.quiet(lambda: hit.translate({'t': 0.}, var),
                        'forcing does not raise')
    if not ok:
        return
    after = gen.state(hit)
    for key, val in after.items():
        m.check(not isinstance(val, complex) and math.isfinite(val),
                'finite real after forcing', key=key, value=val)
    touched = {'p': ('px', 'py', 'pz')}.get(var, (var,))
    for key in before:
        if key not in touched:
            m.check(after[key] == before[key], 'others unchanged', key=key,
                    before=before[key], after=after[key])
    e, mass = before['energy'], before['mass']
    comps = {c: before[c] for c in ('px', 'py', 'pz')}
    if var == 'energy':
        want = math.sqrt(mass**2+sum(v*v for v in comps.values()))
        m.close(after['energy'], want, 'solved energy')
        solvable = True
    elif var == 'p':
        val = (e-mass)*(e+mass)
        solvable = val >= 0
        if abs(val) < 1e-3:
            return
        p0 = math.sqrt(sum(v*v for v in comps.values()))
        target = math.sqrt(val) if solvable else 0.
        for c in comps:
            want = comps[c]*target/p0 if p0 else (target if c == 'pz' else 0.)
            m.close(after[c], want, 'solved total momentum', abs_=1e-9,
                    component=c)
    else:
        val = e*e-mass*mass-sum(v*v for c, v in comps.items() if c != var)
        if abs(val) < 1e-2:
            return
        solvable = val > 0
        if solvable:
            m.close(after[var]**2, val, 'solved component', rel=1e-9,
                    abs_=1e-9*e*e)
            m.check(after[var] > 0, 'positive root', value=after[var])
        else:
            m.check(after[var] == 0., 'unsolvable component is zero',
                    value=after[var])
    if solvable:
        m.event('solvable')
        p2 = sum(after[c]**2 for c in ('px', 'py', 'pz'))
        m.close(after['energy']**2, p2+mass**2, 'on shell', rel=1e-9)
    else:
        m.event('unsolvable')
        if var == 'p':
            m.check(after['px'] == after['py'] == after['pz'] == 0,
                    'unsolvable momentum is zero')
    if ret != 'none':
        m.check(bool(ret) == solvable, 'reported outcome', returned=ret,
                solvable=solvable)
        m.event('outcome reported')
    m.distinct(var, d)
    m.sample((var, d['pid'], d['energy'], d['px'], d['py'], d['pz']))


def invalid(r, m):
    d = gen.hit_dict(r)
    hit = Hit.new_from_dict(d)
    bad = r.choice(['x', 'pt', 'mass', 'e', 'E', 'P', 'px ', 'nonsense'])
    m.raises(Exception, lambda: hit.mass_shell_condition(bad),
             'unknown mass shell variable refused', var=bad)
    m.check(gen.state(hit) == d, 'refused forcing changes nothing')
    hit.mass_shell_condition('')
    m.check(gen.state(hit) == d, 'empty choice changes nothing')
    hit.translate({}, '')
    m.check(gen.state(hit) == d, 'empty choice changes nothing')
    allowed = Hit.mass_shell_variables()
    m.check(set(VARS+['']) == set(allowed), 'listed variables', got=allowed)


def checker(r, m):
    pids = [p for p in gen.MASS if p not in (12, 14)]
    d = gen.hit_dict(r, pids=pids+[-p for p in pids])
    # keep E^2 away from the half-integers at which the documented rounding
    # comparison flips
    frac = d['energy']**2 % 1.
    if not 0.05 < abs(frac-0.5):
        return
    hit = Hit.new_from_dict(d)
    m.note(d)
    m.check(hit.check() is True or hit.check() == True, 'accepts consistent')
    m.event('check accepts')
    m.check(gen.state(hit) == d, 'checking changes nothing')
    k = r.randrange(5)
    e = dict(d)
    if k == 0:
        e['energy'] = d['energy']*r.choice([1.02, 0.98, 1.2, .5])
    elif k == 1:
        c = r.choice(['px', 'py', 'pz'])
        e[c] = d[c]+r.choice([1, -1])*r.uniform(5., 50.)
        change = abs(e[c]**2-d[c]**2)
        if change < 2.5:
            return
    elif k == 2:
        e['mass'] = d['mass']+r.choice([1, -1])*r.uniform(0.05, 2.)
        e['energy'] = math.sqrt(max(0, e['mass'])**2+d['px']**2+d['py']**2 +
                                d['pz']**2)
    elif k == 3:
        e['pid'] = r.choice([999, 12345, -777, 5])
    else:
        # another species: mass no longer fits
        others = [p for p in gen.MASS if abs(gen.MASS[p]-d['mass']) > 0.1]
        e['pid'] = r.choice(others)*r.choice([1, -1])
    m.note(e)
    bad = Hit.new_from_dict(e)
    m.check(not bad.check(), 'rejects inconsistent', kind=k)
    m.event('check rejects')
    m.distinct('check', k, e)
    # repairing the energy makes it acceptable again
    if k in (0, 1):
        bad.mass_shell_condition('energy')
        if abs(bad['energy']**2 % 1.-0.5) > 0.05:
            m.check(bad.check(), 'accepts after forcing')


SCENARIOS = [
    ('forced', forced, 3000, 60000),
    ('invalid', invalid, 150, 1500),
    ('checker', checker, 1200, 20000),
]
