"""P17: user-defined column formats."""
import io
import math
import os

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit

ID = 'P17'
RULE = ('random column lists (stored, derived, integer, weight, blank and '
        'repeated columns, any order), units from the whole table and '
        'separators; files judged word by word and read back; distinct by '
        'columns, units and separator')
REQUIRED = {'round trip': 600, 'words': 20000, 'derived column': 100,
            'blank column': 60, 'global weight': 60, 'spill column': 60,
            'sorted': 80, 'skipped lines': 150, 'mass shell': 300,
            'refused': 300, 'visible separator': 80, 'repeated column': 60}
LENGTH = {'': 1., 'mum': 1e-3, 'mm': 1., 'cm': 10., 'm': 1e3, 'km': 1e6}
TIME = {'': 1., 'ns': 1., 'mus': 1e3, 'ms': 1e6, 's': 1e9}
MOM = {'': 1., 'eV/c': 1e-6, 'keV/c': 1e-3, 'MeV/c': 1., 'GeV/c': 1e3,
       'TeV/c': 1e6}
EN = {'': 1., 'eV': 1e-6, 'keV': 1e-3, 'MeV': 1., 'GeV': 1e3, 'TeV': 1e6}
MASS = {'': 1., 'eV/c2': 1e-6, 'keV/c2': 1e-3, 'MeV/c2': 1., 'GeV/c2': 1e3,
        'TeV/c2': 1e6}
FIELD = {'': 1., 'Gauss': 1e-7, 'mT': 1e-6, 'T': 1e-3, 'kT': 1.}
EFIELD = {'': 1., 'GV/m': 1.}
NONE = {'': 1.}
TABLE = {}
for _k in ('x', 'y', 'z', 'path_length', 'ct'):
    TABLE[_k] = LENGTH
for _k in ('t', 'proper_time'):
    TABLE[_k] = TIME
for _k in ('px', 'py', 'pz', 'p'):
    TABLE[_k] = MOM
for _k in ('energy', 'e_dep', 'kinetic_energy'):
    TABLE[_k] = EN
for _k in ('bx', 'by', 'bz'):
    TABLE[_k] = FIELD
for _k in ('ex', 'ey', 'ez'):
    TABLE[_k] = EFIELD
for _k in ('sx', 'sy', 'sz', 'local_weight', 'charge', 'global_weight', "x'",
           "y'"):
    TABLE[_k] = NONE
TABLE['charge'] = {'': 1., 'echarge': 1.}
TABLE['mass'] = MASS
INTS = ['spill', 'event_number', 'particle_number', 'eventNumber',
        'particleNumber', 'station', 'status', 'pid']
STORED = [k for k in TABLE if k not in ('ct', 'p', 'kinetic_energy', "x'",
                                        "y'", 'global_weight')]
SHELL = ['', 'energy', 'p', 'px', 'py', 'pz']


def columns(r, m):
    cols = r.sample(STORED, r.randint(1, len(STORED)))
    cols += r.sample(INTS, r.randint(0, len(INTS)))
    r.shuffle(cols)
    if r.random() < .3:
        cols.insert(r.randint(0, len(cols)), '')
        m.event('blank column')
    if r.random() < .25:
        cols.insert(r.randint(0, len(cols)), r.choice(cols))
        m.event('repeated column')
    if r.random() < .3:
        cols.insert(r.randint(0, len(cols)), 'global_weight')
        for k in ('event_number', 'particle_number', 'spill'):
            if k not in cols:
                cols.insert(r.randint(0, len(cols)), k)
        m.event('global weight')
    if 'spill' in cols:
        m.event('spill column')
    # derived variables come after what they are derived from
    if r.random() < .35:
        if all(k in cols for k in ('px', 'py', 'pz')):
            cols.append('p')
            cols += r.choice([[], ["x'"], ["x'", "y'"]])
            m.event('derived column')
        if 'mass' in cols and 'energy' in cols:
            cols.append('kinetic_energy')
            m.event('derived column')
        if 't' in cols:
            cols.append('ct')
            m.event('derived column')
    units = {}
    for c in cols:
        if c in TABLE:
            units[c] = r.choice(sorted(TABLE[c]))
        else:
            units[c] = ''
    return cols, units


def particle(r):
    d = gen.hit_dict(r, pids=gen.CHARGED+[22, 2112])
    for k in ('x', 'y', 'z', 't', 'bx', 'by', 'ez', 'sx', 'path_length',
              'e_dep', 'proper_time', 'local_weight'):
        if r.random() < .3:
            d[k] = r.choice([0., r.choice([1, -1])*10.**r.uniform(-80, 80),
                             r.gauss(0, 1e-5), 1./3])
    for k in INTS[:3]+['station', 'status']:
        if r.random() < .3:
            d[k] = gen.any_int(r)
    return d


def draw(r, n):
    Hit.clear_global_weights()
    ds = []
    for i in range(n):
        d = particle(r)
        d['event_number'] = i
        ds.append(d)
    hits = [gen.make_hit(d) for d in ds]
    for h in hits:
        if r.random() < .5:
            h['global_weight'] = r.choice([.5, 2., 0., 1./3])
    return Bunch.new_from_hits(hits) if hits else Bunch()


def judge_words(m, cols, units, line, sep, hit):
    words = line.split(sep) if sep.strip() else line.split()
    if words and words[-1] == '':
        words.pop()
    if not m.equal(len(words), len(cols), 'a word per column', cols=cols,
                   line=line):
        return
    for c, w in zip(cols, words):
        m.event('words')
        if c == '':
            m.check(float(w) == 0., 'blank column is 0')
        elif c in INTS:
            m.equal(w, str(hit[c]), 'integer in the file', column=c)
        else:
            m.close(float(w)*TABLE[c][units[c]], hit[c],
                    'number is the value in its unit', rel=1e-12, abs_=1e-280,
                    column=c, unit=units[c])


def judge_hit(m, cols, got, want, weights, shell=''):
    for c in cols:
        if c == '':
            continue
        if c in INTS:
            m.equal(got[c], want[c], 'integer read back', column=c, cols=cols)
        elif c == 'global_weight':
            m.close(got[c], weights, 'global weight read back', rel=1e-12)
        elif c == shell or (shell in ('p', 'px', 'py', 'pz') and c in
                            ('p', 'px', 'py', 'pz', "x'", "y'")) or \
                (c == 'kinetic_energy' and shell == 'energy'):
            continue
        elif c in ('p', "x'", "y'", 'ct', 'kinetic_energy') or \
                set(cols) & {'p', "x'", "y'", 'kinetic_energy'} and \
                c in ('px', 'py', 'pz', 'energy'):
            # a derived column rescales what it is derived from
            m.close(got[c], want[c], 'derived value read back', rel=1e-8,
                    abs_=1e-9, column=c, cols=cols)
        elif c == 't' and 'ct' in cols:
            m.close(got[c], want[c], 't read back', rel=1e-11, abs_=1e-280)
        else:
            m.close(got[c], want[c], 'value read back', rel=1e-12,
                    abs_=1e-280, column=c, cols=cols)
    pid = want['pid'] if 'pid' in cols else 0
    if 'mass' not in cols:
        m.close(got['mass'], gen.MASS[abs(pid)] if pid else 0.,
                'mass of the species', rel=1e-12)
    if 'charge' not in cols:
        m.close(got['charge'], 0. if abs(pid) in (0, 22, 2112) else
                (1. if pid in (-11, -13, 211, 321, 2212) else -1.),
                'charge of the species', pid=pid)


def whole_bunch(r, m):
    cols, units = columns(r, m)
    n = r.choice([0, 1, r.randint(2, 15)])
    b = draw(r, n)
    before, order = gen.snapshot_list(b), list(b)
    weights = [h['global_weight'] for h in b]
    sep = r.choice([' ', ' ', '\t', '  ', ' \t ', '@', ';'])
    skip = r.choice([0, 0, 1, 3])
    if skip:
        m.event('skipped lines')
    name = os.path.join(m.scratch, 'user.dat')
    key = None
    with open(name, 'w') as out:
        for i in range(skip):
            out.write(r.choice(['header\n', '\n', '1 2 3\n', '#\n']))
        if r.random() < .3:
            key = r.choice(['x', 'event_number', 'pz'])
            rev = r.choice([1, -1])
            b.hit_write_user(cols, units, out, sep, lambda p, q: rev*(
                (p[key] > q[key])-(p[key] < q[key])))
            order = sorted(order, key=lambda h: rev*h[key])
            weights = [h['global_weight'] for h in order]
            m.event('sorted')
        else:
            b.hit_write_user(cols, units, out, sep)
    m.equal(gen.snapshot_list(b), before, 'writing alters nothing')
    lines = open(name).read().split('\n')
    m.equal(lines.pop(), '', 'every line is ended')
    lines = lines[skip:]
    m.equal(len(lines), len(order), 'a line per hit', cols=cols)
    for line, h in zip(lines, order):
        judge_words(m, cols, units, line, sep, h)
    if sep.strip():
        m.event('visible separator')
        text = open(name).read().replace(sep, ' ')
        handle = io.StringIO(text)
    else:
        handle = open(name)
    want = [(gen.make_hit(gen.state(h)), w) for h, w in zip(order, weights)]
    Hit.clear_global_weights()
    if r.random() < .5:
        m.event('units of numbers only')
        units = {c: u for c, u in units.items() if c not in gen.INTS
                 or u != ''}
    got = Bunch.new_from_read_user(cols, units, handle, skip)
    if m.equal(len(got), len(want), 'every hit is read back once', cols=cols):
        for g, (w, gw) in zip(got, want):
            judge_hit(m, cols, g, w, gw)
    m.event('round trip')
    m.distinct('bunch', cols, units, sep)


def one_hit(r, m):
    cols, units = columns(r, m)
    for k in ('px', 'py', 'pz', 'pid', 'energy'):
        if k not in cols:
            cols.insert(0, k)
            units[k] = ''
    b = draw(r, r.randint(1, 4))
    shell = r.choice(SHELL)
    for h in b:
        if r.random() < .5:
            h['energy'] = h['energy']+r.uniform(0, 50)     # off shell
    if shell and 'mass' in cols:
        pass
    out = io.StringIO()
    for h in b:
        h.write_user_formatted(cols, units, out)
    weights = [h['global_weight'] for h in b]
    want = [gen.make_hit(gen.state(h)) for h in b]
    Hit.clear_global_weights()
    back = io.StringIO(out.getvalue())
    for w, gw in zip(want, weights):
        g = Hit.new_from_read_user(cols, units, back, shell)
        judge_hit(m, cols, g, w, gw, shell)
        if shell:
            p2 = sum(g[k]**2 for k in ('px', 'py', 'pz'))
            m.close(g['energy']**2, p2+g['mass']**2, 'shell applied',
                    rel=1e-6, abs_=1e-4, shell=shell, cols=cols)
            keep = w.deepcopy()
            keep.mass_shell_condition(shell)
            m.close([g[k] for k in ('px', 'py', 'pz', 'energy')],
                    [keep[k] for k in ('px', 'py', 'pz', 'energy')],
                    'the chosen variable carries the shell', rel=1e-6,
                    abs_=1e-3, shell=shell)
            m.event('mass shell')
    m.raises(EOFError, lambda: Hit.new_from_read_user(cols, units, back,
                                                      shell), 'end of file')
    m.distinct('hit', cols, shell)


def refusals(r, m):
    cols, units = columns(r, m)
    line = ' '.join('1' for _ in cols)+'\n'
    kind = r.choice(['column', 'missing', 'unit'])
    floats = [c for c in cols if c in TABLE]
    if kind == 'column':
        bad = cols[:]
        bad.insert(r.randint(0, len(cols)), r.choice(['nonsense', 'X', 'r',
                                                      'phi', 'weight']))
        units = dict(units)
        for k in bad:
            units.setdefault(k, '')
        m.raises(KeyError, lambda: Hit.new_from_read_user(
            bad, units, io.StringIO(line)), 'unknown column', cols=bad)
    elif kind == 'missing':
        units = dict(units)
        del units[r.choice(floats)]
        m.raises(KeyError, lambda: Hit.new_from_read_user(
            cols, units, io.StringIO(line)), 'column without a unit')
        out = io.StringIO()
        h = gen.make_hit(particle(r))
        state = gen.state(h)
        m.raises(KeyError, lambda: h.write_user_formatted(cols, units, out),
                 'column without a unit in a write')
        m.equal(out.getvalue(), '', 'nothing written by a refused write')
        m.equal(gen.state(h), state, 'refused write alters nothing')
    else:
        units = dict(units)
        units[r.choice(floats)] = r.choice(['furlong', 'Mm', 'MEV'])
        m.raises(KeyError, lambda: Hit.new_from_read_user(
            cols, units, io.StringIO(line)), 'unknown unit')
    words = ['1' for _ in cols]
    cols, units = columns(r, m)
    words = ['1' for _ in cols]
    k = r.choice(['short', 'long'])
    words = words[:-1] if k == 'short' else words+['1']
    m.raises(BadEventError, lambda: Hit.new_from_read_user(
        cols, units, io.StringIO(' '.join(words)+'\n')),
        'line with the wrong number of words')
    m.event('refused')
    m.distinct('refused', kind, cols)


SCENARIOS = [('whole_bunch', whole_bunch, 900, 15000),
             ('one_hit', one_hit, 400, 8000),
             ('refusals', refusals, 500, 6000)]
