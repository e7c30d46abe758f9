"""P16: built-in text formats, written and read back."""
import io
import math
import os

from xmon import gen
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.hit.factory import BuiltinHitFactory

ID = 'P16'
RULE = ('bunches of every species a format expresses with ordinary, huge, tiny '
        'and zero values, written hit by hit, as a bunch and as a dict of '
        'bunches in every text format and length unit, then judged word by '
        'word against an independent table of columns and read back by every '
        'reader; distinct by format, unit, writer and species')
REQUIRED = {'hit round trip': 500, 'bunch round trip': 300, 'words': 20000,
            'icool_for009': 60, 'icool_for003': 60, 'mars_1': 60,
            'g4beamline_bl_track_file': 60, 'g4beamline_bl_track_file_2': 60,
            'cm': 40, 'm': 40, 'unit from file': 30, 'dict round trip': 80,
            'foreign file': 100, 'inexpressible': 40, 'empty': 10,
            'two stations': 100, 'failing handle': 50}

# column: (variable, size of its unit in mm, ns, MeV, kT); None is not data
_L, _P = 1e3, 1e3
SPEC = {
    'icool_for009': [('event_number', 0), ('particle_number', 0), ('pid', 0),
                     ('status', 0), ('station', 0), ('t', 1e9), ('x', _L),
                     ('y', _L), ('z', _L), ('px', _P), ('py', _P), ('pz', _P),
                     ('bx', 1e-3), ('by', 1e-3), ('bz', 1e-3),
                     ('local_weight', 1.), ('ex', 1.), ('ey', 1.), ('ez', 1.),
                     None, ('sx', 1.), ('sy', 1.), ('sz', 1.)],
    'icool_for003': [('event_number', 0), ('particle_number', 0), ('pid', 0),
                     ('status', 0), ('t', 1e9), ('local_weight', 1.),
                     ('x', _L), ('y', _L), ('z', _L), ('px', _P), ('py', _P),
                     ('pz', _P), ('sx', 1.), ('sy', 1.), ('sz', 1.)],
    'g4beamline_bl_track_file': [('x', 'u'), ('y', 'u'), ('z', 'u'),
                                 ('px', 1.), ('py', 1.), ('pz', 1.),
                                 ('t', 1.), ('pid', 0), ('event_number', 0),
                                 ('particle_number', 0), None,
                                 ('local_weight', 1.)],
    'mars_1': [('event_number', 0), ('pid', 0), ('x', 1.), ('y', 1.),
               ('z', 1.), ('px', _P), ('py', _P), ('pz', _P), ('energy', 1e3),
               ('ct', 10.), ('local_weight', 1.)]}
SPEC['g4beamline_bl_track_file_2'] = \
    SPEC['g4beamline_bl_track_file']+[None, None, None]
FORMATS = sorted(SPEC)
UNIT = {'mm': 1., 'cm': 10., 'm': 1e3}
ICOOL = {-11: 1, -13: 2, 211: 3, 321: 4, 2212: 5, 11: -1, 13: -2, -211: -3,
         -321: -4, -2212: -5}
MARS = {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8,
        22: 9, 11: 10, -11: 11, -2212: 12, 111: 13, 1000010020: 14, 14: 18,
        -14: 19, 12: 20, -12: 21, -2112: 31, 1000020040: 17}
CHARGE = {11: -1, -11: 1, 13: -1, -13: 1, 211: 1, -211: -1, 321: 1, -321: -1,
          2212: 1, -2212: -1, 2112: 0, -2112: 0, 22: 0, 12: 0, -12: 0, 14: 0,
          -14: 0, 111: 0}
HEADERS = {'icool_for009': 3, 'icool_for003': 2, 'mars_1': 0}


def species(fmt):
    if 'icool' in fmt:
        return sorted(ICOOL)
    if 'mars' in fmt:
        return sorted(MARS)
    return sorted(p for p in MARS)


def value(r):
    k = r.random()
    if k < .1:
        return r.choice([0., -0., 1., -1.])
    if k < .25:
        return r.choice([1, -1])*10.**r.uniform(-90, 90)
    if k < .4:
        return float(r.randint(-10**6, 10**6))
    return r.gauss(0, 10**r.uniform(-3, 4))


def particle(r, fmt, station=None):
    d = gen.hit_dict(r, pids=species(fmt))
    for k in ('x', 'y', 'z', 't', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx',
              'sy', 'sz'):
        if r.random() < .5:
            d[k] = value(r)
    for k in ('px', 'py', 'pz'):
        if r.random() < .3:
            d[k] = r.choice([0., r.gauss(0, 1e-6), r.gauss(0, 1e6), -50.])
    d['energy'] = math.sqrt(d['mass']**2+d['px']**2+d['py']**2+d['pz']**2)
    d['local_weight'] = r.choice([1., 0., abs(value(r)), 0.25])
    for k in ('event_number', 'particle_number', 'status', 'station', 'spill'):
        d[k] = gen.any_int(r) if r.random() < .3 else r.randint(0, 30)
    if station is not None:
        d['station'] = station
    return d


def size(col, unit):
    return UNIT[unit] if col[1] == 'u' else col[1]


def words_match(m, fmt, unit, line, hit, site):
    words = line.split()
    if not m.equal(len(words), len(SPEC[fmt]), 'number of words: '+site,
                   line=line):
        return
    for word, col in zip(words, SPEC[fmt]):
        m.event('words')
        if col is None:
            m.check(float(word) == 0., 'unused column is 0: '+site)
            continue
        var = col[0]
        if var == 'pid':
            pid = hit['pid']
            want = ICOOL[pid] if 'icool' in fmt else \
                MARS[pid] if 'mars' in fmt else pid
            m.equal(word, str(want), 'species code: '+site, format=fmt,
                    pid=pid)
        elif col[1] == 0:
            m.equal(word, str(hit[var]), 'integer column: '+site, var=var)
        else:
            want = hit['t']*gen.C_LIGHT if var == 'ct' else hit[var]
            m.close(float(word)*size(col, unit), want, 'column in its unit: '
                    + site, rel=1e-12, abs_=1e-280, var=var, format=fmt,
                    unit=unit)


def same_hit(m, fmt, got, want, site):
    carried = {c[0] for c in SPEC[fmt] if c}
    for var in sorted(carried):
        if var == 'energy':
            continue               # follows from p and mass
        if var == 'ct':
            m.close(got['t'], want['t'], 't read back: '+site, rel=1e-12,
                    abs_=1e-280)
        elif var in gen.INTS:
            m.equal(got[var], want[var], 'integer read back: '+site, var=var,
                    format=fmt)
        else:
            m.close(got[var], want[var], 'value read back: '+site, rel=1e-12,
                    abs_=1e-280, var=var, format=fmt)
    mass = gen.MASS[abs(want['pid'])]
    m.close(got['mass'], mass, 'mass of the species: '+site, rel=1e-12)
    if want['pid'] in CHARGE:
        m.equal(got['charge'], CHARGE[want['pid']],
                'charge of the species: '+site, pid=want['pid'])
    p2 = sum(got[k]**2 for k in ('px', 'py', 'pz'))
    m.close(got['energy'], math.sqrt(p2+mass**2), 'on the mass shell: '+site,
            rel=1e-12)
    if 'station' not in carried:
        m.equal(got['station'], 0, 'no station in the format: '+site)


def start(r, fmt):
    Hit.clear_global_weights()
    Hit.set_g4bl_unit('mm')
    unit = 'mm'
    if 'g4beamline' in fmt:
        unit = r.choice(['mm', 'cm', 'm'])
        Hit.set_g4bl_unit(unit)
    return unit


def one_hit(r, m):
    fmt = r.choice(FORMATS)
    unit = start(r, fmt)
    hits = [gen.make_hit(particle(r, fmt)) for _ in range(r.randint(1, 4))]
    before = [gen.state(h) for h in hits]
    out = io.StringIO()
    for h in hits:
        h.write_builtin_formatted(fmt, out)
    m.equal([gen.state(h) for h in hits], before, 'writing alters no hit',
            format=fmt)
    text = out.getvalue()
    lines = text.split('\n')
    m.equal(len(lines), len(hits)+1, 'a line per hit')
    for line, h in zip(lines, hits):
        words_match(m, fmt, unit, line, h, 'hit')
    back = io.StringIO(text)
    for h in hits:
        got = Hit.new_from_read_builtin(fmt, back)
        same_hit(m, fmt, got, h, 'hit')
        m.event('hit round trip')
    m.raises(EOFError, lambda: Hit.new_from_read_builtin(fmt, back),
             'end of file')
    m.event(unit)
    m.distinct('hit', fmt, unit, hits[0]['pid'])


def make(r, fmt, n, stations):
    out = []
    for i in range(n):
        d = particle(r, fmt, r.choice(stations))
        d['event_number'] = i
        out.append(d)
    return gen.make_bunch(out) if out else Bunch()


def body(fmt, text):
    lines = text.split('\n')
    if lines[-1] == '':
        lines = lines[:-1]
    if 'g4beamline' in fmt:
        return [l for l in lines if not l.startswith('#')]
    return lines[HEADERS[fmt]:]


def whole_bunch(r, m):
    fmt = r.choice(FORMATS)
    unit = start(r, fmt)
    stations = r.choice([[1], [0, 1, 2], [5, -3, 7, 2**31-1], [3],
                         [-7, 2, -4, 5]])
    n = r.choice([0, 1, r.randint(2, 20), r.randint(2, 20)])
    b = make(r, fmt, n, stations)
    if n == 0:
        m.event('empty')
    comment = r.choice([None, 'a comment', 'muon beam at 200 MeV/c', ''])
    name = os.path.join(m.scratch, 'file.dat')
    before = gen.snapshot_list(b)
    order = [id(h) for h in b]
    if r.random() < .35:
        # a dict of bunches
        family, hits = {}, []
        for k in range(r.randint(1, 4)):
            family[k] = make(r, fmt, r.randint(0, 6), stations)
        family['last'] = b
        for v in family.values():
            hits += list(v)
        members = {k: [id(h) for h in v] for k, v in family.items()}
        Bunch.hit_write_builtin_from_dict(family, fmt, name, comment)
        m.equal({k: [id(h) for h in v] for k, v in family.items()}, members,
                'writing several bunches changes none of them', format=fmt)
        m.event('dict round trip')
    else:
        hits = list(b)
        b.hit_write_builtin(fmt, name, comment)
    m.equal(gen.snapshot_list(b), before, 'writing alters no hit', format=fmt)
    m.equal([id(h) for h in b], order, 'writing keeps the order of the bunch')
    text = open(name).read()
    if fmt != 'mars_1' and comment:
        m.check(comment in text.split('\n')[0], 'comment is in the header')
    want = sorted(hits, key=lambda h: h['station'])     # stable
    lines = body(fmt, text)
    m.equal(len(lines), len(want), 'a line per hit in the file', format=fmt)
    for line, h in zip(lines, want):
        words_match(m, fmt, unit, line, h, 'bunch')
    if 'g4beamline' in fmt and unit != 'm' and r.random() < .6:
        Hit.set_g4bl_unit(r.choice(['mm', 'cm', 'm']))   # the file knows
        m.event('unit from file')
    got = Bunch.new_from_read_builtin(fmt, name)
    if m.equal(len(got), len(want), 'every hit is read back once', format=fmt):
        for g, w in zip(got, want):
            same_hit(m, fmt, g, w, 'bunch')
    grouped = Bunch.new_dict_from_read_builtin(fmt, name)
    listed = Bunch.new_list_from_read_builtin(fmt, name)
    if fmt == 'icool_for009':
        keys = sorted({h['station'] for h in want})
    else:
        keys = [0] if want else []
    m.equal(sorted(grouped), keys, 'one bunch per station', format=fmt)
    m.equal(len(listed), len(keys), 'one entry per station')
    for k, entry in zip(keys, listed):
        mine = [h for h in want if fmt != 'icool_for009' or
                h['station'] == k]
        for name_, got_b in (('dict', grouped.get(k)), ('list', entry)):
            if m.check(got_b is not None and len(got_b) == len(mine),
                       'size of the group: '+name_):
                for g, w in zip(got_b, mine):
                    same_hit(m, fmt, g, w, name_)
    if len({h['station'] for h in want}) > 1:
        m.event('two stations')
    m.event('bunch round trip')
    m.event(fmt)
    m.event(unit)
    m.distinct('bunch', fmt, unit, stations, n)


def foreign(r, m):
    """Files as the other programs write them, with their own layout"""
    fmt = r.choice(FORMATS)
    start(r, fmt)
    unit = 'mm'
    Hit.set_g4bl_unit('mm')
    head = {'icool_for009': 'problem title\n units\n evt par typ\n',
            'icool_for003': 'title\n 0 0 0 0\n', 'mars_1': ''}.get(fmt)
    if head is None:
        unit = r.choice(['mm', 'cm'])
        head = r.choice(['#BLTrackFile beam\n#x y z Px Py Pz t PDGid EvNum '
                         'TrkId Parent weight\n# {0} {0} {0} MeV/c\n',
                         '#BLTrackFile2\n#{0} {0} {0}\n\n#note\n']
                        ).format(unit)
        Hit.set_g4bl_unit(r.choice(['mm', 'cm', 'm']))
    want, text = [], head
    for i in range(r.randint(1, 8)):
        d = particle(r, fmt)
        d['event_number'] = i
        h = gen.make_hit(d)
        words = []
        for col in SPEC[fmt]:
            if col is None:
                words.append(r.choice(['0', '1', '-7', '3.25']))
            elif col[0] == 'pid':
                words.append(str(ICOOL[h['pid']] if 'icool' in fmt else
                                 MARS[h['pid']] if 'mars' in fmt
                                 else h['pid']))
            elif col[1] == 0:
                v = h[col[0]]
                words.append('%.10e' % v if r.random() < .1 and
                             abs(v) < 10**9 else str(v))
            else:
                v = h['t']*gen.C_LIGHT if col[0] == 'ct' else h[col[0]]
                words.append(repr(v/size(col, unit)))
        gap = r.choice([' ', '  ', '\t', '   '])
        text += r.choice(['', ' ', '\t'])+gap.join(words)+r.choice(
            ['\n', ' \n'])
        if 'g4beamline' in fmt and r.random() < .2:
            text += r.choice(['\n', '#a comment\n', '# 1 2 3\n'])
        want.append(h)
    if r.random() < .3:
        text = text.rstrip('\n')
    name = os.path.join(m.scratch, 'foreign.dat')
    with open(name, 'w') as out:
        out.write(text)
    got = Bunch.new_from_read_builtin(fmt, name)
    if m.equal(len(got), len(want), 'every hit of a foreign file',
               format=fmt, text=text[:300]):
        for g, w in zip(got, want):
            same_hit(m, fmt, g, w, 'foreign')
    Hit.set_g4bl_unit(unit)
    with open(name) as lines:
        got = list(BuiltinHitFactory(fmt, lines).hit_generator())
    if m.equal(len(got), len(want), 'every hit from the generator',
               format=fmt, text=text[:300]):
        for g, w in zip(got, want):
            same_hit(m, fmt, g, w, 'generator')
    m.event('foreign file')
    m.distinct('foreign', fmt, unit, len(want))


class Broken(io.StringIO):
    """A full disk: raises after a number of writes"""
    def __init__(self, after):
        super().__init__()
        self.left = after

    def write(self, text):
        self.left -= 1
        if self.left < 0:
            raise OSError(28, 'No space left on device')
        return super().write(text)


def faults(r, m):
    fmt = r.choice(FORMATS)
    start(r, fmt)
    h = gen.make_hit(particle(r, fmt))
    before = gen.state(h)
    out = Broken(0)
    m.raises(OSError, lambda: h.write_builtin_formatted(fmt, out),
             'failing write is reported')
    m.equal(gen.state(h), before, 'failing write alters no hit', format=fmt)
    m.event('failing handle')
    if 'g4beamline' not in fmt:
        # a species the format has no code for is left out, the rest stay
        b = make(r, fmt, r.randint(2, 10), [0, 1, 2])
        odd = [h for h in b if r.random() < .4]
        for h in odd:
            h['pid'] = r.choice([3122222, 424242])
        snap = gen.snapshot_list(b)
        name = os.path.join(m.scratch, 'odd.dat')
        b.hit_write_builtin(fmt, name)
        m.equal(gen.snapshot_list(b), snap, 'inexpressible hit unaltered')
        got = Bunch.new_from_read_builtin(fmt, name)
        want = sorted([h for h in b if h not in odd],
                      key=lambda h: h['station'])
        if m.equal(len(got), len(want), 'expressible hits are all written',
                   format=fmt):
            for g, w in zip(got, want):
                same_hit(m, fmt, g, w, 'partly expressible')
        if odd:
            m.event('inexpressible')
    m.raises(IOError, lambda: Bunch().hit_write_builtin('no_such', 'f'),
             'unknown format refused when writing')
    m.raises(IOError, lambda: Bunch.new_from_read_builtin('no_such', 'f'),
             'unknown format refused when reading')
    m.raises(IOError, lambda: Bunch.new_from_read_builtin(
        fmt, os.path.join(m.scratch, 'absent*')), 'missing file reported')


SCENARIOS = [('one_hit', one_hit, 500, 12000),
             ('whole_bunch', whole_bunch, 500, 10000),
             ('foreign', foreign, 250, 5000),
             ('faults', faults, 150, 3000)]


def teardown(mon):
    Hit.set_g4bl_unit('mm')
