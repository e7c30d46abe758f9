"""P18: loading takes exactly the well-formed hits."""
import contextlib
import io
import json
import os

from xmon import gen
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.hit.factory import OpalHitFactory, UserHitFactory
from checks.p16_builtin_io import FORMATS, HEADERS, ICOOL, MARS, SPEC, size

ID = 'P18'
RULE = ('files built line by line from tagged hits with malformed, truncated, '
        'blank, comment and out-of-range lines anywhere, loaded through every '
        'loader with limits, filters, file patterns and grouping, and judged '
        'against the tags; distinct by format, pattern of bad lines, limit '
        'and filter')
REQUIRED = {'loaded': 700, 'bad line': 3000, 'words missing': 200,
            'words extra': 200, 'not a number': 300, 'out of range': 200,
            'blank': 200, 'unknown code': 60, 'comment': 200, 'limit': 200,
            'limit 0': 20, 'filter': 200, 'many files': 150, 'grouped': 250,
            'user': 120, 'opal': 120, 'json': 120, 'no newline at end': 100,
            'only bad lines': 15, 'limit and filter and files': 40,
            'bad first': 60, 'bad last': 60, 'carriage returns': 60, 'long bad run': 60}


def good_line(r, fmt, tag, keys):
    """A line of the format whose hit is recognised by its event number"""
    words = []
    for col in SPEC[fmt]:
        if col is None:
            words.append('0')
        elif col[0] == 'event_number':
            words.append(str(tag))
        elif col[0] == 'pid':
            pid = keys['pid']
            words.append(str(ICOOL[pid] if 'icool' in fmt else
                             MARS[pid] if 'mars' in fmt else pid))
        elif col[0] in keys:
            words.append(str(keys[col[0]]))
        elif col[1] == 0:
            words.append(str(r.randint(0, 9)))
        else:
            words.append(repr(r.gauss(0, 1)))
    return words


def spoil(r, m, fmt, words):
    """Turn a good line into a bad one"""
    words = list(words)
    kind = r.choice(['words missing', 'words extra', 'not a number',
                     'out of range', 'blank', 'unknown code', 'comment'])
    used = [i for i, c in enumerate(SPEC[fmt]) if c is not None]
    ints = [i for i in used if SPEC[fmt][i][1] == 0]
    if kind == 'unknown code' and 'g4beamline' in fmt:
        kind = 'words missing'
    if kind == 'words missing':
        text = ' '.join(words[:r.randint(1, len(words)-1)])
    elif kind == 'words extra':
        text = ' '.join(words+['1']*r.randint(1, 3))
        if fmt == 'g4beamline_bl_track_file' and len(text.split()) == 15:
            text += ' 1'
    elif kind == 'not a number':
        words[r.choice(used)] = r.choice(['x', '****', '1.0.0', '--', 'None',
                                          '1,5', '0x1g', '12e'])
        text = ' '.join(words)
    elif kind == 'out of range':
        words[r.choice(ints)] = r.choice([str(2**31), str(-2**31-1),
                                          str(2**70), 'nan', 'inf', '1e300'])
        text = ' '.join(words)
    elif kind == 'blank':
        text = r.choice(['', '  ', '\t'])
    elif kind == 'unknown code':
        i = [i for i in used if SPEC[fmt][i][0] == 'pid'][0]
        words[i] = r.choice(['77', '-99', '1234567'])
        text = ' '.join(words)
    else:
        text = r.choice(['# a comment', '#', '#note 1 2 3'])
    m.event(kind)
    m.event('bad line')
    return text


def build(r, m, fmt, tags, n, bad):
    """[(line text, tag or None)]"""
    lines = []
    for _ in range(n):
        keys = {'pid': r.choice([13, -13, 211, 2212, 11]),
                'station': r.choice([0, 1, 4, -2]), 'status': r.randint(0, 2)}
        tag = next(tags)
        words = good_line(r, fmt, tag, keys)
        if r.random() < bad:
            lines.append((spoil(r, m, fmt, words), None, keys))
        else:
            lines.append((r.choice([' ', '  ', '\t']).join(words), tag, keys))
    if bad and r.random() < .25:   # a long run of rubbish is no end of file
        at = r.randint(0, len(lines))
        rubbish = r.choice(['# a comment', '', '1 2 3', 'x', None])
        run = [(spoil(r, m, fmt, good_line(r, fmt, 0, {'pid': 13}))
                if rubbish is None else rubbish, None, {})
               for _ in range(r.choice([40, 120, 300, 1100]))]
        lines[at:at] = run
        m.event('long bad run')
    return lines


def header(r, fmt):
    n = HEADERS.get(fmt)
    if n is None:
        return ['#BLTrackFile', '#x y z']+r.choice(
            [['#mm mm mm MeV/c'], ['#cm cm cm MeV/c']])
    return [r.choice(['title', '', '1 2 3', '# c']) for _ in range(n)]


def save(r, m, path, head, lines):
    end = '\n'
    if r.random() < .12:
        end = '\r\n'
        m.event('carriage returns')
    text = ''.join(l+end for l in head+[t for t, _, _ in lines])
    if lines and lines[-1][0].strip() and r.random() < .25:
        text = text[:-len(end)]
        m.event('no newline at end')
    with open(path, 'w', newline='') as out:
        out.write(text)
    if lines and lines[0][1] is None:
        m.event('bad first')
    if lines and lines[-1][1] is None:
        m.event('bad last')


def counter():
    i = 0
    while True:
        i += 1
        yield i


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def loading(r, m):
    Hit.clear_global_weights()
    fmt = r.choice(FORMATS)
    tags = counter()
    names = r.choice([['a.dat'], ['a.dat'], ['a.dat', 'b.dat'],
                      ['a.dat', 'b.dat', 'c.dat', 'd.dat']])
    pattern = 'a.dat' if len(names) == 1 else r.choice(['*.dat', '?.dat',
                                                        '[abcd].dat'])
    where = os.path.join(m.scratch, 'in')
    os.mkdir(where)
    bad = r.choice([0., .1, .4, .8, 1.])
    content = {}
    for name in names:
        content[name] = build(r, m, fmt, tags, r.randint(0, 12), bad)
    made = list(names)
    r.shuffle(made)                # creation order is not name order
    for name in made:
        save(r, m, os.path.join(where, name), header(r, fmt), content[name])
    # bystanders that the pattern does not name
    save(r, m, os.path.join(where, 'other.txt'), header(r, fmt),
         build(r, m, fmt, tags, 2, 0.))
    lines = [l for name in sorted(names) for l in content[name]]
    keep = None
    test = None
    if r.random() < .45:
        var = r.choice(['event_number', 'pid', 'station'])
        pick = {'event_number': lambda h: h['event_number'] % 3 != 0,
                'pid': lambda h: h['pid'] == -13,
                'station': lambda h: h['station'] == 1}[var]
        calls = []

        def test(hit):
            calls.append(hit['event_number'])
            return pick(hit)
        m.event('filter')
    good = [(t, k) for _, t, k in lines if t is not None]
    if test is not None:
        def passes(t, k):
            k = dict(k, event_number=t)
            if fmt != 'icool_for009':
                k['station'] = 0
            return pick(k)
    else:
        def passes(t, k):
            return True
    want = [(t, k) for t, k in good if passes(t, k)]
    if not want:
        m.event('only bad lines')
    limit = -1
    path = os.path.join(where, pattern)
    if r.random() < .4:
        limit = r.choice([0, 1, len(want), len(want)+1,
                          r.randint(0, len(want)+3)])
        if limit == 0:
            m.event('limit 0')
        m.event('limit')
        if test and len(names) > 1:
            m.event('limit and filter and files')
    got = quietly(lambda: Bunch.new_from_read_builtin(
        fmt, path, test, limit))
    chosen = want if limit < 0 else want[:limit]
    m.equal([h['event_number'] for h in got], [t for t, _ in chosen],
            'exactly the well-formed hits in order', format=fmt, limit=limit,
            bad=bad, files=names)
    for h, (t, k) in zip(got, chosen):
        m.equal(h['pid'], k['pid'], 'hit of the line')
        if fmt == 'icool_for009':
            m.equal(h['station'], k['station'], 'station of the line')
    if test is not None and limit < 0:
        m.equal(calls, [t for t, _ in good], 'filter sees every hit once')
    # grouped
    if limit < 0:
        var = r.choice(['station', 'pid', 'event_number', 'particle_number'])
        groups = quietly(lambda: Bunch.new_dict_from_read_builtin(
            fmt, path, var, test))
        listed = quietly(lambda: Bunch.new_list_from_read_builtin(
            fmt, path, var, test))
        parts = {}
        for h in got:
            parts.setdefault(h[var], []).append(h['event_number'])
        m.equal({k: [h['event_number'] for h in b]
                 for k, b in groups.items()}, parts, 'grouped as described',
                by=var)
        m.equal([[h['event_number'] for h in b] for b in listed],
                [parts[k] for k in sorted(parts)], 'listed in order', by=var)
        m.event('grouped')
    if len(names) > 1:
        m.event('many files')
    m.event('loaded')
    m.distinct(fmt, [t is None for _, t, _ in lines], limit,
               test is not None, len(names))


COLUMNS = ['event_number', 'pid', 'x', 'px', 'pz', 't', 'station']


def user(r, m):
    Hit.clear_global_weights()
    cols = COLUMNS[:]
    r.shuffle(cols)
    units = {c: '' for c in cols}
    tags = counter()
    lines = []
    for _ in range(r.randint(0, 15)):
        tag = next(tags)
        words = [str(tag) if c == 'event_number' else
                 str(r.choice([13, -13, 211])) if c == 'pid' else
                 str(r.randint(0, 3)) if c == 'station' else
                 repr(r.gauss(0, 10)) for c in cols]
        if r.random() < .35:
            kind = r.choice(['words missing', 'words extra', 'not a number',
                             'out of range', 'blank', 'unknown code'])
            if kind == 'words missing':
                words = words[:r.randint(1, len(words)-1)]
            elif kind == 'words extra':
                words += ['1']*r.randint(1, 4)
            elif kind == 'not a number':
                words[r.randrange(len(words))] = r.choice(['abc', '*', '1e',
                                                           '1..2'])
            elif kind == 'out of range':
                words[cols.index(r.choice(['event_number', 'station']))] = \
                    r.choice([str(2**31), 'nan', 'inf', str(-2**40)])
            elif kind == 'blank':
                words = []
            else:
                words[cols.index('pid')] = r.choice(['76', '-4242'])
            m.event(kind)
            m.event('bad line')
            tag = None
        lines.append((' '.join(words), tag))
    if r.random() < .15:
        at = r.randint(0, len(lines))
        lines[at:at] = [(r.choice(['', '1 2', 'rubbish']), None)]*r.choice(
            [60, 300, 1100])
        m.event('long bad run')
    skip = r.randint(0, 3)
    text = ''.join('%d 13 1 1 1 1 1\n' % (10**6+i) for i in range(skip)) + \
        ''.join(l+'\n' for l, _ in lines)
    want = [t for _, t in lines if t is not None]
    test = None
    if r.random() < .4:
        test = (lambda h: h['event_number'] % 2 == 0)
        want = [t for t in want if t % 2 == 0]
        m.event('filter')
    limit = -1
    if r.random() < .5:
        limit = r.choice([0, len(want), r.randint(0, len(want)+2)])
        want = want[:limit]
        m.event('limit')
    handle = io.StringIO(''.join(l+'\n' for l, _ in lines))
    got = quietly(lambda: list(UserHitFactory(
        cols, units, handle, '').hit_generator()))
    m.equal([h['event_number'] for h in got],
            [t for _, t in lines if t is not None],
            'exactly the well-formed hits of a generator')
    handle = io.StringIO(text)
    got = quietly(lambda: Bunch.new_from_read_user(
        cols, units, handle, skip, test, limit))
    m.equal([h['event_number'] for h in got], want,
            'exactly the well-formed hits of a user file', skip=skip,
            limit=limit, lines=lines)
    m.event('user')
    m.distinct('user', cols, [t is None for _, t in lines], skip, limit)


def opal(r, m):
    """Loss files of OPAL: probe, position [mm], beta gamma, id, turn, time"""
    pid = r.choice([13, -13, 11, -11, 211, -211, 2212, 1000010020])
    mass = Common.pdg_pid_to_mass[abs(pid)]
    names = r.sample(['PROBE1', 'PROBE2', 'FOIL', '"P3"', 'LOSS'], r.randint(1, 4))
    first = r.random() < .3     # probes are found on the first turn
    probes = {} if first else dict((n, i) for i, n in enumerate(names))
    ignored = r.choice([[], ['RING'], ['RING', 'COLL']])
    found, lines, want = list(probes), [], []
    for tag in range(r.randint(0, 25)):
        name, turn = r.choice(names), 1 if first else r.randint(1, 50)
        x = [r.gauss(0, 100) for _ in range(3)]
        p = [r.gauss(0, 2) for _ in range(3)]
        t = r.uniform(0, 1e5)
        words = [name]+[repr(v) for v in x+p]+[str(tag), str(turn), repr(t)]
        kind = r.choice(['good', 'good', 'good', 'words missing', 'words extra',
                         'not a number', 'blank', 'comment', 'ignored'])
        if kind == 'words missing':
            words = words[:r.randint(1, 9)]
        elif kind == 'words extra':
            words += ['1']*r.randint(1, 3)
        elif kind == 'not a number':
            words[r.randint(1, 9)] = r.choice(['abc', '*', '1e', '1..2'])
        elif kind == 'blank':
            words = []
        elif kind == 'comment':
            words = '# Element x (mm), y (mm), z (mm), px ( ), py ( )'.split()
        elif kind == 'ignored' and ignored:
            words[0] = r.choice(ignored)
        else:
            kind = 'good'
            if name not in found:
                found.append(name)
            want.append(dict(zip(('x', 'y', 'z'), x), px=p[0]*mass,
                             py=p[1]*mass, pz=p[2]*mass, t=t, pid=pid,
                             mass=mass, charge=Common.pdg_pid_to_charge[pid],
                             event_number=tag, station=found.index(name)
                             + (turn-1)*len(names)))
        if kind != 'good':
            m.event('bad line')
        lines.append(' '.join(words)+'\n')
    handle = r.choice([io.StringIO(''.join(lines)), iter(lines)])
    got = list(OpalHitFactory(pid, probes, ignored, handle).hit_generator())
    m.equal([h['event_number'] for h in got], [w['event_number'] for w in want],
            'exactly the well-formed hits of an OPAL file', lines=lines)
    for h, w in zip(got, want):
        for var, value in w.items():
            m.close(h[var], value, 'what the OPAL line says', rel=1e-14,
                    var=var)
        size2 = mass**2+w['px']**2+w['py']**2+w['pz']**2
        m.close(h['energy'], size2**.5, 'OPAL hit on the mass shell', rel=1e-12)
    for bad in (76, -4242):
        m.raises(KeyError, lambda: OpalHitFactory(bad, {}, [], handle),
                 'unknown particle refused')
    m.event('opal')
    m.distinct('opal', pid, names, lines)


def spill(r, tags, number):
    events, want = [], []
    for _ in range(r.randint(0, 3)):
        ev = {}
        if r.random() < .8:
            ev['virtual_hits'] = []
            for _ in range(r.randint(0, 3)):
                tag = next(tags)
                v = {'position': dict(zip('xyz', (float(tag), 0., 1.)))}
                for k in ('momentum', 'b_field', 'e_field'):
                    v[k] = {c: r.gauss(0, 1) for c in 'xyz'}
                v.update(station_id=r.randint(0, 3), particle_id=-13,
                         track_id=1, time=1., mass=105.66, charge=1.,
                         proper_time=0., path_length=2.)
                ev['virtual_hits'].append(v)
                want.append((tag, v['station_id']))
        events.append(ev)
    return {'maus_event_type': 'Spill', 'spill_number': number,
            'mc_events': events}, want


def documents(r, m):
    Hit.clear_global_weights()
    tags = counter()
    names = r.choice([['a.json'], ['a.json', 'b.json', 'c.json']])
    want = []
    for name in names:
        lines = []
        for number in range(r.randint(0, 5)):
            doc, hits = spill(r, tags, number)
            text = json.dumps(doc)
            k = r.random()
            if k < .1:
                text, hits = text[:r.randint(1, len(text)-1)], []
            elif k < .2:
                text, hits = r.choice(['', '[]', '{"maus_event_type": '
                                       '"JobHeader"}', 'not json',
                                       '{"maus_event_type": "Spill"}']), []
            if not hits:
                m.event('bad line')
            lines.append(text)
            want += hits
        with open(os.path.join(m.scratch, name), 'w') as out:
            out.write(''.join(l+'\n' for l in lines))
    test = None
    if r.random() < .4:
        st = r.randint(0, 3)
        test = (lambda h: h['station'] == st)
        want = [w for w in want if w[1] == st]
        m.event('filter')
    limit = -1
    if r.random() < .4:
        limit = r.randint(0, len(want)+2)
        want = want[:limit]
        m.event('limit')
    got = quietly(lambda: Bunch.new_from_read_builtin(
        'maus_json_virtual_hit', os.path.join(m.scratch, '*.json'), test,
        limit))
    m.equal([(int(h['x']), h['station']) for h in got], want,
            'exactly the hits of the documents', limit=limit, files=names)
    if limit < 0:
        listed = quietly(lambda: Bunch.new_list_from_read_builtin(
            'maus_json_virtual_hit', os.path.join(m.scratch, '*.json'),
            'station', test))
        parts = {}
        for t, s in want:
            parts.setdefault(s, []).append(t)
        m.equal([[int(h['x']) for h in b] for b in listed],
                [parts[s] for s in sorted(parts)],
                'documents grouped by station')
    m.event('json')
    m.distinct('json', len(names), len(want), limit)


SCENARIOS = [('loading', loading, 1000, 20000),
             ('user', user, 300, 6000),
             ('opal', opal, 200, 4000),
             ('documents', documents, 250, 5000)]


def teardown(mon):
    Hit.set_g4bl_unit('mm')
