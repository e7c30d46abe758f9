"""P39: the programs that come with xboa do what they describe."""
import builtins
import contextlib
import functools
import importlib.machinery
import importlib.util
import io
import math
import os
import string
import subprocess
import sys

import numpy

from xmon import gen
import xboa
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit
from checks.p16_builtin_io import FORMATS, HEADERS, ICOOL, MARS, SPEC, size

ID = 'P39'
NEEDS_ROOT = True
RULE = ('generated beams written to disk and handed, with generated control '
        'files and options, to the file converter, the emittance calculator '
        'and the examples as they are shipped; the files they leave are '
        'parsed word by word and compared with formulas applied to the '
        'beams; distinct by control file and beam')
REQUIRED = {'converted': 150, 'translated': 60,
            'mass shell': 60, 'station chosen': 15, 'commented': 60,
            'calculated': 120, 'row': 200, 'dropped station': 10, 'end cut': 30,
            'momentum cut': 60, 'rf folded': 40,
            'refused': 60, 'example': 3}
C = 299.792458
FOLDER = os.path.join(os.path.dirname(os.path.abspath(xboa.__file__)),
                      'examples')


def load(name):
    path = os.path.join(FOLDER, name)
    loader = importlib.machinery.SourceFileLoader('program_'+name[:5], path)
    spec = importlib.util.spec_from_loader(loader.name, loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def program(name):
    """The program, and whether it could be loaded as it comes

    The converter imports common, hit and bunch and the calculator the
    exceptions and string.lower of python 2: a user who provides those names
    can run the rest of them.
    """
    try:
        return quietly(lambda: load(name)), True
    except (Exception, SystemExit):
        pass        # a finding of the scenario 'start'
    import xboa.bunch
    import xboa.hit
    sys.modules.update(common=Common, hit=xboa.hit, bunch=xboa.bunch,
                       exceptions=builtins)
    string.lower = str.lower
    try:
        return quietly(lambda: load(name)), False
    finally:
        for word in ('common', 'hit', 'bunch', 'exceptions'):
            del sys.modules[word]


def quietly(fn):
    hook = sys.excepthook
    sys.excepthook = lambda *a: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    finally:
        sys.excepthook = hook


def parse(fmt, name):
    """The file as a list of dicts, read by the table of columns alone"""
    lines = open(name).read().split('\n')
    if 'g4beamline' in fmt:
        lines = [l for l in lines if l and not l.startswith('#')]
    else:
        lines = [l for l in lines[HEADERS[fmt]:] if l]
    out = []
    for line in lines:
        words = line.split()
        row = {}
        for word, col in zip(words, SPEC[fmt]):
            if col is not None and col[1] == 0:
                row[col[0]] = int(word)
            elif col is not None:
                row[col[0]] = float(word)*size(col, 'mm')
        if 'icool' in fmt:
            row['pid'] = {v: k for k, v in ICOOL.items()}[row['pid']]
        elif 'mars' in fmt:
            row['pid'] = {v: k for k, v in MARS.items()}[row['pid']]
        if 'ct' in row:
            row['t'] = row.pop('ct')/C
        out.append(row)
    return out


def beam(r, n, station, pid, z=None, pz=220.):
    mass = Common.pdg_pid_to_mass[abs(pid)]
    a, b = r.gauss(0, 1), r.gauss(0, 1)
    z = r.uniform(-1e3, 1e4) if z is None else z
    t0 = r.uniform(0, 300)
    out = []
    for i in range(n):
        x, y = r.gauss(2, 20), r.gauss(-3, 15)
        d = {'x': x, 'y': y, 'px': a*x+r.gauss(0, 20),
             'py': b*y+r.gauss(0, 15), 'pz': pz+r.gauss(0, 20), 'z': z,
             'pid': pid, 'mass': mass,
             'charge': float(Common.pdg_pid_to_charge[pid]),
             't': t0+r.gauss(0, .3), 'event_number': i, 'particle_number': 1,
             'station': station, 'bz': 1e-3,
             'local_weight': r.choice([1., 1., .5, 2.])}
        out.append(Hit.new_from_dict(d, 'energy'))
    return out


def convert(r, m):
    Hit.set_g4bl_unit('mm')
    mod, whole = program('File_Convert.py')
    fin, fout = r.choice(FORMATS), r.choice(FORMATS)
    pid = r.choice([-13, 13, 2212, 211])
    stations = r.choice([[1], [1, 2, 5]])
    hits = []
    for s in stations:
        hits += beam(r, r.randint(6, 15), s, pid)
    Bunch.new_from_hits(hits).hit_write_builtin(fin, 'in.dat')
    lines = ['file_in in.dat', 'format_in '+fin, 'file_out out.dat',
             'format_out '+fout]
    extra = []
    if fin == 'icool_for009' and r.random() < .6:
        s = r.choice(stations)
        lines.append('station_in %d' % s)
        hits = [h for h in hits if h['station'] == s]
        m.event('station chosen')
    rotated, origin, target = [], {}, None
    if r.random() < .5 and whole:
        rotated = r.sample(['x', 'px', 'y', 'py'], r.randint(2, 4))
        target = gen.posdef(r, len(rotated), 100.)
        lines.append('rotate '+' '.join(rotated))
        for i, v in enumerate(rotated):
            if r.random() < .5:
                origin[v] = r.gauss(0, 3)
                extra.append('origin %s %r' % (v, origin[v]))
            for j in range(i, len(rotated)):
                w = [v, rotated[j]]
                r.shuffle(w)
                extra.append('covariance %s %s %r' % (w[0], w[1],
                                                      float(target[i, j])))
        m.event('rotated')
    moved = {}
    if r.random() < .5:
        for v in r.sample(['x', 'y', 'z', 't', 'px', 'py', 'pz'],
                          r.randint(1, 4)):
            moved[v] = r.gauss(0, 10)
        extra.append('translate '+' '.join('%s %r' % kv
                                           for kv in moved.items()))
        m.event('translated')
    shell = r.choice([None, 'energy', 'energy', 'pz'])
    if shell is None and fout == 'mars_1':
        shell = 'energy'
    if shell:
        extra.append('mass_shell_condition '+shell)
        m.event('mass shell')
    r.shuffle(extra)
    lines += extra
    if r.random() < .7:
        for i in range(r.randint(1, 4)):
            at = r.randrange(len(lines)+1)
            lines[at:at] = [r.choice(['# translate x 100', '', '   ',
                                      '! mass_shell_condition px'])]
        lines = [l+r.choice(['', '', ' # x 1', ' ! y 2']) for l in lines]
        m.event('commented')
    open('control.inp', 'w').write('\n'.join(lines)+'\n')
    m.note(lines)
    quietly(lambda: mod.file_convert('control.inp'))
    want = [dict((v, h[v]) for v in ('x', 'y', 'z', 't', 'px', 'py', 'pz',
                                     'pid', 'event_number', 'energy', 'mass',
                                     'particle_number', 'local_weight'))
            for h in sorted(hits, key=lambda h: h['station'])]
    if fin == 'mars_1':
        for w in want:
            w['particle_number'] = 0
    got = parse(fout, 'out.dat')
    if not m.equal(len(got), len(want), 'a line per converted hit'):
        return
    free = set(rotated)
    for g, w in zip(got, want):
        for v in ('pid', 'event_number', 'particle_number'):
            if v in g:
                m.equal(g[v], w[v], 'identity of a converted hit', var=v)
        for v in ('x', 'y', 'z', 't', 'px', 'py', 'pz', 'local_weight'):
            if v in g and v not in free and not (v == shell):
                m.close(g[v], w[v]+moved.get(v, 0.), 'converted value',
                        rel=1e-12, abs_=1e-10, var=v)
        p2 = g['px']**2+g['py']**2+g['pz']**2
        e = math.sqrt(w['mass']**2+w['px']**2+w['py']**2+w['pz']**2)
        if shell == 'pz':
            m.check(abs(p2-(e*e-w['mass']**2)) < 1e-9*e*e or
                    e*e-w['mass']**2 < g['px']**2+g['py']**2,
                    'momentum on the mass shell')
        elif shell and 'energy' in g:
            m.close(g['energy'], math.sqrt(w['mass']**2+p2),
                    'energy on the mass shell', rel=1e-12)
    if rotated:
        ws = [w['local_weight'] for w in want]
        t = math.fsum(ws)
        o = [origin.get(v, 0.)for v in rotated]

        def spread(rows, shift):
            a = numpy.array([[row[v]-shift.get(v, 0.)-c for v, c
                              in zip(rotated, o)] for row in rows])
            return (a.T*numpy.array(ws)) @ a/t, a
        before, a = spread(want, {})
        after, b = spread(got, moved)
        n = len(rotated)
        k = (numpy.linalg.det(before)/numpy.linalg.det(target))**(1./n)
        worst = abs(after-k*target).max()/(k*abs(target).max())
        m.check(worst < 1e-6, 'covariance about the origin is the requested '
                'one at equal emittance', worst=worst)
        t_, res = numpy.linalg.lstsq(a, b, rcond=None)[:2]
        m.check(abs(a @ t_-b).max() < 1e-6*abs(b).max(),
                'one linear map about the origin')
    m.event('converted')
    m.distinct('convert', lines)


def moment(rows, ws, a, b):
    t = math.fsum(ws)
    ma = math.fsum(w*h[a] for w, h in zip(ws, rows))/t
    mb = math.fsum(w*h[b] for w, h in zip(ws, rows))/t
    return math.fsum(w*(h[a]-ma)*(h[b]-mb) for w, h in zip(ws, rows))/t


def mean(rows, ws, a):
    return math.fsum(w*h[a] for w, h in zip(ws, rows))/math.fsum(ws)


def cov(rows, ws, axes):
    return numpy.array([[moment(rows, ws, a, b) for b in axes] for a in axes])


def expected_row(rows, ws, mass):
    """What the table says of a station, in its units"""
    eps = numpy.linalg.det(cov(rows, ws, ['x', 'px', 'y', 'py']))**.25/mass
    eps_l = numpy.linalg.det(cov(rows, ws, ['t', 'energy']))**.5*C/mass
    eps_6 = numpy.linalg.det(cov(rows, ws, ['t', 'energy', 'x', 'px', 'y',
                                            'py']))**.5*C/mass**3
    mpz, me = mean(rows, ws, 'pz'), mean(rows, ws, 'energy')
    xx = moment(rows, ws, 'x', 'x')+moment(rows, ws, 'y', 'y')
    xp = moment(rows, ws, 'x', 'px')+moment(rows, ws, 'y', 'py')
    see = moment(rows, ws, 'energy', 'energy')
    lcan = moment(rows, ws, 'x', 'py')-moment(rows, ws, 'y', 'px') + \
        .5*C*rows[0]['bz']*xx
    # kinetic: one over half of c is the unit of B times length to momentum
    return {1: rows[0]['z']*1e-3, 2: rows[0]['bz']*1e3, 3: eps*1e-3,
            4: eps_l*1e-3, 5: eps_6*1e-9,
            6: lcan/2./mass/eps, 7: mpz*1e-3, 8: xx/2.*mpz/mass/eps*1e-3,
            9: -xp/2./mass/eps, 12: math.fsum(ws),
            16: see**.5*1e-3, 17: moment(rows, ws, 't', 't')**.5*1e-9,
            20: see**.5*1e-3,
            21: mean(rows, ws, 'x')*1e-3, 22: mean(rows, ws, 'y')*1e-3,
            23: moment(rows, ws, 'x', 'energy')*me/see*1e-3,
            24: moment(rows, ws, 'y', 'energy')*me/see*1e-3}


def calculate(r, m):
    Hit.clear_global_weights()
    mod, whole = program('XBOA9f')
    pid = r.choice([-13, 13, 2212])
    mass = Common.pdg_pid_to_mass[abs(pid)]
    pz = 220. if pid != 2212 else 600.
    freq = r.choice([0., 0., 100., 201.25])      # MHz
    stations = {}
    for s in r.sample(range(1, 30), r.randint(1, 4)):
        n = r.choice([4, 12, 20, 30, 30])
        hits = beam(r, n, s, pid, pz=pz)
        for h in hits[1:]:
            if freq and r.random() < .5:
                h['t'] += r.randint(-5, 5)*1e3/freq
            if r.random() < .06:
                h['pid'], h['charge'] = -pid, -h['charge']
        stations[s] = hits
    last = max(stations)
    # the events that reach the end
    for s in stations:
        if s == last:
            stations[s] = [h for h in stations[s]
                           if h['event_number'] == 0 or r.random() < .8]
    every = [h for s in stations for h in stations[s]]
    Bunch.new_from_hits(every).hit_write_builtin('icool_for009', 'for009.dat')
    pzmin, pzmax = 0., 0.
    mode = r.choice(['abs', 'ref', 'none', 'default'])
    if r.random() < .7:
        if mode == 'ref':
            pzmin, pzmax = -.02, .03
        else:
            pzmin, pzmax = (pz-r.uniform(15, 40))/1e3, (pz+r.uniform(15, 40))/1e3
    if mode == 'ref' and pzmax == 0.:
        pzmin, pzmax = -1., 1.
    cuts = [r.choice([0., .01, .03, 1e3]), r.choice([.02, .05, 1e3])]
    title = r.choice(['a title', 'Test Data For BOA', '-'])
    open('ecalc9f.inp', 'w').write('\n'.join([
        title, str(ICOOL[pid]), '%r %r' % (pzmin, pzmax), '%r %r' % tuple(cuts),
        '%r' % r.choice([0.15, 1e6]), '%r' % freq, '0.0', '.false.',
        r.choice(['.false.', 'f', '.FALSE.'])])+'\n')
    args = ['XBOA9f']
    names = {'-i': 'for009.dat', '-c': 'ecalc9f.inp', '-o': 'ecalc9f.dat'}
    if r.random() < .5:
        for k in list(names):
            names[k] = 'my_'+names[k]
            if k != '-o':
                os.replace(names[k][3:], names[k])
            args.append(k+'='+names[k])
    if mode != 'default':
        args.append('--p-cut-'+mode)
    weights = {}
    if r.random() < .4 and whole:
        style = r.choice(['--weight-event', '--weight-no-event', None])
        rows = beam(r, 30, 1, pid)
        r.shuffle(rows)
        for i, h in enumerate(rows):
            h['local_weight'] = r.choice([1., .25, 3., 1.5])
            k = i if style == '--weight-no-event' else h['event_number']
            weights[k] = h['local_weight']
        kind = r.choice(['icool_for003', 'icool_for009'])
        Bunch.new_from_hits(rows).hit_write_builtin(kind, 'weights.dat')
        args.append('-w=weights.dat')
        if kind != 'icool_for003' or r.random() < .3:
            args.append('-wt='+kind)
        if style:
            args.append(style)
        m.event('weight file')
    end = r.random() < .35
    if end:
        args.append('--end-cut')
        there = {h['event_number'] for h in stations[last]}
        first = min(stations)
        for h in stations[first]:
            if h['event_number'] not in there:
                weights[h['event_number']] = 0.
        m.event('end cut')
    elif r.random() < .2:
        args.append('--no-end-cut')
    drawn = []
    if r.random() < .4 and whole:
        args.append('-p=png')
        mod.make_root_plots = lambda table, bunches, kind: drawn.append(
            (table, [[(h['event_number'], h['x'], h['y'], h['px'], h['py'],
                       h['pz']) for h in b] for b in bunches],
             kind))
    m.note(args)
    # the tool works on its own copies of the hits
    data = [dict((v, h[v]) for v in ('x', 'y', 'z', 't', 'px', 'py', 'pz',
                                     'pid', 'event_number', 'energy', 'bz',
                                     'station', 'local_weight'))
            for h in every]
    try:
        rc = quietly(lambda: mod.main(args))
    finally:
        Hit.clear_global_weights()
    m.equal(rc, 0, 'success is reported', args=args)
    for rows, beams, kind in drawn:
        m.equal(kind, 'png', 'the kind of picture')
        want = [[(d['event_number'], d['x'], d['y'], d['px'], d['py'],
                  d['pz']) for d in data if d['station'] == s]
                for s in sorted(stations)]
        if m.equal([len(b) for b in beams], [len(b) for b in want],
                   'the stations drawn are those given'):
            worst = abs(numpy.array(sum(beams, []))-numpy.array(
                sum(want, []))).max()
            m.check(worst < 1e-9, 'the beams drawn are those given',
                    worst=worst)
        m.event('plotted beam')
    m.equal(len(drawn), int('-p=png' in args), 'drawn when asked for')
    table = {}
    lines = open(names['-o']).read().split('\n')
    m.check(title in lines[0], 'the title heads the table')
    at = [i for i, l in enumerate(lines) if l.startswith('regn')]
    if not m.equal(len(at), 1, 'one heading'):
        return
    order = []
    for line in lines[at[0]+1:]:
        words = line.split()
        if words:
            m.equal(len(words), 27, 'number of columns', line=line)
            order.append(int(words[0]))
            table[int(words[0])] = [float(w) for w in words]
    m.equal(order, sorted(order), 'stations in order')
    want = {}
    for s in stations:
        rows = [d for d in data if d['station'] == s]
        ref = rows[0]
        ws = []
        for d in rows:
            w = d['local_weight']*weights.get(d['event_number'], 1.)
            if d['pid'] != pid or d['event_number'] == 0:
                w = 0.
            low, high = pzmin*1e3, pzmax*1e3
            if mode == 'ref':
                low, high = low+ref['pz'], high+ref['pz']
            if mode == 'ref' or (mode != 'none' and abs(high) > 1e-9):
                w = 0. if d['pz'] >= high else w
                m.event('momentum cut')
            if mode == 'ref' or (mode != 'none' and abs(low) > 1e-9):
                w = 0. if d['pz'] <= low else w
            ws.append(w)
        if freq:
            m.event('rf folded')
            for d in rows[1:]:
                d['t'] -= ref['t']
                d['t'] -= math.floor(d['t']*freq*1e-3+.5)/(freq*1e-3)
            rows[0]['t'] = 0.
        if math.fsum(ws) < 1e-9 or len(rows) < 7:
            m.event('dropped station')
            continue
        if sum(1 for w in ws if w) < 8:
            want[s] = None
            continue
        want[s] = expected_row(rows, ws, mass)
    m.check(set(table) <= set(want) and
            {s for s in want if want[s]} <= set(table),
            'a row per station with a beam', got=sorted(table),
            want=sorted(want))
    for s in table:
        row = table[s]
        m.event('row')
        if want.get(s) is None:
            continue
        for k, v in want[s].items():
            m.check(abs(row[k]-v) <= 6e-4*abs(v)+2e-9*(k in (9, 6, 21, 22, 23, 24)),
                    'column of the table', column=k, got=row[k], want=v,
                    station=s, args=args)
        m.check(-1e-3 < row[13] <= row[12]*1.001 and
                -1e-3 < row[14] <= row[12]*1.001, 'cut beams are smaller')
        if cuts[0] <= cuts[1]:
            m.check(row[13] <= row[14]*1.001, 'a wider cut keeps more')
        if cuts[0] == 0.:
            m.check(row[13] == 0., 'no room, no particles')
    m.event('calculated')
    m.distinct('calculate', args, sorted(stations), title, pzmin, freq)


def refused(r, m):
    Hit.clear_global_weights()
    mod, _ = program('XBOA9f')
    Bunch.new_from_hits(beam(r, 20, 1, -13)).hit_write_builtin(
        'icool_for009', 'for009.dat')
    good = ['t', '2', '0.0 0.0', '1. 1.', '1.', '0.', '0.0', '.false.',
            '.false.']
    kind = r.choice(['sigma', 'wrnew9', 'pzcorr', 'short', 'word', 'no data',
                     'no control', 'type', 'pid'])
    if kind == 'sigma':
        good[6] = '3.'
    elif kind == 'wrnew9':
        good[8] = '.true.'
    elif kind == 'pzcorr':
        good[7] = '.TRUE.'
    elif kind == 'short':
        good = good[:r.randint(2, 5)]
    elif kind == 'word':
        good[r.randint(2, 6)] = 'abc def'
    elif kind == 'no data':
        os.remove('for009.dat')
    elif kind == 'pid':
        good[1] = '77'
    open('ecalc9f.inp', 'w').write('\n'.join(good)+'\n')
    if kind == 'no control':
        os.remove('ecalc9f.inp')
    args = ['XBOA9f']+(['-t=nonsense'] if kind == 'type' else [])
    m.note(kind)
    rc = quietly(lambda: mod.main(args))
    m.check(rc not in (0, None), 'failure is reported', kind=kind)
    m.event('refused')
    convert_, _ = program('File_Convert.py')
    lines = ['file_in for.dat', 'format_in icool_for009', 'file_out out.dat',
             'format_out mars_1']
    open('control.inp', 'w').write('\n'.join(lines)+'\n')
    m.raises(IOError, lambda: quietly(lambda: convert_.file_convert(
        'control.inp')), 'a missing input file')
    m.check(not os.path.exists('out.dat'), 'nothing written')


RUN = '''
import sys, os, runpy, warnings
warnings.simplefilter('ignore')
sys.prefix = os.getcwd()
sys.argv = sys.argv[1:]
runpy.run_path(sys.argv[0], run_name='__main__')
'''


def run(args, answers=20):
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    env['PYTHONPATH'] = env['XMON_SITE']
    return subprocess.run([sys.executable, '-B', '-c', RUN]+args, env=env,
                          input='\n'*answers, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=300)


def shipped(r, m, name):
    """An example, in its own process"""
    where = os.path.join('share', 'xboa', 'data')
    os.makedirs(where, exist_ok=True)
    hits = []
    for s in range(1, r.randint(5, 8)):
        hits += beam(r, r.randint(40, 80), s, -13, z=1000.*s)
    Bunch.new_from_hits(hits).hit_write_builtin(
        'icool_for009', os.path.join(where, 'for009.dat'))
    Bunch.new_from_hits(beam(r, 80, 0, -13)).hit_write_builtin(
        'icool_for003', os.path.join(where, 'for003_test.dat'))
    out = run([os.path.join(FOLDER, name+'.py')])
    if not m.check(out.returncode == 0, name+' runs as it comes',
                   output=out.stdout[-600:]):
        return
    if name == 'Example_1':
        m.check('Number of hits in bunch:' in out.stdout and
                'Penn gamma' in out.stdout, 'the example reports')
    if name == 'Example_4' and os.path.exists('for003_test.dat'):
        rows = parse('icool_for003', 'for003_test.dat')
        m.equal(len(rows), 80, 'the example writes every particle')
        m.check(all(abs(q['z']) < 1e-6 for q in rows),
                'the example moves the beam to z=0')
    if name == 'closed_orbit':
        m.check('gen 3' in out.stdout, 'the example iterates',
                output=out.stdout[-300:])
    m.event('example')
    m.distinct('example', name)


def plots(r, m):
    """Both programs as the user starts them, with plots"""
    for name in os.listdir('.'):
        if name.endswith(('.png', '.pdf')):
            os.remove(name)
    if not program('File_Convert.py')[1] or not program('XBOA9f')[1]:
        return
    hits = beam(r, 30, 1, -13)+beam(r, 30, 2, -13)
    Bunch.new_from_hits(hits).hit_write_builtin('icool_for009', 'for009.dat')
    fmt = r.choice(['png', 'pdf'])
    if r.random() < .5:
        open('control.inp', 'w').write('\n'.join([
            'file_in for009.dat', 'format_in icool_for009', 'file_out o.dat',
            'format_out icool_for003']+(['plot_format pdf'] if fmt == 'pdf'
                                        else [])+
            ['translate x 5', 'histogram_in x mm', 'histogram_out pz GeV/c',
             'scatter_in x mm px MeV/c', 'scatter_out y cm t ns'])+'\n')
        out = run([os.path.join(FOLDER, 'File_Convert.py'), '-c=control.inp'])
        want = {'x_in.'+fmt, 'pz_out.'+fmt, 'x_vs_px_in.'+fmt,
                'y_vs_t_out.'+fmt}
        made = {n for n in os.listdir('.') if n.endswith(fmt)}
        m.equal(sorted(made), sorted(want), 'the plots asked for',
                output=out.stdout[-500:])
        rows = parse('icool_for003', 'o.dat')
        m.equal(len(rows), 60, 'a line per converted hit')
    else:
        open('ecalc9f.inp', 'w').write('t\n2\n0. 0.\n1. 1.\n1.\n0.\n0.\n'
                                       '.false.\n.false.\n')
        out = run([os.path.join(FOLDER, 'XBOA9f'), '-p='+fmt])
        made = {n for n in os.listdir('.') if n.endswith(fmt)}
        m.check(len(made) >= 25 and {'amp_in.'+fmt, 'amp_out.'+fmt,
                                     'p_in.'+fmt, 'p_out.'+fmt} <= made,
                'the plots asked for', made=sorted(made),
                output=out.stdout[-500:])
    m.check(out.returncode == 0, 'the program ends well',
            output=out.stdout[-500:])
    m.check(all(os.path.getsize(n) > 500 for n in made), 'plots not empty')
    m.event('plots')
    m.distinct('plots', fmt, sorted(made)[:2])


def start(r, m):
    for name in ('File_Convert.py', 'XBOA9f'):
        try:
            quietly(lambda: load(name))
        except (Exception, SystemExit) as err:
            m.fail(name.split('.')[0]+' runs as it comes', raised=repr(err))


EXAMPLES = ['Example_1', 'Example_2', 'Example_3', 'Example_4',
            'closed_orbit']
SCENARIOS = [(n, functools.partial(shipped, name=n), 1, 8)
             for n in EXAMPLES]+[
             ('start', start, 1, 1),
             ('plots', plots, 6, 40),
             ('convert', convert, 220, 5000),
             ('calculate', calculate, 180, 4000),
             ('refused', refused, 80, 800)]
