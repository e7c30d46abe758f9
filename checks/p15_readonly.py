"""P15: what only looks must not touch."""
import contextlib
import copy
import io
import math
import operator
import os

import numpy

from xmon import gen
import xboa.common as Common
from xboa.bunch import Bunch
from xboa.hit import Hit
import matplotlib.pyplot as pyplot

ID = 'P15'
NEEDS_ROOT = True
RULE = ('random histories of every read-only operation (statistics, lists, '
        'histograms, matplotlib and ROOT plots, printed forms, writes in every '
        'format, faulty calls) on bunches with weights, global weights, hits '
        'held twice and stored covariances; all hits, orders, weights, stored '
        'covariances and argument objects are compared after every step and '
        'answers asked again; distinct by history')
REQUIRED = {'step': 6000, 'repeated': 2500, 'arguments': 4000, 'stored': 90,
            'held twice': 90, 'plot': 250, 'root plot': 100, 'write': 400,
            'refused query': 100, 'cut weights': 90, 'empty': 8,
            'common helper': 400, 'geometric': 90}
GET = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'r', 'p', 'pt', 'ct',
       "x'", "y'", 'weight', 'local_weight', 'station', 'event_number']
AX2 = [['x'], ['y'], ['x', 'y'], ['t'], ['ct'], ['x', 'y', 't'], ['y', 'x']]


def plain(x):
    """An answer as comparable data"""
    if isinstance(x, Bunch):
        return ['bunch']+[id(h) for h in x]
    if isinstance(x, Hit):
        return ['hit', gen.state(x)]
    if isinstance(x, numpy.ndarray):
        return plain(x.tolist())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float) and math.isnan(x):
        return 'nan'
    if isinstance(x, (bool, int, float, str, type(None))):
        return x
    if isinstance(x, numpy.generic):
        return plain(x.item())
    return type(x).__name__


class Args(object):
    """Builds argument objects and remembers what they were"""
    def __init__(self, m):
        self.m = m
        self.kept = []

    def __call__(self, obj):
        self.kept.append((obj, copy.deepcopy(obj)))
        return obj

    def judge(self, name):
        for obj, was in self.kept:
            self.m.event('arguments')
            self.m.check(type(obj) is type(was) and plain(obj) == plain(was),
                         'argument object unchanged', operation=name, now=obj,
                         was=was)


def statistics(r, b, a, m):
    """(name, call) of one statistic or list"""
    var = a(r.sample(GET, r.randint(1, 4)))
    ax = a(list(r.choice(AX2)))
    geo = r.choice([None, None, True, False])
    origin = a({v: r.gauss(0, 1) for v in var if r.random() < .5})
    n = len(b)
    unit = {'x': 'm', 'px': 'GeV/c', 't': 's', 'energy': 'GeV'}
    units = a([unit.get(v, '') for v in var])
    calls = {
        'mean': lambda: b.mean(var),
        'moment': lambda: b.moment(var, origin),
        'moment no mean': lambda: b.moment(var),
        'covariance_matrix': lambda: b.covariance_matrix(var, origin),
        'covariance no mean': lambda: b.covariance_matrix(var),
        'standard_deviation': lambda: b.standard_deviation(var[0], origin),
        'std list': lambda: b.standard_deviation(var, origin),
        'bunch_weight': lambda: b.bunch_weight(),
        'beta': lambda: b.get_beta(ax, geo),
        'alpha': lambda: b.get_alpha(ax, geo),
        'gamma': lambda: b.get_gamma(ax, geo),
        'emittance': lambda: b.get_emittance(ax, None, geo),
        'dispersion': lambda: b.get_dispersion(ax[0]),
        'dispersion_prime': lambda: b.get_dispersion_prime(ax[0], geo),
        'dispersion_rsquared': lambda: b.get_dispersion_rsquared(),
        'kinetic ang mom': lambda: b.get_kinetic_angular_momentum(),
        'canonical ang mom': lambda: b.get_canonical_angular_momentum(),
        'kinetic with axis': (lambda d: lambda: b.
                              get_kinetic_angular_momentum(d))(
            a({'x': 1., 'y': 2., 'px': 0., 'py': .5, "x'": 0., "y'": 0.})),
        'amplitude': lambda: Bunch.get_amplitude(b, b[0], ax, None,
                                                 geometric=geo),
        'hit variable': lambda: b.get_hit_variable(b[0], 'amplitude x y'),
        'list hit variable': lambda: b.list_get_hit_variable(var, units),
        'list plain': lambda: b.list_get_hit_variable(var),
        'get': (lambda q: lambda: b.get(*q))(a(r.choice([
            ('mean', ['x']), ('emittance', ['x', 'y']), ('beta', ['x']),
            ('moment', ['x', 'x']), ('standard_deviation', ['px']),
            ('bunch_weight', ['']), ('angular_momentum', ['x']),
            ('dispersion', ['y'])]))),
        'list_get': (lambda f, q, l: lambda: Bunch.list_get(f, q, l))(
            {0: b, 1: b}, a(['mean', 'emittance']), a([['x'], ['x', 'y']])),
        'get_hits': lambda: b.get_hits('station', 1),
        'get_hits gt': lambda: b.get_hits('x', 0., operator.gt),
        'split': lambda: {k: [id(h) for h in v]
                          for k, v in b.split('station').items()},
        'hits': lambda: [id(h) for h in b.hits()],
        'histogram': lambda: b.histogram('x', 'm', 'px', nx_bins=4,
                                         ny_bins=3),
        'histogram 1d': lambda: b.histogram(r_var),
        'histogram_var_bins': (lambda e: lambda: b.histogram_var_bins(
            'x', e, 'mm'))(a([-100., -5., 0., 30., 100.])),
        'histogram_var_bins 2d': (lambda e, f: lambda: b.histogram_var_bins(
            'x', e, 'mm', 'py', f, 'MeV/c'))(
                a([-100., 0., 100.]), a([-50., -1., 1., 50.])),
        'len': lambda: len(b),
        'iterate': lambda: [id(h) for h in b],
        'slice': lambda: [id(h) for h in b[0:n//2]],
        'index': lambda: id(b[n//2]),
        'contains': lambda: b[0] in b,
        'compare': lambda: b == b.deepcopy(),
        'compare other': lambda: b == Bunch(),
        'hit_equality': lambda: b.hit_equality(b),
        'copy': lambda: [gen.state(h) for h in b.copy()],
        'deepcopy': lambda: [gen.state(h) for h in b.deepcopy()],
        'copy.copy': lambda: [gen.state(h) for h in copy.copy(b)],
        'copy.deepcopy': lambda: [gen.state(h) for h in copy.deepcopy(b)],
        'repr': lambda: repr(b),
        'str': lambda: str(b),
        'covariances_set': lambda: (b.covariances_set(), b.means_set()),
        'sorted': lambda: [id(h) for h in sorted(b, key=lambda h: h['x'])],
        'reversed': lambda: [id(h) for h in reversed(b)],
        'hit repr': lambda: repr(b[0]),
        'hit dict': lambda: b[0].dict_from_hit(),
        'hit vector': lambda: b[0].get_vector(var, origin),
        'hit check': lambda: b[0].check(),
        'hit copy': lambda: (b[0].copy(), b[0].deepcopy()),
        'hit compare': lambda: (b[0] == b[-1], b[0] != b[-1]),
        'hit get': lambda: [b[0][v] for v in var],
        'hit maus': lambda: b[0].get_maus_dict('maus_json_virtual_hit'),
        'maus tree': lambda: Hit.get_maus_tree(list(b),
                                               'maus_json_virtual_hit'),
        'decoupled emittance': lambda: b.get_decoupled_emittance(
            list(ax), list(ax)[:1], None, geo),
    }
    r_var = r.choice(['x', 'pz', 'r', 'weight'])
    name = r.choice(sorted(calls))
    return name, calls[name]


def file_write(r, b, a, m):
    m.event('write')
    path = os.path.join(m.scratch, 'w%d' % r.randrange(10**9))
    kind = r.choice(['builtin', 'builtin', 'user', 'dict', 'hit', 'user hit'])
    formats = [f for f in Hit.file_types() if 'root' not in f and
               f != 'maus_json_primary']
    fmt = r.choice(formats)
    cols = a(['x', 'px', 'event_number', '', 'weight', 'local_weight'])
    units = a({'x': 'cm', 'px': 'GeV/c', 'event_number': '', 'weight': '',
               'local_weight': '', '': ''})
    if kind == 'builtin':
        return 'write '+fmt, lambda: b.hit_write_builtin(fmt, path)
    if kind == 'dict':
        return 'write dict '+fmt, lambda: Bunch.hit_write_builtin_from_dict(
            {1: b}, fmt, path)
    if kind == 'user':
        order = r.choice([None, lambda p, q: (p['x'] > q['x'])-(p['x'] <
                                                                q['x'])])

        def write():
            with open(path, 'w') as out:
                b.hit_write_user(cols, units, out, ' ', order)
            return open(path).read()
        return 'write user', write

    def write_hit():
        out = io.StringIO()
        if kind == 'hit' and 'maus' not in fmt:
            b[0].write_builtin_formatted(fmt, out)
        else:
            b[0].write_user_formatted(cols, units, out)
        return out.getvalue()
    return 'write hit', write_hit


def refused(r, b, a, m):
    """Queries that raise must not change anything either"""
    m.event('refused query')
    v = a(['x', 'no_such'])
    call = r.choice([
        lambda: b.mean(v), lambda: b.covariance_matrix(v),
        lambda: b.moment(v), lambda: b.get('no_such', ['x']),
        lambda: b.get_emittance(['no_such']), lambda: b.get_beta(['q']),
        lambda: b.list_get_hit_variable(v),
        lambda: b.list_get_hit_variable(['x'], ['furlong']),
        lambda: b.hit_write_builtin('no_such', 'x'),
        lambda: b.hit_write_builtin('icool_for009', '/nonexistent/dir/f'),
        lambda: b.hit_write_user(v, {'x': ''}, io.StringIO()),
        lambda: b.histogram('no_such'), lambda: b.split('no_such'),
        lambda: b.get_hits('no_such', 1), lambda: b[len(b)+3],
        lambda: b[0]['no_such'], lambda: b[0].get_vector(v),
        lambda: b.get_amplitude(b, b[0], ['nope'])])

    def run():
        try:
            call()
        except Exception as err:
            return type(err).__name__
        return 'answered'
    return 'refused', run


def helper(r, b, a, m):
    m.event('common helper')
    n = r.randint(1, 12)
    xs = a([r.gauss(0, 1) for _ in range(n)])
    ys = a([r.gauss(0, 1) for _ in range(n)])
    ws = a([r.choice([0., 1., .5]) for _ in range(n)])
    edges = a([-3., -1., 0., 1., 3.])
    mat = a(numpy.array(gen.posdef(r, 2)))
    vecs = a(numpy.array([[1., 2.]]))
    pts = a([[r.gauss(0, 1), r.gauss(0, 1)] for _ in range(n+4)])
    wts = a([1.]*(n+4))
    calls = {
        'min_max': lambda: Common.min_max(xs, ws),
        'histogram': lambda: Common.histogram(xs, edges, ys, edges, ws),
        'get_bin_edges': lambda: Common.get_bin_edges(xs, 4),
        'ks': lambda: Common.kolmogorov_smirnov_test(xs, ys),
        'make_shell': lambda: Common.make_shell(3, mat),
        'make_grid': lambda: Common.make_grid(2, 3),
        'normalise': lambda: Common.normalise_vector(vecs, mat),
        'fit_ellipse': lambda: Common.fit_ellipse(pts, 4., wts, 3, False),
        'n_bins': lambda: Common.n_bins(n),
        'shell of hits': lambda: [gen.state(h) for h in Bunch.new_hit_shell(
            2, mat, svars, 'energy', defaults)],
        'axis names': lambda: Bunch.axis_list_to_covariance_list(axes),
        'amplitude with matrix': lambda: Bunch.get_amplitude(
            b, b[0], ['x'], mat, means),
        'emittance of matrix': lambda: b.get_emittance(['x'], mat),
        'from hits': lambda: [gen.state(h) for h in
                              Bunch.new_from_hits(hits)],
    }
    svars = a(['x', 'px'])
    axes = a(['x', 'y'])
    defaults = a({'pid': -13, 'mass': gen.MASS[13], 'pz': 200.})
    means = a({'x': 1., 'px': 2.})
    hits = list(b)
    name = r.choice(sorted(calls))
    return 'common '+name, calls[name]


def plot(r, b, a, m):
    m.event('plot')
    xs = a([3., 1., 2.])
    ys = a([1., 5., 2.])
    ws = a([1., 0., 2.])
    xl = a([[1., 2.], [4., 3., 5.]])
    yl = a([[1., 1.], [0., 3., 2.]])
    family = {0: b, 1: b}
    order = r.choice([None, lambda p, q: 0])
    calls = {
        'matplot_histogram': lambda: b.matplot_histogram('x', 'm'),
        'matplot_histogram 2d': lambda: b.matplot_histogram('x', 'm', 'px',
                                                            'GeV/c'),
        'matplot_scatter': lambda: b.matplot_scatter_graph(
            'x', 'y', 'mm', 'cm', r.choice([True, False])),
        'matplot_graph': lambda: Bunch.matplot_graph(
            family, 'mean', ['z'], 'mean', ['x'], 'm', 'mm', order),
        'make_graph': lambda: Common.make_matplot_graph(xs, 'a', ys, 'b'),
        'make_multigraph': lambda: Common.make_matplot_multigraph(
            xl, 'a', yl, 'b'),
        'make_scatter': lambda: Common.make_matplot_scatter(xs, 'a', ys, 'b'),
        'make_histogram': lambda: Common.make_matplot_histogram(
            xs, 'a', 3, weight_list=ws),
        'make_histogram 2d': lambda: Common.make_matplot_histogram(
            xs, 'a', 3, ys, 'b', 3, weight_list=ws),
    }
    name = r.choice(sorted(calls))

    def run():
        calls[name]()
        pyplot.close('all')
    return 'plot '+name, run


def root_plot(r, b, a, m):
    import ROOT
    ROOT.gROOT.SetBatch(True)
    m.event('root plot')
    xs = a([3., 1., 2.])
    ys = a([1., 5., 2.])
    ws = a([1., 0., 2.])
    xl = a([[1., 2.], [4., 3., 5.]])
    yl = a([[1., 1.], [0., 3., 2.]])
    family = [b, b]
    order = r.choice([None, lambda p, q: 0])
    calls = {
        'root_histogram': lambda: b.root_histogram('x', 'm'),
        'root_histogram 2d': lambda: b.root_histogram('x', 'm', 'px',
                                                      'GeV/c'),
        'root_scatter': lambda: b.root_scatter_graph('x', 'y', 'mm', 'cm'),
        'root_graph': lambda: Bunch.root_graph(
            family, 'mean', ['z'], 'mean', ['x'], 'm', 'mm', None, order),
        'make_graph': lambda: Common.make_root_graph('n', xs, 'a', ys, 'b'),
        'make_multigraph': lambda: Common.make_root_multigraph(
            'n', xl, 'a', yl, 'b'),
        'make_histogram': lambda: Common.make_root_histogram(
            'n', xs, 'a', 3, weight_list=ws),
        'make_histogram 2d': lambda: Common.make_root_histogram(
            'n', xs, 'a', 3, ys, 'b', 3, ws),
        'ellipse': (lambda mean, cov: lambda: Common.
                    make_root_ellipse_function(mean, cov, [1.]))(
            a(numpy.array([0., 1.])), a(numpy.array([[2., .1], [.1, 1.]]))),
    }
    name = r.choice(sorted(calls))

    def run():
        calls[name]()
    return 'root '+name, run


def draw(r, m, n=None):
    Hit.clear_global_weights()
    Bunch.set_geometric_momentum(False)
    n = r.randint(4, 14) if n is None else n
    ds = gen.bunch_dicts(r, n, pid=r.choice([-13, 13, 211, 2212]),
                         weights=r.choice(['unit', 'wild', 'zeros']))
    for d in ds:
        d['station'] = r.choice([0, 1, 2])
        if r.random() < .1:
            d['energy'] += 3.
    b = gen.make_bunch(ds)
    for h in b:
        if r.random() < .3:
            h['global_weight'] = r.choice([.5, 2., 0.])
            m.event('cut weights')
    if r.random() < .3:
        b.append(b[0])
        m.event('held twice')
    r.choice([0, 1]) and b.append(gen.make_hit(gen.hit_dict(
        r, pids=[-13], station=1, event=99, pz=220.)))
    if r.random() < .4:
        b.set_covariance_matrix()
        m.event('stored')
    if r.random() < .4:
        Bunch.set_geometric_momentum(True)
        m.event('geometric')
    return b


def answer(call):
    try:
        return plain(call())
    except Exception as err:    # e.g. a beam with no weight left has no beta
        return ['raised', type(err).__name__]


def snapshot(b):
    out = {'hits': [id(h) for h in b],
           'values': [gen.state(h) for h in b],
           'weights': [(h['global_weight'], h['weight']) for h in b],
           'geometric': Bunch.get_geometric_momentum(),
           'stored': (b.covariances_set(), b.means_set())}
    if b.covariances_set():
        out['moments'] = [answer(call) for call in (
            lambda: b.mean(['x', 'px', 'ct']),
            lambda: b.get_emittance(['x', 'y'], None, False),
            lambda: b.get_beta(['t'], False))]
    return out


def history(r, m, kinds, steps):
    b = draw(r, m)
    names = []
    start = snapshot(b)
    asked = []
    sink = io.StringIO()
    for _ in range(steps):
        if asked and r.random() < .3:
            name, run, want, args = r.choice(asked)
            again = True
        else:
            args = Args(m)
            name, run = r.choice(kinds)(r, b, args, m)
            again = False
        names.append(name)
        with contextlib.redirect_stdout(sink):
            with contextlib.redirect_stderr(sink):
                try:
                    got = plain(run())
                except Exception as err:
                    got = ['raised', type(err).__name__]
        m.event('step')
        m.check(snapshot(b) == start, 'bunch is as it was', operation=name,
                history=names[-6:])
        args.judge(name)
        if again:
            m.event('repeated')
            m.equal(got, want, 'same answer when asked again', operation=name,
                    history=names[-8:])
        else:
            asked.append((name, run, got, args))
    Bunch.set_geometric_momentum(False)
    m.distinct(names)


def queries(r, m):
    history(r, m, [statistics]*6+[file_write, refused, helper], 25)


def plots(r, m):
    history(r, m, [plot, plot, statistics], 6)


def root_plots(r, m):
    history(r, m, [root_plot, statistics], 8)


def empty(r, m):
    """Reading an empty bunch leaves it empty"""
    b = Bunch()
    sink = io.StringIO()
    for _ in range(6):
        args = Args(m)
        name, run = r.choice([statistics, file_write, refused])(r, b, args, m)
        with contextlib.redirect_stdout(sink):
            with contextlib.redirect_stderr(sink):
                try:
                    run()
                except Exception:
                    pass
        m.equal(len(b), 0, 'empty bunch stays empty', operation=name)
        m.check(not b.covariances_set(), 'nothing stored in it')
        args.judge(name)
    m.event('empty')


SCENARIOS = [('queries', queries, 420, 8000),
             ('plots', plots, 90, 1200),
             ('root_plots', root_plots, 60, 900),
             ('empty', empty, 15, 200)]


def teardown(mon):
    Bunch.set_geometric_momentum(False)
