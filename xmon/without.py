"""Worker: uses xboa with some packages that cannot be imported.

usage: python -m xmon.without '{"blocked": [...], "seeds": [...]}'

Each feature is run for every seed; one JSON line tells what came of it: its
value, or the class of the exception and whether the arguments were left as
they were.
"""
import contextlib
import io
import json
import math
import os
import random
import sys


class Blocked(object):
    """Import hook: a package that is not installed"""
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ModuleNotFoundError('No module named %r' % name, name=name)


FEATURES = []


def feature(*needs):
    def keep(fn):
        FEATURES.append((fn.__name__, needs, fn))
        return fn
    return keep


def plain(x):
    """Something JSON can hold"""
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, dict):
        return [[plain(k), plain(x[k])] for k in sorted(x, key=str)]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, complex):
        return ['complex', repr(x.real), repr(x.imag)]
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, (int, str, bool, type(None))):
        return x
    return str(type(x).__name__)


def mat(rows):
    try:
        import numpy
    except ImportError:
        return rows
    return numpy.matrix(rows)


def vec(row):
    try:
        import numpy
    except ImportError:
        return row
    return numpy.array(row)


def draw(r, n=None):
    from xmon import gen
    n = n or r.randint(8, 25)
    ds = gen.bunch_dicts(r, n, pid=r.choice([-13, 2212, 211]),
                         weights=r.choice(['unit', 'wild']),
                         pz=r.uniform(150, 300))
    k = r.gauss(0, .3)
    for d in ds:
        d['x'] += k*d['px']
    return gen.make_bunch(ds)


def image(b):
    from xmon import gen
    return [gen.state(h) for h in b]


def spd(r, n):
    a = [[r.gauss(0, 1) for _ in range(n)] for _ in range(n)]
    return [[sum(a[i][k]*a[j][k] for k in range(n))+(3. if i == j else 0.)
             for j in range(n)] for i in range(n)]


# -- the base: needs nothing -------------------------------------------------
@feature()
def imports(r, b):
    import xboa
    import xboa.core
    import xboa.common
    import xboa.hit
    import xboa.hit.factory
    import xboa.bunch
    import xboa.algorithms
    import xboa.common.config
    return xboa.__version__


@feature()
def print_config(r, b):
    from xboa.common import config
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        config.print_config()
    return bool(out.getvalue())


@feature()
def hit_variables(r, b):
    from xboa.hit import Hit
    h = r.choice(list(b)).deepcopy()
    names = [n for n in sorted(Hit.get_variables()) if n]
    out = [h[n] for n in names]
    for n in ('x', 'px', 'energy', 'pid', 'local_weight'):
        h[n] = h[n]*2
    return out, [h.get(n) for n in names]


@feature()
def mass_shell(r, b):
    out = []
    for v in ('energy', 'p', 'px', 'py', 'pz'):
        h = r.choice(list(b)).deepcopy()
        h['px'] += r.gauss(0, 1)
        h.mass_shell_condition(v)
        out.append([h[k] for k in ('px', 'py', 'pz', 'energy')])
    return out


@feature()
def hit_copies(r, b):
    h = r.choice(list(b))
    c, d = h.copy(), h.deepcopy()
    d['x'] += 1
    return h == c, h == d, h != d, eval_repr(h)


def eval_repr(h):
    return h.check()


@feature()
def moments(r, b):
    return (b.moment(['x', 'px']), b.moment(['x', 'y', 'x']), b.mean(['x', 't']),
            b.standard_deviation('x'), b.bunch_weight())


@feature()
def units_and_tables(r, b):
    import xboa.common as Common
    return Common.units['cm'], Common.pdg_pid_to_mass[13]


@feature()
def cuts(r, b):
    import operator
    b.cut({'x': r.gauss(0, 10)}, operator.gt)
    if b.bunch_weight() > 0.:
        b.cut({'energy': b.mean(['energy'])['energy']+1}, operator.ge)
    if b.bunch_weight() > 0.:
        b.cut({'x': 2.}, operator.gt, True)
    out = [h['local_weight'] for h in b]
    b.clear_weights()
    return out, [h['local_weight'] for h in b]


@feature()
def transmission(r, b):
    from xboa.bunch import Bunch
    other = Bunch.new_from_hits(r.sample(list(b), len(b)//2))
    b.transmission_cut(other)
    return [h['weight'] for h in b]


@feature()
def translate(r, b):
    b.translate({'x': 3., 'pz': r.gauss(0, 10)}, 'energy')
    b.period_transformation(1., .02)
    return image(b)


@feature()
def remove(r, b):
    import operator
    b.conditional_remove({'x': 0.}, operator.lt)
    return image(b)


@feature()
def lists(r, b):
    import operator
    c = b.deepcopy()
    c.append(c[0].deepcopy())
    del c[0]
    c[0] = c[1].deepcopy()
    return (b.list_get_hit_variable(['x', 'energy'], ['cm', 'GeV']),
            image(c), len(b.get_hits('x', 0., operator.gt)),
            c.hit_equality(b), b == b.deepcopy())


@feature()
def momenta(r, b):
    return (b.get_kinetic_angular_momentum(),
            b.get_canonical_angular_momentum(),
            b.get_dispersion('x'), b.get_dispersion_rsquared(),
            b.get('bunch_weight', []), b.get('mean', ['x']))


@feature()
def builtin_files(r, b):
    from xboa.bunch import Bunch
    out = []
    for fmt in ('icool_for009', 'icool_for003', 'g4beamline_bl_track_file',
                'mars_1'):
        b.hit_write_builtin(fmt, 'f.out')
        out.append(open('f.out').read())
        out.append(image(Bunch.new_from_read_builtin(fmt, 'f.out')))
        out.append([image(c) for c in Bunch.new_list_from_read_builtin(
            fmt, 'f.out')])
    return out


@feature()
def json_files(r, b):
    from xboa.bunch import Bunch
    b.hit_write_builtin('maus_json_virtual_hit', 'f.json')
    return open('f.json').read(), image(Bunch.new_from_read_builtin(
        'maus_json_virtual_hit', 'f.json'))


@feature()
def user_files(r, b):
    from xboa.bunch import Bunch
    cols = ['x', 'px', 'pz', 'pid', 't']
    units = {'x': 'cm', 'px': 'MeV/c', 'pz': 'GeV/c', 'pid': '', 't': 'ns'}
    with open('u.out', 'w') as f:
        b.hit_write_user(cols, units, f)
    with open('u.out') as f:
        got = Bunch.new_from_read_user(cols, units, f, 0)
    return open('u.out').read(), image(got)


@feature()
def small_helpers(r, b):
    import xboa.common as Common
    xs = [r.gauss(0, 3) for _ in range(10)]
    ys = [r.gauss(0, 3) for _ in range(10)]
    pair = [list(xs), list(ys)]
    Common.multisort(pair)
    with open('s.in', 'w') as f:
        f.write('a __x__ b\n')
    Common.substitute('s.in', 's.out', {'__x__': 4})
    return (Common.min_max(xs), Common.min_max(xs, [1.]*10, .2), pair,
            Common.n_bins(100), Common.n_bins(100, n_dimensions=2),
            open('s.out').read())


@feature()
def window_peaks(r, b):
    from xboa.algorithms.peak_finder import WindowPeakFinder
    data = [math.sin(i*.4)+.1*r.random() for i in range(60)]
    return WindowPeakFinder(7, 0., 1).find_peaks(data)


@feature()
def overview(r, b):
    import xboa.common as Common
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    return [len(Common.common_overview_doc()) > 0,
            len(Bunch.bunch_overview_doc()) > 0,
            len(Hit.hit_overview_doc()) > 0]


@feature()
def axes_and_names(r, b):
    from xboa.bunch import Bunch
    return (Bunch.get_axes(), Bunch.axis_list_to_covariance_list(['x', 't']),
            Bunch.convert_string_to_axis_list('x y'),
            sorted(map(str, Bunch.get_variables())),
            sorted(map(str, Bunch.hit_get_variables())))


# -- multiprocessing ---------------------------------------------------------
def double(x):
    return 2*x


@feature('multiprocessing')
def job_lists(r, b):
    import xboa.common as Common
    return Common.process_list(double, [(1,), (2,), (3,)], 2)


def scribble(text):
    with open('scribble', 'w') as f:
        f.write(text)


@feature('multiprocessing or no ROOT')
def subprocesses(r, b):
    import time
    import xboa.common as Common
    if os.path.exists('scribble'):
        os.remove('scribble')
    Common.subprocess(scribble, ('%d' % r.randint(0, 10**6),))
    end = time.time()+30
    text = ''
    while time.time() < end and not text:
        if os.path.exists('scribble'):
            with open('scribble') as f:
                text = f.read()
    return text


def leave(text):
    import sys
    with open('left', 'w') as f:
        f.write(text)
    sys.exit(7)


@feature('multiprocessing or no ROOT')
def leaving_subprocess(r, b):
    """A call that exits ends its own process and does not come back here"""
    import time
    import xboa.common as Common
    for name in ('left', 'stray'):
        if os.path.exists(name):
            os.remove(name)
    me = os.getpid()
    try:
        got = Common.subprocess(leave, ('%d' % r.randint(0, 10**6),))
    except BaseException:
        if os.getpid() == me:
            raise
    if os.getpid() != me:
        with open('stray', 'w') as f:
            f.write('child')
        os._exit(9)
    pid = getattr(got, 'pid', got)
    end = time.time()+30
    while time.time() < end:
        try:
            with open('/proc/%d/stat' % pid) as f:
                if f.read().rsplit(')', 1)[1].split()[0] in 'ZX':
                    break
        except OSError:
            break
        time.sleep(.01)
    with open('left') as f:
        text = f.read()
    return text, os.path.exists('stray')


@feature('multiprocessing or no ROOT')
def killed_subprocesses(r, b):
    import time
    import xboa.common as Common
    got = Common.subprocess(time.sleep, (100.,))
    pid = getattr(got, 'pid', got)
    Common.kill_all_subprocesses()
    end = time.time()+30
    while time.time() < end:
        try:
            with open('/proc/%d/stat' % pid) as f:
                if f.read().rsplit(')', 1)[1].split()[0] in 'ZX':
                    return 'dead'
        except OSError:
            return 'dead'
        time.sleep(.01)
    return 'alive'


# -- numpy -------------------------------------------------------------------
@feature('numpy')
def covariances(r, b):
    return b.covariance_matrix(['x', 'px', 'y', 'py']), \
        b.covariance_matrix(['x', 'weight'], {'x': 1.})


@feature('numpy')
def vectors(r, b):
    return b[0].get_vector(['x', 'px', 'energy'])


@feature('numpy')
def emittance(r, b):
    return b.get_emittance(['x']), b.get_emittance(['x', 'y']), \
        b.get('emittance', ['x'])


@feature('numpy')
def twiss(r, b):
    return b.get_beta(['x']), b.get_alpha(['x']), b.get_gamma(['x', 'y']), \
        b.get_beta(['x'], True)


@feature('numpy')
def amplitude(r, b):
    from xboa.bunch import Bunch
    return Bunch.get_amplitude(b, b[0], ['x', 'y']), \
        b.list_get_hit_variable(['amplitude x'])


@feature('numpy')
def amplitude_of_hit(r, b):
    return b.get_hit_variable(b[1], 'amplitude x y')


@feature('numpy')
def set_covariance(r, b):
    b.set_covariance_matrix(True)
    return b.get_emittance(['x'])


@feature('numpy')
def given_covariance(r, b):
    return b.get_emittance(['x'], mat(spd(r, 2)))


@feature('numpy')
def abelian(r, b):
    b.abelian_transformation(['x', 'px'], mat([[1., .5], [-.3, 1.]]), {'x': 1.},
                             {'px': 2.}, 'energy')
    return image(b)


@feature('numpy')
def transform(r, b):
    b.transform_to(['x', 'px'], mat(spd(r, 2)), {'x': 1.}, {}, 'energy')
    return b.covariance_matrix(['x', 'px'])


@feature('numpy')
def ellipses(r, b):
    from xboa.bunch import Bunch
    return (Bunch.build_ellipse_2d(300., .2, 5., 200., 105., False),
            Bunch.build_ellipse_2d(300., .2, 5., 200., 105., True))


@feature('numpy')
def penn(r, b):
    from xboa.bunch import Bunch
    return Bunch.build_penn_ellipse(6., 105.66, 333., 0., 200., 0., 4e-3, 1.)


@feature('numpy')
def shells(r, b):
    from xboa.bunch import Bunch
    got = Bunch.new_hit_shell(2, mat(spd(r, 2)), ['x', 'px'], 'energy',
                              {'pid': -13, 'mass': 105.6583668, 'pz': 200.})
    return image(got)


@feature('numpy')
def grids(r, b):
    import xboa.common as Common
    return Common.make_grid(2, 3)


@feature('numpy')
def common_shell(r, b):
    import xboa.common as Common
    return Common.make_shell(3, mat(spd(r, 2)))


@feature('numpy')
def normalise(r, b):
    import xboa.common as Common
    return Common.normalise_vector(mat([[1., 2.]]), mat([[2., 0.], [0., 3.]]))


@feature('numpy')
def fit(r, b):
    import xboa.common as Common
    pts = [[r.gauss(0, 1), r.gauss(0, 2)] for _ in range(20)]
    return Common.fit_ellipse(pts, 1e9, verbose=False)


@feature('numpy')
def fit_by_force(r, b):
    import xboa.common as Common
    pts = [[r.gauss(0, 1), r.gauss(0, 2)] for _ in range(20)]
    return Common.fit_ellipse(pts, 9., [1.]*20, verbose=True)


@feature('numpy')
def histogram(r, b):
    import xboa.common as Common
    return Common.histogram([1., 2., 2.5], [0., 1.5, 3.]), \
        Common.get_bin_edges([1., 2., 5.], 4)


@feature('numpy')
def histogram_2d(r, b):
    import xboa.common as Common
    return Common.histogram([1., 2., 2.5], [0., 1.5, 3.], [0., 1., 2.],
                            [0., 1., 3.], [1., 2., 3.])


@feature('numpy')
def edges(r, b):
    import xboa.common as Common
    return Common.get_bin_edges([1., 2., 5.], 4)


@feature('numpy')
def bunch_histogram(r, b):
    return b.histogram('x', 'mm', nx_bins=5), \
        b.histogram_var_bins('x', [-10., 0., 10.])


@feature('numpy')
def newton(r, b):
    import xboa.common as Common
    a = r.uniform(1, 3)
    return Common.nd_newton_raphson1(lambda x: [x[0]**2-a], [1e-9], [2.],
                                     [1e-3], verbose=False)


@feature('numpy')
def tracking(r, b):
    from xboa.tracking import MatrixTracking
    m = [[float(i == j) for j in range(6)] for i in range(6)]
    m[0][1] = r.gauss(0, 1)
    t = MatrixTracking([mat(m)], [mat([[0.]*6])], mat([[0.]*6]))
    from xmon import gen
    return [gen.state(h) for h in t.track_one(b[0])]


@feature('numpy')
def closed_orbit(r, b):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinderIteration
    pts = [[3*math.cos(i), math.sin(i)+2] for i in range(12)]
    co = EllipseClosedOrbitFinderIteration(['x', 'px'], pts, -1, True)
    return co.centre, co.ellipse, co.get_mean_noise()


@feature('numpy')
def tune(r, b):
    from xboa.algorithms.tune import FFTTuneFinder
    return FFTTuneFinder([math.cos(i*1.3) for i in range(41)]).get_tune()


@feature('numpy')
def phase_tune(r, b):
    from xboa.algorithms.tune import DPhiTuneFinder
    t = DPhiTuneFinder([math.cos(i*1.3) for i in range(30)],
                       [math.sin(i*1.3) for i in range(30)])
    return t.get_tune()


@feature('numpy')
def transfer_matrix(r, b):
    from xboa.algorithms.decoupled_transfer_matrix import \
        DecoupledTransferMatrix
    c, s = math.cos(1.), math.sin(1.)
    m = mat([[c, s, 0., 0.], [-s, c, 0., 0.],
             [0., 0., .8, .6], [0., 0., -.6, .8]])
    return sorted(abs(p) for p in DecoupledTransferMatrix(m).phase)


@feature('numpy', 'multiprocessing')
def bounding(r, b):
    from xboa.bunch.weighting import BoundingEllipse
    e = BoundingEllipse(vec(spd(r, 2)), vec([0., 1.]), 10)
    pts = vec([[r.gauss(0, 2), r.gauss(0, 2)] for _ in range(20)])
    return e.bounding_points, e.cut_on_bound(pts)[1]


@feature('numpy', 'multiprocessing')
def multipole(r, b):
    from xboa.bunch.weighting import MultipoleWeighting
    return type(MultipoleWeighting).__name__


@feature('numpy')
def smoothing(r, b):
    from xboa.algorithms.smoothing import GaussianSmoothing, CutSmoothing
    data = [r.gauss(0, 1) for _ in range(30)]
    return GaussianSmoothing(2., 5, True).smooth(data), \
        CutSmoothing(1., 10).smooth(data)


# -- scipy -------------------------------------------------------------------
@feature('numpy', 'scipy', 'multiprocessing')
def voronoi(r, b):
    from xboa.bunch.weighting import VoronoiWeighting
    v = VoronoiWeighting(['x', 'px'], vec([[900., 0.], [0., 400.]]),
                         vec([0., 0.]))
    v.apply_weights(b, False)
    return [h['local_weight'] for h in b]


@feature('numpy', 'scipy', 'multiprocessing')
def hulls(r, b):
    from xboa.bunch.weighting import HullContent
    return HullContent(None, []).tile_content_list


# -- matplotlib --------------------------------------------------------------
def axes_of():
    from matplotlib import pyplot
    ax = pyplot.gca()
    out = ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim()
    pyplot.close('all')
    return out


@feature('matplotlib')
def mpl_graph(r, b):
    import xboa.common as Common
    Common.make_matplot_graph([1., 3., 2.], 'x', [1., 4., 9.], 'y')
    return axes_of()


@feature('matplotlib')
def mpl_multigraph(r, b):
    import xboa.common as Common
    Common.make_matplot_multigraph([[1., 3.], [2., 5.]], 'x',
                                   [[1., 4.], [4., 1.]], 'y')
    return axes_of()


@feature('matplotlib')
def mpl_scatter(r, b):
    import xboa.common as Common
    Common.make_matplot_scatter([1., 3., 2.], 'x', [1., 4., 9.], 'y')
    return axes_of()


@feature('matplotlib', 'numpy')
def mpl_histogram(r, b):
    import xboa.common as Common
    Common.make_matplot_histogram([1., 3., 2.], 'x', 4)
    return axes_of()


@feature('matplotlib', 'numpy')
def mpl_wrapper(r, b):
    import xboa.common.matplotlib_wrapper as wrapper
    wrapper.make_graph([1., 3., 2.], 'x', [1., 4., 9.], 'y')
    out = [axes_of()]
    wrapper.make_scatter([1., 3., 2.], 'x', [1., 4., 9.], 'y')
    out.append(axes_of())
    wrapper.make_histogram([1., 3., 2.], 'x', 4)
    return out, axes_of()


@feature('matplotlib', 'numpy')
def mpl_bunch(r, b):
    from xboa.bunch import Bunch
    b.matplot_histogram('x', 'mm')
    out = [axes_of()]
    b.matplot_scatter_graph('x', 'px', 'mm', 'MeV/c')
    out.append(axes_of())
    Bunch.matplot_graph([b, b.deepcopy()], 'mean', ['x'],
                        'bunch_weight', [])
    return out, axes_of()


# -- ROOT --------------------------------------------------------------------
@feature('ROOT')
def root_graph(r, b):
    import xboa.common as Common
    hist, graph = Common.make_root_graph('g', [1., 3., 2.], 'x', [1., 4., 9.],
                                         'y')
    return graph.GetN(), hist.GetXaxis().GetXmin(), hist.GetXaxis().GetTitle()


@feature('ROOT')
def root_multigraph(r, b):
    import xboa.common as Common
    hist, graphs = Common.make_root_multigraph('g', [[1., 3.], [2., 5.]], 'x',
                                               [[1., 4.], [4., 1.]], 'y')
    return [g.GetN() for g in graphs], hist.GetXaxis().GetXmax()


@feature('ROOT', 'numpy')
def root_histogram(r, b):
    import xboa.common as Common
    h = Common.make_root_histogram('h', [1., 3., 2.], 'x', 4)
    return [h.GetBinContent(i) for i in range(6)]


@feature('ROOT')
def root_canvas(r, b):
    import xboa.common as Common
    c = Common.make_root_canvas('c')
    Common.clear_root()
    return bool(c)


@feature('ROOT')
def root_clear(r, b):
    import xboa.common as Common
    Common.clear_root()
    return True


@feature('ROOT')
def kolmogorov(r, b):
    import xboa.common as Common
    return Common.kolmogorov_smirnov_test([r.gauss(0, 1) for _ in range(20)],
                                          [r.gauss(0, 1) for _ in range(30)])


@feature('ROOT', 'numpy')
def root_ellipse(r, b):
    import xboa.common as Common
    f = Common.make_root_ellipse_function([0., 1.], mat(spd(r, 2)), [1.])
    return f.Eval(1., 2.)


@feature('ROOT', 'numpy')
def root_bunch(r, b):
    canvas, hist = b.root_histogram('x', 'mm')
    canvas, hist, graph = b.root_scatter_graph('x', 'px')
    return graph.GetN()


@feature('ROOT')
def root_bunches(r, b):
    from xboa.bunch import Bunch
    canvas, hist, graph = Bunch.root_graph([b, b.deepcopy()], 'mean', ['x'],
                                           'bunch_weight', [])
    return graph.GetN()


@feature('ROOT')
def uphill(r, b):
    from xboa.algorithms.peak_finder import UphillDownhillPeakFinder
    data = [math.sin(i*.2) for i in range(80)]
    return UphillDownhillPeakFinder().find_peaks(data)


@feature('ROOT', 'numpy')
def refine(r, b):
    from xboa.algorithms.peak_finder import RefinePeakFinder
    data = [math.sin(i*.2)+.01*r.gauss(0, 1) for i in range(80)]
    f = RefinePeakFinder([8, 39, 71], 4, 10, False)
    return len(f.find_peaks(data))


def main():
    plan = json.loads(sys.argv[1])
    sys.meta_path.insert(0, Blocked(plan['blocked']))
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(1, 2)
    sys.excepthook = lambda *a: None
    from xboa.common import config
    out.write(json.dumps({'packages': config.PACKAGES})+'\n')
    for seed in plan['seeds']:
        for name, needs, fn in FEATURES:
            if plan.get('only') and name not in plan['only']:
                continue
            r = random.Random('%s %s' % (seed, name))
            from xboa.hit import Hit
            Hit.clear_global_weights()
            b = draw(r)
            before = image(b)
            line = {'name': name, 'seed': seed}
            try:
                line['value'] = plain(fn(r, b))
            except Exception as e:
                line['error'] = type(e).__name__
                line['import'] = isinstance(e, ImportError)
                line['text'] = str(e)[:200]
                line['kept'] = image(b) == before
            line['needs'] = needs
            out.write(json.dumps(line)+'\n')
            out.flush()
    out.write(json.dumps({'end': True})+'\n')
    out.flush()


if __name__ == '__main__':
    main()
