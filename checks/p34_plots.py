"""P34: what is drawn is what was asked for."""
import contextlib
import functools
import io
import math
import os

import numpy

from xmon import gen
import xboa.common as Common
import xboa.common.matplotlib_wrapper as wrapper
from xboa.bunch import Bunch
from xboa.bunch.weighting import BoundingEllipse, VoronoiWeighting
from xboa.hit import Hit
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinderIteration
from xboa.algorithms.tune import FFTTuneFinder, DPhiTuneFinder
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot
import ROOT
ROOT.gROOT.SetBatch(True)
ROOT.gErrorIgnoreLevel = 6001

ID = 'P34'
NEEDS_ROOT = True
WORKERS = 6
RULE = ('random point lists with ties, single points and scales over decades, '
        'and random bunches with cut hits, in every unit and order, drawn with '
        'ROOT and with matplotlib; points, bin contents and axis limits read '
        'back from the objects drawn; distinct by points')
REQUIRED = {'root graph': 150, 'matplot graph': 150, 'sorted': 150,
            'not sorted': 100, 'ties': 80, 'explicit limit': 80,
            'root histogram': 120, 'weighted bins': 100, 'two dimensions': 100,
            'matplot histogram': 130, 'scatter': 100, 'multigraph': 100,
            'ratio': 60, 'empty bin below': 80, 'bunch plot': 150,
            'units': 150, 'cut hit': 100, 'weightless left out': 25,
            'comparator': 18, 'closed orbit plot': 40, 'tune plot': 30,
            'cells plot': 15, 'ellipse function': 60, 'refused': 60,
            'legend': 15, 'same canvas': 30, 'style seen': 90}


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def tidy():
    pyplot.close('all')
    Common.clear_root()


def values(r, n):
    k = r.random()
    if k < .2:
        return [float(r.randint(-3, 3)) for _ in range(n)]
    if k < .3:
        return [r.choice([0., 2.5, -7.])]*n
    centre = r.choice([0, 0, 0, 1e3, -50.])
    scale = 10.**r.uniform(-2, 5)
    return [r.gauss(centre, scale) for _ in range(n)]


def two_lists(r, m, lo=1):
    n = r.choice([1, 2, 3, r.randint(4, 30), r.randint(30, 150)])
    n = max(n, lo)
    x, y = values(r, n), values(r, n)
    if len(set(x)) < n:
        m.event('ties')
    m.note((x, y))
    m.distinct(x, y)
    return x, y


def points_of(graph):
    return [(graph.GetPointX(i), graph.GetPointY(i))
            for i in range(graph.GetN())]


def same_points(m, got, want, ordered, site, rel=1e-12):
    """points compared with numbers in order, or as a permutation sorted by x"""
    if not m.check(len(got) == len(want), 'number of points: '+site,
                   got=len(got), want=len(want)):
        return
    if not ordered:
        m.check(all(a[0] <= b[0] for a, b in zip(got, got[1:])),
                'sorted by x: '+site)
        got, want = sorted(got), sorted(want)
    ok = all(abs(a-b) <= rel*max(abs(a), abs(b)) for p, q in zip(got, want)
             for a, b in zip(p, q))
    m.check(ok, 'points: '+site, got=got[:9], want=want[:9])


def covers(m, low, high, data, site):
    size = max(abs(low), abs(high))*1e-12
    m.check(low-size <= min(data) and max(data) <= high+size,
            'limits cover the data: '+site, low=low, high=high,
            data=(min(data), max(data)))


def some_limits(r, m, x, y):
    limits = {}
    if r.random() < .35:
        m.event('explicit limit')
        for key, data, sign in (('xmin', x, -1), ('xmax', x, 1),
                                ('ymin', y, -1), ('ymax', y, 1)):
            if r.random() < .5:
                edge = min(data) if sign < 0 else max(data)
                limits[key] = edge+sign*r.uniform(.5, 3)*(abs(edge)+1)
    return limits


def axis_of(hist, which):
    a = hist.GetXaxis() if which == 'x' else hist.GetYaxis()
    return a.GetXmin(), a.GetXmax()


def axis_limits(m, hist, x, y, limits, site):
    for which, data in (('x', x), ('y', y)):
        low, high = axis_of(hist, which)
        covers(m, low, high, data, site)
        for key, got in ((which+'min', low), (which+'max', high)):
            if key in limits:
                m.close(got, limits[key], 'limit asked for: '+site, rel=1e-12)


def titled(m, axis, words, site):
    """The axis says what it shows and in which unit"""
    title = str(axis.GetTitle()) if hasattr(axis, 'GetTitle') else axis
    m.check(all(w in title for w in words), 'axis says what it shows: '+site,
            title=title, words=words)


def drawn_on(m, canvas, things, site):
    have = list(canvas.GetListOfPrimitives())
    m.check(all(any(t == h for h in have) for t in things),
            'drawn on the canvas returned: '+site,
            have=[h.GetName() for h in have],
            want=[t.GetName() for t in things])


def kind_of_list(r, data):
    k = r.choice(['list', 'list', 'tuple', 'array'])
    return {'list': list(data), 'tuple': tuple(data),
            'array': numpy.array(data)}[k]


def root_graph(r, m):
    m.event('root graph')
    x, y = two_lists(r, m)
    sort = r.choice([True, False])
    m.event('sorted' if sort else 'not sorted')
    limits = some_limits(r, m, x, y)
    a, b = kind_of_list(r, x), kind_of_list(r, y)
    ok, got = m.quiet(lambda: Common.make_root_graph(
        'name', a, 'the x', b, 'the y', sort=sort, **limits), 'root graph')
    if ok:
        hist, graph = got
        same_points(m, points_of(graph), list(zip(x, y)), not sort,
                    'root graph')
        axis_limits(m, hist, x, y, limits, 'root graph')
        m.equal((str(hist.GetXaxis().GetTitle()),
                 str(hist.GetYaxis().GetTitle())), ('the x', 'the y'),
                'axis titles of a graph')
        if r.random() < .2:
            m.event('legend')
            canvas = Common.make_root_canvas('c')
            ok, leg = m.quiet(lambda: Common.make_root_legend(canvas, [graph]),
                              'legend')
            if ok:
                m.equal(leg.GetListOfPrimitives().GetSize(), 1,
                        'one legend entry for each item')
    m.equal((list(a), list(b)), (x, y), 'data is left alone')
    tidy()


def some_style(r, histogram):
    style = {'line_color': r.randint(2, 40), 'line_style': r.randint(2, 9),
             'line_width': r.randint(3, 12), 'fill_color': r.randint(2, 40),
             'hist_title_string': r.choice(['a title', 'beam at 3 m'])}
    if histogram:
        style['stats'] = r.choice([True, True, False])
    return {k: v for k, v in style.items() if r.random() < .7}


def in_style(m, style, thing, hist, site):
    for key, got in (('line_color', thing.GetLineColor()),
                     ('line_style', thing.GetLineStyle()),
                     ('line_width', thing.GetLineWidth()),
                     ('fill_color', thing.GetFillColor()),
                     ('hist_title_string', str(hist.GetTitle())),
                     ('stats', not hist.TestBit(ROOT.TH1.kNoStats))):
        if key in style:
            m.check(got == style[key], 'style asked for: '+site, what=key,
                    got=got, want=style[key])
        elif key == 'stats':
            m.check(not got, 'no stats box unless asked for: '+site)


def styled(r, m):
    m.event('styled')
    x, y = two_lists(r, m)
    limits = some_limits(r, m, x, y)
    kind = r.choice(['histogram', 'graph', 'bunch histogram', 'bunch scatter',
                     'bunch graph', 'canvas'])
    style = some_style(r, 'histogram' in kind)
    two = r.random() < .5
    nx, ny = r.randint(1, 9), r.randint(1, 9)
    got, thing, hist = None, None, None
    bunch = a_bunch(r, m)
    vx, vy = r.sample(sorted(UNITS), 2)
    ux, uy = r.choice(UNITS[vx]), r.choice(UNITS[vy])
    if 'bunch' in kind:
        x = [h[vx]/Common.units[ux] for h in bunch]
        y = [h[vy]/Common.units[uy] for h in bunch]
        limits = some_limits(r, m, x, y)
    if 'histogram' in kind and not two:
        limits.pop('ymin', 0), limits.pop('ymax', 0)
    args = dict(style, **limits)
    m.note((kind, style, limits, vx, ux, vy, uy, x, y))
    if kind == 'histogram':
        if two:
            args.update(y_float_list=y, y_axis_string='y', n_y_bins=ny)
        ok, got = m.quiet(lambda: Common.make_root_histogram(
            'name', x, 'x', nx, **args), kind)
        thing = hist = got
    elif kind == 'graph':
        ok, got = m.quiet(lambda: Common.make_root_graph(
            'name', x, 'x', y, 'y', **args), kind)
        hist, thing = got if ok else (None, None)
    elif kind == 'bunch histogram':
        if two:
            ok, got = m.quiet(lambda: bunch.root_histogram(
                vx, ux, vy, uy, nx_bins=nx, ny_bins=ny, **args), kind)
        else:
            ok, got = m.quiet(lambda: bunch.root_histogram(
                vx, ux, nx_bins=nx, **args), kind)
        thing = hist = got[1] if ok else None
    elif kind == 'bunch scatter':
        ok, got = m.quiet(lambda: bunch.root_scatter_graph(
            vx, vy, ux, uy, **args), kind)
        hist, thing = got[1:] if ok else (None, None)
    elif kind == 'bunch graph':
        if not any(h['weight'] for h in bunch):
            return
        ok, got = m.quiet(lambda: Bunch.root_graph(
            [Bunch.new_from_hits([h]) for h in bunch if h['weight']],
            'mean', [vx], 'mean', [vy], ux, uy, **args), kind)
        hist, thing = got[1:] if ok else (None, None)
    else:
        title = r.choice([None, 'a title'])
        style = {k: v for k, v in
                 {'bg_color': r.randint(2, 40), 'border_mode': r.randint(1, 2),
                  'highlight_color': r.randint(3, 40),
                  'frame_fill_color': r.randint(2, 40)}.items()
                 if r.random() < .7}
        ok, got = m.quiet(lambda: Common.make_root_canvas('c', title, **style),
                          kind)
        other = Common.make_root_canvas('c')
        if ok:
            m.check(str(got.GetName()).startswith('c') and
                    str(got.GetName()) != str(other.GetName()),
                    'canvases have names of their own')
            m.equal(str(got.GetTitle()), title or 'c', 'canvas title')
            for key, have in (('bg_color', got.GetFillColor()),
                              ('border_mode', got.GetBorderMode()),
                              ('highlight_color', got.GetHighLightColor()),
                              ('frame_fill_color', got.GetFrameFillColor())):
                if key in style:
                    m.check(have == style[key], 'style asked for: canvas',
                            what=key, got=have, want=style[key])
    if hist:
        in_style(m, style, thing, hist, kind)
        for key, want in limits.items():
            low, high = axis_of(hist, key[0])
            m.close(low if 'min' in key else high, want,
                    'limit asked for: '+kind, rel=1e-12)
        m.event('style seen')
    tidy()


def lines():
    return [[tuple(p) for p in line.get_xydata().tolist()]
            for line in pyplot.gca().get_lines()]


def matplot_graph(r, m):
    m.event('matplot graph')
    x, y = two_lists(r, m)
    sort = r.choice([True, False])
    m.event('sorted' if sort else 'not sorted')
    a, b = kind_of_list(r, x), kind_of_list(r, y)
    which = r.choice(['common', 'wrapper', 'figure'])
    if which == 'common':
        ok, fig = m.quiet(lambda: Common.make_matplot_graph(
            a, 'the x', b, 'the y', sort=sort), 'graph')
    elif which == 'wrapper':
        ok, fig = m.quiet(lambda: wrapper.make_graph(
            a, 'the x', b, 'the y', sort=sort), 'graph')
    else:
        number = 10**6+r.randint(1, 50)
        ok, fig = m.quiet(lambda: wrapper.make_graph(
            a, 'the x', b, 'the y', sort=sort, fig_index=number,
            kwds={'linewidth': 3}), 'graph')
        m.equal(fig, number, 'the figure asked for')
    if ok:
        m.check(pyplot.fignum_exists(fig), 'the figure returned exists')
        pyplot.figure(fig)
        drawn = lines()
        if m.check(len(drawn) == 1, 'one line for a graph'):
            same_points(m, drawn[0], list(zip(x, y)), not sort, 'graph')
        covers(m, *pyplot.xlim(), x, 'graph')
        covers(m, *pyplot.ylim(), y, 'graph')
        m.equal((pyplot.gca().get_xlabel(), pyplot.gca().get_ylabel()),
                ('the x', 'the y'), 'axis labels')
        # another plot goes on a figure of its own
        ok, other = m.quiet(lambda: wrapper.make_graph([1, 2], '', [1, 2], ''),
                            'second graph')
        m.check(other != fig, 'plots have figures of their own')
        m.equal(len(pyplot.figure(fig).axes[0].get_lines()), 1,
                'a second plot leaves the first alone')
    m.equal((list(a), list(b)), (x, y), 'data is left alone')
    tidy()


def multigraph(r, m):
    m.event('multigraph')
    sets = [two_lists(r, m) for _ in range(r.randint(1, 4))]
    xs, ys = [s[0] for s in sets], [s[1] for s in sets]
    a, b = [list(x) for x in xs], [list(y) for y in ys]
    which = r.choice(['root', 'common', 'wrapper'])
    total_x, total_y = sum(xs, []), sum(ys, [])
    if which == 'root':
        ok, got = m.quiet(lambda: Common.make_root_multigraph(
            'name', a, 'x', b, 'y'), 'several graphs')
        if ok and m.check(len(got[1]) == len(sets), 'one graph for each list'):
            for graph, x, y in zip(got[1], xs, ys):
                same_points(m, points_of(graph), list(zip(x, y)), True,
                            'several root graphs')
            axis_limits(m, got[0], total_x, total_y, {}, 'several graphs')
    else:
        call = {'common': Common.make_matplot_multigraph,
                'wrapper': wrapper.make_multigraph}[which]
        fig = wrapper.make_graph([1, 2], '', [1, 2], '')
        ok, got = m.quiet(lambda: call(a, 'x', b, 'y'), 'several graphs')
        if ok:
            now = pyplot.gcf().number
            m.check(now != fig and
                    len(pyplot.figure(fig).axes[0].get_lines()) == 1,
                    'several graphs have a figure of their own')
            pyplot.figure(now)
            m.equal((pyplot.gca().get_xlabel(), pyplot.gca().get_ylabel()),
                    ('x', 'y'), 'axis labels')
            drawn = lines()
            if m.check(len(drawn) == len(sets), 'one line for each list'):
                for line, x, y in zip(drawn, xs, ys):
                    same_points(m, line, list(zip(x, y)), False,
                                'several graphs')
            covers(m, *pyplot.xlim(), total_x, 'several graphs')
            covers(m, *pyplot.ylim(), total_y, 'several graphs')
    m.equal((a, b), (xs, ys), 'data is left alone')
    tidy()


def scatter(r, m):
    m.event('scatter')
    x, y = two_lists(r, m)
    if r.random() < .5:
        ok, _ = m.quiet(lambda: Common.make_matplot_scatter(x, 'x', y, 'y'),
                        'scatter')
    else:
        ok, fig = m.quiet(lambda: wrapper.make_scatter(x, 'x', y, 'y'),
                          'scatter')
    if ok:
        got = [tuple(p) for p in
               pyplot.gca().collections[-1].get_offsets().tolist()]
        same_points(m, got, list(zip(x, y)), True, 'scatter')
        pyplot.gcf().canvas.draw()
        covers(m, *pyplot.xlim(), x, 'scatter')
        covers(m, *pyplot.ylim(), y, 'scatter')
    tidy()


def some_weights(r, m, n):
    k = r.choice(['none', 'some', 'some', 'small', 'signed'])
    if k == 'none':
        return []
    m.event('weighted bins')
    if k == 'small':
        s = 10.**r.uniform(-5.5, -3)
        return [r.choice([0., s*r.uniform(.01, 3)]) for _ in range(n)]
    if k == 'signed':
        return [r.choice([1., -.5, 0., r.uniform(.1, 2)]) for _ in range(n)]
    return [r.choice([0., 1., r.uniform(.1, 3)]) for _ in range(n)]


def near_edge(v, edges):
    return min(abs(v-e) for e in edges) <= 1e-9*(abs(v)+edges[-1]-edges[0])


def count(data, edges):
    """bin of each value, None outside"""
    out = []
    for v in data:
        i = [k for k in range(len(edges)-1) if edges[k] <= v < edges[k+1]]
        out.append(i[0] if i else None)
    return out


def bins_agree(m, content, edges, data, weights, site):
    """content {cell: weight} against the data; values on edges may go to
    either side"""
    want, loose = {}, set()
    for j, w in enumerate(weights):
        cell, slack = [], [[]]
        for e, d in zip(edges, data):
            i = count([d[j]], e)[0]
            near = {i}
            if near_edge(d[j], e):
                for step in (-1, 1):
                    k = count([d[j]+step*1e-8*(abs(d[j])+e[-1]-e[0])], e)[0]
                    near.add(k)
            cell.append(i)
            slack = [s+[k] for s in slack for k in near]
        if len(slack) > 1:
            loose.update(tuple(s) for s in slack)
        cell = tuple(cell)
        want[cell] = want.get(cell, 0.)+w
    size = math.fsum(abs(w) for w in weights)
    bad = [(c, content.get(c, 0.), want.get(c, 0.))
           for c in set(content) | set(want)
           if None not in c and c not in loose and
           abs(content.get(c, 0.)-want.get(c, 0.)) > 1e-9*size]
    m.check(not bad, 'bin contents: '+site, bad=bad[:5])


def root_histogram(r, m):
    m.event('root histogram')
    x, y = two_lists(r, m)
    n = len(x)
    weights = some_weights(r, m, n)
    limits = some_limits(r, m, x, y)
    nx, ny = r.randint(1, 12), r.randint(1, 12)
    two = r.random() < .5
    if two:
        m.event('two dimensions')
    args = dict(weight_list=list(weights), **limits)
    if two:
        args.update(y_float_list=list(y), y_axis_string='y', n_y_bins=ny)
    ok, hist = m.quiet(lambda: Common.make_root_histogram(
        'name', list(x), 'x', nx, **args), 'root histogram')
    if not ok:
        tidy()
        return
    w = weights or [1.]*n
    m.equal(hist.GetNbinsX(), nx, 'number of bins asked for')
    live = [i for i in range(n) if w[i] != 0]
    for which, data in (('x', x), ('y', y))[:1+two]:
        low, high = axis_of(hist, which)
        for key, got in ((which+'min', low), (which+'max', high)):
            if key in limits:
                m.close(got, limits[key], 'limit asked for: histogram',
                        rel=1e-12)
        if live:
            covers(m, low, high, [data[i] for i in live], 'histogram')
    xe = [hist.GetXaxis().GetBinLowEdge(i+1) for i in range(nx+1)]
    edges, data = [xe], [x]
    content = {}
    inside = 0.
    if two:
        m.equal(hist.GetNbinsY(), ny, 'number of bins asked for')
        edges.append([hist.GetYaxis().GetBinLowEdge(i+1)
                      for i in range(ny+1)])
        data.append(y)
        for i in range(nx):
            for j in range(ny):
                content[i, j] = hist.GetBinContent(i+1, j+1)
    else:
        for i in range(nx):
            content[i, ] = hist.GetBinContent(i+1)
    inside = math.fsum(content.values())
    size = math.fsum(abs(v) for v in w)
    m.close(inside, math.fsum(w), 'all of the weight is in bins',
            abs_=1e-9*size)
    bins_agree(m, content, edges, data, w, 'root histogram')
    tidy()


def matplot_histogram(r, m):
    m.event('matplot histogram')
    x, y = two_lists(r, m, 2)
    n = len(x)
    weights = some_weights(r, m, n)
    if any(w < 0 for w in weights):
        weights = [abs(w) for w in weights]
    nx, ny = r.randint(1, 12), r.randint(1, 12)
    two = r.random() < .5
    which = r.choice(['common', 'wrapper'])
    call = {'common': Common.make_matplot_histogram,
            'wrapper': wrapper.make_histogram}[which]
    args = dict(weight_list=list(weights))
    if two:
        m.event('two dimensions')
        args.update(y_float_list=list(y), y_axis_string='y', n_y_bins=ny)
    ok, got = m.quiet(lambda: call(list(x), 'x', nx, **args), 'histogram')
    if not ok:
        tidy()
        return
    w = weights or [1.]*n
    size = math.fsum(w)
    axes = pyplot.gca()
    if two:
        drawn = axes.collections[-1].get_array()
        m.close(float(numpy.ma.filled(drawn, 0.).sum()), size,
                'all of the weight is drawn', abs_=1e-9*size)
        pyplot.gcf().canvas.draw()
        covers(m, *pyplot.xlim(), x, 'two dimensional histogram')
        covers(m, *pyplot.ylim(), y, 'two dimensional histogram')
    else:
        drawn = lines()[-1]
        low, high = min(x), max(x)
        if low == high:
            low, high = low-.5, high+.5
        m.close(math.fsum(p[1] for p in drawn), size,
                'all of the weight is drawn', abs_=1e-9*size+1e-9*nx)
        step = (high-low)/nx
        edges = [low+i*step for i in range(nx)]+[high]
        content = {}
        for p in drawn:
            k = int(math.floor((p[0]-low)/step))
            m.close(p[0], low+(k+.5)*step, 'points at the middle of bins',
                    abs_=1e-9*(abs(low)+abs(high)))
            content[k, ] = p[1]
        # the last bin keeps its upper edge
        data = [v if v < high else high-.01*step for v in x]
        keep = [v if v >= 1e-8 else 0. for v in w]
        if min(v for v in w+[1] if v) > 1e-7:
            bins_agree(m, content, [edges], [data], w, 'histogram')
    tidy()


def ratio(r, m):
    m.event('ratio')
    nx, ny = r.randint(1, 6), r.randint(1, 6)
    xe = sorted(r.uniform(-9, 9) for _ in range(nx+1))
    ye = sorted(r.uniform(-9, 9) for _ in range(ny+1))
    whole = r.random() < .3
    draw = (lambda: r.randint(0, 4)) if whole else \
        (lambda: r.choice([0., r.uniform(.1, 5)]))
    h1 = [[draw() for _ in range(ny)] for _ in range(nx)]
    h2 = [[draw() for _ in range(ny)] for _ in range(nx)]
    m.note((h1, h2, xe, ye))
    m.distinct(h1, h2)
    if r.random() < .5:
        a, b = numpy.array(h1), numpy.array(h2)
    else:
        a, b = h1, h2
    kept = ([list(c) for c in a], [list(c) for c in b])
    fill = r.choice([0., -1., 7.5])
    axes = pyplot.figure().add_subplot()
    args = {} if fill == 0. else {'on_nan': fill}
    ok, got = m.quiet(lambda: wrapper.plot_hist2d_ratio(axes, a, b, xe, ye,
                                                        **args), 'ratio')
    if ok:
        out = numpy.array(got[0])
        if m.check(out.shape == (nx, ny), 'a ratio for each bin'):
            want = [[h1[i][j]/h2[i][j] if h2[i][j] else fill
                     for j in range(ny)] for i in range(nx)]
            m.event('empty bin below',
                    sum(1 for row in h2 for v in row if not v))
            m.close(out.tolist(), want, 'ratio of the bins', rel=1e-12)
        m.close(list(got[1]), xe, 'edges are kept', rel=1e-12)
        m.close(list(got[2]), ye, 'edges are kept', rel=1e-12)
    m.equal(([list(c) for c in a], [list(c) for c in b]), kept,
            'histograms are left alone')
    wrong = [row[:] for row in h2]
    if r.random() < .5:
        wrong.append(wrong[0])
    else:
        wrong[r.randrange(nx)].append(1.)
    m.raises(ValueError, lambda: wrapper.plot_hist2d_ratio(axes, h1, wrong,
                                                           xe, ye),
             'histograms of another shape')
    tidy()


UNITS = {'x': ['', 'mm', 'cm', 'm'], 'y': ['mm', 'cm', 'm'],
         't': ['', 'ns', 's'], 'px': ['', 'MeV/c', 'GeV/c', 'keV/c'],
         'energy': ['MeV', 'GeV', 'keV'], 'pz': ['', 'GeV/c']}


def a_bunch(r, m, lo=3):
    Bunch.clear_global_weights()
    n = max(lo, r.choice([r.randint(1, 9), r.randint(10, 80)]))
    hits = []
    for i in range(n):
        h = Hit.new_from_dict({
            'x': r.gauss(3, 20), 'y': r.gauss(0, 5), 't': r.gauss(100, 40),
            'px': r.gauss(0, 30), 'py': r.gauss(0, 30),
            'pz': r.uniform(100, 300), 'pid': -13, 'mass': 105.658367,
            'charge': 1, 'event_number': i}, 'energy')
        k = r.random()
        if k < .2:
            h['local_weight'] = 0.
            m.event('cut hit')
        elif k < .5:
            h['local_weight'] = r.uniform(.1, 2)
        if r.random() < .1:
            h['global_weight'] = r.uniform(.1, 2)
        hits.append(h)
    return Bunch.new_from_hits(hits)


def bunch_plot(r, m):
    m.event('bunch plot')
    bunch = a_bunch(r, m)
    vx, vy = r.sample(sorted(UNITS), 2)
    ux, uy = r.choice(UNITS[vx]), r.choice(UNITS[vy])
    if ux not in ('', 'mm', 'ns', 'MeV', 'MeV/c') or \
            uy not in ('', 'mm', 'ns', 'MeV', 'MeV/c'):
        m.event('units')
    sx, sy = Common.units[ux], Common.units[uy]
    pts = [(h[vx]/sx, h[vy]/sy, h['weight']) for h in bunch]
    m.note((vx, ux, vy, uy, pts))
    m.distinct(pts)
    kind = r.choice(['root scatter', 'matplot scatter', 'root histogram',
                     'matplot histogram'])
    every = r.choice([True, True, False])
    if not every and 'scatter' in kind:
        m.event('weightless left out')
    keep = [p[:2] for p in pts if every or p[2] != 0]
    if not keep:
        return
    w = [p[2] for p in pts]
    size = math.fsum(w)
    two = r.random() < .5
    if kind == 'root scatter':
        ok, got = m.quiet(lambda: bunch.root_scatter_graph(
            vx, vy, ux, uy, include_weightless=every), kind)
        if ok:
            same_points(m, points_of(got[2]), keep, False, kind)
            axis_limits(m, got[1], [p[0] for p in keep],
                        [p[1] for p in keep], {}, kind)
            titled(m, got[1].GetXaxis(), [vx, ux], kind)
            titled(m, got[1].GetYaxis(), [vy, uy], kind)
            drawn_on(m, got[0], got[1:], kind)
            # and one more on the same axes
            ok, more = m.quiet(lambda: bunch.root_scatter_graph(
                vx, vy, ux, uy, include_weightless=every, canvas=got[0]),
                'same canvas')
            if ok:
                m.event('same canvas')
                m.check(more[0] == got[0], 'the canvas given is used')
                drawn_on(m, got[0], [got[1], got[2], more[2]], 'same canvas')
                same_points(m, points_of(more[2]), keep, False, 'same canvas')
                same_points(m, points_of(got[2]), keep, False,
                            'first on the canvas')
    elif kind == 'matplot scatter':
        ok, got = m.quiet(lambda: bunch.matplot_scatter_graph(
            vx, vy, ux, uy, include_weightless=every), kind)
        if ok:
            got = [tuple(p) for p in
                   pyplot.gca().collections[-1].get_offsets().tolist()]
            same_points(m, got, keep, True, kind)
            titled(m, pyplot.gca().get_xlabel(), [vx, ux], kind)
            titled(m, pyplot.gca().get_ylabel(), [vy, uy], kind)
    elif kind == 'root histogram':
        nx, ny = r.randint(1, 9), r.randint(1, 9)
        if two:
            m.event('two dimensions')
            ok, got = m.quiet(lambda: bunch.root_histogram(
                vx, ux, vy, uy, nx_bins=nx, ny_bins=ny), kind)
        else:
            ok, got = m.quiet(lambda: bunch.root_histogram(
                vx, ux, nx_bins=nx), kind)
        if ok:
            hist = got[1]
            xe = [hist.GetXaxis().GetBinLowEdge(i+1) for i in range(nx+1)]
            titled(m, hist.GetXaxis(), [vx, ux], kind)
            if two:
                titled(m, hist.GetYaxis(), [vy, uy], kind)
            drawn_on(m, got[0], [hist], kind)
            if r.random() < .5:
                ok, more = m.quiet(
                    lambda: bunch.root_histogram(
                        vx, ux, vy, uy, nx_bins=nx, ny_bins=ny,
                        canvas=got[0]) if two else bunch.root_histogram(
                        vx, ux, nx_bins=nx, canvas=got[0]), 'same canvas')
                if ok:
                    m.event('same canvas')
                    m.check(more[0] == got[0], 'the canvas given is used')
                    drawn_on(m, got[0], [hist, more[1]], 'same canvas')
                    m.check([more[1].GetBinContent(k) for k in
                             range((nx+2)*(ny+2 if two else 1))] ==
                            [hist.GetBinContent(k) for k in
                             range((nx+2)*(ny+2 if two else 1))],
                            'same data, same bins')
            if two:
                ye = [hist.GetYaxis().GetBinLowEdge(i+1) for i in range(ny+1)]
                content = {(i, j): hist.GetBinContent(i+1, j+1)
                           for i in range(nx) for j in range(ny)}
                bins_agree(m, content, [xe, ye], [[p[0] for p in pts],
                                                  [p[1] for p in pts]],
                           w, 'bunch, two dimensions')
            else:
                content = {(i,): hist.GetBinContent(i+1) for i in range(nx)}
                bins_agree(m, content, [xe], [[p[0] for p in pts]], w, 'bunch')
            m.close(math.fsum(content.values()), size,
                    'all of the weight is in bins', abs_=1e-9*size)
    else:
        if two:
            m.event('two dimensions')
            ok, got = m.quiet(lambda: bunch.matplot_histogram(vx, ux, vy, uy),
                              kind)
        else:
            ok, got = m.quiet(lambda: bunch.matplot_histogram(vx, ux), kind)
        if ok:
            titled(m, pyplot.gca().get_xlabel(), [vx, ux], kind)
            if two:
                titled(m, pyplot.gca().get_ylabel(), [vy, uy], kind)
        if ok and two:
            drawn = numpy.ma.filled(pyplot.gca().collections[-1].get_array(),
                                    0.)
            m.close(float(drawn.sum()), size, 'all of the weight is drawn',
                    abs_=1e-9*size)
        elif ok:
            drawn = lines()[-1]
            m.close(math.fsum(p[1] for p in drawn), size,
                    'all of the weight is drawn', abs_=1e-9*size+1e-6)
            m.check(all(min(p[0] for p in pts) <= d[0] <=
                        max(p[0] for p in pts) for d in drawn)
                    or len(pts) == 1, 'bins lie in the data')
    tidy()


def bunches_plot(r, m):
    m.event('bunch plot')
    bunches = [a_bunch(r, m, 4) for _ in range(r.randint(1, 6))]
    for b in bunches:
        if b.bunch_weight() == 0:
            b.clear_weights()
    vx, vy = r.sample(sorted(UNITS), 2)
    ux, uy = r.choice(UNITS[vx]), r.choice(UNITS[vy])
    if ux not in ('', 'mm', 'ns', 'MeV', 'MeV/c') or \
            uy not in ('', 'mm', 'ns', 'MeV', 'MeV/c'):
        m.event('units')

    def mean(b, v):
        return math.fsum(h[v]*h['weight'] for h in b) / \
            math.fsum(h['weight'] for h in b)

    pts = [(mean(b, vx)/Common.units[ux], mean(b, vy)/Common.units[uy])
           for b in bunches]
    m.note((vx, ux, vy, uy, pts))
    m.distinct(pts)
    compare = None
    ordered = False
    want = pts
    if r.random() < .5:
        m.event('comparator')
        ordered = True
        sign = r.choice([1, -1])

        def compare(a, b):
            return sign*((a.bunch_weight() > b.bunch_weight()) -
                         (a.bunch_weight() < b.bunch_weight()))
        order = sorted(range(len(bunches)), key=functools.cmp_to_key(
            lambda i, j: compare(bunches[i], bunches[j])))
        want = [pts[i] for i in order]
    given = dict(enumerate(bunches)) if r.random() < .5 else list(bunches)
    if r.random() < .5:
        ok, got = m.quiet(lambda: Bunch.root_graph(
            given, 'mean', [vx], 'mean', [vy], ux, uy, comparator=compare),
            'graph of bunches')
        if ok:
            same_points(m, points_of(got[2]), want, ordered,
                        'root graph of bunches', 1e-9)
            axis_limits(m, got[1], [p[0] for p in pts], [p[1] for p in pts],
                        {}, 'graph of bunches')
            titled(m, got[1].GetXaxis(), ['mean', vx, ux], 'graph of bunches')
            titled(m, got[1].GetYaxis(), ['mean', vy, uy], 'graph of bunches')
            drawn_on(m, got[0], got[1:], 'graph of bunches')
            if r.random() < .5:
                ok, more = m.quiet(lambda: Bunch.root_graph(
                    given, 'mean', [vx], 'mean', [vy], ux, uy,
                    comparator=compare, canvas=got[0]), 'same canvas')
                if ok:
                    m.event('same canvas')
                    m.check(more[0] == got[0], 'the canvas given is used')
                    drawn_on(m, got[0], [got[1], got[2], more[2]],
                             'same canvas')
                    same_points(m, points_of(more[2]), want, ordered,
                                'same canvas', 1e-9)
    else:
        ok, got = m.quiet(lambda: Bunch.matplot_graph(
            given, 'mean', [vx], 'mean', [vy], ux, uy, comparator=compare),
            'graph of bunches')
        if ok:
            drawn = [[tuple(p) for p in line.get_xydata().tolist()]
                     for line in got.axes[0].get_lines()]
            if m.check(len(drawn) == 1, 'one line for a graph of bunches'):
                same_points(m, drawn[0], want, ordered, 'graph of bunches',
                            1e-9)
            titled(m, got.axes[0].get_xlabel(), ['mean', vx, ux],
                   'graph of bunches')
            titled(m, got.axes[0].get_ylabel(), ['mean', vy, uy],
                   'graph of bunches')
            covers(m, *got.axes[0].get_xlim(), [p[0] for p in pts],
                   'graph of bunches')
            covers(m, *got.axes[0].get_ylim(), [p[1] for p in pts],
                   'graph of bunches')
    tidy()


def closed_orbit_plot(r, m):
    m.event('closed orbit plot')
    keys = r.sample(['x', 'px', 'y', 'py'], r.choice([2, 2, 4]))
    n = len(keys)
    mix = numpy.array([[r.gauss(0, 1)+3*(i == j) for i in range(n)]
                       for j in range(n)])*r.choice([1, 10])
    off = [r.gauss(0, 20) for _ in range(n)]
    pts = []
    for _ in range(r.randint(25, 50)):
        v = numpy.array([r.gauss(0, 1) for _ in range(n)])
        v = v/numpy.linalg.norm(v)
        pts.append([float(a+b) for a, b in zip(mix.dot(v), off)])
    vx, vy = r.sample(keys, 2)
    ux, uy = r.choice(UNITS[vx] if vx in UNITS else ['', 'GeV/c']), \
        r.choice(UNITS[vy] if vy in UNITS else ['', 'keV/c'])
    sx, sy = Common.units[ux], Common.units[uy]
    if sx != 1 or sy != 1:
        m.event('units')
    m.note((keys, pts[:3], vx, ux, vy, uy))
    m.distinct(pts)
    it = EllipseClosedOrbitFinderIteration(keys, [p[:] for p in pts], 1e9)
    if r.random() < .8:
        it.calculate_ellipse()
    i, j = keys.index(vx), keys.index(vy)
    want = [(p[i]/sx, p[j]/sy) for p in pts]
    if r.random() < .6:
        ok, got = m.quiet(lambda: it.plot_ellipse_root(vx, vy, ux, uy),
                          'closed orbit plot')
        if ok:
            same_points(m, points_of(got[3]), want, False, 'closed orbit plot')
            axis_limits(m, got[1], [p[0] for p in want],
                        [p[1] for p in want], {}, 'closed orbit plot')
            if it.centre is not None:
                c = numpy.array(it.centre)[[i, j]]/[sx, sy]
                e = numpy.array(it.ellipse)[numpy.ix_([i, j], [i, j])] / \
                    numpy.outer([sx, sy], [sx, sy])
                inv = numpy.linalg.inv(e)
                for p in want[:6]:
                    d = numpy.array(p)-c
                    m.close(got[2].Eval(p[0], p[1]), float(d.dot(inv).dot(d)),
                            'the ellipse is in the units of the axes',
                            rel=1e-6, abs_=1e-9)
    else:
        ok, got = m.quiet(lambda: it.plot_ellipse_matplotlib(vx, vy, ux, uy),
                          'closed orbit plot')
        if ok:
            got = [tuple(p) for p in
                   pyplot.gca().collections[-1].get_offsets().tolist()]
            same_points(m, got, want, True, 'closed orbit plot')
    tidy()


def tune_plot(r, m):
    m.event('tune plot')
    n = r.randint(30, 80)
    tune = r.uniform(.1, .4)
    u = [math.cos(2*math.pi*tune*i)+r.gauss(0, 1e-3) for i in range(n)]
    up = [-math.sin(2*math.pi*tune*i)+r.gauss(0, 1e-3) for i in range(n)]
    m.note((n, tune))
    m.distinct(n, tune)
    if r.random() < .5:
        f = FFTTuneFinder()
        f.u, f.up = list(u), list(up)
        ok, got = m.quiet(lambda: f.plot_signal('signal'), 'signal plot')
        if ok:
            same_points(m, points_of(got[2]), list(enumerate(u)), True,
                        'signal plot')
        ok, got = m.quiet(lambda: f.plot_phase_space('space'), 'phase space')
        if ok:
            same_points(m, points_of(got[2]), list(zip(u, up)), False,
                        'phase space plot')
        ok, got = m.quiet(lambda: f.plot_fft('spectrum'), 'spectrum plot')
        if ok:
            same_points(m, points_of(got[2]),
                        list(zip(f.k_mag_x, f.k_mag_y)), False,
                        'spectrum plot')
            m.check(len(f.k_mag_x) > 0, 'there is a spectrum to plot')
    else:
        f = DPhiTuneFinder()
        f.u, f.up = list(u), list(up)
        f.axis1, f.axis2 = 'u', 'up'
        f.get_tune()
        scale = r.choice([1., r.uniform(.5, 2)])
        circle = [(p[0]*scale, p[1]*scale) for p in f.point_circles]
        if r.random() < .5:
            ok, got = m.quiet(lambda: f.plot_phase_space_root(), 'phase space')
            if ok:
                same_points(m, points_of(got[2]), list(zip(u, up)), False,
                            'phase space plot')
            ok, got = m.quiet(lambda: f.plot_cholesky_space_root(scale=scale),
                              'circle plot')
            if ok:
                same_points(m, points_of(got[2]), circle, False, 'circle plot')
        else:
            for fn, want in (
                    (lambda: f.plot_phase_space_matplotlib('u', 'v'),
                     list(zip(u, up))),
                    (lambda: f.plot_cholesky_space_matplotlib(scale=scale),
                     circle)):
                ok, got = m.quiet(fn, 'points plot')
                if ok:
                    pyplot.figure(got)
                    got = [tuple(p) for p in pyplot.gca().collections[-1]
                           .get_offsets().tolist()]
                    same_points(m, got, want, True, 'points plot')
    tidy()


def cell_colours(m, w, fill, closed, low, high, graphs):
    """the higher the value, the further along the palette"""
    colours = [g.GetFillColor() for g in graphs]
    if fill in [None, 'none']:
        m.check(all(c == 0 for c in colours), 'cells are not filled',
                got=colours)
        return
    value = {'weight': lambda k: w.weight_list[k],
             'content': lambda k: w.tile_content_list[k],
             'pdf': lambda k: w.get_pdf(w.real_points[k])}[fill]
    n = ROOT.TColor.GetNumberOfColors()
    palette = [ROOT.TColor.GetColorPalette(k) for k in range(n)]
    values = [value(k) for k in range(low, high)]
    if len(set(palette)) != n or max(values) <= min(values):
        return
    m.event('coloured cells')
    place = []
    for colour in colours:
        if not m.check(colour in palette, 'colour of a cell', got=colour):
            return
        place.append(palette.index(colour))
    mine = [value(k) for k in closed]
    for k, p in zip(mine, place):
        if k == max(values):
            m.event('highest cell')
            m.check(p == n-1, 'the highest cell has the last colour', got=p,
                    want=n-1)
        if k == min(values):
            m.check(p == 0, 'the lowest cell has the first colour', got=p)
    rank = sorted(zip(mine, place))
    m.check(all(a[1] <= b[1] for a, b in zip(rank, rank[1:]) if a[0] < b[0]),
            'colours go up with the values', got=rank)


def cells_plot(r, m):
    m.event('cells plot')
    Bunch.clear_global_weights()
    names = r.sample(['x', 'y', 'px', 'py'], r.choice([2, 2, 3]))
    pts = [[r.gauss(0, 1) for _ in names] for _ in range(r.randint(12, 30))]
    bunch = Bunch.new_from_hits([Hit.new_from_dict(dict(
        zip(names, p), pid=-13, mass=105.658, event_number=i, pz=200.))
        for i, p in enumerate(pts)])
    bound = None
    if r.random() < .5 and len(names) == 2:
        m.event('bounded cells')
        bound = BoundingEllipse(numpy.eye(2)*r.uniform(2, 4), numpy.zeros(2),
                                r.choice([6, 10]))
    w = VoronoiWeighting(names, numpy.eye(len(names)), voronoi_bound=bound)
    axes = r.sample(names, 2)
    if r.random() < .3:
        m.raises(ValueError, lambda: w.plot_two_d_projection(axes),
                 'weights come before the plot of cells')
    w.apply_weights(bunch, False)
    if bound is not None:
        pts = [p for p in pts if sum(c*c for c in p)*bound.ellipse_inv[0, 0]
               <= 1]
    low, high = 0, len(pts)
    given = []
    if r.random() < .4:
        m.event('some of the cells')
        low = r.randint(0, len(pts)-2)
        high = r.randint(low+2, len(pts))
        given = [low, high]
    i, j = names.index(axes[0]), names.index(axes[1])
    m.note((names, axes, pts[:2]))
    m.distinct(pts)
    fill = r.choice([None, 'none', 'weight', 'content', 'pdf'])
    ok, got = m.quiet(lambda: w.plot_two_d_projection(axes, fill, *given),
                      'cells plot')
    if ok:
        same_points(m, points_of(got[2]), [(p[i], p[j]) for p in
                                           pts[low:high]], False,
                    'cells plot')
        tess = w.tesselation
        want, closed = [], []
        for k in range(low, high):
            tile = tess.regions[tess.point_region[k]]
            if tile and -1 not in tile:
                corner = [tuple(tess.vertices[v][[i, j]]) for v in tile]
                want.append(corner+corner[:1])
                closed.append(k)
        if m.check(len(got[3]) == len(want), 'one graph for each closed cell'):
            for graph, corners in zip(got[3], want):
                same_points(m, points_of(graph), corners, True,
                            'corners of a cell')
            cell_colours(m, w, fill, closed, low, high, got[3])
    m.raises(ValueError, lambda: w.plot_two_d_projection([axes[0]]),
             'two axes for a projection')
    m.raises(ValueError, lambda: w.plot_two_d_projection([axes[0], 'z']),
             'axes are among the variables')
    tidy()


def ellipse_function(r, m):
    m.event('ellipse function')
    cov = gen.posdef(r, 2) if r.random() < .5 else numpy.array(
        [[4., 1.], [1., 2.]])*10.**r.uniform(-2, 2)
    cov = numpy.array(cov, dtype=float)
    mean = [r.gauss(0, 5), r.gauss(0, 5)]
    m.note((mean, cov.tolist()))
    m.distinct(mean, cov.tolist())
    if numpy.linalg.cond(cov) > 1e6:
        return
    contours = r.choice([None, [1.], [.5, 1., 4.]])
    limits = [-50., 50., -60., 60.]
    if r.random() < .4:
        limits[r.randint(0, 3)] = None      # a range about the mean
    ok, f = m.quiet(lambda: Common.make_root_ellipse_function(
        mean, cov, contours, *limits), 'ellipse function')
    if ok:
        inv = numpy.linalg.inv(cov)
        for _ in range(6):
            p = [r.gauss(0, 20), r.gauss(0, 20)]
            d = numpy.array(p)-mean
            m.close(f.Eval(p[0], p[1]), float(d.dot(inv).dot(d)),
                    'value of the ellipse function', rel=1e-8,
                    abs_=1e-9)
        if contours:
            m.equal([f.GetContourLevel(k) for k in range(len(contours))],
                    contours, 'contours asked for')
        got = [f.GetXmin(), f.GetXmax(), f.GetYmin(), f.GetYmax()]
        if None in limits:
            m.check(got[0] < mean[0] < got[1] and got[2] < mean[1] < got[3],
                    'range about the mean', got=got, mean=mean)
            m.close([(got[0]+got[1])/2, (got[2]+got[3])/2], mean,
                    'range about the mean', rel=1e-9, abs_=1e-9)
        else:
            m.equal(got, limits, 'range asked for')
    tidy()


def refused(r, m):
    m.event('refused')
    n = r.randint(1, 5)
    x = [float(i) for i in range(n)]
    y = x+[1.]*r.randint(1, 3)
    m.note((x, y))
    m.distinct(n, len(y), r.random())
    a, b = r.choice([(x, y), (y, x), ([], []), ([], x), (x, [])])
    for fn in (lambda: Common.make_root_graph('n', a, 'x', b, 'y'),
               lambda: Common.make_matplot_graph(a, 'x', b, 'y'),
               lambda: wrapper.make_graph(a, 'x', b, 'y'),
               lambda: wrapper.make_scatter(a, 'x', b, 'y')):
        m.raises(IndexError, fn, 'no points or unequal lists')
    for fn in (lambda: Common.make_matplot_histogram([], 'x', 3),
               lambda: wrapper.make_histogram([], 'x', 3),
               lambda: Common.make_matplot_scatter([], 'x', [], 'y')):
        m.raises(IndexError, fn, 'nothing to draw')
    m.raises(KeyError, lambda: Common.make_root_legend(
        Common.make_root_canvas('c'), []), 'a legend of nothing')
    tidy()


SCENARIOS = [
    ('root_graph', root_graph, 260, 8000, {}),
    ('matplot_graph', matplot_graph, 260, 4000, {}),
    ('multigraph', multigraph, 180, 3000, {}),
    ('scatter', scatter, 170, 2000, {}),
    ('root_histogram', root_histogram, 260, 9000, {}),
    ('matplot_histogram', matplot_histogram, 240, 4000, {}),
    ('ratio', ratio, 110, 2000, {}),
    ('bunch_plot', bunch_plot, 240, 6000, {}),
    ('bunches_plot', bunches_plot, 90, 2500, {}),
    ('closed_orbit_plot', closed_orbit_plot, 80, 1500, {}),
    ('tune_plot', tune_plot, 60, 800, {}),
    ('cells_plot', cells_plot, 30, 500, {}),
    ('ellipse_function', ellipse_function, 110, 3000, {}),
    ('styled', styled, 200, 5000, {}),
    ('refused', refused, 90, 400, {}),
]
