"""P32: contents of Voronoi cells and the weights made from them."""
import itertools
import math
import warnings

import numpy
import scipy.spatial

from xmon import gen
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.bunch.weighting import (VoronoiWeighting, HullContent,
                                  BoundingEllipse)

ID = 'P32'
RULE = ('random bunches in two to four variables, clustered, stretched and on '
        'grids, with and without a bound, one or more processes; cells '
        'compared with hull volumes and with the distance to every hit; '
        'hulls of known volume turned, moved and shuffled; target densities '
        'evaluated directly; distinct by points')
WORKERS = 6
REQUIRED = {'bunch': 60, 'closed cell': 700, 'open cell': 100, 'bound': 25,
            'cut hit': 30, 'cells checked by distance': 200, 'grid': 12,
            'known hull': 70, 'shuffled hull': 70, 'pdf': 500, 'regions': 25,
            'global': 15, 'refused': 20, 'several processes': 10,
            'three or more variables': 20, 'offset mean': 30}
OTHERS = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'pid', 'mass',
          'status', 'charge', 'event_number', 'ex', 'bx']


class Tiles(object):
    """What HullContent reads of a tesselation"""

    def __init__(self, hulls):
        self.vertices = numpy.array([p for h in hulls for p in h])
        self.regions, at = [], 0
        for h in hulls:
            self.regions.append(list(range(at, at+len(h))))
            at += len(h)
        self.point_region = list(range(len(hulls)))


def turn(r, dim):
    a = numpy.array([[r.gauss(0, 1) for _ in range(dim)] for _ in range(dim)])
    q, _ = numpy.linalg.qr(a)
    return q


def known_hull(r, m):
    dim = r.choice([2, 2, 3, 3, 4])
    kind = r.choice(['box', 'simplex', 'polygon', 'image', 'cross'])
    scale = 10.**r.uniform(-4, 4)
    if kind == 'box':
        side = [r.uniform(.5, 2) for _ in range(dim)]
        pts = [[s*b for s, b in zip(side, bits)]
               for bits in itertools.product([0, 1], repeat=dim)]
        volume = numpy.prod(side)
    elif kind == 'simplex':
        pts = [[0.]*dim]+[[r.gauss(0, 1) for _ in range(dim)]
                          for _ in range(dim)]
        volume = abs(numpy.linalg.det(pts[1:]))/math.factorial(dim)
    elif kind == 'polygon':
        dim = 2
        ang = sorted(r.uniform(0, 2*math.pi) for _ in range(r.randint(3, 15)))
        a, b = r.uniform(.5, 2), r.uniform(.5, 2)
        pts = [[a*math.cos(t), b*math.sin(t)] for t in ang]
        volume = abs(sum(p[0]*q[1]-p[1]*q[0] for p, q in
                         zip(pts, pts[1:]+pts[:1])))/2
    elif kind == 'image':
        lin = numpy.array([[r.gauss(0, 1) for _ in range(dim)]
                           for _ in range(dim)])
        cube = numpy.array(list(itertools.product([0., 1.], repeat=dim)))
        pts = cube.dot(lin.T).tolist()
        volume = abs(numpy.linalg.det(lin))
    else:
        half = [r.uniform(.5, 2) for _ in range(dim)]
        pts = []
        for i, h in enumerate(half):
            for s in (h, -h):
                p = [0.]*dim
                p[i] = s
                pts.append(p)
        volume = numpy.prod(half)*2**dim/math.factorial(dim)
    pts = numpy.array(pts)
    size = abs(pts-pts.mean(axis=0)).max()
    if volume < 1e-3*size**dim:
        return known_hull(r, m)
    moved = pts.dot(turn(r, dim).T)*scale+numpy.array(
        [r.choice([0., 1.])*scale*r.gauss(0, 5) for _ in range(dim)])
    return dim, kind, moved, volume*scale**dim


def hulls(r, m):
    """Volumes of known shapes, in any orientation and order"""
    first = known_hull(r, m)
    shapes = [first]
    while len(shapes) < 3:
        other = known_hull(r, m)
        if other[0] == first[0]:
            shapes.append(other)
    rows = [s[2] for s in shapes]
    volumes = [s[3] for s in shapes]
    mixed = []
    for s in rows:
        order = list(range(len(s)))
        r.shuffle(order)
        mixed.append(s[order])
    m.note([(s[1], s[2].tolist()) for s in shapes])
    m.distinct(rows[0].tolist())
    everything = Tiles(rows+mixed)
    m.event('known hull', 3)
    m.event('shuffled hull', 3)
    content = HullContent(everything, list(range(6)), r.choice([1, 1, 2]))
    got = list(content.tile_content_list)
    m.close(got, volumes*2, 'content of a hull is its volume', rel=2e-5)
    m.event('regions')
    pick = r.sample(range(6), r.randint(1, 5))
    part = HullContent(everything, pick, 1)
    m.close(list(part.tile_content_list), [got[i] for i in pick],
            'contents of the regions asked for, in order', rel=1e-9)
    part.recalculate()
    m.close(list(part.tile_content_list), [got[i] for i in pick],
            'the same again', rel=1e-9)
    for c in (content, part):
        c.pool.terminate()
        c.pool.join()


def make_points(r, m):
    dim = r.choice([2, 2, 2, 3, 4])
    if dim > 2:
        m.event('three or more variables')
    n = {2: r.randint(6, 60), 3: r.randint(8, 30), 4: r.randint(10, 16)}[dim]
    names = r.sample(['x', 'y', 'px', 'py', 't', 'z'], dim)
    scale = numpy.array([10.**r.uniform(-1, 1) for _ in names])
    kind = r.choice(['gauss', 'box', 'clusters', 'grid'])
    if kind == 'grid':
        m.event('grid')
        k = {2: 4, 3: 3, 4: 3}[dim]
        pts = numpy.array(list(itertools.product(
            [float(i) for i in range(k)], repeat=dim)))
        scale = numpy.array([2.**r.randint(-2, 2)]*dim)
    elif kind == 'gauss':
        pts = numpy.array([[r.gauss(0, 1) for _ in names] for _ in range(n)])
    elif kind == 'box':
        pts = numpy.array([[r.uniform(-1, 1) for _ in names]
                           for _ in range(n)])
    else:
        pts = numpy.array([[r.gauss(3*(i % 2), .3) for _ in names]
                           for i in range(n)])
    return dim, names, kind, pts*scale, scale


def bunch(r, m):
    m.event('bunch')
    dim, names, kind, pts, scale = make_points(r, m)
    n = len(pts)
    hits = []
    for p in pts:
        hits.append(Hit.new_from_dict(dict(zip(names, map(float, p)))))
        hits[-1]['local_weight'] = r.choice([1., 0., .5])
        hits[-1]['global_weight'] = r.choice([1., .5])
        hits[-1]['event_number'] = len(hits)
    b = Bunch.new_from_hits(hits)
    ellipse = gen.posdef(r, dim) if hasattr(gen, 'posdef') else numpy.eye(dim)
    ellipse = numpy.array(ellipse)
    ellipse = ellipse/abs(ellipse).max()*numpy.outer(scale, scale)*r.uniform(
        1, 9)
    while numpy.linalg.eigvalsh(ellipse/numpy.outer(scale, scale)).min() < .05:
        ellipse += .05*numpy.diag(scale**2)
    mean = None
    if r.random() < .6:
        m.event('offset mean')
        mean = scale*numpy.array([r.gauss(0, .5) for _ in names])
    bound = None
    if r.random() < .4 and kind != 'grid':
        m.event('bound')
        edge = numpy.diag((scale*r.uniform(1., 3))**2)
        where = scale*r.choice([0., .3])*numpy.ones(dim)
        bound = BoundingEllipse(edge, where, {2: 24, 3: 5, 4: 3}[dim])
    weighter = VoronoiWeighting(list(names), ellipse.copy(), mean, bound)
    use_global = r.random() < .4
    if use_global:
        m.event('global')
    key, other = ('global_weight', 'local_weight') if use_global else \
        ('local_weight', 'global_weight')
    before = [gen.state(h) for h in b]
    kept = [h[other] for h in b]
    procs = 1
    if r.random() < .2:
        m.event('several processes')
        procs = r.randint(2, 3)
    m.note((names, kind, pts.tolist(), ellipse.tolist(), procs, key,
            None if mean is None else mean.tolist(), bound is not None))
    m.distinct(pts.tolist())
    inside = list(range(n))
    if bound is not None:
        inv = numpy.linalg.inv(edge)
        arg = [float((p-where).dot(inv).dot(p-where)) for p in pts]
        inside = [i for i in range(n) if arg[i] <= 1.]
        m.event('cut hit', n-len(inside))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ok, _ = m.quiet(lambda: weighter.apply_weights(
            b, use_global, procs) if procs > 1 or r.random() < .5 else
            weighter.apply_weights(b, use_global), 'weights from cells')
    if not ok:
        return
    m.equal(len(b), n, 'number of hits')
    for h, old, w in zip(b, before, kept):
        new = gen.state(h)
        skip = ('local_weight', 'global_weight')
        m.equal({k: new[k] for k in new if k not in skip},
                {k: old[k] for k in old if k not in skip},
                'weights only are changed')
        m.equal(h[other], w, 'one kind of weight is changed')
    m.check(numpy.array_equal(numpy.array(weighter.real_points), pts[inside]),
            'cells belong to the hits inside the bound, in order')
    tiles = weighter.tile_content_list
    if not m.equal(len(tiles), len(inside), 'one cell per hit inside'):
        return
    all_points = pts[inside]
    if bound is not None:
        shell = numpy.array(bound.bounding_points)
        arg = [float((p-where).dot(inv).dot(p-where)) for p in shell]
        m.close(arg, [1.]*len(shell), 'bounding points on the bound', rel=1e-9)
        all_points = numpy.vstack([all_points, shell])
    # the reference tesselation
    v = scipy.spatial.Voronoi(all_points)
    tree = all_points/scale
    closed = 0
    for i, hit_index in enumerate(inside):
        region = v.regions[v.point_region[i]]
        m.check(tiles[i] >= 0 and math.isfinite(tiles[i]),
                'contents are not negative', got=tiles[i])
        if len(region) == 0 or -1 in region:
            m.event('open cell')
            m.equal(tiles[i], 0., 'an open cell has no content')
        else:
            m.event('closed cell')
            closed += 1
            corners = v.vertices[region]
            try:
                want = scipy.spatial.ConvexHull(corners/scale).volume
            except scipy.spatial.QhullError:
                continue
            want *= numpy.prod(scale)
            small = numpy.prod(scale)
            m.check(abs(tiles[i]-want) <= 1e-4*want+1e-6*small,
                    'content of a closed cell', got=tiles[i], want=want)
            if kind == 'grid':
                m.close(tiles[i], small, 'cells of a grid', rel=1e-4)
            if r.random() < .3:
                # nearer to that hit than to any other
                m.event('cells checked by distance')
                w = numpy.array([r.random() for _ in region])
                p = (w/w.sum()).dot(corners)
                d = ((all_points-p)**2).sum(axis=1)
                m.check(d[i] <= d.min()*(1+1e-9)+1e-12*small,
                        'the cell is the region nearest to the hit')
        delta = pts[hit_index]-(0 if mean is None else mean)
        pdf = math.exp(-.5*delta.dot(numpy.linalg.solve(ellipse, delta))) / \
            math.sqrt((2*math.pi)**dim*numpy.linalg.det(ellipse))
        m.close(b[hit_index][key], pdf*tiles[i],
                'weight is target density times content', rel=1e-6,
                abs_=1e-300)
    for i in range(n):
        if i not in inside:
            m.equal(b[i][key], 0., 'hits outside the bound have no weight')
    if bound is None and len(inside) > 2 and closed:
        hull = scipy.spatial.ConvexHull(v.vertices).volume
        m.check(sum(tiles) <= hull*(1+1e-4), 'closed cells do not overlap',
                got=sum(tiles), limit=hull)


def density(r, m):
    dim = r.choice([1, 2, 3, 4])
    ellipse = numpy.array(gen.posdef(r, dim))
    if numpy.linalg.cond(ellipse) > 1e8:
        return
    mean = numpy.array([r.gauss(0, 1) for _ in range(dim)]) \
        if r.random() < .6 else None
    names = ['x', 'y', 'px', 'py'][:dim]
    weighter = VoronoiWeighting(names, ellipse, mean)
    m.note((ellipse.tolist(), None if mean is None else mean.tolist()))
    m.distinct(ellipse.tolist())
    low = numpy.linalg.cholesky(ellipse)
    top = 1/math.sqrt((2*math.pi)**dim*numpy.linalg.det(ellipse))
    for _ in range(8):
        m.event('pdf')
        z = numpy.array([r.gauss(0, 1.5) for _ in range(dim)])
        point = low.dot(z)+(0 if mean is None else mean)
        m.close(weighter.get_pdf(point), top*math.exp(-.5*z.dot(z)),
                'target density', rel=1e-5)
    # whole of the density, on a grid of cells
    if dim == 1:
        s = math.sqrt(ellipse[0, 0])
        c = 0. if mean is None else mean[0]
        total = sum(weighter.get_pdf(numpy.array([c+s*i/20.]))*s/20.
                    for i in range(-160, 161))
        m.close(total, 1., 'density adds up to one', rel=1e-6)
    if r.random() < .3:
        m.event('refused')
        bad = r.choice(['mean', 'ellipse', 'bound', 'processes'])
        if bad == 'mean':
            m.raises(ValueError, lambda: VoronoiWeighting(
                names, ellipse, numpy.zeros(dim+1)), 'mean of another size')
        elif bad == 'ellipse':
            m.raises(ValueError, lambda: VoronoiWeighting(
                names+['t'], ellipse), 'ellipse of another size')
        elif bad == 'processes':
            m.raises(ValueError, lambda: HullContent(
                Tiles([[[0., 0.], [1., 0.], [0., 1.]]]), [0], 0),
                'no processes to work with')
        else:
            edge = BoundingEllipse(numpy.eye(dim+1), numpy.zeros(dim+1), 3)
            m.raises(ValueError, lambda: VoronoiWeighting(
                names, ellipse, None, edge), 'bound of another size')


SCENARIOS = [
    ('hulls', hulls, 100, 2500, {}),
    ('bunch', bunch, 220, 3500, {}),
    ('density', density, 260, 8000, {}),
]
