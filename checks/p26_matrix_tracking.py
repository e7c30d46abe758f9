"""P26: tracking by matrices."""
import copy
import math

import numpy

from xmon import gen
from xboa.hit import Hit
from xboa.tracking import MatrixTracking, TimeoutTracking, TrackingBase

ID = 'P26'
RULE = ('random hits, lists of matrices (identity, drift, rotation, singular, '
        'dense, ten decades, integer entries) and offsets; each track is '
        'recomputed element by element, composed, inverted and repeated; '
        'unusable arguments must be refused; distinct by input')
REQUIRED = {'track': 900, 'segment': 1600, 'no segments': 60,
            'unreachable shell': 150, 'many': 150, 'inverse': 120,
            'composition': 120, 'refused': 200, 'base class': 60}
VARS = ['x', 'px', 'y', 'py', 't', 'energy']
STORED = gen.FLOATS+gen.INTS


def matrix(r):
    k = r.random()
    out = numpy.identity(6)
    if k < .15:
        pass
    elif k < .35:
        out[0, 1] = out[2, 3] = r.gauss(0, 2)
        out[4, 5] = r.gauss(0, .01)
    elif k < .5:
        c, s = math.cos(r.uniform(0, 7)), 0.
        s = math.sqrt(1-c*c)
        out[:2, :2] = [[c, s], [-s, c]]
    elif k < .6:
        out = numpy.zeros((6, 6))
        for i in range(6):
            out[i, i] = i
    elif k < .7:
        return numpy.matrix([[r.randint(-2, 2) for _ in range(6)]
                             for _ in range(6)])
    elif k < .8:
        out = numpy.array([[10.**r.uniform(-5, 3)*r.choice([-1, 1])
                            for _ in range(6)] for _ in range(6)])
    else:
        out = numpy.array(gen.small_matrix(r, 6))
    return numpy.matrix(out)


def offset(r):
    k = r.random()
    if k < .3:
        return numpy.matrix(numpy.zeros((1, 6)))
    if k < .4:
        return numpy.matrix([[r.randint(-5, 5) for _ in range(6)]])
    return numpy.matrix([[r.gauss(0, 10) for _ in range(5)]
                         + [r.choice([0., r.uniform(200, 500)])]])


def any_hit(r):
    d = gen.hit_dict(r)
    if r.random() < .15:
        d['pid'], d['mass'] = 22, 0.
    if r.random() < .2:
        d['pz'] = -d['pz']
    return Hit.new_from_dict(d)


def apply(mats, offs, off_in, vec):
    out = []
    for mat, off in zip(mats, offs):
        rows = []
        for i in range(6):
            rows.append(math.fsum(float(mat[i, j])*(vec[j]-float(off_in[0, j]))
                                  for j in range(6))+float(off[0, i]))
        out.append(rows)
    return out


def size(mat, off, off_in, vec):
    """Magnitude of the terms that were added, per component"""
    return [sum(abs(float(mat[i, j]))*(abs(vec[j])+abs(float(off_in[0, j])))
                for j in range(6))+abs(float(off[0, i])) for i in range(6)]


def judge(m, hit, start, track, mats, offs, off_in, site):
    """One track against the definition; returns the maps of the start"""
    vec = [start[k] for k in VARS]
    if not m.equal(len(track), len(mats)+1, site+': one hit per segment'):
        return
    m.equal(gen.state(track[0]), start, site+': starts with the given hit')
    m.check(track[0] is not hit, site+': the start is a copy')
    for i, want in enumerate(apply(mats, offs, off_in, vec)):
        m.event('segment')
        got = gen.state(track[i+1])
        for k, w, s in zip(VARS, want, size(mats[i], offs[i], off_in, vec)):
            m.close(got[k], w, site+': mapped variable', rel=1e-12,
                    abs_=1e-13*s, variable=k, segment=i)
        for k in STORED:
            if k not in VARS and k != 'pz':
                m.check(got[k] == start[k], site+': other variables carried over',
                        variable=k, got=got[k], want=start[k])
        square = got['energy']**2-got['mass']**2-got['px']**2-got['py']**2
        scale = got['energy']**2+got['mass']**2+got['px']**2+got['py']**2
        if square > 1e-9*scale:
            m.close(got['pz'], math.sqrt(square), site+': on the mass shell',
                    rel=1e-12*scale/square+1e-12)
        elif square < -1e-9*scale:
            m.event('unreachable shell')
            m.equal(got['pz'], 0., site+': no real momentum')
    return track


def setup(r):
    n = r.choice([0, 1, 1, 2, 3, 5])
    mats = [matrix(r) for _ in range(n)]
    offs = [offset(r) for _ in range(n)]
    if n and r.random() < .2:       # the same objects several times
        mats = [mats[0]]*n
    return mats, offs, offset(r)


def frozen(mats, offs, off_in):
    return ([x.tolist() for x in mats], [x.tolist() for x in offs],
            off_in.tolist())


def track(r, m):
    mats, offs, off_in = setup(r)
    hit = any_hit(r)
    start = gen.state(hit)
    m.note((frozen(mats, offs, off_in), start))
    m.distinct(frozen(mats, offs, off_in), sorted(start.items()))
    m.event('track')
    if not mats:
        m.event('no segments')
    before = frozen(mats, offs, off_in)
    if r.random() < .1:
        tracking = TimeoutTracking(mats, offs, off_in, 0.)
    else:
        tracking = MatrixTracking(mats, offs, off_in)
    out = tracking.track_one(hit)
    judge(m, hit, start, out, mats, offs, off_in, 'track_one')
    m.equal(gen.state(hit), start, 'the hit is not modified')
    m.equal(frozen(mats, offs, off_in), before, 'matrices are not modified')
    m.check(len(tracking.last) == 1 and
            [gen.state(h) for h in tracking.last[0]]
            == [gen.state(h) for h in out], 'last holds the track')
    first = [gen.state(h) for h in out]
    out[0]['x'] = 1e9
    m.equal(gen.state(hit), start, 'changing the track leaves the hit alone')
    again = tracking.track_one(hit)
    m.equal([gen.state(h) for h in again], first, 'tracking again')
    k = r.random()
    if k < .3:
        m.event('many')
        hits = [any_hit(r) for _ in range(r.randint(0, 4))]
        if hits and r.random() < .3:
            hits.append(hits[0])
        starts = [gen.state(h) for h in hits]
        listed = list(hits)
        tracks = tracking.track_many(hits)
        m.equal(len(tracks), len(hits), 'one track per hit')
        for h, s, t in zip(hits, starts, tracks):
            judge(m, h, s, t, mats, offs, off_in, 'track_many')
        m.equal([gen.state(h) for h in hits], starts, 'hits are not modified')
        m.check(len(listed) == len(hits), 'list is not modified')
        m.equal([[gen.state(h) for h in t] for t in tracking.last],
                [[gen.state(h) for h in t] for t in tracks],
                'last holds all tracks')


def laws(r, m):
    """Two sections in turn, and there and back again"""
    hit = any_hit(r)
    start = gen.state(hit)
    while True:
        a = numpy.matrix(numpy.identity(6)+.3*numpy.array(
            gen.small_matrix(r, 6)))
        if numpy.linalg.cond(a) < 50:
            break
    b = matrix(r)
    u, v, w = offset(r), offset(r), offset(r)
    m.note((a.tolist(), b.tolist(), u.tolist(), v.tolist(), w.tolist(), start))
    m.distinct(a.tolist(), b.tolist(), sorted(start.items()))
    m.event('composition')
    mid = MatrixTracking([a], [v], u).track_one(hit)[1]
    end = MatrixTracking([b], [w], v).track_one(mid)[1]
    whole = MatrixTracking([a, b*a], [v, w], u).track_one(hit)
    scale = float(abs(b).sum()*abs(a).sum())*(1+max(
        abs(start[k]) for k in VARS)+float(abs(u).sum()+abs(v).sum()))
    scale += float(abs(w).sum())
    for k in VARS:
        m.close(whole[2][k], end[k], 'sections compose', rel=1e-11,
                abs_=1e-12*scale, variable=k)
        m.close(whole[1][k], mid[k], 'first section', rel=1e-12, abs_=1e-12)
    m.event('inverse')
    back = MatrixTracking([numpy.matrix(numpy.linalg.inv(a))], [u],
                          v).track_one(mid)[1]
    scale = 1e4*(1+max(abs(start[k]) for k in VARS)+float(abs(v).sum()))
    for k in VARS:
        m.close(back[k], start[k], 'inverse section restores the hit',
                rel=1e-10, abs_=1e-13*scale, variable=k)


def refusals(r, m):
    m.event('refused')
    mats, offs, off_in = [matrix(r)], [offset(r)], offset(r)
    kind = r.choice(['short', 'long', 'array', 'shape', 'offset array',
                     'offset shape', 'in array', 'in shape'])
    error = TypeError
    if kind == 'short':
        offs, error = [], IndexError
    elif kind == 'long':
        offs, error = offs*2, IndexError
    elif kind == 'array':
        mats = [numpy.array(mats[0])]
    elif kind == 'shape':
        mats = [mats[0][:r.randint(1, 5), :] if r.random() < .5 else
                mats[0][:, :r.randint(1, 5)]]
    elif kind == 'offset array':
        offs = [numpy.array(offs[0])]
    elif kind == 'offset shape':
        offs = [offs[0].transpose() if r.random() < .5 else offs[0][:, :5]]
    elif kind == 'in array':
        off_in = numpy.array(off_in)
    else:
        off_in = off_in.transpose()
    if error is TypeError and r.random() < .5:   # hidden behind a good one
        mats, offs = [matrix(r)]+mats, [offset(r)]+offs
    m.note(kind)
    m.distinct(kind, str(mats))
    m.raises(error, lambda: MatrixTracking(mats, offs, off_in),
             'unusable argument refused: '+kind)


class Doubling(TrackingBase):
    def __init__(self):
        TrackingBase.__init__(self)
        self.seen = []

    def track_one(self, hit):
        self.seen.append(hit)
        self.last = ['overwritten later']
        return [hit, hit]


def base(r, m):
    m.event('base class')
    hits = [any_hit(r) for _ in range(r.randint(0, 5))]
    m.distinct([h['x'] for h in hits])
    m.raises(NotImplementedError, lambda: TrackingBase().track_one(any_hit(r)),
             'the base class tracks nothing')
    m.equal(TrackingBase().last, [], 'nothing tracked yet')
    tracking = Doubling()
    out = tracking.track_many(hits)
    m.check(len(tracking.seen) == len(hits) and all(
        a is b for a, b in zip(tracking.seen, hits)), 'each hit tracked once')
    m.check(len(out) == len(hits) and all(
        t[0] is h for t, h in zip(out, hits)), 'tracks in order')
    m.check(tracking.last == out, 'last holds what track_many returned')


SCENARIOS = [
    ('track', track, 1500, 60000, {}),
    ('laws', laws, 250, 10000, {}),
    ('refusals', refusals, 360, 3000, {}),
    ('base', base, 100, 1000, {}),
]
