"""Workload generators; every choice comes from the random.Random given."""
import math

FLOATS = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'by', 'bz',
          'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time',
          'e_dep', 'charge', 'mass', 'local_weight']
INTS = ['spill', 'event_number', 'particle_number', 'station', 'status',
        'pid']
ALIASES = {'eventNumber': 'event_number', 'particleNumber': 'particle_number'}
MASS = {11: 0.510998910, 13: 105.6583668, 211: 139.57018, 321: 493.667,
        2212: 938.271996, 2112: 939.56536, 22: 0., 12: 0., 14: 0.,
        111: 134.9766, 1000010020: 1876.1239, 1000020040: 3728.4001}
CHARGED = [11, -11, 13, -13, 211, -211, 321, -321, 2212, -2212]
C_LIGHT = 299.792458


def any_float(r, wide=True):
    """A finite double, with a bias to awkward ones"""
    k = r.random()
    if k < 0.08:
        return 0.
    if k < 0.12:
        return -0.
    if k < 0.2 and wide:
        return r.choice([1, -1])*10.**r.uniform(-300, 300)
    if k < 0.3:
        return float(r.randint(-10, 10))
    if k < 0.4:
        return r.choice([1, -1])*10.**r.uniform(-12, 9)
    return r.gauss(0., 10.**r.uniform(-2, 3))


def any_int(r):
    k = r.random()
    if k < 0.2:
        return r.choice([0, 1, -1, 2**31-1, -2**31, 255, 256, 65536])
    if k < 0.6:
        return r.randint(0, 20)
    return r.randint(-2**31, 2**31-1)


def near_ids(r, base):
    """Identifiers that a packed, hashed or narrowed key would mix up with base

    base is (spill, event, particle); every result is a different triple.
    """
    spill, event, part = base
    out = set()
    for k in list(range(7, 32))+[0]:
        step = 1 << k
        out |= {(spill, event+1, part-step), (spill, event-1, part+step),
                (spill+1, event-step, part), (spill-1, event+step, part),
                (spill, event, part+step), (spill, event+step, part),
                (spill+step, event, part), (spill, event ^ step, part ^ step),
                (spill+1, event, part-step), (spill, event+step, part+step)}
    for step in (10, 31, 33, 37, 100, 101, 257, 1000, 1001, 10000, 65599,
                 100000, 1000000, 1000003, 0x9e3779b9):
        out |= {(spill, event+1, part-step), (spill, event-1, part+step),
                (spill+1, event-step, part), (spill-1, event+step, part),
                (spill+1, event, part-step*step),
                (spill+1, event, part-step), (spill, event, part+step)}
    out |= {(spill, part, event), (event, spill, part), (part, event, spill),
            (-spill, event, part), (spill, -event, part),
            (spill, event, -part), (~spill, event, part),
            (spill, ~event, part), (spill, event, ~part)}
    lo, hi = -2**31, 2**31-1
    out = [k for k in out if k != base and all(lo <= v <= hi for v in k)]
    out.sort()
    r.shuffle(out)
    return out


def moderate(r, scale=10.):
    return r.gauss(0., scale)


def hit_dict(r, pids=None, station=None, event=None, pz=None, spread=1.,
             particle=None, spill=None):
    """Values of a physical particle, on the mass shell"""
    pid = r.choice(pids or CHARGED)
    mass = MASS[abs(pid)]
    out = {'pid': pid, 'mass': mass,
           'x': r.gauss(0, 30*spread), 'y': r.gauss(0, 30*spread),
           'z': r.uniform(-2000, 2000), 't': r.gauss(0, 5*spread),
           'px': r.gauss(0, 20*spread), 'py': r.gauss(0, 20*spread),
           'pz': r.uniform(100, 400) if pz is None else pz+r.gauss(0, 5*spread),
           'bx': r.gauss(0, 1e-3), 'by': r.gauss(0, 1e-3),
           'bz': r.gauss(0, 4e-3), 'ex': r.gauss(0, 1e-3),
           'ey': r.gauss(0, 1e-3), 'ez': r.gauss(0, 1e-2),
           'sx': r.gauss(0, .5), 'sy': r.gauss(0, .5), 'sz': r.gauss(0, .5),
           'path_length': r.uniform(0, 1000), 'proper_time': r.uniform(0, 50),
           'e_dep': r.uniform(0, 3),
           'charge': float(1 if pid in (-11, -13, 211, 321, 2212) else -1),
           'local_weight': r.choice([1., 1., round(max(0., r.uniform(-.6, 3.)), 3)]),
           'status': r.choice([0, 1, 7]),
           'station': r.randint(0, 4) if station is None else station,
           'spill': 0 if spill is None else spill,
           'event_number': r.randint(0, 50) if event is None else event,
           'particle_number': r.randint(0, 3) if particle is None else particle}
    out['energy'] = math.sqrt(mass**2+out['px']**2+out['py']**2+out['pz']**2)
    return out


def make_hit(values):
    from xboa.hit import Hit
    return Hit.new_from_dict(values)


def state(hit):
    """Everything stored in a hit, read variable by variable"""
    return {k: hit[k] for k in FLOATS+INTS}


def bunch_dicts(r, n, pid=-13, station=1, weights=None, pz=220.):
    """n hits of one species with distinct event numbers"""
    out = []
    for i in range(n):
        d = hit_dict(r, pids=[pid], station=station, event=i, pz=pz, particle=1)
        if weights == 'unit':
            d['local_weight'] = 1.
        elif weights == 'wild':
            d['local_weight'] = r.choice([1., 0.5, 2., r.uniform(.01, 5.)])
        elif weights == 'zeros':
            d['local_weight'] = r.choice([0., 1., 1., r.uniform(.1, 3.)])
        out.append(d)
    return out


def make_bunch(dicts):
    from xboa.bunch import Bunch
    return Bunch.new_from_hits([make_hit(d) for d in dicts])


def small_matrix(r, n, scale=1.):
    return [[r.gauss(0, scale) for _ in range(n)] for _ in range(n)]


def posdef(r, n, scale=1., numpy=None):
    """A well conditioned symmetric positive definite matrix"""
    import numpy
    a = numpy.array([[r.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    q, _ = numpy.linalg.qr(a)
    d = numpy.diag([scale*10.**r.uniform(-1, 1) for _ in range(n)])
    m = q @ d @ q.T
    return (m+m.T)/2.


def snapshot_list(bunch):
    """The data of all hits of a bunch through its list view"""
    return [state(h) for h in bunch]
