"""P31: decoupling of transfer matrices of known phase advance."""
import contextlib
import io
import math

import numpy
import scipy.linalg

from xmon import gen
from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix

ID = 'P31'
RULE = ('random symplectic matrices in one, two and three planes with known '
        'phase advances: block diagonal, rotated between planes and coupled '
        'by a random symplectic change of basis, with optical functions over '
        'decades; every result judged by matrix algebra; distinct by matrix')
REQUIRED = {'matrix': 380, 'one plane': 80, 'two planes': 120,
            'three planes': 90, 'uncoupled': 100, 'rotated': 60,
            'coupled': 120, 'ellipse': 600, 'refused': 60, 'axis': 700,
            'mirror advance': 100}
S2 = numpy.array([[0., 1.], [-1., 0.]])


def form(n):
    return numpy.kron(numpy.eye(n), S2)


def plane(mu, alpha, beta):
    c, s = math.cos(mu), math.sin(mu)
    return numpy.array([[c+alpha*s, beta*s],
                        [-(1+alpha**2)/beta*s, c-alpha*s]])


def make(r, m):
    n = r.choice([1, 2, 2, 3])
    m.event({1: 'one plane', 2: 'two planes', 3: 'three planes'}[n])
    while True:
        mus = [2*math.pi*r.uniform(.03, .97) for _ in range(n)]
        if any(abs(math.sin(u)) < .08 for u in mus):
            continue
        if all(abs(math.cos(a)-math.cos(b)) > .08 for i, a in enumerate(mus)
               for b in mus[:i]):
            break
    if any(u > math.pi for u in mus):
        m.event('mirror advance')
    mat, norm = numpy.zeros((2*n, 2*n)), numpy.zeros((2*n, 2*n))
    kind = r.choice(['uncoupled', 'rotated', 'coupled', 'coupled'])
    if n == 1 and kind == 'rotated':
        kind = 'coupled'
    wide = kind == 'uncoupled' and r.random() < .5
    decade = r.uniform(-4, 4)
    for i, mu in enumerate(mus):
        alpha, beta = r.gauss(0, 1), 10.**r.uniform(
            *((decade-.3, decade+.3) if wide else (-1, 2.5)))
        mat[2*i:2*i+2, 2*i:2*i+2] = plane(mu, alpha, beta)
        norm[2*i:2*i+2, 2*i:2*i+2] = [[math.sqrt(beta), 0.],
                                      [-alpha/math.sqrt(beta),
                                       1/math.sqrt(beta)]]
    m.event(kind)
    change = numpy.eye(2*n)
    if kind == 'rotated':
        for i in range(1, n):
            t = r.choice([math.pi/4, r.uniform(.2, 1.3)])
            rot = numpy.eye(2*n)
            for a, b, v in ((0, 0, math.cos(t)), (i, i, math.cos(t)),
                            (0, i, math.sin(t)), (i, 0, -math.sin(t))):
                rot[2*a:2*a+2, 2*b:2*b+2] = v*numpy.eye(2)
            change = rot.dot(change)
    elif kind == 'coupled':
        a = numpy.array([[r.gauss(0, .4/n) for _ in range(2*n)]
                         for _ in range(2*n)])
        change = scipy.linalg.expm(form(n).dot(a+a.T))
    mat = change.dot(mat).dot(numpy.linalg.inv(change))
    return n, mus, mat, change.dot(norm), kind


def blocks_only(a):
    off = numpy.array(a)
    for i in range(len(a)//2):
        off[2*i:2*i+2, 2*i:2*i+2] = 0
    return off


def decouple(r, m):
    n, mus, mat, norm, kind = make(r, m)
    m.event('matrix')
    m.note((n, mus, kind, mat.tolist()))
    m.distinct(mat.tolist())
    given = mat.tolist() if r.random() < .5 else mat.copy()
    ok, d = m.quiet(lambda: DecoupledTransferMatrix(given),
                    'a stable symplectic matrix')
    if not ok:
        return
    m.check(bool((numpy.array(given) == mat).all()), 'the matrix is left alone')
    rr, t = numpy.array(d.r), numpy.array(d.t)
    if not m.check(bool(numpy.isfinite(rr).all() and numpy.isfinite(t).all()),
                   'the change of basis is a number', r=rr, t=t):
        return
    size = abs(rr).max()
    m.check(abs(rr.imag).max() <= 1e-7*size, 'the change of basis is real')
    # how exact the result can be
    cond = numpy.linalg.cond(rr)*numpy.linalg.cond(norm)
    tol = 1e-12*cond+1e-10
    if tol < 1e-4:
        m.check(all(d.get_beta(i) > 0 and d.get_gamma(i) > 0
                    for i in range(n)), 'optical functions are positive',
                beta=[d.get_beta(i) for i in range(n)])
    if tol > 1e-6:
        m.event('badly conditioned')
        return
    top = abs(t).max()
    m.check(abs(t.imag).max() <= tol*top, 'the decoupled matrix is real')
    m.check(abs(blocks_only(t)).max() <= tol*top,
            'one plane per block', t=t.tolist())
    back = rr.dot(t).dot(numpy.linalg.inv(rr))
    m.check(abs(back-mat).max() <= tol*abs(mat).max(),
            'the change of basis gives the matrix back')
    # canonical change of basis, up to the orientation of a plane
    turn = rr.T.dot(form(n)).dot(rr).real
    unit = [abs(turn[2*i, 2*i+1]) for i in range(n)]
    rough = 10*tol*size**2+1e-12*abs(mat).max()**2
    m.check(abs(blocks_only(turn)).max() <= rough+1e-9 and
            all(abs(u-1) <= 1e-6+rough for u in unit),
            'the change of basis keeps areas', got=turn.tolist())
    cosines = sorted(math.cos(u) for u in mus)
    found = []
    for i in range(n):
        m.event('axis')
        block = t[2*i:2*i+2, 2*i:2*i+2].real
        c = (block[0, 0]+block[1, 1])/2
        mu = d.get_phase_advance(i)
        found.append(math.cos(mu))
        m.close(c, math.cos(mu), 'phase advance of a plane', abs_=tol*top)
        m.check(abs(numpy.linalg.det(block)-1) <= tol*top**2+1e-9,
                'a block keeps areas')
        beta, alpha, gamma = d.get_beta(i), d.get_alpha(i), d.get_gamma(i)
        m.check(beta > 0 and gamma > 0, 'optical functions are positive',
                beta=beta, gamma=gamma)
        m.close(beta*gamma-alpha**2, 1., 'optical functions belong together',
                abs_=1e-9*(1+beta*gamma))
        # the block turns along that ellipse
        s = math.sin(mu)
        ell = numpy.array([[beta, -alpha], [-alpha, gamma]])
        m.check(abs(block.dot(ell).dot(block.T)-ell).max()
                <= tol*abs(ell).max()*top**2+1e-9*abs(ell).max(),
                'the block keeps its ellipse', block=block.tolist(),
                ellipse=ell.tolist())
        m.check(abs(abs(block[0, 1])-abs(beta*s)) <= tol*top*10 and
                abs(abs(block[1, 0])-abs(gamma*s)) <= tol*top*10,
                'optical functions of the block')
        m.check(abs(block-plane(mu, alpha, beta)).max() <= tol*top*10,
                'the block is the advance along the ellipse',
                got=block.tolist(), mu=mu, alpha=alpha, beta=beta)
    m.close(sorted(found), cosines, 'phase advances are those of the ring',
            abs_=tol*top+1e-9)
    if kind == 'uncoupled' or kind == 'rotated' and n == 2:
        sines = sorted((math.cos(u), math.sin(u)) for u in mus)
        found = sorted((math.cos(d.get_phase_advance(i)),
                        math.sin(d.get_phase_advance(i))) for i in range(n))
        m.check(all(abs(a[1]-b[1]) <= tol*top+1e-8
                    for a, b in zip(sines, found)),
                'phase advances go the way of the ring', got=found,
                want=sines)
    for _ in range(2):
        m.event('ellipse')
        eps = [10.**r.uniform(-2, 2) for _ in range(n)]
        kept = list(eps)
        v = numpy.array(d.get_v_m(eps))
        m.equal(eps, kept, 'emittances are left alone')
        big = abs(v).max()
        m.check(v.shape == (2*n, 2*n) and not numpy.iscomplexobj(v)
                and abs(v-v.T).max() <= tol*big, 'a symmetric real matrix')
        scale = numpy.sqrt(numpy.abs(numpy.diag(v)))
        m.check(bool((numpy.diag(v) > 0).all()) and numpy.linalg.eigvalsh(
            v/numpy.outer(scale, scale)).min() > -1e-9-tol,
            'a matched covariance is positive')
        m.check(abs(mat.dot(v).dot(mat.T)-v).max() <= (
            tol+1e-11*abs(mat).max()**2)*10*big,
            'a matched covariance is kept by the ring', v=v.tolist())
        eig = sorted(abs(numpy.linalg.eigvals(form(n).dot(v))))[::2]
        m.check(all(abs(a-b) <= 1e-5*b+1e3*tol*max(eps) for a, b in
                    zip(eig, sorted(eps))), 'eigenemittances asked for',
                got=eig, want=sorted(eps))
    # linear in each emittance
    parts = [d.get_v_m([1. if i == j else 0. for i in range(n)])
             for j in range(n)]
    v = d.get_v_m(eps)
    m.check(abs(v-sum(e*p for e, p in zip(eps, parts))).max()
            <= tol*sum(e*abs(p).max() for e, p in zip(eps, parts)),
            'each emittance adds its own ellipse')
    for bad in (eps+[1.], eps[1:]):
        m.raises(ValueError, lambda: d.get_v_m(bad), 'one emittance per plane')
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        m.quiet(d.print_tests, 'printing the tests')


def refused(r, m):
    m.event('refused')
    kind = r.choice(['odd', 'rectangle', 'determinant'])
    n = r.randint(1, 3)
    a = numpy.eye(2*n)
    if kind == 'odd':
        a = numpy.eye(2*n+1)
    elif kind == 'rectangle':
        a = numpy.eye(2*n+2)[:2*n]
    else:
        a = a*r.choice([.9, 1.1, 2, 1+1e-3])
    m.note((kind, n))
    m.distinct(kind, n, r.random())
    m.raises(ValueError, lambda: DecoupledTransferMatrix(a.tolist()),
             'not a transfer matrix')


SCENARIOS = [
    ('decouple', decouple, 600, 30000, {}),
    ('refused', refused, 90, 500, {}),
]
