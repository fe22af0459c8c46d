"""Jacobians."""
import itertools, os
from ..core import expect, Violation
from ..util import *
from .. import interp_ref as R

PROPERTY = 'C18'
CHUNK = 6
RULE = (
    "Every subset of 1..7 of 8 tracer positions x points (at tracers too, "
    "where the tracer is the companion or coincident) x every companion "
    "choice x neighbour counts, radii, inverse powers, 1..3 components in "
    "rotation x scale of lengths x interpolation given or not: the inverse-distance Jacobian "
    "against the analytic derivative with the neighbours fixed; those of "
    "other methods against forward differences, for two step sizes, of the "
    "textbook formulas.")
ASSUME = ["points with no eligible tracer have no Jacobian",
    "ties at the k-th distance may be broken either way"]
CORRS = ([1., .8, .5, .3, .2, .1], [0., .13, .22, .35, .5, .8])

def cases(tier):
    deep = tier == 'thorough'
    for bits in range(1, 256):
        c = bin(bits).count('1')
        if c > 7: continue
        if not deep and (c > 4 and bits % 5 or c == 4 and bits % 2): continue
        yield [bits, int(deep)]

def run(case, x):
    bits, deep = case
    tr = [R.POOL[i] for i in range(8) if bits >> i & 1]
    if bits % 2 and len(tr) > 2: tr = tr[2:] + tr[:2]
    n = len(tr)
    d = x.dir()
    fname = os.path.join(d, 'c.npz')
    # The unit of length is up to the user.
    u = (1., 2. ** -30, 1., 2. ** 10)[bits // 2 % 4]
    np.savez(fname, corrs=np.array(CORRS[0]), bins=np.array(CORRS[1]) * u)
    tr = [[c * u for c in q] for q in tr]
    cnt = bits
    for pts in ([0], [2], [0, 2], [3, 1]):
        P = [[c * u for c in R.POINTS[i]] for i in pts]
        for comp in R.companionships(n, len(pts)):
            ks = (1, 2, 3, 4, 6)
            for k in (ks if deep else (ks[cnt % 5],)):
                cnt += 1
                r = [None, None, None, 0.3 * u, 0.9 * u][cnt % 5]
                inv(x, tr, P, comp, k, r, (1, 2, 0.5)[(cnt // 2) % 3], 
                    1 + cnt % 3, cnt, u)
                if cnt % 3 == 0 or deep:
                    numeric(x, tr, P, comp, k, r, 'rbf', 4. / u ** 2,
                        cnt, u)
                    numeric(x, tr, P, comp, k, r, 'corrfun', fname, cnt, u)
    x.drop(d)

def inv(x, tr, P, comp, k, r, par, dim, cnt, u):
    from flowtracks.interpolation import interpolant
    T, Q = held(tr, cnt), held(P, cnt // 2)
    data, rdata = R.field_as(len(tr), dim, cnt)
    C = None if comp is None else held(comp, cnt // 3)
    it = interpolant('inv', k, r, par)
    what = 'inv: tracers %s, points %s, companions %s, k=%s, radius=%s, ' \
        'power=%s' % (tr, P, comp, k, r, par)
    it.set_scene(T, Q, data, C)
    if cnt % 2:
        loc = it.interpolate()
        J = it.eulerian_jacobian(loc)
    else:
        J = it.eulerian_jacobian()
    x.step(); x.state('inv', tr, P, comp, k, r)
    expect(J.shape == (len(P), dim, 3), '%s: shape %s', what, J.shape)
    for i in range(len(P)):
        nb, amb = R.neighbours(tr, P[i], None if comp is None else comp[i], 
            k, r)
        if amb or not nb: continue
        want = R.idw_jacobian(nb, tr, P[i], rdata, par)
        expect_close(J[i] * u, want * u, '%s: point %d' % (what, i), rtol=1e-7, 
            atol=1e-7)
        x.outcome('inv, %d neighbours' % len(nb))

def numeric(x, tr, P, comp, k, r, method, par, cnt, u):
    from flowtracks.interpolation import interpolant
    T, Q = held(tr, cnt), held(P, cnt // 2)
    dim = 1 + cnt // 3 % 3
    data, rdata = R.field_as(len(tr), dim, cnt // 5)
    C = None if comp is None else held(comp, cnt // 3)
    eps = (100e-6, 1e-5)[cnt % 2] * u
    def value(pt, c):
        nb = [(sum((a - b) ** 2 for a, b in zip(tr[j], pt)) ** .5, j) 
            for j in c]
        if method == 'rbf': return R.rbf(nb, tr, rdata, par)
        if any(abs(d_ - b * u) < 1e-9 * u for d_, j in nb for b in CORRS[1]): 
            return None
        return R.corrfun(nb, rdata, CORRS[0], [b * u for b in CORRS[1]])
    it = interpolant(method, k, r, par)
    it.set_scene(T, Q, data, C)
    what = '%s: tracers %s, points %s, companions %s, k=%s, radius=%s' % (
        method, tr, P, comp, k, r)
    kw = {} if cnt % 2 == 0 and u == 1 else {'eps': eps}
    if cnt % 4 < 2: J = it.eulerian_jacobian(**kw)
    else: J = it.eulerian_jacobian(it.interpolate(), **kw)
    x.step(); x.state(method, tr, P, comp, k, r)
    expect(J.shape == (len(P), dim, 3), '%s: shape %s', what, J.shape)
    for i in range(len(P)):
        c = None if comp is None else comp[i]
        nb, amb = R.neighbours(tr, P[i], c, k, r)
        if amb or not nb: continue
        c = [j for d_, j in nb]
        u0 = value(P[i], c)
        if u0 is None: continue
        for a in range(3):
            pt = list(P[i]); pt[a] += eps
            u1 = value(pt, c)
            if u1 is None: continue
            expect_close(J[i][:, a] * u, (u1 - u0) / eps * u, 
                '%s: point %d, derivatives along %d' % (what, i, a), 
                rtol=1e-4, atol=1e-4)
            x.outcome(method)
