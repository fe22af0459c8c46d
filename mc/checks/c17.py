"""RBF and correlation-function interpolation."""
import itertools, os
from ..core import expect, Violation
from ..util import *
from .. import interp_ref as R

PROPERTY = 'C17'
CHUNK = 6
RULE = (
    "Every subset of 1..6 of 8 tracer positions, some coincident with points "
    "x points, in 1 or 2 orders x every companion choice x neighbour counts "
    "and radii x parameters x 1..3 components (a correlation function for "
    "all components together or each) x scale of lengths, in rotation; on the recorded scene, "
    "with neighbours dropped from it, off it and by the formula functions, against point-by-point textbook "
    "formulas; tracers exactly at the start of correlation bins; the RBF "
    "interpolant of neighbours must reproduce their data "
    "at their places. Up to 5 tracers in the position of the same point. "
    "Scenes with no tracers.")
ASSUME = ["points with no eligible tracer have no defined value with the "
    "correlation function, zero with RBF",
    "with a radius, it holds no more than the neighbour count",
    "kernel widths at which the kernel matrix is well conditioned"]
EPS = [4., 0.5, 40.]
SCALES = [1., 2. ** -32, 1., 2. ** 12]
CORRS = [([1., .8, .5, .3, .2, .1], [0., .1, .2, .35, .5, .8]),
    ([2., 1., .5], [0., .07, .4]),
    ([[1., .9, .8], [.6, .5, .7], [.3, .2, .25], [.1, .1, .2]], 
     [0., .15, .3, .6]),
    ([[1.], [.5], [.25]], [0., .2, .4])]

def cases(tier):
    deep = tier == 'thorough'
    for bits in range(1, 256):
        c = bin(bits).count('1')
        if c > 6: continue
        if not deep and (c > 4 and bits % 3 or c == 4 and bits % 2): continue
        yield ['small', bits, int(deep)]
    for bits in range(0, 128, 1 if deep else 5):
        for copies in (2, 3, 5):
            yield ['same', bits, copies]
    for bits in range(1, 32):
        yield ['edge', bits]
    for method in ('rbf', 'corrfun'):
        for d in (1, 2, 3):
            yield ['none', method, d]
    for n in range(1, 13):
        for d in (1, 2, 3):
            yield ['defaults', n, d]

def run(case, x):
    if case[0] == 'none': return no_tracers(x, *case[1:])
    if case[0] == 'edge': return edges(x, case[1])
    if case[0] == 'defaults': return defaults(x, *case[1:])
    if case[0] == 'same': # several tracers in the position of the point
        _, bits, copies = case
        deep = 0
        tr = [R.POOL[i + 1] for i in range(7) if bits >> i & 1]
        for i in range(copies):
            tr.insert((i * 3) % (len(tr) + 1), R.POOL[0])
    else:
        _, bits, deep = case
        tr = [R.POOL[i] for i in range(8) if bits >> i & 1]
    if bits % 2 and len(tr) > 2: tr = tr[1:] + tr[:1]
    n = len(tr)
    d = x.dir()
    files = []
    corrs = []
    # The unit of length is up to the user.
    u = SCALES[bits // 2 % len(SCALES)]
    for i, (c, b) in enumerate(CORRS):
        corrs.append((c, [e * u for e in b]))
        files.append(os.path.join(d, 'c%d.npz' % i))
        np.savez(files[-1], corrs=np.array(c), bins=np.array(corrs[i][1]))
    cnt = bits
    tr = [[c * u for c in q] for q in tr]
    for pts in ([0], [2], [0, 2], [3, 1]) if case[0] == 'small' else ([0],):
        P = [[c * u for c in R.POINTS[i]] for i in pts]
        for comp in R.companionships(n, len(pts)):
            ks = (1, 2, 3, 4, 6)
            for k in (ks if deep else (ks[cnt % 5],)):
                cnt += 1
                r = [None, None, None, 0.3 * u, 0.9 * u][cnt % 5]
                dim = 1 + cnt % 3
                rbf(x, tr, P, comp, k, r, EPS[(cnt // 2) % 3] / u ** 2, dim, 
                    cnt)
                ci = (cnt // 3) % 4
                if ci == 2: dim = 3
                corrfun(x, tr, P, comp, k, r, corrs[ci], files[ci], dim, cnt)
    x.drop(d)

def defaults(x, n, d):
    """what's left out is as documented: 7 neighbours, epsilon of 1e5"""
    from flowtracks.interpolation import interpolant, Interpolant
    tr = np.array([[(i * 0.618) % 1, (i * 0.3247) % 1, (i * 0.7548) % 1] 
        for i in range(n)])
    P = np.array([[0.2, 0.1, 0.4], [0.7, 0.55, 0.35]])
    data = np.array([[i * 0.7 - 1, i % 3, i * i / 10.] for i in 
        range(n)])[:, :d]
    want = interpolant('rbf', 7, None, 1e5)
    want.set_scene(tr, P, data)
    for it in (interpolant('rbf'), Interpolant('rbf'), interpolant('rbf', 7), 
            interpolant('rbf', param=1e5)):
        x.step(); x.state('defaults', n, d)
        expect(it.num_neighbs() == 7 and it.radius() is None, 'defaults are '
            '%s neighbours and radius %s', it.num_neighbs(), it.radius())
        it.set_scene(tr, P, data)
        expect_exact(it.interpolate(), want.interpolate(), 'rbf with defaults')
        for i in range(len(P)):
            act = it.current_active_neighbs()[i]
            expect(set(act[act < n].tolist()) == set(j for _, j in 
                R.neighbours(tr, P[i], None, 7, None)[0]), 'default '
                'neighbours %s of %d', act, n)
        expect_exact(it(tr, P, data), want(tr, P, data), 'rbf with defaults, '
            'off scene')

def setup(it, T, P, data, C, cnt):
    if cnt % 4 == 3:
        it.set_field_positions(T)
        it.set_interp_points(P, C)
        it.set_data_on_current_field(data)
    else:
        it.set_scene(T, P, data, C)

def dropped(it, n, cnt):
    """interpolation with one of the neighbours dropped from some points"""
    less = it.current_active_neighbs().copy()
    for i in range(len(less)):
        if (i + cnt) % 4 and less.shape[1]: 
            less[i, (i + cnt) % less.shape[1]] = n
    return less, it.interpolate(less)

def rbf(x, tr, P, comp, k, r, eps, dim, cnt):
    from flowtracks.interpolation import interpolant, rbf_interp, \
        select_neighbs
    T, Q = held(tr, cnt), held(P, cnt // 2)
    data, rdata = R.field_as(len(tr), dim, cnt)
    data = held(data, cnt // 5)
    C = None if comp is None else held(comp, cnt // 3)
    orig = T.copy(), Q.copy(), data.copy()
    it = interpolant('rbf', k, r, eps)
    what = 'rbf: tracers %s, points %s, companions %s, k=%s, radius=%s, ' \
        'eps=%s' % (tr, P, comp, k, r, eps)
    setup(it, T, Q, data, C, cnt)
    on = it.interpolate()
    again = it.interpolate()
    off = it(T, Q, data, C)
    less, part = dropped(it, len(tr), cnt)
    dist, use = select_neighbs(T, Q, r, k, C)
    td = np.array([[R.dist(a, b) for b in tr] for a in tr])
    direct = rbf_interp(td, dist, use, rdata, eps)
    x.step(); x.state('rbf', tr, P, comp, k, r)
    for i in range(len(P)):
        nb, amb = R.neighbours(tr, P[i], None if comp is None else comp[i], 
            k, r)
        if amb: continue
        want = R.rbf(nb, tr, rdata, eps)
        for w, got in (('on', on), ('repeated', again), ('off', off), 
                ('direct', direct)):
            expect(got.shape == (len(P), dim), '%s: shape %s', what, got.shape)
            expect_close(got[i], want, '%s: point %d, %s scene' % (what, i, 
                w), rtol=1e-6, atol=1e-6)
        left = [(dd, j) for dd, j in nb if j in less[i]]
        if left:
            expect_close(part[i], R.rbf(left, tr, rdata, eps), '%s: point %d, of '
                'neighbours %s' % (what, i, less[i]), rtol=1e-6, atol=1e-6)
        x.outcome('rbf, %d neighbours' % len(nb))
    for a, b in zip((T, Q, data), orig): expect_exact(a, b, what + ': input')

def corrfun(x, tr, P, comp, k, r, corr, fname, dim, cnt):
    from flowtracks.interpolation import interpolant, corrfun_interp, \
        select_neighbs
    T, Q = held(tr, cnt), held(P, cnt // 2)
    data, rdata = R.field_as(len(tr), dim, cnt)
    data = held(data, cnt // 5)
    C = None if comp is None else held(comp, cnt // 3)
    orig = T.copy(), Q.copy(), data.copy()
    it = interpolant('corrfun', k, r, fname)
    what = 'corrfun: tracers %s, points %s, companions %s, k=%s, radius=%s, ' \
        'function %s' % (tr, P, comp, k, r, corr)
    setup(it, T, Q, data, C, cnt)
    on = it.interpolate()
    off = it(T, Q, data, C)
    less, part = dropped(it, len(tr), cnt)
    dist, use = select_neighbs(T, Q, r, k, C)
    direct = corrfun_interp(dist, use, rdata, np.array(corr[0]), 
        np.array(corr[1]))
    x.step(); x.state('corrfun', tr, P, comp, k, r)
    for i in range(len(P)):
        nb, amb = R.neighbours(tr, P[i], None if comp is None else comp[i], 
            k, r)
        if amb or not nb: continue
        want = R.corrfun(nb, rdata, *corr)
        for w, got in (('on', on), ('off', off), ('direct', direct)):
            expect(got.shape == (len(P), dim), '%s: shape %s', what, got.shape)
            expect_close(got[i], want, '%s: point %d, %s scene' % (what, i, 
                w))
        left = [(dd, j) for dd, j in nb if j in less[i]]
        if left:
            expect_close(part[i], R.corrfun(left, rdata, *corr), '%s: point %d, '
                'of neighbours %s' % (what, i, less[i]))
        x.outcome('corrfun, %d neighbours' % len(nb))
    for a, b in zip((T, Q, data), orig): expect_exact(a, b, what + ': input')

def edges(x, bits):
    """distances which are exactly those where bins start"""
    tr = [[.25, 0., 0.], [0., .5, 0.], [0., 0., -.75], [-1., 0., 0.], 
        [0., -.375, 0.]]
    tr = [t for i, t in enumerate(tr) if bits >> i & 1]
    d = x.dir()
    f = os.path.join(d, 'c.npz')
    for i, corr in enumerate(([[9., 3., 2., .5], [0., .25, .5, 1.]], 
            [[[4., 2., 3.], [3., 1., 5.], [8., 7., 2.]], [0., .5, .75]])):
        np.savez(f, corrs=np.array(corr[0]), bins=np.array(corr[1]))
        corrfun(x, tr, [[0., 0., 0.]], None, 6, None, corr, f, 3, bits)
    x.drop(d)

def no_tracers(x, method, dim):
    from flowtracks.interpolation import interpolant
    d = x.dir()
    f = os.path.join(d, 'c.npz')
    np.savez(f, corrs=np.array(CORRS[0][0]), bins=np.array(CORRS[0][1]))
    for m in (1, 3):
        it = interpolant(method, 3, None, f if method == 'corrfun' else 4.)
        Q = np.array(R.POINTS[:m])
        x.step(); x.state(method, dim, m)
        expect_close(it(np.zeros((0, 3)), Q, np.zeros((0, dim))), 
            np.zeros((m, dim)), method + ', no tracers, off scene')
        it.set_scene(np.zeros((0, 3)), Q, np.zeros((0, dim)))
        expect_close(it.interpolate(), np.zeros((m, dim)), method + 
            ', no tracers')
    x.drop(d)
