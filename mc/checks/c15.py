"""Neighbour selection and inverse-distance weighting."""
import itertools
from ..core import expect, Violation
from ..util import *
from .. import interp_ref as R

PROPERTY = 'C15'
CHUNK = 12
RULE = (
    "Every non-empty subset of 8 tracer positions (some of which coincide "
    "with interpolation points), in two orders, x every companion choice for "
    "pairs of points (and for single points, every neighbour count 1..6) x "
    "radius {none, three} x inverse power {1, 2, 0.5, 3} x data of 1..3 "
    "components x scale of lengths {1, 1e-10, 1e4}, in rotation; larger arrangements of up to 400 tracers and "
    "100 points; up to 9 tracers in the position of the same point. On the recorded scene, off it, and through the neighbour "
    "functions, and with neighbours dropped from the selection, all against point-by-point textbook formulas; inputs must "
    "stay unchanged.")
ASSUME = ["points with no eligible tracer have no defined value",
    "with a radius, it holds no more than the neighbour count (documentation "
    "and code disagree about more)",
    "ties at the k-th distance may be broken either way"]
PARS = [1, 2, 0.5, 3]
SCALES = [1., 1e-10, 1., 1e4]
RADII = [None, 0.15, 0.3, 0.9]

def cases(tier):
    deep = tier == 'thorough'
    for bits in range(1, 256):
        if not deep and bits % 3 == 0 and bin(bits).count('1') > 3: continue
        yield ['small', bits, int(deep)]
    for n in (10, 57, 400):
        for m in (1, 13, 100):
            for k in (1, 4, 9):
                for r in (None, 0.08):
                    for c in (0, 1):
                        yield ['big', n, m, k, r, c]
    for bits in range(0, 128, 1 if deep else 3):
        for copies in (1, 2, 3, 5, 9):
            yield ['same', bits, copies]
    yield ['none']

def run(case, x):
    {'small': small, 'big': big, 'none': no_tracers, 'same': same}[case[0]](case, x)

def no_tracers(case, x):
    from flowtracks.interpolation import interpolant
    for d in (1, 2, 3):
        for m in (1, 3):
            it = interpolant('inv', 3)
            pts = np.array(R.POINTS[:m])
            x.step(); x.state(d, m)
            expect_close(it(np.zeros((0, 3)), pts, np.zeros((0, d))), 
                np.zeros((m, d)), 'no tracers, off scene')
            it.set_scene(np.zeros((0, 3)), pts, np.zeros((0, d)))
            expect_close(it.interpolate(), np.zeros((m, d)), 'no tracers')

def big(case, x):
    _, n, m, k, r, c = case
    tr = [[math_frac(i * 0.618 + 0.1), math_frac(i * 0.3247 + 0.05), 
        math_frac(i * 0.7548)] for i in range(n)]
    pts = [[math_frac(i * 0.56984 + 0.2), math_frac(i * 0.4142), 
        math_frac(i * 0.2361 + 0.4)] for i in range(m)]
    comp = None
    if c:
        comp = []
        for i in range(m):
            if i % 3 == 0: comp.append(-1)
            elif i % 3 == 1: comp.append(R.eligible(tr, pts[i], None)[0][1])
            else: 
                j = (i * 7) % n
                comp.append(j)
                if i % 2: pts[i] = list(tr[j])
    check(x, tr, pts, comp, k, r, 1, 3, case)

def math_frac(v): return v - int(v)

def small(case, x):
    _, bits, deep = case
    tr = [R.POOL[i] for i in range(8) if bits >> i & 1]
    if bits % 2 and len(tr) > 2: tr = tr[1:] + tr[:1]
    n = len(tr)
    cnt = 0
    for pts in ([0], [1], [2], [3], [0, 2], [3, 1]):
        P = [R.POINTS[i] for i in pts]
        for comp in R.companionships(n, len(pts)):
            for k in ((1, 2, 3, 4, 6) if deep else ((1, 2, 3, 4, 6)[cnt % 5], 
                    ) if len(pts) > 1 else (1, 2, 4)):
                cnt += 1
                r = RADII[cnt % 4]
                if r is not None and cnt % 3: r = None
                # The unit of length is up to the user.
                u = SCALES[(cnt // 5) % 4]
                sc = lambda ps: [[c * u for c in q] for q in ps]
                check(x, sc(tr), sc(P), comp, k, r and r * u, PARS[(cnt // 2) % 4], 1 + cnt % 3,
                    ['tracers %s, points %s, x %g' % (tr, P, u)], cnt)

def same(case, x):
    """several tracers in the position of the same point"""
    _, bits, copies = case
    tr = [R.POOL[i + 1] for i in range(7) if bits >> i & 1]
    for i in range(copies): 
        tr.insert((i * 3) % (len(tr) + 1), list(R.POINTS[0]))
    cnt = bits
    for pts in ([0], [0, 2], [3, 0, 1]):
        P = [R.POINTS[i] for i in pts]
        for comp in [None] + [[j] * len(P) for j in range(-1, len(tr))]:
            for k in (1, 2, 3, 5):
                cnt += 1
                r = RADII[cnt % 4] if cnt % 3 == 0 else None
                check(x, tr, P, comp, k, r, PARS[cnt % 4], 1 + cnt % 3, 
                    ['tracers %s, points %s' % (tr, P)], cnt)

def check(x, tr, P, comp, k, radius, par, d, what, cnt=0):
    from flowtracks.interpolation import interpolant, select_neighbs, \
        InverseDistanceWeighter
    T, Q = held(tr, cnt), held(P, cnt // 2)
    data, rdata = R.field_as(len(tr), d, cnt)
    data = held(data, cnt // 5)
    C = None if comp is None else held(comp, cnt // 3)
    orig = [a.copy() for a in (T, Q, data)] + [None if C is None else C.copy()]
    what = '%s, companions %s, k=%s, radius=%s, power=%s' % (what, comp, k, 
        radius, par)
    x.step(); x.state(tr, P, comp, k, radius)
    n, m = len(tr), len(P)
    # What equals its documented default is left out
    args = dict((a, v) for a, v, dv in (('num_neighbs', k, 4), ('radius', 
        radius, None), ('param', par, 1)) if v != dv)
    it = interpolant('inv', **args) if cnt % 2 else \
        InverseDistanceWeighter(**args)
    if cnt % 7 == 3: # other ways to give the scene
        it.set_field_positions(T)
        if m == 1 and cnt % 2: # a lone point by itself
            it.set_interp_points(Q[0], None if C is None else C[0])
        else: it.set_interp_points(Q, C)
        it.set_data_on_current_field(data)
    else:
        it.set_scene(T, Q, data, C)
    on = it.interpolate()
    again = it.interpolate()
    off = it(T, Q, data, C)
    act, dists, rel = it.current_active_neighbs(), it.current_dists(), \
        it.current_relative_positions()
    nd = it.neighb_dists(T, Q, C)
    # one of the neighbours dropped, a different one for each point
    less = act.copy()
    for i in range(m):
        if (i + cnt) % 4 and less.shape[1]: less[i, (i + cnt) % less.shape[1]] = n
    part = it.interpolate(less)
    after = it.interpolate()
    sd, use = select_neighbs(T, Q, radius, k, C)
    expect(it.num_neighbs() == k and it.radius() == radius, '%s: parameters', 
        what)
    for a, s in (('on scene', on), ('off scene', off)):
        expect(s.shape == (m, d), '%s, %s: shape %s', what, a, s.shape)
    expect(use.shape == (m, n) and sd.shape == (m, n), '%s: shapes of '
        'selection', what)
    for i in range(m):
        c = None if comp is None else comp[i]
        nb, amb = R.neighbours(tr, P[i], c, k, radius)
        alln, allamb = R.neighbours(tr, P[i], c, k, None)
        w = '%s, point %d' % (what, i)
        # The selection function
        if not amb or radius is not None:
            got = set(int(j) for j in np.nonzero(use[i])[0])
            expect(got == set(j for _, j in nb), '%s: select_neighbs chose %s '
                'instead of %s', w, sorted(got), sorted(j for _, j in nb))
            for dd, j in nb:
                expect_close(sd[i, j], dd, w + ': distance to %d' % j)
        # distances to neighbours
        expect(nd.shape == (m, min(n, k)), '%s: shape of neighb_dists', w)
        got = sorted(v for v in nd[i] if v > 0)
        expect_close(got, sorted(dd for dd, _ in alln), w + ': neighb_dists')
        if amb: continue
        sel = [(float(dists[i, q]), int(act[i, q])) for q in 
            range(act.shape[1]) if act[i, q] != n]
        expect(sorted(j for _, j in sel) == sorted(j for _, j in nb), 
            '%s: active neighbours %s instead of %s', w, act[i], nb)
        for dd, j in sel:
            expect_close(dd, dict((b, a) for a, b in nb)[j], w + ': active '
                'distance to %d' % j)
        for q in range(act.shape[1]):
            if act[i, q] != n:
                expect_close(rel[i, q], T[act[i, q]] - Q[i], 
                    w + ': relative position of %d' % act[i, q])
        if not nb:
            x.outcome('no neighbours'); continue
        v = R.idw(nb, rdata, par)
        expect_close(on[i], v, w + ': interpolated', rtol=1e-8)
        expect_close(again[i], v, w + ': interpolated again', rtol=1e-8)
        expect_close(off[i], v, w + ': interpolated off scene', rtol=1e-8)
        expect_close(after[i], v, w + ': interpolated after a selection', 
            rtol=1e-8)
        left = [(dd, j) for dd, j in nb if j in less[i]]
        if left:
            expect_close(part[i], R.idw(left, rdata, par), '%s: of neighbours '
                '%s' % (w, less[i]), rtol=1e-8)
        x.outcome('%d neighbours' % min(len(nb), 4))
    for a, o, nme in zip((T, Q, data, C), orig, ('tracers', 'points', 'data', 
            'companions')):
        if a is not None: expect_exact(a, o, '%s: input %s changed' % (what, 
            nme))
