"""
The interpolation methods, point by point, by their textbook formulas, in
plain Python/numpy on small arrays.
"""
import math, itertools
import numpy as np

def dist(a, b):
    return math.sqrt(sum((float(p) - float(q)) ** 2 for p, q in zip(a, b)))

def eligible(tracers, pt, comp):
    """[(distance, index)] sorted; no companion, no coincident tracer."""
    res = []
    for j, t in enumerate(tracers):
        if comp is not None and comp >= 0 and j == comp: continue
        d = dist(t, pt)
        if d == 0: continue
        res.append((d, j))
    return sorted(res)

def neighbours(tracers, pt, comp, k, radius):
    """
    (list of (distance, index), ambiguous): the k closest, or those in the 
    radius. Ambiguous if a tie, or more than k in radius, leaves it open.
    """
    el = eligible(tracers, pt, comp)
    if radius is not None:
        el = [e for e in el if e[0] < radius]
        # documentation and code disagree on what happens beyond k in radius.
        return el, len(el) > k
    amb = len(el) > k and el[k][0] - el[k - 1][0] < 1e-9 * el[k][0]
    return el[:k], amb

def idw(nb, data, p):
    data = np.asarray(data, dtype=float)
    w = [d ** -float(p) for d, j in nb]
    s = sum(w)
    return sum(wi * data[j] for wi, (d, j) in zip(w, nb)) / s

def rbf(nb, tracers, data, eps):
    data = np.asarray(data, dtype=float)
    js = [j for d, j in nb]
    if not js: return np.zeros(data.shape[1])
    K = np.array([[math.exp(-eps * dist(tracers[a], tracers[b]) ** 2) 
        for b in js] for a in js])
    c = np.linalg.solve(K, data[js])
    return sum(math.exp(-eps * d ** 2) * c[i] for i, (d, j) in enumerate(nb))

def corrfun(nb, data, corrs, bins):
    data = np.asarray(data, dtype=float)
    corrs = np.asarray(corrs, dtype=float).reshape(len(corrs), -1)
    num = np.zeros(data.shape[1]); den = np.zeros(data.shape[1])
    for d, j in nb:
        b = max(i for i in range(len(bins)) if bins[i] <= d)
        w = corrs[b] * np.ones(data.shape[1])
        num = num + w * data[j]; den = den + w
    return num / den

def interp(method, par, tracers, pt, comp, data, k, radius, extra=None):
    """value, ambiguous, number of neighbours"""
    nb, amb = neighbours(tracers, pt, comp, k, radius)
    if not nb: return None, True, 0
    if method == 'inv': v = idw(nb, data, par)
    elif method == 'rbf': v = rbf(nb, tracers, data, par)
    else: v = corrfun(nb, data, *extra)
    return v, amb, len(nb)

def idw_jacobian(nb, tracers, pt, data, p):
    """analytic, neighbours fixed."""
    data = np.asarray(data, dtype=float)
    u = idw(nb, data, p)
    S = sum(d ** -float(p) for d, j in nb)
    J = np.zeros((data.shape[1], 3))
    for d, j in nb:
        for c in range(3):
            # dw/dx_c = -p d^(-p-1) dd/dx_c,  dd/dx_c = (x_c - t_c)/d
            dw = -p * d ** (-p - 2.) * (pt[c] - tracers[j][c])
            J[:, c] += dw * (data[j] - u) / S
    return J

# Positions in a generic arrangement: no two distances from the points below
# are alike; the first two coincide with interpolation points.
POOL = [[0., 0., 0.], [0.11, 0.02, -0.03], [0.2, -0.1, 0.07], 
    [-0.05, 0.3, 0.02], [0.03, 0.01, 0.4], [-0.31, -0.23, -0.11], 
    [0.013, -0.027, 0.031], [0.5, 0.61, -0.29]]
POINTS = [[0., 0., 0.], [0.11, 0.02, -0.03], [0.05, 0.04, 0.01], 
    [-0.2, 0.1, 0.15]]

def field(n, d, salt=0):
    return [[math.sin(1.3 * j + 0.7 * c + salt) * 3 + j - 2 * c + 0.25 * salt
        for c in range(d)] for j in range(n)]

def field_as(n, d, cnt):
    """(array handed to the interpolant, array of the reference)"""
    ref = np.array(field(n, d))
    if cnt % 7 == 3: ref = np.rint(ref * 3).astype((int, np.int16)[cnt % 2])
    if cnt % 7 == 5: ref = ref.astype(np.float32)
    if d == 1 and n != 1 and cnt % 3: return ref[:, 0], ref.astype(float)
    if n == 1 and d > 1 and cnt % 3: return ref[0], ref.astype(float)
    return ref, ref.astype(float)

def companionships(n, m):
    """None, or each choice of companion (-1: none) for each of m points."""
    yield None
    for c in itertools.product(range(-1, n), repeat=m):
        yield list(c)
