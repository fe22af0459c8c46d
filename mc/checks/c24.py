"""Smoothing."""
import itertools
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C24'
CHUNK = 30
RULE = (
    "Windows 3..9 x every allowed order (and 15, 31 x orders to 5) x frame rates x every trajectory of "
    "length up to window+1 with positions from {0,1} (window 3, 5) or from a "
    "family of polynomials, steps, noise (all windows); lists mixing shorter "
    "and longer trajectories in every order; repeated smoothing; extra "
    "properties. Reference: least-squares polynomial fits per point. Spline "
    "smoothing: orders x lengths x shapes x tolerances. Bad parameters.")
ASSUME = ["at the ends the signal is continued by point reflection of its "
    "absolute differences, as the method's notes say",
    "values one step ahead are taken to the third derivative"]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for w in (3, 5, 7, 9):
        for o in range(0, w - 1):
            for fps in (1., 25., 500.):
                for kind in range(6):
                    for L in range(w, w + 8):
                        n += 1
                        yield ['sg', w, o, fps, ['shape', kind, L], n % 4]
    for w in (15, 31) + ((51,) if deep else ()):
        for o in range(0, 6):
            for kind in range(6):
                for L in (w, w + 1, w + 20):
                    n += 1
                    yield ['sg', w, o, (1., 25., 500.)[n % 3], ['shape', kind, 
                        L], n % 4]
    for w in (3, 5) + ((7,) if deep else ()):
        for L in (w, w + 1):
            for bits in range(2 ** L):
                for o in range(0, w - 1):
                    n += 1
                    yield ['sg', w, o, (1., 10.)[n % 2], ['bits', bits, L], 
                        n % 4]
    for lens in itertools.product((0, 1, 4, 5, 6), repeat=3):
        yield ['list', list(lens)]
    for o in (1, 3, 5):
        for L in range(0, 9):
            for kind in range(6):
                for e in (0., 1e-3, 0.3):
                    yield ['spline', o, L, kind, e]
    yield ['bad']

def signal(spec, c):
    kind = spec[0]
    if kind == 'bits':
        _, bits, L = spec
        return [float((bits >> ((i + c) % L)) & 1) * (1 + c) for i in range(L)]
    _, k, L = spec
    t = range(L)
    if k == 0: return [2. + c for i in t]
    if k == 1: return [1. + (c - 1) * i * .5 for i in t]
    if k == 2: return [.25 * i ** 2 - c * i for i in t]
    if k == 3: return [.125 * i ** 3 - i ** 2 * c + 3 for i in t]
    if k == 4: return [((i * 7 + c * 3) % 5) * 1.5 - 2 for i in t]
    return [0. if i < L // 2 else 10. + c for i in t]

def make(trid, spec, ex, base=40):
    L = spec[-1]
    tr = ref_traj(trid, range(base, base + L), ex)
    s = [signal(spec, c) for c in range(3)]
    tr['pos'] = [[s[c][i] for c in range(3)] for i in range(L)]
    return tr

def fit(y, i, w, o):
    """Polynomial coefficients around padded place i (centre)"""
    h = w // 2
    k = np.arange(-h, h + 1)
    A = np.array([[float(v) ** p for p in range(o + 1)] for v in k])
    return np.linalg.lstsq(A, np.array(y[i - h:i + h + 1]), rcond=None)[0]

def reference(pos, w, o, fps):
    h = w // 2
    n = len(pos)
    P, V, A, VP, AP = [np.zeros((n, 3)) for _ in range(5)]
    for c in range(3):
        y = [p[c] for p in pos]
        pre = [y[0] - abs(y[h - i] - y[0]) for i in range(h)]
        post = [y[-1] + abs(y[-2 - i] - y[-1]) for i in range(h)]
        Y = pre + y + post
        for i in range(n):
            q = list(fit(Y, i + h, w, o)) + [0.] * 3
            v, a, j = q[1] * fps, 2 * q[2] * fps ** 2, 6 * q[3] * fps ** 3
            P[i, c], V[i, c], A[i, c] = q[0], v, a
            if i + 1 < n:
                VP[i + 1, c] = v + a / fps + j / 2. / fps ** 2
                AP[i + 1, c] = a + j / fps
    return {'pos': P, 'velocity': V, 'accel': A, 'vel_pp': VP, 'acc_pp': AP}

DERIV = {'pos': 0, 'velocity': 1, 'vel_pp': 1, 'accel': 2, 'acc_pp': 2}
EX = [(), ('accel', 'size'), ('pair', 'tensor'), ('count', 'companion')]

def check(got, tr, ex, w, o, fps, what):
    n = len(tr['t'])
    expect(len(got) == n and int(got.trajid()) == tr['id'], '%s: length or id',
        what)
    expect_exact(got.time(), tr['t'], what + ': time')
    ref = reference(tr['pos'], w, o, fps)
    expect(set(got.schema()) == set(ref) | set(ex) | {'time'}, 
        '%s: properties %s', what, sorted(got.schema()))
    for k, v in ref.items():
        # 1-step units: what roundoff in positions amounts to.
        sc = (1 + np.abs(tr['pos']).max()) * fps ** DERIV[k]
        expect_close(getattr(got, k)() / sc, v / sc, what + ': ' + k, 
            rtol=1e-6, atol=1e-8)
    for k in ex:
        if k not in ref: 
            expect_exact(getattr(got, k)(), np.array(tr[k]), what + ': ' + k)

def run(case, x):
    from flowtracks.smoothing import savitzky_golay
    if case[0] == 'sg':
        _, w, o, fps, spec, e = case
        ex = EX[e]
        tr = make(6, spec, ex)
        obj = make_traj(tr)
        keep = dict((k, v.copy()) for k, v in obj.as_dict().items())
        res = savitzky_golay([obj], fps, w, o)
        x.step(); x.state(case)
        expect(len(res) == 1, '%d trajectories', len(res))
        what = 'window %d, order %d' % (w, o)
        check(res[0], tr, ex, w, o, fps, what)
        for k, v in keep.items(): 
            expect_exact(obj.as_dict()[k], v, 'input changed: ' + k)
        if spec[0] == 'shape' and spec[1] <= min(o, 3):
            # a polynomial comes out as it is, away from the ends.
            h = w // 2
            expect_close(res[0].pos()[h:len(tr['t']) - h], 
                np.array(tr['pos'])[h:len(tr['t']) - h], what + ': polynomial',
                rtol=1e-7, atol=1e-7)
        if e % 2:
            again = savitzky_golay(res, fps, w, o)
            tr2 = dict(tr, pos=res[0].pos().tolist())
            check(again[0], tr2, ex, w, o, fps, what + ', smoothed again')
        x.outcome('savitzky-golay')
    elif case[0] == 'list':
        lens = case[1]
        trs = [make(3 * i + 2, ['shape', 4, L], ('size',), 40 + i) 
            for i, L in enumerate(lens)]
        for w, o in ((5, 2), (3, 1), (7, 3)):
            got = savitzky_golay([make_traj(t) for t in trs], 10., w, o)
            want = [t for t in trs if len(t['t']) >= w]
            x.step(); x.state(lens, w)
            expect([int(g.trajid()) for g in got] == [t['id'] for t in want], 
                'window %d of lengths %s: trajectories %s', w, lens, 
                [g.trajid() for g in got])
            for g, t in zip(got, want): 
                check(g, t, ('size',), w, o, 10., 'in a list')
        x.outcome('lists')
    elif case[0] == 'spline':
        _, o, L, kind, err = case
        if L > o and kind in (0,): return # a standstill has no parameter
        tr = make(4, ['shape', kind, L], ('size',))
        if kind == 5 and L > o: # points must differ
            for i, p in enumerate(tr['pos']): p[0] += 0.1 * i
        obj = make_traj(tr)
        keep = obj.pos().copy()
        s = obj.smoothed(err, o)
        x.step(); x.state(case)
        if L < o + 1:
            expect(s is obj, 'short trajectory is not returned as is')
            x.outcome('short')
            return
        expect(len(s) == L and int(s.trajid()) == 4, 'length or id')
        expect_exact(s.time(), tr['t'], 'time')
        # The fitted curve is FITPACK's; what is asked of it and what is done
        # with it is checked here.
        import scipy.interpolate as si
        (knots, cf, k), u = si.splprep(list(keep.T), k=o, s=(L * err) ** 2)
        expect(k == o, 'order')
        for name, der in (('pos', 0), ('velocity', 1), ('accel', 2)):
            want = np.zeros((L, 3))
            for c in range(3):
                if der <= o:
                    want[:, c] = si.splev(u, (knots, cf[c], k), der=der)
            expect_close(getattr(s, name)(), want, 'order %d, error %s: %s' % (
                o, err, name), rtol=1e-9, atol=1e-9 * (1 + abs(want).max()))
        if err == 0.:
            expect_close(s.pos(), keep, 'order %d, no error: positions' % o, 
                rtol=1e-6, atol=1e-6)
        if kind == 1:
            # uniform motion on a line, in units of its whole length.
            expect_close(s.velocity(), np.tile(keep[-1] - keep[0], (L, 1)), 
                'uniform motion', rtol=1e-5, atol=1e-5)
        elif err > 0:
            d = ((s.pos() - keep) ** 2).sum()
            ln = (np.ptp(keep, axis=0) ** 2).sum()
            expect(d <= ln * L, 'curve is far from the points')
        expect_exact(obj.pos(), keep, 'input changed')
        x.outcome('spline')
    else:
        obj = make_traj(make(1, ['shape', 4, 9], ()))
        for w, o in ((4, 2), (0, 0), (3, 2), (5, 4), (2, 1), (5, 7)):
            x.step(); x.state(w, o)
            try:
                savitzky_golay([obj], 1., w, o)
            except TypeError: continue
            raise Violation('window %d with order %d accepted' % (w, o))
        for w, o in (('x', 2), (5, 'y')):
            try: savitzky_golay([obj], 1., w, o)
            except ValueError: continue
            raise Violation('window %s with order %s accepted' % (w, o))
        x.outcome('refused')
