"""
Shared by the checks: comparison, reference trajectories, link graphs.
The reference model of a trajectory is a plain dict:
  {'id': int, 't': [frames], <prop>: list of values or of 3-lists}
"""
import itertools, os
import numpy as np
from .core import Violation, expect

def close(a, b, rtol=1e-9, atol=1e-12):
    """Same shape and values (b: the expected one)."""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'SUO' or b.dtype.kind in 'SUO':
        return bool(np.all(a == b))
    if a.size == 0:
        return True
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol,
        atol=atol, equal_nan=True))

def exact(a, b):
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))

def expect_close(a, b, what, *args, **kw):
    if not close(a, b, **kw):
        raise Violation("%s: got %s, expected %s" % (
            what % args if args else what, np.asarray(a).tolist(),
            np.asarray(b).tolist()))

def expect_exact(a, b, what, *args):
    if not exact(a, b):
        raise Violation("%s: got %s, expected %s" % (
            what % args if args else what, np.asarray(a).tolist(),
            np.asarray(b).tolist()))

def take(it, limit, what='iterator'):
    """list(it) that does not go on forever."""
    res = list(itertools.islice(iter(it), limit + 1))
    expect(len(res) <= limit, "%s gave more than %d items", what, limit)
    return res

def spoil(*sets):
    """
    Overwrite what was handed out (particle sets or arrays) in place, as a
    user may, so that nothing later may depend on it.
    """
    for s in sets:
        arrs = [s] if isinstance(s, np.ndarray) else s.as_dict().values()
        for a in arrs:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size \
                    and a.dtype.kind in 'fiu':
                a[...] = 77

HELD = 6
def held(a, how):
    """
    The same values, held in memory as users may have them: Fortran order, a
    strided or reversed view, read-only, of another byte order.
    """
    a = np.asarray(a)
    how %= HELD
    if how == 1: return np.asfortranarray(a)
    if how == 2: return np.repeat(a, 2, axis=0)[::2]
    if how == 3:
        a = a.copy()
        a.flags.writeable = False
    if how == 4: return a[::-1].copy()[::-1]
    if how == 5 and a.dtype.kind in 'iuf': 
        return a.astype(a.dtype.newbyteorder('>'))
    return a

# ---------------------------------------------------------------- reference
# 64: values which text files and single precision hold as they are
DIV = 63.

def val(trid, t, c, salt=0):
    """A number distinct for each trajectory, time and component."""
    return ((trid * 37 + t * 11 + c * 5 + salt * 101) % 9973) / DIV \
        + (trid % 17) * 3. - t % 13 + c * 0.125

TYPED = {'single': np.float32, 'small': np.int8, 'flag': np.bool_, 
    'number': np.int32}

def ref_traj(trid, times, extra=(), salt=0):
    """
    extra: names out of 'accel' (vector), 'size' (float scalar), 'count' (int
    scalar), 'companion' (int), 'wide' (5-vector), 'pair' (2-vector), 'tensor' (2 by 3) and, of 
    less usual types, TYPED.
    """
    tr = {'id': trid, 't': list(times)}
    tr['pos'] = [[val(trid, t, c, salt) for c in range(3)] for t in times]
    tr['velocity'] = [[val(trid, t, c, salt + 1) - 50. for c in range(3)]
        for t in times]
    for k, n in enumerate(extra):
        if n == 'accel':
            v = [[val(trid, t, c, salt + 2) for c in range(3)] for t in times]
        elif n == 'wide':
            v = [[val(trid, t, c, salt + 3) for c in range(5)] for t in times]
        elif n == 'pair':
            v = [[val(trid, t, c, salt + 4) for c in range(2)] for t in times]
        elif n == 'tensor': # two by three
            v = [[[val(trid, t, c + 3 * r, salt + 6) for c in range(3)] 
                for r in range(2)] for t in times]
        elif n in TYPED:
            v = [TYPED[n]((trid * 7 + t * 3) % 23 / (2. if n == 'single' else 
                1.) - 11) for t in times]
            if n == 'flag': v = [np.bool_((trid + t * t) % 3 == 0) 
                for t in times]
        elif n in ('count', 'companion'):
            v = [(trid * 7 + t * 3) % 23 for t in times]
        else:
            v = [val(trid, t, 1, salt + 5 + k) for t in times]
        tr[n] = v
    return tr

def props(tr):
    return [k for k in tr if k not in ('id', 't')]

def arrays(tr):
    d = {}
    for k in props(tr):
        a = np.array(tr[k])
        if len(tr['t']) == 0:
            a = np.zeros((0, 3) if k in ('pos', 'velocity', 'accel')
                else (0,))
        d[k] = a
    return d

def make_traj(tr, ttype=int):
    """The flowtracks object of a reference trajectory."""
    from flowtracks.trajectory import Trajectory
    how = tr['id'] * 3 + len(tr['t'])
    kw = dict((k, held(v, how + i)) for i, (k, v) in enumerate(
        arrays(tr).items()))
    return Trajectory(time=held(np.array(tr['t'], dtype=ttype), how // 7), 
        trajid=tr['id'], **kw)

def restrict(tr, first, last):
    """first <= t < last; None is no limit. Result may be empty."""
    ix = [i for i, t in enumerate(tr['t'])
        if (first is None or t >= first) and (last is None or t < last)]
    res = {'id': tr['id'], 't': [tr['t'][i] for i in ix]}
    for k in props(tr):
        res[k] = [tr[k][i] for i in ix]
    return res

def traj_matches(obj, tr, what, kinds=None, rtol=1e-12):
    """obj: a flowtracks Trajectory, tr the reference."""
    expect(int(obj.trajid()) == tr['id'], "%s: id %s instead of %s", what,
        obj.trajid(), tr['id'])
    n = len(tr['t'])
    expect(len(obj) == n, "%s: trajectory %s has %d points instead of %d",
        what, tr['id'], len(obj), n)
    expect_exact(obj.time(), np.array(tr['t'], dtype=float).reshape(n),
        "%s: times of trajectory %s" % (what, tr['id']))
    names = set(obj.schema().keys()) - {'time'}
    expect(names == set(props(tr)), "%s: properties %s instead of %s", what,
        sorted(names), sorted(props(tr)))
    for k in props(tr):
        got = getattr(obj, k)()
        want = np.array(tr[k])
        if n == 0:
            expect(got.shape[0] == 0, "%s: %s not empty", what, k)
            continue
        if not close(got, want, rtol=rtol, atol=1e-12):
            raise Violation("%s: %s of trajectory %s is %s instead of %s" % (
                what, k, tr['id'], got.tolist(), want.tolist()))
        if k in TYPED:
            expect(got.dtype.newbyteorder("=") == want.dtype, 
                "%s: %s is %s, not %s", what, k, 
                got.dtype, want.dtype)
        if kinds and k in kinds:
            expect(got.dtype.kind == kinds[k], "%s: type of %s", what, k)

def trajs_match(objs, refs, what, **kw):
    """Order-insensitive comparison of a list of trajectories."""
    ids = sorted(int(o.trajid()) for o in objs)
    want = sorted(r['id'] for r in refs)
    expect(ids == want, "%s: trajectories %s instead of %s", what, ids, want)
    by_id = dict((r['id'], r) for r in refs)
    for o in objs:
        traj_matches(o, by_id[int(o.trajid())], what, **kw)

def frame_ref(trs, t):
    """{trajid: {prop: value}} of frame t."""
    res = {}
    for tr in trs:
        if t in tr['t']:
            i = tr['t'].index(t)
            res[tr['id']] = dict((k, tr[k][i]) for k in props(tr))
    return res

def snap_matches(snap, ref, t, what, names=None, exact_order=None):
    """
    snap: a ParticleSnapshot; ref: {trajid: {prop: value}}. Row order is free,
    unless given by exact_order.
    """
    expect(snap.time() == t, "%s: time %s instead of %s", what, snap.time(), t)
    ids = [int(i) for i in np.atleast_1d(snap.trajid())]
    expect(sorted(ids) == sorted(ref), "%s: frame %s has particles %s "
        "instead of %s", what, t, sorted(ids), sorted(ref))
    expect(len(snap) == len(ref), "%s: length of frame %s is %d, not %d",
        what, t, len(snap), len(ref))
    if exact_order is not None:
        expect(ids == list(exact_order), "%s: order %s instead of %s", what,
            ids, list(exact_order))
    if len(ref) == 0:
        return
    if names is None:
        names = list(ref[ids[0]])
    got_names = set(snap.schema().keys()) - {'trajid'}
    expect(got_names == set(names), "%s: properties %s instead of %s", what,
        sorted(got_names), sorted(names))
    for k in names:
        got = np.asarray(getattr(snap, k)())
        want = np.array([ref[i][k] for i in ids])
        if k in TYPED:
            expect(got.dtype.newbyteorder("=") == want.dtype, 
                "%s: %s is %s, not %s", what, k, 
                got.dtype, want.dtype)
        if not close(got, want, rtol=1e-12):
            raise Violation("%s: %s of frame %s (particles %s) is %s instead "
                "of %s" % (what, k, t, ids, got.tolist(), want.tolist()))

# --------------------------------------------------------------- link graphs
def matchings(n, m):
    """All partial injective maps of n rows to m rows, as tuples (-1: none)."""
    def rec(i, used):
        if i == n:
            yield ()
            return
        for rest in rec(i + 1, used):
            yield (-1,) + rest
        for j in range(m):
            if j not in used:
                for rest in rec(i + 1, used | {j}):
                    yield (j,) + rest
    return rec(0, frozenset())

def link_graphs(frames, maxp, minp=0):
    """
    All sequences of frame sizes and links between consecutive frames:
    (sizes, links), links[t][row] the row in frame t+1 or -1.
    """
    def rec(sizes):
        if len(sizes) == frames:
            spaces = [list(matchings(a, b)) for a, b in
                zip(sizes[:-1], sizes[1:])]
            for links in itertools.product(*spaces):
                yield list(sizes), [list(l) for l in links]
            return
        for n in range(minp, maxp + 1):
            for r in rec(sizes + [n]):
                yield r
    return rec([])

def chains(sizes, links):
    """The trajectories of a graph: lists of (frame, row), in all frames."""
    F = len(sizes)
    has_prev = [set() for _ in range(F)]
    for t, l in enumerate(links):
        for j in l:
            if j >= 0: has_prev[t + 1].add(j)
    res = []
    for t in range(F):
        for r in range(sizes[t]):
            if r in has_prev[t]: continue
            ch = [(t, r)]
            while ch[-1][0] < F - 1 and links[ch[-1][0]][ch[-1][1]] >= 0:
                ch.append((ch[-1][0] + 1, links[ch[-1][0]][ch[-1][1]]))
            res.append(ch)
    return res

def prev_of(sizes, links):
    prev = [[-1] * n for n in sizes]
    for t, l in enumerate(links):
        for i, j in enumerate(l):
            if j >= 0: prev[t + 1][j] = i
    return prev
