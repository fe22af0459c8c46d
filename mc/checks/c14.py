"""Frames cut from trajectory lists: who is in, and with which data."""
import os, itertools
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C14'
CHUNK = 100
RULE = (
    "All lists of up to 3 (thorough: 4) trajectories with spans in 4 frames, "
    "and of up to 2 (thorough: 3) over all sets of 5 frames, with holes, "
    "x which of them coincide in space (no two, pairs, all, only sometimes) x "
    "every frame from before to after x single frames or segments x given or "
    "computed start/end times x int/float time x property sets; every list of "
    "up to 3 trajectories over the types their properties may have; and every "
    "list of up to 4 rows over the 8 corners of a cube (plus nearly equal, "
    "negative zero rows) for the duplicate filter.")
ASSUME = ["which of several coincident particles is kept is not claimed"]

def cases(tier):
    spans = [(a, b) for a in range(4) for b in range(a, 4)]
    n = 0
    yield ['empty']
    for k in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for sp in itertools.product(spans, repeat=k):
            for co in range(1 if k == 1 else 4):
                n += 1
                yield ['list', [list(s) for s in sp], co, n % 4, n % 3]
    for k in (0, 1, 2, 3, 4):
        for rows in itertools.product(range(8), repeat=k):
            yield ['rows', list(rows), sum(rows) % 3]
    for k in (2, 3, 4, 5):
        for rows in itertools.product(range(8, 11), repeat=k):
            yield ['rows', list(rows), 0]
    yield ['list', [[i % 3, 3] for i in range(300)], 2, 1, 1]
    # with holes: sets of frames, as bits
    holes = [m for m in range(1, 32) if '101' in bin(m) or '1001' in bin(m) or 
        '10001' in bin(m)]
    for m in holes:
        yield ["list", [m], 0, n % 4, n % 3]
        for m2 in range(1, 32):
            for sp in ([m, m2], [m2, m]):
                n += 1
                yield ['list', sp, n % 4, n // 4 % 4, n // 16 % 3]
                if tier == 'thorough':
                    for m3 in range(1, 32):
                        yield ['list', sp + [m3], m3 % 4, n // 4 % 4, n % 3]
    for k in (1, 2, 3):
        for kinds in itertools.product(KINDS, repeat=k):
            if len(set(s[0] == 'U' for s in kinds)) == 1: # names or numbers
                yield ['kinds', list(kinds)]

KINDS = ['i4', 'i8', 'f4', 'f8', 'b1', 'U1', 'U4']

def value(kind, i):
    """one which no smaller type in KINDS holds."""
    return {'i4': 70001 + i, 'i8': 2**40 + i, 'f4': 0.5 + i, 'f8': 0.1 + i,
        'b1': i % 2 == 0, 'U1': 'abc'[i], 'U4': 'abc'[i] * 4}[kind]

CORNERS = [[float(i & 1), float(i >> 1 & 1), float(i >> 2)] for i in range(8)] \
    + [[0.3, 1., 2.], [0.30000000000000004, 1., 2.], [-0.3, 1., 2.]]

EX = [(), ('count',), ('size', 'accel'), ('pair', 'tensor', 'companion')]

def run(case, x):
    {'kinds': run_kinds, 'empty': run_empty, 'list': run_list, 'rows': run_rows}[case[0]](case, x)

def run_rows(case, x):
    from flowtracks.trajectory import mark_unique_rows
    rows = np.array([CORNERS[r] for r in case[1]]).reshape(-1, 3)
    if case[2]: # further columns don't count
        rows = np.hstack((rows, np.arange(len(rows) * case[2] * 1.).reshape(
            len(rows), -1)))
    keep = rows.copy()
    got = [int(i) for i in mark_unique_rows(rows)]
    x.step(); x.state(case)
    expect_exact(rows, keep, 'input rows changed')
    expect(len(set(got)) == len(got) and all(0 <= i < len(rows) for i in got), 
        'indices %s', got)
    expect(got == sorted(got), 'rows %s are not in the original order', got)
    pos = [tuple(rows[i, :3]) for i in got]
    expect(len(set(pos)) == len(pos), 'rows %s still have duplicates', got)
    expect(set(pos) == set(tuple(r) for r in rows[:, :3]), 
        'rows %s lack some positions', got)
    x.outcome('%d unique' % len(got))

def run_kinds(case, x):
    from flowtracks.trajectory import take_snapshot, Trajectory
    kinds = case[1]
    trs = []
    for i, k in enumerate(kinds):
        # scalar, vector
        v = np.array([value(k, i), value(k, (i + 1) % 3)], dtype=k)
        w = np.array([[value(k, (i + j + q) % 3) for j in range(2)] 
            for q in range(2)], dtype=k)
        trs.append(Trajectory(np.full((2, 3), i + .5), np.full((2, 3), 2.), 
            np.r_[4, 5], i + 10, v=v, w=w))
    sch = trs[0].schema()
    for t in (4, 5):
        sn = take_snapshot(trs, t, sch)
        x.step(); x.state(kinds, t)
        for i, tr in enumerate(trs):
            for k in 'vw':
                got, want = getattr(sn, k)()[i], getattr(tr, k)()[t - 4]
                expect(np.array_equal(got, want), '%s %s of types %s in '
                    'snapshot is %s, not %s', k, i, kinds, got, want)
        if len(set(kinds)) == 1:
            expect(sn.v().dtype == np.dtype(kinds[0]), 'type %s of values of '
                'type %s', sn.v().dtype, kinds[0])
    x.outcome('types')

def run_empty(case, x):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    for segs in (False, True):
        expect(len(trajectories_in_frame([], 5, segs=segs)) == 0, 'empty list')
    for ex in EX:
        tr = make_traj(ref_traj(1, [3, 4], ex))
        sn = take_snapshot([], 12, tr.schema())
        x.step(); x.state(ex)
        expect(len(sn) == 0 and sn.time() == 12, 'empty snapshot')
        expect(len(sn.trajid()) == 0, 'trajid of empty snapshot')
        for k, v in tr.schema().items():
            if k == 'time': continue
            expect(getattr(sn, k)().shape == (0,) + tuple(v), 
                '%s of empty snapshot', k)

def run_list(case, x):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    _, spans, co, ex, tt = case
    base = 100
    trs = []
    for i, sp in enumerate(spans):
        if isinstance(sp, int): # bits
            ts = [base + t for t in range(5) if sp >> t & 1]
        else:
            ts = range(base + sp[0], base + sp[1] + 1)
        tr = ref_traj([5, 2 ** 33 + 2, 9, 70001][i] if len(spans) < 5 else 1000 + i, ts, 
            EX[ex])
        trs.append(tr)
    # coincidences in space:
    for i, tr in enumerate(trs):
        for j, t in enumerate(tr['t']):
            if co == 1 and i < 2 or co == 2:
                tr['pos'][j] = [1. + t, 2., 3.]
            elif co == 3 and t % 2:
                tr['pos'][j] = [0.5, float(i // 2), 7.]
    objs = [make_traj(t, (int, float, np.int32)[tt]) for t in trs]
    st = np.array([t['t'][0] for t in trs]); en = np.array([t['t'][-1] 
        for t in trs])
    schema = objs[0].schema()
    for t in range(base - 1, base + 6):
        for segs in (False, True):
            x.step()
            x.state(spans, co, t, segs)
            act = [i for i, tr in enumerate(trs) if t in tr['t'] and 
                (not segs or t + 1 in tr['t'])]
            what = 'frame %d%s' % (t, ', segments' if segs else '')
            sels = [trajectories_in_frame(objs, t, segs=segs),
                trajectories_in_frame(objs, t, st, en, segs),
                trajectories_in_frame(objs, t, start_times=st, segs=segs),
                trajectories_in_frame(objs, t, end_times=en, segs=segs)]
            for sel in sels:
                sel = [int(i) for i in sel]
                expect(len(set(sel)) == len(sel), '%s: repeats in %s', what, 
                    sel)
                expect(set(sel) <= set(act), '%s: %s selected, active are %s',
                    what, sel, act)
                pos = [tuple(trs[i]['pos'][trs[i]['t'].index(t)]) 
                    for i in sel]
                allp = set(tuple(trs[i]['pos'][trs[i]['t'].index(t)]) 
                    for i in act)
                expect(len(set(pos)) == len(pos), '%s: coincident particles '
                    'selected', what)
                expect(set(pos) == allp, '%s: %s selected, leaving out '
                    'particles of %s', what, sel, act)
            if not act: continue
            for fr in (t, t + 1) if segs else (t,):
                sn = take_snapshot([objs[i] for i in act], fr, schema)
                snap_matches(sn, frame_ref([trs[i] for i in act], fr), fr, 
                    what + ', snapshot of %d' % fr, props(trs[0]), 
                    [trs[i]['id'] for i in act])
                for k in ('count', 'companion'):
                    if k in EX[ex]:
                        expect(getattr(sn, k)().dtype.kind == 'i', 
                            'type of %s in snapshot', k)
    for o, tr in zip(objs, trs): traj_matches(o, tr, 'source trajectory')
    x.outcome('%d in list, coincidence %d' % (min(len(trs), 5), co))
