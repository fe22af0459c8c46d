"""HDF scene written frame by frame."""
import os, itertools
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C05'
CHUNK = 20
RULE = (
    "Every presence pattern of 3 particles in 4 frames (2^12, holes, empty "
    "frames and re-appearances included; thorough: also 2 x 6 and 4 x 4), "
    "with row orders, property sets, ids, frame offsets and list/generator "
    "input in rotation, plus larger families and long gaps; written by the real frame "
    "writer, read back by frames, by trajectories, bounds, range and bounding "
    "box; and, every third, compared to the same data written as trajectories.")
ASSUME = ["frames are given in order of time and at least one has particles"]
EXTRAS = [(), ('accel',), ('size', 'count'), ('pair', 'companion', 'wide'), 
    ('flag', 'single', 'tensor', 'small', 'number')]
IDS = [[0, 1, 2, 3], [8, 3, 5, 1], [4000000000, 2, 70, 6], [9, 8, 7, 6]]
OFFS = [0, -1, 10001, 12345678]

def cases(tier):
    n = 0
    for P, F in [(1, 4), (2, 3), (3, 4)] + ([(2, 6), (4, 4)] if 
            tier == 'thorough' else []):
        for bits in range(1, 2 ** (P * F)):
            n += 1
            yield [P, F, bits, n % 5, (n // 4) % 4, (n // 3) % 4, 
                (n // 5) % 3, n % 2]
    for P, F in [(40, 5), (3, 300), (150, 3), (900, 4)]:
        for order in range(3):
            yield [P, F, -1, 1, 0, 2, order, order % 2]
    for F in (25, 150, 1400):
        for off in range(4) if F < 200 else (1,):
            yield [4, F, -2, off, off, off, off % 3, off % 2]

def run(case, x):
    from flowtracks import io
    from flowtracks.trajectory import ParticleSnapshot
    from flowtracks.scene import Scene
    P, F, bits, ex, idset, off, order, gen = case
    x.state('frames', case[:3])
    ids = IDS[idset][:P] if P <= 4 else [1000 - 3 * i if P < 300 else 9000 - 7 * i for i in range(P)]
    trs = []
    for p in range(P):
        if bits == -2: # long gaps
            ts = [[0, 1, F // 2, F - 2, F - 1], [0, F - 1], 
                [0, 1, 2, F // 3, F - 2], [1, 2, F // 2]][p]
        elif bits == -1:
            ts = [t for t in range(F) if (t * 5 + p * 3) % 7 > 1]
        else:
            ts = [t for t in range(F) if bits >> (p * F + t) & 1]
        if ts:
            trs.append(ref_traj(ids[p], [OFFS[off] + t for t in ts], 
                EXTRAS[ex]))
    if bits == -1: # the box is that of the last rows
        trs[P // 2]['pos'][-1] = [900., -900., 900.]
        trs[-1]['pos'][-1] = [-900., 900., 1.]
    frames, orders = [], []
    for t in range(OFFS[off], OFFS[off] + F):
        ref = frame_ref(trs, t)
        rows = list(ref)
        if order == 1: rows.reverse()
        if order == 2: rows = rows[t % max(len(rows), 1):] + \
            rows[:t % max(len(rows), 1)]
        orders.append(rows)
        kw = dict((k, np.array([ref[i][k] for i in rows])) 
            for k in props(trs[0])) if rows else dict((k, np.zeros(
                (0,) + np.array(trs[0][k]).shape[1:])) for k in props(trs[0]))
        if (t + ex) % 3 == 1: # properties were added in another order
            kw = dict(reversed(list(kw.items())))
        if t % 3 == 2: 
            kw = dict((k, held(v, t // 3 + i)) for i, (k, v) in enumerate(
                kw.items()))
        frames.append(ParticleSnapshot(time=t, trajid=np.array(rows, 
            dtype=int), **kw))
    d = x.dir()
    fname = os.path.join(d, 'frames.h5')
    io.save_frames_hdf(fname, (f for f in frames) if gen else frames)
    x.step(F)
    sc = Scene(fname)
    lo = min(t['t'][0] for t in trs)
    hi = max(t['t'][-1] for t in trs)
    expect(tuple(sc.frame_range()) == (lo, hi + 1), "frame range %s, "
        "expected %s", sc.frame_range(), (lo, hi + 1))
    got = take(sc.iter_frames(), hi - lo + 3)
    expect([g.time() for g in got] == list(range(lo, hi + 1)), "frames %s",
        [g.time() for g in got])
    for g in got:
        snap_matches(g, frame_ref(trs, g.time()), g.time(), 'saved frames',
            props(trs[0]), orders[g.time() - OFFS[off]])
    trajs_match(take(sc.iter_trajectories(), P + 3), trs, 
        'trajectories of saved frames')
    tags = sc.trajectory_tags()
    expect_exact(sorted(tags.tolist()), sorted([t['id'], t['t'][0], t['t'][-1]]
        for t in trs), 'bounds recorded')
    allpos = np.array([p for t in trs for p in t['pos']])
    mn, mx = sc.bounding_box()
    expect_close(mn, allpos.min(axis=0), 'bounding box minimum')
    expect_close(mx, allpos.max(axis=0), 'bounding box maximum')
    keys, shapes = list(sc.keys()), list(sc.shapes())
    want = dict((k, 1 if np.array(trs[0][k]).ndim == 1 else 
        np.array(trs[0][k]).shape[1]) for k in props(trs[0]))
    # The number of components of a matrix is anyone's guess.
    got_shapes = dict(zip(keys, shapes))
    if 'tensor' in want: got_shapes['tensor'] = want['tensor']
    expect(got_shapes == want and len(keys) == len(want), 
        "keys %s, shapes %s", keys, shapes)
    del sc
    x.outcome('%d particles' % len(trs) if P <= 4 else 'many')
    if bits > 0 and bits % 3:
        x.drop(d)
        return
    # The same scene, as trajectories:
    f2 = os.path.join(d, 'trajs.h5')
    io.save_particles_table(f2, [make_traj(t) for t in trs])
    sc = Scene(f2)
    got2 = take(sc.iter_frames(), hi - lo + 3)
    expect(len(got2) == len(got), "number of frames, by trajectories")
    for g in got2:
        snap_matches(g, frame_ref(trs, g.time()), g.time(), 
            'frames of saved trajectories', props(trs[0]))
    mn2, mx2 = sc.bounding_box()
    expect_close(mn2, mn, 'bounding box minimum, by trajectories')
    expect_close(mx2, mx, 'bounding box maximum, by trajectories')
    del sc
    x.step(2)
    x.drop(d)
