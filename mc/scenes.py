"""Scene files for the checks that read them, made by the real writers."""
import os
import numpy as np
from .util import *

def write_frames(fname, trs, lo=None, hi=None, order=0):
    from flowtracks import io
    from flowtracks.trajectory import ParticleSnapshot
    lo = min(t['t'][0] for t in trs) if lo is None else lo
    hi = max(t['t'][-1] for t in trs) if hi is None else hi
    fr = []
    for t in range(lo, hi + 1):
        ref = frame_ref(trs, t)
        if not ref: continue
        rows = permute(list(ref), order, t)
        fr.append(ParticleSnapshot(time=t, trajid=np.array(rows), **dict(
            (k, np.array([ref[i][k] for i in rows])) for k in props(trs[0]))))
    io.save_frames_hdf(fname, fr)

def permute(rows, order, t):
    if order == 1: return rows[::-1]
    if order == 2 and rows:
        r = t % len(rows)
        return rows[r:] + rows[:r]
    if order == 3: return sorted(rows, key=lambda i: (i * 7 + t * 3) % 5)
    if order == 4 and t % 2: return rows[::-1]
    return rows

def write_trajs(fname, trs, order=0):
    from flowtracks import io
    io.save_particles_table(fname, [make_traj(t) for t in trs])

def drop_bounds(fname):
    """As files of older versions were."""
    import tables
    with tables.open_file(fname, 'a') as f:
        f.remove_node('/', 'bounds')

def presence(bits, P, F, ids, base, extra, salt=0):
    """trajectories by presence bit pattern (see C05)."""
    trs = []
    for p in range(P):
        ts = [base + t for t in range(F) if bits >> (p * F + t) & 1]
        if ts: trs.append(ref_traj(ids[p], ts, extra, salt))
    return trs

def segments_ref(trs, t):
    """(frame, next frame) reference of the segment starting at t"""
    a, b = frame_ref(trs, t), frame_ref(trs, t + 1)
    both = set(a) & set(b)
    return dict((i, a[i]) for i in a if i in both), \
        dict((i, b[i]) for i in b if i in both)

def segment_matches(fr, nx, trs, t, what, names):
    a, b = segments_ref(trs, t)
    snap_matches(fr, a, t, what + ', first frame', names)
    snap_matches(nx, b, t + 1, what + ', next frame', names)
    ia, ib = [[int(i) for i in np.atleast_1d(s.trajid())] for s in (fr, nx)]
    if ia != ib:
        from .core import Violation
        raise Violation("%s: rows of segment at %s are of %s and %s" % (what, 
            t, ia, ib))
