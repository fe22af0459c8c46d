"""Segments hold exactly the continuing particles, in matching rows."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C09'
CHUNK = 25
RULE = (
    "Every presence pattern of 3 particles in 4 frames (2^12; thorough: also "
    "4 x 4), in rotation over five row-order rules per frame, id sets, file "
    "kinds, frame offsets and frame ranges; larger families; every pair of "
    "consecutive frames is compared with the reference, rows aligned.")
ASSUME = []
IDS = [[0, 1, 2, 3], [8, 3, 5, 1], [5000000000, 2, 70, 6]]

def cases(tier):
    n = 0
    for P, F in [(1, 3), (2, 3), (3, 4)] + ([(4, 4), (2, 6)] 
            if tier == 'thorough' else []):
        for bits in range(1, 2 ** (P * F)):
            n += 1
            yield [P, F, bits, n % 5, (n // 5) % 3, (n // 2) % 7, n % 3]
    for order in range(5):
        for rng in range(7):
            yield [60, 5, -1, order, 0, rng, 0]
            yield [3, 80, -1, order, 0, rng, 1]

RNG = [None, (0, 4), (1, None), (None, 3), (1, 3), (0, 1), (-2, 6)]

def run(case, x):
    from flowtracks.scene import Scene
    P, F, bits, order, idset, rng, off = case
    base = [0, 10001, -2][off]
    ex = ('size', 'pair', 'tensor') if bits % 2 else ()
    if bits == -1:
        trs = []
        for p in range(P):
            ts = [base + t for t in range(F) if (t * 5 + p * 3) % 7 > 1]
            if ts: trs.append(ref_traj(10 * p + (7 * p) % 9, ts, ex))
    else:
        trs = S.presence(bits, P, F, IDS[idset], base, ex)
    d = x.dir()
    p = os.path.join(d, 's.h5')
    if order == 0 and bits % 2:
        S.write_trajs(p, trs)
    else:
        S.write_frames(p, trs, order=order)
    r = RNG[rng]
    if r is not None: r = tuple(None if v is None else v + base for v in r)
    sc = Scene(p, r)
    lo = r[0] if r and r[0] is not None else min(t['t'][0] for t in trs)
    hi = r[1] if r and r[1] is not None else max(t['t'][-1] for t in trs) + 1
    x.state(bits, P, F, order, r)
    got = take(sc.iter_segments(), 200)
    ts = list(range(lo, hi - 1))
    expect([g[0].time() for g in got] == ts, "segments at %s, expected %s",
        [g[0].time() for g in got], ts)
    n = 0
    for a, b in got:
        x.step()
        S.segment_matches(a, b, trs, a.time(), 'segments', props(trs[0]))
        n += len(a)
    x.outcome('%d rows' % min(n, 5))
    del sc
    x.drop(d)
