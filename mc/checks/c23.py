"""Pairs: the closest continuing particle of the same frame."""
import itertools
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C23'
CHUNK = 40
RULE = (
    "Two primary trajectories (6 pairs of spans or frames, with holes) x every list of 1..3 requested "
    "points out of theirs, repetitions and any order included, x every choice "
    "of up to 2 (thorough: 3) secondary spans in 5 frames, or sets of frames "
    "with holes, x placement styles "
    "(far from the origin, close to each other), "
    "int/float time, properties in rotation; larger sets. Reference: nearest "
    "by distance among those present in the frame and the next.")
ASSUME = ["no two particles of a set coincide, no ties of distance",
    "a secondary particle is considered if its trajectory goes on in the "
    "next frame, as elsewhere for segments"]
BASE = 300
BEFORE = 303 # to have frames before 0
PRIM = [[(0, 3), (0, 3)], [(0, 2), (1, 4)], [(2, 2), (0, 4)], [(0, 4), (3, 4)],
    [(1, 3), (2, 3)], [0b10111, 0b11010]]

# 0..2 are the neighbours of "no pair" (-1), the others have no such role.
SEC = [[7, 2 ** 32 + 7, 11, 5], [1, 0, 2, 3], [2, 7, 1, 0]]

def cases(tier):
    spans = [(a, b) for a in range(5) for b in range(a, 5)]
    n = 0
    for p in range(len(PRIM)):
        for k in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
            for sec in itertools.product(spans, repeat=k):
                n += 1
                if k == 3 and n % 3: continue
                yield [p, [list(s) for s in sec], n % 5]
    # trajectories with holes, as bits
    for k in (1, 2):
        for sec in itertools.product(range(1, 32), repeat=k):
            n += 1
            if tier != 'thorough' and k == 2 and n % 3: continue
            yield [len(PRIM) - 1 - n % 3, list(sec), n % 5]
    for k in (10, 40):
        for st in range(5):
            yield [0, [[(i * 3) % 4, (i * 3) % 4 + i % 3] for i in range(k)], 
                st]

def frames(span, off=0):
    if isinstance(span, int):
        return [BASE - off + t for t in range(5) if span >> t & 1]
    return range(BASE - off + span[0], BASE - off + span[1] + 1)

def place(tr, salt, style):
    for i, t in enumerate(tr['t']):
        s = tr['id'] % 9973 * 12.9898 + t * 78.233 + salt * 37.719
        place = [(s * (1 + c) * 0.137 * (1 + style)) % 1. for c in range(3)]
        if style == 3: place = [p + 1e3 for p in place]
        if style == 4: # close together and far away
            place = [p * 1e-5 - 2500. for p in place]
        tr['pos'][i] = place

def run(case, x):
    from flowtracks.pairs import particle_pairs
    p, sec, style = case
    off = BEFORE if (p + style + len(sec)) % 2 else 0
    prim = [ref_traj([[5, 2 ** 32 + 5], [0, 70000]][style % 2][i], frames(s, off), ('size',) if 
        style % 2 else ()) for i, s in enumerate(PRIM[p])]
    secs = [ref_traj(SEC[style % 3][i] if i < 4 else 50 - i, 
        frames(s, off), ('pair',) if style > 1 else ()) 
        for i, s in enumerate(sec)]
    if style % 2: secs.reverse()
    for t in prim: place(t, 0, style)
    for t in secs: place(t, 1, style)
    pts = [(t['id'], i) for t in prim for i in range(len(t['t']))]
    spare = ref_traj(99, range(BASE - off, BASE - off + 5), ('size',))
    pobj = [make_traj(t, float if style == 2 else int) for t in
        ([spare] + prim if style % 3 == 1 else prim + [spare])]
    sobj = [make_traj(t, float if style == 1 else int) for t in secs]
    near = {}
    for t in prim:
        for i, f in enumerate(t['t']):
            best = None
            for s in secs:
                if f in s['t'] and f + 1 in s['t']:
                    j = s['t'].index(f)
                    d = sum((a - b) ** 2 for a, b in zip(t['pos'][i], 
                        s['pos'][j]))
                    if best is None or d < best[0]: best = (d, s['id'], j)
            near[t['id'], i] = best
    reqs = [q for k in (1, 2) for q in itertools.product(pts, repeat=k)]
    reqs += [q for i, q in enumerate(itertools.product(pts, repeat=3)) 
        if (i + style) % 5 == 0]
    reqs += [tuple(pts), tuple(reversed(pts)), tuple(pts[::2] + pts[1::2])]
    for q in reqs:
        ids, ixs = np.array([a for a, _ in q]), np.array([b for _, b in q])
        keep = ids.copy(), ixs.copy()
        # The answers may need other types than the points asked for.
        got = particle_pairs(pobj, sobj, ids, ixs.astype([int, np.int8, 
            np.uint8, np.int32][(style + len(q)) % 4]))
        x.step()
        expect(len(got) == 2 and len(got[0]) == len(q) == len(got[1]), 
            'lengths of answer to %s', q)
        for k, req in enumerate(q):
            g = (int(got[0][k]), int(got[1][k]))
            b = near[req]
            if b is None:
                expect(g[1] == -1, 'request %s, %d-th: %s with no candidate', 
                    q, k, g)
                x.outcome('none')
            else:
                expect(g == b[1:], 'request %s, %d-th: %s instead of %s', q, k,
                    g, b[1:])
                x.outcome('pair')
        expect_exact(ids, keep[0], 'request changed')
        expect_exact(ixs, keep[1], 'request changed')
    x.state(case)
