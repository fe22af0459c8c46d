"""Every link graph is reassembled into exactly its trajectories."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import links as L

PROPERTY = 'C01'
CHUNK = 60
RULE = (
    "All link graphs (frame sizes 0..P, all partial one-to-one links between "
    "consecutive frames, any subset of last-frame particles still in "
    "progress, any subset of first-frame particles begun earlier) up to the "
    "tier's F x P, in each of the three file layouts, written as files and "
    "read by the real reader; plus all members of a staggered-lanes family "
    "up to 24 frames x 40 lanes and 6 x 150, and long paths in crowds of up to 300. Reference: chain following on the graph.")
ASSUME = ["file systems list directories in any order (C03 permutes it)",
    "trajectories still in progress in the last frame read are outside the "
    "claim"]

def cases(tier):
    deep = tier == 'thorough'
    # Simplest first.
    for F, P in [(1, 3), (2, 2), (3, 2)] + ([(4, 2)] if deep else []):
        for sizes, links in link_graphs(F, P):
            opens = list(subsets(range(sizes[-1])))
            earl = list(subsets(range(sizes[0])))
            for fmt in ('ptvis', 'xuap', 'single'):
                for o in opens:
                    for e in earl:
                        yield [fmt, sizes, links, o, e, 0]
    for F, P, m in [(2, 3, 0), (3, 3, 1), (4, 2, 0)] + \
        ([(3, 3, 0), (4, 3, 2), (5, 2, 0), (6, 2, 1)] if deep else []):
        for k, (sizes, links) in enumerate(link_graphs(F, P, m)):
            last = sizes[-1]
            for fmt in ('ptvis', 'xuap', 'single') if deep or F < 4 else \
                    ('ptvis',) if k % 2 else ('single',):
                yield [fmt, sizes, links, [], [], k % 4]
                if last: yield [fmt, sizes, links, [last - 1], [], 0]
    for scr in (0, 1, 2, 3):
        for life in (2, 4, 8):
            s, l, o = L.staggered(6, 150, life, 1, scr)
            for fmt in ('ptvis', 'xuap', 'single'):
                yield [fmt, s, l, o, [], scr]
    for n in (60, 300):
        for at in (0, n // 2, n):
            for swap in (0, 1):
                s, l, o = L.crowd(7, n, at, swap)
                for fmt in ('ptvis', 'xuap', 'single'):
                    yield [fmt, s, l, o, [], 0]
    for F in (5, 12, 24):
        for P in (1, 4, 13, 40):
            for life in (1, 2, 3, 7, F, F + 3):
                for gap in (0, 1, 4):
                    for scr in (0, 1, 2, 3):
                        if not deep and P == 40 and scr in (1, 2): continue
                        s, l, o = L.staggered(F, P, life, gap, scr)
                        for fmt in ('ptvis', 'xuap', 'single'):
                            yield [fmt, s, l, o, [], scr]

def subsets(rows):
    rows = list(rows)
    for n in range(len(rows) + 1):
        for c in itertools.combinations(rows, n):
            yield list(c)

BASES = [10001, 1, 98, 0, 999998]

def run(case, x):
    fmt, sizes, links, opn, earl, style = case
    film = L.Film(sizes, links, opn, earl, style)
    d = x.dir()
    x.state('graph', fmt, sizes, links, opn, earl)
    x.step(sum(sizes))
    if fmt == 'single':
        base = 0
        path = os.path.join(d, 'all_ptv_is.txt')
        film.write_single(path, final_blank=bool(style % 2))
    else:
        base = BASES[(len(links) + sum(sizes) + style) % len(BASES)]
        path = os.path.join(d, ('xuap.%d' if fmt == 'xuap' else 'ptv_is.%d'))
        film.write(path, fmt, base)
    objs = L.read(fmt, path, limit=len(film.chains()) + 5,
        via=('iter', 'list')[sum(sizes) % 2])
    want = film.expected(fmt, base)
    L.compare(objs, want, fmt)
    x.outcome('%d trajectories' % len(want) if len(want) < 4 else 
        'more trajectories')
    x.drop(d)
