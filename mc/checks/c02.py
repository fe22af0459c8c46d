"""Units, velocities and accelerations of reassembled trajectories."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import links as L

PROPERTY = 'C02'
CHUNK = 60
RULE = (
    "All link graphs up to the tier's F x P (every reordering of rows between "
    "frames, hence every way the previous frame's rows are addressed), in the "
    "three layouts, with four position patterns and six frame rates assigned "
    "in rotation (all pairs occur); every lane of the staggered family; all "
    "trajectory lengths 1..30. Every component of every point is compared "
    "with finite differences computed from the film.")
ASSUME = ["velocities and accelerations are compared to 1e-7/1e-6 relative"]
RATES = [1., 25., 500., 0.5, 1000. / 3, 7]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for ln in range(1, 31):
        for fr in range(6):
            for style in range(4):
                for fmt in ('ptvis', 'xuap', 'single'):
                    yield [fmt, [1] * ln, [[0]] * (ln - 1), [], style, fr]
    for F, P, m in [(3, 2, 0), (4, 2, 0), (3, 3, 1)] + (
            [(4, 3, 1), (5, 2, 0), (6, 2, 1)] if deep else []):
        for sizes, links in link_graphs(F, P, m):
            for fmt in ('ptvis', 'xuap', 'single') if deep or F * P < 9 \
                    else (('ptvis', 'single', 'xuap')[n % 3],):
                n += 1
                yield [fmt, sizes, links, [], n % 4, n % 6]
    for F in (5, 12, 24):
        for P in (3, 17):
            for life in (2, 3, 4, 7, F):
                for gap in (0, 2):
                    for scr in (0, 1, 2, 3):
                        s, l, o = L.staggered(F, P, life, gap, scr)
                        for fmt in ('ptvis', 'xuap', 'single'):
                            n += 1
                            yield [fmt, s, l, o, n % 4, n % 6]

def run(case, x):
    fmt, sizes, links, opn, style, fr = case
    film = L.Film(sizes, links, opn, (), style)
    frate = RATES[fr]
    d = x.dir()
    x.step(sum(sizes))
    if fmt == 'single':
        base = 0
        path = os.path.join(d, 'ptv_is_all.txt')
        film.write_single(path)
    else:
        base = 101
        path = os.path.join(d, ('xuap.%d' if fmt == 'xuap' else 'ptv_is.%d'))
        film.write(path, fmt, base)
    via = ('iter', 'list', 'infer', 'any-iter', 'any')[
        (len(sizes) + style + fr) % 5]
    objs = L.read(fmt, path, frate=frate, limit=sum(sizes) + 5, via=via)
    want = film.expected(fmt, base, frate)
    for w in want:
        x.state(fmt, frate, len(w[0]), w[1].tolist())
    L.compare(objs, want, '%s at %g Hz' % (fmt, frate), motion=True)
    for o in objs:
        names = set(o.schema())
        expect(names == {'pos', 'velocity', 'time', 'accel'},
            "properties are %s", sorted(names))
    x.outcome('lengths %s' % sorted(set(min(len(w[0]), 5) for w in want)))
    x.drop(d)
