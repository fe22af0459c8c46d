"""Sequence iteration: right frames, whatever was done before."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import util
from .. import scenes as S

PROPERTY = 'C12'
CHUNK = 15
RULE = (
    "Sequences over HDF, NPZ, Matlab, trajAcc and link files (all contiguous-span scenes of 2 "
    "particles x 2 tracers over 4 frames, at small, large and negative frame "
    "numbers, and scenes with holes, for single iterations), x every "
    "history up to the tier's depth over: full and partial iteration of the "
    "whole range and of subranges, abandoned, nested and interleaved "
    "iteration, selectors set and reset (also the same function making another choice), trajectory lists, subrange and "
    "range queries, mapping (frames given are then overwritten); after every history the sequence must iterate "
    "as a fresh one with the same selectors. Reference: lists of rows.")
ASSUME = ["each selector leaves at least one trajectory",
    "no two particles coincide (see C14)",
    "tracer smoothing is off (documented as possibly out of date; C24 covers "
    "smoothing itself)"]

CONF = ['hdf', 'npz', 'mixed', 'ptvis', 'minlen', 'acc', 'mat']
BASE = 52
HOLE = [BASE + 1, BASE + 2, BASE + 4, BASE + 5]
OPS = [['iter', 'all'], ['iter', 'one'], ['iter', 'none'], 
    ['sub', 1, 3, 'all'], ['sub', 2, 5, 'all'], ['sub', 0, 2, 'one'], 
    ['sub', 1, 1, 'all'], ['nest', 0, 6], ['nest', 2, 4], ['zip'], 
    ['adv', 0], ['adv', 1], ['psel', 'long'], ['psel', 'none'], 
    ['psel', 'first'], ['tsel', 'first'], ['tsel', 'none'], ['ptraj'], 
    ['ttraj'], ['subrange'], ['map', 'all'], ['map', 'raise'], ['meta'], 
    ['psel', 'sh0'], ['psel', 'sh1'], ['tsel', 'sh0'], ['tsel', 'sh1']]

def cases(tier):
    for c in range(len(CONF)):
        yield ['hist', c, []]
        for o in range(len(OPS)):
            yield ['hist', c, [o]]
        for h in itertools.product(range(len(OPS)), repeat=2):
            yield ['hist', c, list(h)]
    few = [0, 1, 3, 5, 7, 10, 11, 14, 13, 15, 21, 23, 24, 25, 26]
    confs = range(len(CONF)) if tier == 'thorough' else (0,)
    for c in confs:
        for h in itertools.product(range(len(OPS)) if tier == 'thorough' else 
                few, repeat=3):
            yield ['hist', c, list(h)]
    spans = [(a, b) for a in range(4) for b in range(a + 1, 5)]
    n = 0
    for p in itertools.product(spans, repeat=2):
        for t in itertools.product(spans, repeat=2):
            n += 1
            if tier != 'thorough' and n % 7: continue
            yield ['scene', [list(s) for s in p + t], n % 2, n % 3]
    # trajectories with holes, as bits
    for m in range(1, 32):
        if '101' in bin(m) or '1001' in bin(m) or '10001' in bin(m):
            for s in (spans if tier == 'thorough' else spans[m % 3::3]):
                n += 1
                yield ['scene', [m, list(s), list(s), m], n % 2, n % 3]
            for m2 in range(1, 32):
                n += 1
                if tier != 'thorough' and n % 3: continue
                yield ['scene', [m2, m, m, m2], n % 2, n // 2 % 3]
    for f in (0, 1):
        for r in (0, 1, 2):
            yield ['scene', [[i * 7 % 19, i * 7 % 19 + i * 5 % 31] for i in 
                range(90)], f, r]

def refs(conf):
    part = [ref_traj(3, range(BASE, BASE + 4), ('size',)), 
        ref_traj(2 ** 33 + 9, range(BASE + 2, BASE + 7), ('size',)),
        ref_traj(5, range(BASE + 1, BASE + 3), ('size',)),
        ref_traj(4, range(BASE + 20, BASE + 24), ('size',)), # out of range
        ref_traj(6, HOLE, ('size',))] # with a hole
    trac = [ref_traj(1, range(BASE, BASE + 7), ('accel',), 3), 
        ref_traj(2, range(BASE + 1, BASE + 4), ('accel',), 3),
        ref_traj(3, range(BASE + 4, BASE + 6), ('accel',), 3),
        ref_traj(20, range(BASE + 3, BASE + 4), ('accel',), 3),
        ref_traj(0, range(BASE - 9, BASE - 5), ('accel',), 3),
        ref_traj(7, HOLE, ('accel',), 3)]
    return part, trac

def store(d, name, fmt, trs):
    from flowtracks import io
    if fmt == 'hdf':
        p = os.path.join(d, name + '.h5')
        S.write_trajs(p, trs)
    else:
        p = os.path.join(d, name + '/')
        io.save_trajectories(p, [make_traj(t) for t in trs], {})
    return p

def prepare(x, conf):
    if conf in x.cache: return x.cache[conf]
    d = x.dir()
    part, trac = refs(conf)
    rng = (BASE, BASE + 6)
    minlen = 0
    uncut = False
    if conf in ('acc', 'mat'):
        from .c07 import store as store_as
        # These are read whole, for acc if they start in the range.
        uncut = True
        rng = (BASE + 1, BASE + 6)
        both = []
        paths = []
        for trs, name in ((part, 'p'), (trac, 't')):
            trs = [t for t in trs if t['t'] != HOLE]
            trs = [ref_traj(t['id'], t['t'], ('accel',), name == 't') for t in trs]
            trs.append(ref_traj(8, range(BASE + 1, BASE + 10), ('accel',), 5))
            sub = os.path.join(d, name); os.mkdir(sub)
            paths.append(store_as(conf, trs, sub, BASE - 9)[0])
            if conf == 'acc':
                trs = [t for t in trs if rng[0] <= t['t'][0] <= rng[1]]
                trs.sort(key=lambda t: t['t'][0])
                trs = [dict(t, id=i) for i, t in enumerate(trs)]
            both.append(trs)
        part, trac = both
        pp, tp = paths
    elif conf == 'ptvis':
        from .. import links as L
        from flowtracks import io
        paths = []
        for name in ('ptv_is.%d', 'xuap.%d'):
            fmt = 'xuap' if 'xuap' in name else 'ptvis'
            s, l, o = L.staggered(8, 3, 4, 0, 2) if fmt == 'xuap' else \
                L.staggered(8, 4, 5, 1, 1)
            film = L.Film(s, l, o)
            p = os.path.join(d, name)
            film.write(p, fmt, BASE)
            paths.append((p, film, fmt))
        # C01..C03 check these readers against the film itself.
        part, trac = [], []
        for (p, film, fmt), res in zip(paths, (trac, part)):
            for o in io.trajectories(p, rng[0], rng[1], 10., fmt, 1):
                r = {'id': int(o.trajid()), 't': [int(t) for t in o.time()]}
                for k in ('pos', 'velocity', 'accel'):
                    r[k] = getattr(o, k)().tolist()
                res.append(r)
        pp, tp = paths[1][0], paths[0][0]
    else:
        fm = {'hdf': ('hdf', 'hdf'), 'npz': ('npz', 'npz'), 
            'mixed': ('npz', 'hdf'), 'minlen': ('hdf', 'npz')}[conf]
        pp = store(d, 'part', fm[0], part)
        tp = store(d, 'trac', fm[1], trac)
        if conf == 'minlen':
            minlen = 3
            rng = (BASE + 1, BASE + 5)
    x.cache[conf] = (part, trac, pp, tp, rng, minlen, uncut)
    return x.cache[conf]

SEL = {'none': lambda trs: trs, 
    'long': lambda trs: [t for t in trs if len(t) > 2],
    'first': lambda trs: sorted(trs, key=lambda t: t.trajid())[:1],
    'sh0': lambda trs: sorted(trs, key=lambda t: t.trajid())[:2],
    'sh1': lambda trs: sorted(trs, key=lambda t: t.trajid())[1:]}
RSEL = {'none': lambda trs: trs, 
    'long': lambda trs: [t for t in trs if len(t['t']) > 2],
    'first': lambda trs: sorted(trs, key=lambda t: t['id'])[:1],
    'sh0': lambda trs: sorted(trs, key=lambda t: t['id'])[:2],
    'sh1': lambda trs: sorted(trs, key=lambda t: t['id'])[1:]}

class Model(object):
    def __init__(self, part, trac, rng, minlen, uncut=False):
        self.part0, self.trac0, self.rng = part, trac, rng
        self.minlen = minlen
        self.psel = self.tsel = 'none'
        self.its = {}
        self.uncut = uncut
        # One selector each, whose choice changes between settings.
        self.choice = {}
        def shared(who):
            return lambda trs: SEL[self.choice[who]](trs)
        self.shared = {'psel': shared('psel'), 'tsel': shared('tsel')}
    
    def base(self, trs):
        r = trs if self.uncut else [restrict(t, self.rng[0], self.rng[1] + 1) 
            for t in trs]
        return [t for t in r if len(t['t']) >= max(self.minlen, 1)]
    
    def selector(self, op):
        if not op[1].startswith('sh'): return SEL[op[1]]
        self.choice[op[0]] = op[1]
        return self.shared[op[0]]
    
    def part(self): return RSEL[self.psel](self.base(self.part0))
    def trac(self): return RSEL[self.tsel](self.base(self.trac0))
    
    def check(self, item, t, what):
        for name, trs in (('particles', self.part()), ('tracers', 
                self.trac())):
            fr, nx = [getattr(i, name) for i in item]
            S.segment_matches(fr, nx, trs, t, '%s, %s' % (what, name), 
                props(trs[0]))

class Boom(Exception): pass

def run(case, x):
    util.DIV = 64.
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    if case[0] == 'scene':
        return run_scene(case, x)
    conf = CONF[case[1]]
    part, trac, pp, tp, rng, minlen, uncut = prepare(x, conf)
    P = Particle(0.001, 1450.)
    seq = Sequence(rng, 10., P, pp, tp, traj_min_len=minlen) if minlen else \
        Sequence(rng, 10., P, pp, tp)
    m = Model(part, trac, rng, minlen, uncut)
    hist = []
    for o in case[2]:
        hist.append(OPS[o])
        x.step()
        apply(seq, m, OPS[o], 'after %s' % hist)
        x.state(conf, m.psel, m.tsel, sorted((k, v[1]) for k, v in 
            m.its.items()), OPS[o])
    what = 'after %s' % hist
    for op in (['iter', 'all'], ['meta'], ['ptraj'], ['ttraj']):
        apply(seq, m, op, what)
    for k in list(m.its):
        while apply(seq, m, ['adv', k], what) != 'end': pass
    x.outcome('%s, %s' % (m.psel, m.tsel))

def loop(seq, m, it, first, last, how, what, inner=None):
    k = 0
    kept = []
    n = max(last - first, 0)
    for item in it:
        expect(k < n, '%s: more than %d steps', what, n)
        m.check(item, first + k, what)
        kept.append(item)
        k += 1
        if inner is not None and k < 3: inner()
        if how == 'one':
            spoil_frames(item)
            return
    expect(k == n, '%s: %d steps instead of %d', what, k, n)
    for i, item in enumerate(kept):
        m.check(item, first + i, what + ', kept')
    for item in kept: spoil_frames(item)

def spoil_frames(item):
    """overwrites in place the two frames, which belong to the user"""
    for fr in item: spoil(fr.particles, fr.tracers)

def apply(seq, m, op, what):
    r0, r1 = m.rng
    if op[0] == 'iter':
        it = iter(seq)
        if op[1] != 'none': loop(seq, m, it, r0, r1, op[1], what)
    elif op[0] == 'sub':
        a, b = r0 + op[1], min(r0 + op[2], r1)
        loop(seq, m, seq.iter_subrange(a, b), a, b, op[3], 
            what + ', subrange')
    elif op[0] == 'nest':
        a, b = r0 + op[1], min(r0 + op[2], r1)
        loop(seq, m, seq, r0, r1, 'all', what + ', outer', lambda: 
            loop(seq, m, seq.iter_subrange(a, b), a, b, 'all', 
                what + ', inner'))
    elif op[0] == 'zip':
        k = 0
        for i1, i2 in zip(seq, seq.iter_subrange(r0 + 1, r1)):
            m.check(i1, r0 + k, what + ', 1st of two')
            m.check(i2, r0 + 1 + k, what + ', 2nd of two')
            k += 1
        expect(k == r1 - r0 - 1, '%s: %d steps of two iterators', what, k)
    elif op[0] == 'adv':
        i = op[1]
        if i not in m.its:
            m.its[i] = [iter(seq) if i == 0 else seq.iter_subrange(r0 + 1, 
                r1), 0]
        first = r0 + i
        try:
            item = next(m.its[i][0])
        except StopIteration:
            expect(m.its[i][1] == r1 - first, '%s: iterator %d ended after %d '
                'of %d', what, i, m.its[i][1], r1 - first)
            del m.its[i]
            return 'end'
        expect(m.its[i][1] < r1 - first, '%s: iterator goes on', what)
        m.check(item, first + m.its[i][1], what + ', iterator %d' % i)
        m.its[i][1] += 1
    elif op[0] == 'psel':
        m.its.clear()
        seq.set_particle_selector(m.selector(op)); m.psel = op[1]
    elif op[0] == 'tsel':
        m.its.clear()
        seq.set_tracer_selector(m.selector(op)); m.tsel = op[1]
    elif op[0] == 'ptraj':
        trajs_match(seq.particle_trajectories(), m.part(), what)
    elif op[0] == 'ttraj':
        trajs_match(seq.tracer_trajectories(), m.trac(), what)
    elif op[0] == 'subrange':
        lo = min(t['t'][0] for t in m.part())
        hi = max(t['t'][-1] for t in m.part())
        got = seq.subrange()
        expect((int(got[0]), int(got[1])) == (max(lo, r0), min(hi, r1)), 
            '%s: subrange %s instead of %s', what, got, (lo, hi))
        loop(seq, m, seq.iter_subrange(*got), max(lo, r0), min(hi, r1), 'all', 
            what + ', iterated')
    elif op[0] == 'map':
        if op[1] == 'raise':
            def f(s, fr, nx): raise Boom()
            try: seq.map_trajectories(f)
            except Boom: pass
            return
        seen = []
        def f(s, fr, nx):
            seen.append(fr.particles.time())
            m.check((fr, nx), fr.particles.time(), what + ', mapped')
            return dict((int(i), fr.particles.time() + int(i) / 10.) 
                for i in fr.particles.trajid())
        res = seq.map_trajectories(f)
        expect(seen == list(range(r0, r1)), '%s: mapped frames %s', what, seen)
        want = dict((t['id'], [s + t['id'] / 10. if s + 1 in t['t'] else np.nan
            for s in t['t'][:-1] if r0 <= s < r1]) for t in m.part())
        want = dict((k, v) for k, v in want.items() if v)
        expect(set(int(k) for k in res) == set(want), '%s: mapped %s', what, 
            list(res))
        for k, v in want.items():
            expect_close(res[k], v, what + ', map of %s' % k)
    elif op[0] == 'meta':
        expect(tuple(seq.range()) == m.rng, '%s: range %s', what, seq.range())
        expect(seq.frate == 10. and seq.part.diam == 0.001, '%s: scalars', 
            what)

def run_scene(case, x):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    _, spans, fmt, rr = case
    BASE = (52, 100000, 0, 2 ** 31 + 7, -3)[sum(map(ord, str(spans))) % 5]
    half = len(spans) // 2
    trs = [ref_traj([3, 8, 2, 7][i] if half == 2 else i * 37 % 101, 
        [BASE + t for t in range(5) if s >> t & 1] if isinstance(s, int) else
        range(BASE + s[0], BASE + s[1] + 1), ('size',), i // half) 
        for i, s in enumerate(spans)]
    d = x.dir()
    pp = store(d, 'p', ('hdf', 'npz')[fmt], trs[:half])
    tp = store(d, 't', ('npz', 'hdf')[fmt], trs[half:])
    rng = (BASE + (0, 0, 1)[rr], BASE + (4, 3, 4)[rr] * (1 if half == 2 else 
        12))
    m = Model(trs[:half], trs[half:], rng, 0)
    x.state(spans, fmt, rng)
    if not (m.part() and m.trac()): 
        x.outcome('out of domain')
        return
    seq = Sequence(rng, 1., Particle(1., 1.), pp, tp)
    x.step(rng[1] - rng[0])
    loop(seq, m, seq, rng[0], rng[1], 'all', 'iteration')
    lo = min(t['t'][0] for t in m.part())
    if lo < rng[1] and max(t['t'][-1] for t in m.part()) >= rng[0]:
        apply(seq, m, ['subrange'], 'subrange')
    x.outcome('scene')
    x.drop(d)
