"""map_trajectories(): each result in its trajectory's series, at its time."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .c12 import store

PROPERTY = 'C13'
CHUNK = 15
BASE = 52
RULE = (
    "All scenes of 3 particles with contiguous spans within 5 frames, and "
    "with holes or particles coinciding in some frames, x every subrange of the sequence (and none) x mapped "
    "functions with scalar, vector, matrix, large integer, "
    "text, logical and history-dependent results, with and "
    "without extra arguments, in histories of several mappings on one "
    "sequence including one that fails midway. Every call's arguments and "
    "the final series are compared to the reference.")
ASSUME = ["the mapped function returns a result for every particle of the "
    "frame it is given", "a particle not in a frame, for a hole in its "
    "trajectory or another particle in the same place, has no result there, "
    "shown as NaN"]

def cases(tier):
    spans = [(a, b) for a in range(5) for b in range(a, 6)]
    n = 0
    for p in itertools.combinations(spans, 3):
        n += 1
        yield [[list(s) for s in p], n % 3, n % 4]
    # with holes, as bits, and particles that coincide in some frames
    for m in range(1, 64):
        for m2 in range(m % 3 + 1, 64, 7):
            n += 1
            if tier != 'thorough' and n % 2: continue
            yield [[m, m2, [1, 5]], n % 3, n % 4]
    for p in itertools.combinations(spans, 3):
        n += 1
        if tier != 'thorough' and n % 4: continue
        yield [[list(s) for s in p], n // 4 % 3, n // 12 % 4, 1 + n // 48 % 3]
    yield [[[i % 5, 5] for i in range(40)], 0, 0]
    for f in (0, 1):
        yield [[[i * 7 % 29, i * 7 % 29 + i * 5 % 17] for i in range(60)], f, 0]

class Boom(Exception): pass

def run(case, x):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    spans, fmt, rot = case[:3]
    coincide = case[3] if len(case) > 3 else 0
    ids = [7, 2 ** 33 + 3, 5]
    trs = [ref_traj(ids[(i + rot) % 3] if len(spans) == 3 else 100 - i, 
        [BASE + t for t in range(6) if s >> t & 1] if isinstance(s, int) else
        range(BASE + s[0], BASE + s[1] + 1), ('size',)) for i, s in 
        enumerate(spans)]
    for tr in trs:
        for j, t in enumerate(tr['t']):
            if coincide and t % 3 == coincide - 1:
                tr['pos'][j] = [float(t), 0.5, 1.]
    holes = coincide or any(isinstance(s, int) for s in spans)
    d = x.dir()
    pp = store(d, 'p', ('hdf', 'npz', 'npz')[fmt], trs)
    tp = store(d, 't', ('npz', 'hdf', 'npz')[fmt], [ref_traj(1, range(BASE, 
        BASE + 36))])
    long = max(5 if isinstance(s, int) else s[1] for s in spans) > 6
    rng = [(BASE, BASE + (25 if long else 5)), (BASE + 1, BASE + 4), (BASE, BASE + 5), 
        (BASE, BASE + 3)][rot]
    r = [restrict(t, rng[0], rng[1] + 1) for t in trs]
    trs = [t for t in r if t['t']]
    if not trs: 
        x.outcome('out of domain'); return
    seq = Sequence(rng, 1., Particle(1., 1.), pp, tp)
    subs = [None] + [(a, b) for a in range(rng[0], rng[1]) for b in 
        range(a + 1, rng[1] + 1) if not long or (a * 5 + b) % 23 == 0]
    for si, sub in enumerate(subs):
        for kind in (0, 1, 6) if holes else (0, 1, 2, 3, 4, 5, 6, 7):
            if sub is not None and (si + kind + rot) % 2 or kind > 3 \
                    and (si + kind // 2) % 3: continue
            x.step()
            x.state(spans, rng, sub, kind)
            one(seq, trs, rng, sub, kind, 'subrange %s' % (sub,))
        if si % 4 == 1:
            def bad(s, fr, nx):
                if fr.particles.time() > rng[0]: raise Boom()
                return dict((i, 0.) for i in fr.particles.trajid())
            try: seq.map_trajectories(bad)
            except Boom: pass
    x.outcome('%d trajectories' % len(trs) if len(trs) < 4 else 'many')
    x.drop(d)

def result(kind, trid, t, prev):
    if kind == 0: return trid + t / 100.
    if kind == 1: return np.r_[trid, t, trid * t]
    if kind == 4: return 2 ** 60 + trid * 64 + t
    if kind == 5: return 'at %d' % t if trid % 2 else 'trajectory %d' % trid
    if kind == 6: return np.array([[trid, t], [t, -1.5]])
    if kind == 7: return bool((trid + t) % 3)
    return t + trid * 1000. + (0.5 * prev if prev is not None else 0.)

def one(seq, trs, rng, sub, kind, what):
    first, last = sub or rng
    calls = []
    own = {} # results given, per trajectory
    given = set()
    extra = ('a', 5) if kind in (1, 3) else ()
    hist = kind in (2, 3)
    
    def f(*args):
        expect(len(args) == 3 + hist + len(extra), '%s: function got %d '
            'arguments', what, len(args))
        s, fr, nx = args[:3]
        expect(s is seq, '%s: first argument is not the sequence', what)
        expect(tuple(args[3 + hist:]) == extra, '%s: extra arguments %s', 
            what, args[3 + hist:])
        t = fr.particles.time()
        calls.append(t)
        expect(nx.particles.time() == t + 1, '%s: next frame', what)
        active = [tr['id'] for tr in trs if t in tr['t'] and t + 1 in tr['t']]
        got = [int(i) for i in fr.particles.trajid()]
        place = dict((tr['id'], tuple(tr['pos'][tr['t'].index(t)])) 
            for tr in trs if tr['id'] in active)
        expect(set(got) <= set(active) and sorted(place[i] for i in got) == 
            sorted(set(place.values())), '%s: particles %s at %s instead of '
            '%s, one for each of the places %s', what, got, t, active, place)
        given.update((i, t) for i in got)
        res = {}
        for trid in got:
            prev = None
            if hist:
                so_far = [v for v in args[3][trid] if v is not None]
                expect([float(v) for v in so_far] == own.get(trid, []), 
                    '%s: history of %s at %s is %s instead of %s', what, trid, 
                    t, args[3][trid], own.get(trid, []))
                prev = own[trid][-1] if trid in own else None
            v = result(kind, trid, t, prev)
            if hist: own.setdefault(trid, []).append(float(v))
            res[trid] = v
        return res
    
    kw = {}
    if sub is not None: kw['subrange'] = sub
    if hist: kw['history'] = True
    if extra: kw['args'] = extra
    res = seq.map_trajectories(f, **kw)
    expect(calls == list(range(first, last)), '%s: called for frames %s', what, 
        calls)
    want = {}
    for tr in trs:
        ts = [t for t in tr['t'][:-1] if first <= t < last]
        if not ts: continue
        series = []
        for t in ts:
            if (tr['id'], t) not in given: # none in that frame
                series.append(np.full(np.shape(result(kind, 0, 0, None)), 
                    np.nan))
                continue
            series.append(result(kind, tr['id'], t, series[-1] if series 
                else None))
        want[tr['id']] = series
    expect(set(int(k) for k in res) == set(want), '%s: results for %s instead '
        'of %s', what, sorted(res), sorted(want))
    for k, v in want.items():
        if not any(i == k for i, t in given): # no result to tell the shape
            expect(len(res[k]) == len(v) and np.isnan(res[k]).all(), '%s: '
                'series of %s, with no results, is %s', what, k, res[k])
            continue
        v = np.array(v)
        expect(np.asarray(res[k]).dtype.kind == v.dtype.kind, '%s: series of '
            '%s has type %s', what, k, np.asarray(res[k]).dtype)
        if kind in (4, 5, 7):
            expect_exact(res[k], v, '%s: series of %s' % (what, k))
        else:
            expect_close(res[k], v, '%s: series of %s' % (what, k))
