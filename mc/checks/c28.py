"""Collecting the particles of one frame, and single-frame configurations."""
import itertools, os, warnings
from ..core import expect, Violation
from ..util import *
from .. import util
from . import c07

PROPERTY = 'C28'
CHUNK = 40
RULE = (
    "Every set of up to 3 trajectories out of all spans within 4 frames "
    "(thorough: up to 4), in two orders, with and without particles at the "
    "same place, collected at each frame in and around them, singly and with "
    "following particles, from trajAcc files, Matlab files and lists, with "
    "(also long ones), with "
    "and without frames missing inside the trajectories of the list; "
    "single-frame configurations over every pair of tracer/particle formats "
    "x frames x scenes.")
ASSUME = ["trajAcc files exist for the frame asked", 
    "there is at least one trajectory in the two frames after the one asked "
    "in a single-frame configuration, and for link files it ends there"]

SPANS = [(a, b) for a in range(4) for b in range(a, 4)]
BASE = 98

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for m in range(1, 5 if deep else 4):
        for spans in itertools.product(range(len(SPANS)), repeat=m):
            n += 1
            if m == 4 and n % 7: continue
            if m == 3 and not deep and n % 3: continue
            yield ['collect', list(spans), n % 3]
    for coin in (0, 1, 2):
        yield ['collect', [[i * 7 % 23 - 5, i * 7 % 23 - 5 + i * 5 % 19] 
            for i in range(45)], coin]
        # long paths
        yield ['collect', [[0, 130], [3, 40], [5, 4 + 64], [110, 125]], coin]
    fmts = ('hdf', 'frames', 'npz', 'mat', 'ptvis', 'acc')
    for ft in fmts:
        for fp in fmts:
            for sc in range(9):
                # the last ones are of trajectories with holes
                if sc > 5 and ft in ('ptvis', 'acc'): continue
                for frame in range(-1, 4):
                    yield ['conf', ft, fp, sc, frame]

def film(spans, coin):
    """coin: every second trajectory repeats places of the one before"""
    trs = []
    for i, s in enumerate(spans):
        a, b = SPANS[s] if isinstance(s, int) else s
        t = ref_traj(i, range(BASE + a, BASE + b + 1), ('accel',))
        if i and (coin == 1 or coin == 2 and i % 2):
            for j, f in enumerate(t['t']):
                if f in trs[-1]['t'] and (coin == 1 or f % 2):
                    t['pos'][j] = list(trs[-1]['pos'][trs[-1]['t'].index(f)])
        trs.append(t)
    return trs

def row(t, f, last):
    i = t['t'].index(f)
    return list(t['pos'][i]) + list(t['velocity'][i]) + list(last(t, f))

def unique(rows):
    """rows, or pairs of them, first of each place kept"""
    res, seen = [], set()
    for r in rows:
        k = tuple(r[0][:3])
        if k in seen: continue
        seen.add(k); res.append(r)
    return res

def same_rows(got, want, path_seg, cols, what):
    """as sets; got: array, want: list of [row] or [row, next row]"""
    if path_seg:
        expect(got.shape == (2, len(want), cols), '%s: shape %s, not %s', what,
            got.shape, (2, len(want), cols))
        g = sorted([got[0, i].tolist(), got[1, i].tolist()] 
            for i in range(len(want)))
    else:
        expect(got.shape == (len(want), cols), '%s: shape %s, not %s', what, 
            got.shape, (len(want), cols))
        g = sorted([got[i].tolist()] for i in range(len(want)))
    expect_close(np.array(g), np.array(sorted(want)).reshape(np.shape(g)), 
        what, rtol=1e-9, atol=1e-9)

def want_rows(trs, f, path_seg, last):
    sel = [t for t in trs if f in t['t'] and (not path_seg or f + 1 in t['t'])]
    return [[row(t, f, last)] + ([row(t, f + 1, last)] if path_seg else [])
        for t in sel]

def run(case, x):
    util.DIV = 64. # values to be stored as text
    (run_collect if case[0] == 'collect' else run_conf)(case, x)

def some_of(rows):
    """{place: candidates}, of which one of each place is wanted"""
    d = {}
    for r in rows: d.setdefault(tuple(np.round(r[0][:3], 9)), []).append(r)
    return d

def compare(got, rows, path_seg, cols, what):
    cand = some_of(rows)
    if len(cand) == len(rows):
        return same_rows(got, rows, path_seg, cols, what)
    # which of the coincident ones is kept is free
    n = got.shape[1] if path_seg else got.shape[0]
    expect(n == len(cand), '%s: %d particles at %d places', what, n, len(cand))
    pick = []
    for i in range(n):
        g = [got[0, i].tolist(), got[1, i].tolist()] if path_seg else \
            [got[i].tolist()]
        for k, c in cand.items():
            if close(k, g[0][:3], atol=1e-8): break
        else: raise Violation('%s: no particle at %s' % (what, g[0][:3]))
        expect(any(close(np.array(g), np.array(r), atol=1e-8) for r in c), 
            '%s: %s is of no particle', what, g)
        del cand[k]

def run_collect(case, x):
    from flowtracks import io
    _, spans, coin = case
    trs = film(spans, coin)
    d = x.dir()
    hi = max(t['t'][-1] for t in trs)
    p = os.path.join(d, 'trajAcc.%d')
    for f in range(min(t['t'][0] for t in trs), hi + 2):
        with open(p % f, 'w') as out:
            for t in trs:
                if t['t'][0] != f: continue
                for i in range(len(t['t'])):
                    out.write(' '.join('%.12g' % v for v in list(t['pos'][i]) + 
                        list(t['velocity'][i]) + list(t['accel'][i]) + 
                        [0.5] * 24 + [i]) + '\n')
    mat, _ = c07.store('mat', trs, d, BASE)
    objs = [make_traj(t, (int, float)[len(spans) % 2]) for t in trs]
    # The same without some inner frames: every second one, or the second.
    holey = []
    for k, t in enumerate(trs):
        keep = [i for i in range(len(t['t'])) if i != 1 and (k % 2 or i != 2)]
        holey.append(dict((q, [v[i] for i in keep] if q != 'id' else v) 
            for q, v in t.items()))
    hobjs = [make_traj(t, (float, int)[len(spans) % 2]) for t in holey]
    age = lambda t, f: [f - t['t'][0]]
    ident = lambda t, f: [f, t['id']]
    lo = min(t['t'][0] for t in trs)
    for f in range(BASE - 1, hi + 3):
        for seg in (False, True):
            x.step(); x.state(spans, coin, f, seg)
            opt = (True,) if seg else ((), (False,))[f % 2]
            what = 'frame %d%s' % (f, ', paired' if seg else '')
            if lo <= f <= hi + 1:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore') # of empty files.
                    got = io.collect_particles(p, f, *opt)
                compare(got, want_rows(trs, f, seg, age), seg, 7, 
                    'trajAcc files, ' + what)
            want = want_rows(trs, f, seg, ident)
            compare(io.collect_particles_generic(objs, f, *opt), want, seg, 8, 
                'trajectories, ' + what)
            want = want_rows(holey, f, seg, ident)
            compare(io.collect_particles_generic(hobjs, f, *opt), want, seg, 8, 
                'trajectories with frames missing, ' + what)
            want = want_rows(trs, f, seg, ident)
            compare(io.collect_particles_mat(mat, f, *opt), want, seg, 8, 
                'Matlab file, ' + what)
    x.drop(d)
    x.outcome('%d trajectories' % len(spans))

SCENES = [
    [(0, 3), (0, 0), (1, 2), (0, 1), (2, 3)],
    [(0, 1), (1, 3)],
    [(1, 3), (0, 3), (0, 2)],
    [(2, 3), (1, 2), (0, 1), (0, 3)],
    [(1, 1), (2, 2), (0, 3)],
    [(0, 2)]]

def run_conf(case, x):
    from flowtracks import io
    _, ft, fp, sc, df = case
    frame = BASE + df
    d = x.dir()
    lists, files = [], []
    holes, sc = sc > 5, sc % 6
    for i, (fmt, s) in enumerate(((ft, sc), (fp, (sc * 2 + 1) % 6))):
        trs = film([SPANS.index(q) for q in SCENES[s]], 0)
        if holes and fmt not in ('ptvis', 'acc'):
            for k, t in enumerate(trs):
                out = BASE + 1 + k % 2
                if not t['t'][0] < out < t['t'][-1]: continue
                j = t['t'].index(out)
                for q in t:
                    if q != 'id': t[q] = t[q][:j] + t[q][j + 1:]
        if i: 
            for t in trs: t['pos'] = [[c + 1000. for c in q] for q in t['pos']]
        if fmt == 'ptvis':
            for t in trs:
                # kinematics are derived
                p = np.array(t['pos'])
                v = np.zeros_like(p); v[:-1] = np.diff(p, axis=0) * 25.
                t['velocity'] = v.tolist()
                if len(p) < 2: continue
                a = np.zeros_like(p); a[:-2] = np.diff(v[:-1], axis=0) * 25.
                t['accel'] = a.tolist()
        sub = os.path.join(d, 'tp'[i] + fmt)
        os.mkdir(sub)
        name, _ = c07.store(fmt, trs, sub, BASE)
        files.append(name)
        exp = c07.expected(fmt, trs, frame, frame + 2, 2)
        lists.append(exp)
    if not lists[0] or not lists[1]:
        x.drop(d)
        x.outcome('not applicable')
        return
    conf = os.path.join(d, 'frame.cfg')
    with open(conf, 'w') as f:
        f.write('[Particle]\ndiameter: 500e-6\ndensity = 1450\n\n[Scene]\n'
            'frame = %d\nframe rate = 25\ntracer_file = %s\npart_file: %s\n' % (
            frame, files[0].replace('%', '%%'), files[1].replace('%', '%%')))
    part, rate, fr, nx = io.read_frame_data(conf)
    x.step(); x.state(case)
    expect(part.diam == 5e-4 and part.density == 1450. and rate == 25., 
        'scalars')
    for name, trs in (('tracers', lists[0]), ('particles', lists[1])):
        both = [t for t in trs if frame in t['t'] and frame + 1 in t['t']]
        order = []
        for f, fo in ((frame, fr), (frame + 1, nx)):
            snap = getattr(fo, name)
            expect(snap.time() == f, 'time of %s', name)
            expect(len(snap) == len(both), '%s of frame %d: %d instead of %d', 
                name, f, len(snap), len(both))
            expect(set(snap.schema()) - {'trajid'} == 
                {'pos', 'velocity', 'accel'}, 'properties %s', snap.schema())
            left = list(both)
            ids = [int(i) for i in snap.trajid()]
            expect(len(set(ids)) == len(ids), 'repeated ids')
            order.append(ids)
            seq = []
            for i in range(len(snap)):
                for t in left:
                    if close(snap.pos()[i], t['pos'][t['t'].index(f)], 
                        rtol=1e-6): break
                else: raise Violation('%s of frame %d: no particle at %s' % (
                    name, f, snap.pos()[i]))
                left.remove(t)
                seq.append(t['id'])
                for k in ('velocity', 'accel'):
                    expect_close(getattr(snap, k)()[i], t[k][t['t'].index(f)], 
                        '%s of %s, frame %d', k, name, f, rtol=1e-6, atol=1e-6)
            order.append(seq)
        expect(order[0] == order[2] and order[1] == order[3], 'rows of the '
            'two frames are of different %s: %s', name, order)
    x.drop(d)
    x.outcome('%d in frame' % min(3, len(fr.particles)))
