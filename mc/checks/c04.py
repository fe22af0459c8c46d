"""HDF table of trajectories: what is saved is what is read."""
import os, itertools, warnings
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C04'
CHUNK = 20
EXTRAS = [(), ('accel',), ('accel', 'count'), ('size', 'pair', 'companion'),
    ('wide', 'accel', 'size'), ('number', 'single', 'flag', 'small', 'tensor')]
IDS = [[0, 1, 2, 3], [5, 3, 9, 4], [1000000007, 2, 12345678901, 7],
    [10, 2, 1, 33]]
RULE = (
    "All lists of up to 3 trajectories with starts 0..2 and lengths 1..5 "
    "(quick: a subset of the spans in triples) "
    "(single ones up to 9, with and without time holes) x every trim {none,"
    "0..3} that leaves something, property sets, id sets (large, unsorted), "
    "frame offsets from -2 to 10^7, value types and overwriting assigned in "
    "rotation; written by the real writer, read back by every reader of the "
    "format over all inclusive ranges (each end inside, at, and outside the "
    "data; quick: every 4th range per case, in turn). A property of every name "
    "out of a list (any identifier may be one); every pair of kinds of values "
    "(type, shape, none) a property may have in one trajectory or frame and in "
    "another: stored exactly or refused.")
ASSUME = ["at least one trajectory outlasts the trimming (saving nothing is "
    "an error)"]

def cases(tier):
    for name in NAMES:
        for frames in (0, 1):
            yield ['names', name, frames]
    for a in MIXED:
        for b in MIXED:
            for frames in (0, 1):
                for trim in ((None, 1) if not frames else (None,)):
                    yield ['mixed', a, b, frames, trim]
    for c in _cases(tier):
        yield c + [int(tier == 'thorough')]

# Property names: any Python identifier may be one.
NAMES = ['t', 'trid', 'tn', 'tp', 'ta', 'k', 'key', 'keys', 'rng', 'arr', 
    'raw', 'cond', 'where', 'field', 'row', 'rows', 'table', 'frame', 'file', 
    'first', 'last', 'query_string', 'i', 'n', 'x', 'tr', 'traj', 'id', 'ids',
    'mass', 'Re', '_t', 'time_', 't0', 'it', 'fname', 'outfile', 'limit', 
    'trajid_', 'accel_', 'e', 'pi', 'int', 'float', 'sin', 'sqrt']

# What a property is in one trajectory or frame but not in another
MIXED = {'float': lambda n: np.arange(n) * 1.5 + 0.25, 
    'whole': lambda n: np.arange(n) * 2., 
    'int': lambda n: np.arange(n) + 5,
    'small': lambda n: (np.arange(n) + 3).astype(np.int8),
    'big': lambda n: np.arange(n) + 2 ** 40,
    'unsigned': lambda n: (np.arange(n) + 2 ** 31 + 5).astype(np.uint32),
    'negative': lambda n: -np.arange(n) - 1,
    'bool': lambda n: np.arange(n) % 2 == 0,
    'nan': lambda n: np.arange(n) * np.nan,
    'column': lambda n: np.arange(n)[:,None] * 2.5,
    'rows': lambda n: np.arange(3 * n).reshape(n, 3) * 2.5,
    'irows': lambda n: np.arange(3 * n).reshape(n, 3),
    'matrix': lambda n: np.arange(9 * n).reshape(n, 3, 3) * 2.5,
    'missing': None, 'other': None}

def mixed(x, a, b, frames, trim):
    """What can't be stored together is refused, not distorted."""
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import Trajectory, ParticleSnapshot
    n = 3 if trim is None else 5
    d = x.dir()
    p = os.path.join(d, 's.h5')
    objs, want = [], []
    for i, m in enumerate((a, b, a)):
        pos = (np.arange(n * 3) + 10 * i).reshape(n, 3) / 4.
        kw = {} if m == 'missing' else {'unlike': np.arange(n) + .5} \
            if m == 'other' else {'prop': MIXED[m](n)}
        if m == 'irows': pos = np.arange(n * 3).reshape(n, 3) + 10 * i
        kw.update(pos=pos, velocity=pos + 1)
        if frames:
            objs.append(ParticleSnapshot(time=20 + i, trajid=np.arange(n), 
                **kw))
        else:
            t = np.arange(n) + 20
            if m == 'float' and i == 1 and a != b: t = t + 0.5
            objs.append(Trajectory(time=t, trajid=i, **kw))
            if trim: kw = dict((k, v[trim:-trim]) for k, v in kw.items())
            kw['time'] = t[trim:-trim] if trim else t
        want.append(kw)
    x.step(); x.state(a, b, frames, trim)
    what = 'property of %s, then of %s' % (a, b)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if frames: io.save_frames_hdf(p, objs)
            else: io.save_particles_table(p, objs, trim)
    except (ValueError, TypeError, KeyError, OverflowError) as e:
        expect(a != b, '%s: refused, %s', what, e)
        x.outcome('refused'); x.drop(d)
        return
    sc = Scene(p)
    got = list(sc.iter_frames() if frames else sc.iter_trajectories())
    expect(len(got) == 3, '%s: %d read', what, len(got))
    for g, w in zip(got, want):
        have = g.as_dict()
        have.pop('trajid', None)
        expect(set(have) == set(w), '%s: has %s instead of %s', what, 
            sorted(have), sorted(w))
        for k, v in w.items():
            expect(have[k].shape == v.shape and np.array_equal(have[k].astype(
                np.longdouble), v.astype(np.longdouble), equal_nan=True), 
                '%s: %s is %s instead of %s', what, k, have[k], v)
    del sc
    x.outcome('stored')
    x.drop(d)

def names(x, name, frames):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import Trajectory, ParticleSnapshot
    refs = [ref_traj(i, range(50 + s, 50 + e)) for i, s, e in ((3, 0, 4), 
        (52, 1, 5), (51, 2, 4))]
    def own(i, t): return i * 2.5 + (t - 50) * (t - 50) + 0.125
    d = x.dir()
    p = os.path.join(d, 's.h5')
    if frames:
        fr = []
        for t in range(50, 55):
            rows = frame_ref(refs, t)
            ids = sorted(rows, reverse=bool(t % 2))
            fr.append(ParticleSnapshot(np.array([rows[i]['pos'] for i in ids]), 
                np.array([rows[i]['velocity'] for i in ids]), t, np.array(ids), 
                **{name: np.array([own(i, t) for i in ids])}))
        io.save_frames_hdf(p, fr)
    else:
        io.save_particles_table(p, [Trajectory(np.array(r['pos']), 
            np.array(r['velocity']), np.array(r['t']), r['id'], 
            **{name: np.array([own(r['id'], t) for t in r['t']])}) 
            for r in refs])
    def match(got, a, b, what):
        what = 'property named %s: %s, %s to %s' % (name, what, a, b)
        want = [r for r in (restrict(r, a, b) for r in refs)]
        got = dict((int(g.trajid()), g) for g in got)
        expect(set(got) >= set(r['id'] for r in want if r['t']), '%s: ids %s', 
            what, sorted(got))
        for r in want:
            if r['id'] not in got: continue
            g = got[r['id']]
            expect_exact(g.time(), np.array(r['t'], dtype=int), what)
            if not r['t']: continue
            expect_close(g.pos(), r['pos'], what)
            expect_close(getattr(g, name)(), [own(r['id'], t) for t in r['t']],
                what)
    for a, b in ((None, None), (51, 54), (None, 53), (52, None), (60, 70)):
        x.step(); x.state(name, frames, a, b)
        match(io.trajectories_table(p, a, None if b is None else b - 1), a, b, 
            'table')
        sc = Scene(p, (a, b))
        expect(name in sc.keys(), '%s is not one of the keys', name)
        match(sc.iter_trajectories(), a, b, 'scene')
        match([sc.trajectory_by_id(i) for i in (52, 3, 51)], a, b, 'by id')
        lo, hi = a or 50, b or 55
        its = [f for f in sc.iter_frames()] + [sc.frame_by_time(t) 
            for t in range(lo, min(hi, 55))]
        its += [f for pair in sc.iter_segments() for f in pair]
        for k, f in enumerate(its):
            ref = frame_ref(refs, f.time())
            ids = f.trajid().tolist()
            if k < hi - lo: expect(sorted(ids) == sorted(ref), 'property '
                'named %s: frame %s has %s', name, f.time(), ids)
            expect_close(getattr(f, name)(), [own(i, f.time()) for i in ids],
                'property named %s: frame %s' % (name, f.time()))
            expect_close(f.pos(), np.array([ref[i]['pos'] for i in 
                ids]).reshape(-1, 3), 'property named %s: pos at %s' % (name, 
                f.time()))
        rows = [(own(r['id'], t), t) for r in refs for t in r['t'] 
            if lo <= t < hi]
        if lo >= 60: continue
        if name in ('where', 'sin', 'sqrt'): # they mean something else in
            continue                         # a condition
        got = sc.collect([name, 'time'], {name: (8., 130., False)})
        expect(sorted(zip(got[0].tolist(), got[1].tolist())) == sorted(r for r 
            in rows if 8 <= r[0] < 130), 'property named %s: collected %s', 
            name, got)
    x.outcome('names')
    x.drop(d)

def _cases(tier):
    deep = tier == 'thorough'
    n = 0
    spans = [(s, l) for l in range(1, 6) for s in range(3)]
    for s, l in [(s, l) for l in range(1, 10) for s in (0, 1)]:
        for trim in (None, 0, 1, 2, 3, 4):
            for ex in range(len(EXTRAS)):
                for hole in (0, 1, 2):
                    n += 1
                    yield [[[s, l, hole]], trim, ex, n % 4, n % 6, n % 3]
    for k in (2, 3):
        if k == 3 and not deep:
            spans = [(s, l) for l in (1, 2, 3, 5) for s in (0, 2)]
        for sp in itertools.product(spans, repeat=k):
            trims = (None, 0, 1, 2) if k == 2 or deep else (
                (None, 0, 1, 2)[n % 4],)
            n += 1
            for trim in trims:
                n += 1
                yield [[list(s) + [1 if (n + i) % 5 == 0 else 0] 
                    for i, s in enumerate(sp)], trim, n % 6, (n // 3) % 4,
                    (n // 2) % 6, (n // 7) % 3]
    for many in ([200, 3], [3, 3000], [900, 2], [40, 40]):
        for trim in (None, 1):
            yield [['many'] + many, trim, 1, 0, 0, 0]

OFFSETS = [0, 1, 10001, -2, 9999999, 3]

def build(case):
    spec, trim, ex, idset, off, typ, allr = case
    if spec[0] == 'many':
        return [ref_traj(i * 3 + 1, range(i % 7, i % 7 + spec[2]), 
            EXTRAS[ex]) for i in range(spec[1])]
    res = []
    for i, (s, l, hole) in enumerate(spec):
        times = [OFFSETS[off] + s + j + (hole if j >= l // 2 else 0) 
            for j in range(l)]
        res.append(ref_traj(IDS[idset][i], times, EXTRAS[ex]))
    return res

def run(case, x):
    from flowtracks import io
    from flowtracks.scene import Scene
    if case[0] == 'names': return names(x, *case[1:])
    if case[0] == 'mixed': return mixed(x, *case[1:])
    spec, trim, ex, idset, off, typ, allr = case
    trs = build(case)
    k = trim or 0
    want = []
    for tr in trs:
        if len(tr['t']) - 2 * k <= 0: continue
        w = {'id': tr['id'], 't': tr['t'][k:len(tr['t']) - k]}
        for p in props(tr):
            w[p] = tr[p][k:len(tr['t']) - k]
        want.append(w)
    if not want:
        x.outcome('out of domain')
        return
    x.state('tab', case)
    d = x.dir()
    fname = os.path.join(d, ('a.h5', 'a.hdf', 'scene.v1.h5')[typ])
    objs = [make_traj(t, float if typ == 1 else int) for t in trs]
    if typ == 2 and len(objs) > 1:
        # the same properties, created in another order
        from flowtracks.trajectory import Trajectory
        old = objs[-1]
        kw = dict(reversed(list(old.as_dict().items())))
        objs[-1] = Trajectory(trajid=old.trajid(), **kw)
    if off % 2:
        # something else was there before.
        io.save_particles_table(fname, [make_traj(ref_traj(77, range(9), 
            ('size',)))])
        x.step()
    before = [dict((n, v.copy()) for n, v in o.as_dict().items()) 
        for o in objs]
    io.save_particles_table(fname, objs, trim)
    x.step()
    for o, b in zip(objs, before):
        for n, v in o.as_dict().items():
            expect_exact(v, b[n], 'saving changed %s of its input', n)
    
    kinds = {'pos': 'f', 'velocity': 'f', 'accel': 'f', 'count': 'i', 
        'companion': 'i', 'size': 'f'}
    scene = Scene(fname)
    try:
        got = take(scene.iter_trajectories(), len(want) + 3)
        trajs_match(got, want, 'Scene of saved table', kinds=kinds)
        tags = scene.trajectory_tags()
        expect_exact(sorted(tags.tolist()), sorted([[w['id'], w['t'][0],
            w['t'][-1]] for w in want]), 'bounds recorded')
        lo = min(w['t'][0] for w in want)
        hi = max(w['t'][-1] for w in want)
        expect(tuple(scene.frame_range()) == (lo, hi + 1), 
            "frame range %s instead of %s", scene.frame_range(), (lo, hi + 1))
        expect(sorted(int(i) for i in scene.trajectory_ids()) == 
            sorted(w['id'] for w in want), "ids %s", scene.trajectory_ids())
    finally:
        del scene
    x.step()
    if spec[0] == 'many': 
        rngs = [(None, None), (lo + 1, hi - 1)]
    else:
        mid = (lo + hi) // 2
        pts = sorted(set([lo - 1, lo, mid, hi, hi + 1]))
        rngs = [(a, b) for a in [None] + pts for b in pts + [None]
            if (a is None or b is None or a <= b)]
    if spec[0] != 'many' and not allr:
        # Each case takes every 4th, in turn; all occur for similar cases.
        r = sum(map(sum, spec)) + k + ex
        rngs = rngs[r % 4::4]
    for a, b in rngs:
        x.step()
        got = io.trajectories_table(fname, a, b)
        w = [restrict(t, a, None if b is None else b + 1) for t in want]
        w = [t for t in w if t['t']]
        trajs_match([g for g in got if len(g) > 0], w,
            'frames %s to %s of saved table' % (a, b))
    x.outcome('%d of %d saved' % (len(want), len(trs)) if len(trs) < 4 else
        'many')
    x.drop(d)
