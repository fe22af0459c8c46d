"""All views of a scene agree, in any order of use, under any frame range."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C08'
CHUNK = 12
RULE = (
    "Scene files (by trajectories, by frames with shuffled rows, without "
    "a bounds table, with one frame, with time holes and empty frames, with frames numbered around 0) x "
    "every history up to the tier's depth over the operations (each result overwritten in place after it is compared): set each kind "
    "of frame range (both limits, either one, none, outside the data, empty), "
    "read by frames / trajectories / id / time / collect / metadata, advance "
    "one of three concurrently active iterators; after every history every "
    "view is read completely and compared to the reference list of rows, and "
    "pending iterators are run to their end.")
ASSUME = ["a running iterator is not continued after the frame range changes"]

SCENES = ['trajs', 'frames', 'nobounds', 'one', 'holes', 'init-range', 'zero',
    'many']
RANGES = [None, [0, 3], [1, None], [None, 4], [2, 3], [-3, 2], [4, 12], 
    [3, 3], [None, None]]
OPS = [['range', r] for r in range(len(RANGES))] + [
    ['frames'], ['trajs'], ['ids'], ['time'], ['collect'], ['segs'], ['meta'],
    ['adv', 'f'], ['adv', 't'], ['adv', 's'], ['bbox']]

def cases(tier):
    for sc in range(len(SCENES)):
        yield [sc, []]
        for n in ((1, 2) if SCENES[sc] != 'many' else (1,)):
            for h in itertools.product(range(len(OPS)), repeat=n):
                yield [sc, list(h)]
    act = [i for i, o in enumerate(OPS) if o[0] in ('adv', 'segs', 'frames') 
        or o == ['range', 4] or o == ['range', 2]]
    if tier == 'thorough':
        for h in itertools.product(range(len(OPS)), repeat=2):
            yield [len(SCENES) - 1, list(h)]
        for sc in range(len(SCENES) - 1):
            for h in itertools.product(range(len(OPS)), repeat=3):
                yield [sc, list(h)]
        act = act
        for sc in (1, 4):
            for h in itertools.product(act, repeat=4):
                yield [sc, list(h)]
    else:
        for h in itertools.product(act, repeat=3):
            yield [1, list(h)]

BASE = 20

def base(name):
    # frame numbers on both sides of 0, if the user counts them so
    return -2 if name == 'zero' else BASE

def scene_refs(name):
    BASE = base(name)
    ex = ('size', 'count', 'pair')
    if name == 'one':
        return [ref_traj(4, [BASE + 2], ex), ref_traj(2, [BASE + 2], ex)]
    if name == 'holes':
        return [ref_traj(7, [BASE, BASE + 1, BASE + 4], ex), 
            ref_traj(3, [BASE + 1, BASE + 5, BASE + 6], ex),
            ref_traj(300000000000, [BASE + 6], ex)]
    if name == 'many':
        # numbered from 0, file rows shuffled
        return [ref_traj(i * 37 % 101 + 10 ** (2 + i % 9), range(s, s + 1 + 
            i * 7 % 23), ex) for i, s in enumerate((i * 11 % 67 for i in 
            range(1, 61)))]
    return [ref_traj(11, range(BASE, BASE + 4), ex), 
        ref_traj(5, range(BASE + 1, BASE + 6), ex), 
        ref_traj(8, range(BASE + 3, BASE + 5), ex),
        ref_traj(6, [BASE + 1], ex)]

def prepare(x, name):
    if name not in x.cache:
        d = x.dir()
        p = os.path.join(d, name + '.h5')
        trs = scene_refs(name)
        if name in ('frames', 'holes', 'many'):
            S.write_frames(p, trs, order=2 if name == 'frames' else 1)
        else:
            S.write_trajs(p, trs)
        if name == 'nobounds': S.drop_bounds(p)
        x.cache[name] = (p, trs)
    return x.cache[name]

class Model(object):
    def __init__(self, trs, rng):
        self.trs = trs
        self.names = props(trs[0])
        self.its = {}
        self.set(rng)
    
    def set(self, rng):
        lo = min(t['t'][0] for t in self.trs)
        hi = max(t['t'][-1] for t in self.trs) + 1
        a, b = (None, None) if rng is None else rng
        self.first = lo if a is None else a
        self.last = hi if b is None else b
        self.its = {}
    
    def in_range(self):
        r = [restrict(t, self.first, self.last) for t in self.trs]
        return [t for t in r if t['t']]

def run(case, x):
    from flowtracks.scene import Scene
    name = SCENES[case[0]]
    path, trs = prepare(x, name)
    rng0 = (BASE + 1, BASE + 5) if name == 'init-range' else None
    scene = Scene(path, rng0)
    m = Model(trs, rng0)
    hist = []
    try:
        for o in case[1]:
            op = OPS[o]
            hist.append(op)
            x.step()
            apply(scene, m, op, name, 'after %s' % hist)
            x.state(name, m.first, m.last, sorted((k, v[1]) for k, v in 
                m.its.items()))
        what = 'after %s' % hist
        for op in (['frames'], ['trajs'], ['segs'], ['collect'], ['ids'],
                ['meta']):
            apply(scene, m, op, name, what)
        # pending iterators get to their end:
        for k in list(m.its):
            for _ in range(200):
                if apply(scene, m, ['adv', k], name, what) == 'end': break
            else: raise Violation("%s: iterator does not end" % what)
        x.outcome('range of %d frames' % min(m.last - m.first, 9))
    finally:
        m.its.clear()
        del scene

def apply(scene, m, op, name, what):
    if op[0] == 'range':
        r = RANGES[op[1]]
        if r is not None:
            r = tuple(None if v is None else v + base(name) for v in r)
        m.set(r)
        scene.set_frame_range(r)
        expect(tuple(scene.frame_range()) == (m.first, m.last), 
            "%s: frame_range() is %s instead of %s", what, 
            scene.frame_range(), (m.first, m.last))
    
    elif op[0] == 'frames':
        got = take(scene.iter_frames(), 100)
        expect([g.time() for g in got] == list(range(m.first, m.last)), 
            "%s: frames %s instead of %d to %d", what, 
            [g.time() for g in got], m.first, m.last)
        for g in got:
            snap_matches(g, frame_ref(m.trs, g.time()), g.time(), what, 
                m.names)
        spoil(*got)
    
    elif op[0] == 'trajs':
        got = take(scene.iter_trajectories(), 100)
        ids = [int(g.trajid()) for g in got]
        expect(len(set(ids)) == len(ids), '%s: ids repeat %s', what, ids)
        trajs_match([g for g in got if len(g)], m.in_range(), what)
        spoil(*got)
    
    elif op[0] == 'ids':
        for t in m.trs:
            for again in ('', ' again'):
                got = scene.trajectory_by_id(t['id'])
                traj_matches(got, restrict(t, m.first, m.last), 
                    what + ', by id' + again)
                spoil(got)
    
    elif op[0] == 'time':
        # not limited by range.
        lo = min(t['t'][0] for t in m.trs); hi = max(t['t'][-1] for t in m.trs)
        for t in (hi, lo, lo + 1, (lo + hi) // 2):
            for again in ('', ' again'):
                got = scene.frame_by_time(t)
                snap_matches(got, frame_ref(m.trs, t), t, 
                    what + ', by time' + again, m.names)
                spoil(got)
    
    elif op[0] == 'collect':
        rows = [(t['id'], f, t['pos'][i], t['count'][i], t['pair'][i]) 
            for t in m.in_range() for i, f in enumerate(t['t'])]
        keys = ['pair', 'trajid', 'pos', 'time', 'count']
        got = scene.collect(keys)
        expect(len(got) == len(keys), '%s: %d results collected', what, 
            len(got))
        for g, k in zip(got, keys):
            expect(len(g) == len(rows), '%s: collected %d of %s, expected %d', 
                what, len(g), k, len(rows))
        have = sorted((int(got[1][i]), int(got[3][i]), got[2][i].tolist(), 
            int(got[4][i]), got[0][i].tolist()) for i in range(len(rows)))
        if have != sorted((a, b, list(c), d, list(e)) for a, b, c, d, e in 
                rows):
            raise Violation('%s: collected %s, expected %s' % (what, have, 
                sorted(rows)))
        one = scene.collect(['size'])
        expect(len(one) == 1, '%s: single collect', what)
        expect_close(np.sort(one[0]), np.sort([v for t in m.in_range() 
            for v in t['size']]), what + ', collected size')
        spoil(*(list(got) + list(one)))
    
    elif op[0] == 'segs':
        got = take(scene.iter_segments(), 100)
        ts = list(range(m.first, m.last - 1))
        expect([g[0].time() for g in got] == ts, "%s: segments at %s, "
            "expected %s", what, [g[0].time() for g in got], ts)
        for a, b in got:
            S.segment_matches(a, b, m.trs, a.time(), what, m.names)
        for pair in got:
            spoil(*pair)
    
    elif op[0] == 'meta':
        ids = sorted(int(i) for i in scene.trajectory_ids())
        expect(ids == sorted(t['id'] for t in m.trs), '%s: ids %s', what, ids)
        expect(dict(zip(scene.keys(), scene.shapes())) == {'pos': 3, 
            'velocity': 3, 'size': 1, 'count': 1, 'pair': 2} and
            len(scene.keys()) == 5, '%s: keys %s shapes %s', what, 
            scene.keys(), scene.shapes())
        expect(tuple(scene.frame_range()) == (m.first, m.last), 
            "%s: frame_range() is %s instead of %s", what, 
            scene.frame_range(), (m.first, m.last))
        if name != 'nobounds':
            tags = scene.trajectory_tags()
            expect_exact(sorted(tags.tolist()), sorted([t['id'], t['t'][0], 
                t['t'][-1]] for t in m.trs), what + ', tags')
    
    elif op[0] == 'bbox':
        # claimed for the whole scene only
        if m.in_range() != m.trs: return
        p = np.array([p for t in m.trs for p in t['pos']])
        mn, mx = scene.bounding_box()
        expect_close(mn, p.min(axis=0), what + ', box minimum')
        expect_close(mx, p.max(axis=0), what + ', box maximum')
    
    elif op[0] == 'adv':
        k = op[1]
        if k not in m.its:
            it = {'f': scene.iter_frames, 't': scene.iter_trajectories, 
                's': scene.iter_segments}[k]()
            m.its[k] = [it, 0, set()]
        rec = m.its[k]
        try:
            item = next(rec[0])
        except StopIteration:
            if k == 'f':
                end = max(m.last - m.first, 0)
            elif k == 's':
                end = max(m.last - m.first - 1, 0)
            else:
                miss = set(t['id'] for t in m.in_range()) - rec[2]
                expect(not miss, "%s: trajectories %s not iterated", what, 
                    miss)
                end = rec[1]
            expect(rec[1] == end, "%s: iterator %s ended after %d items of %d",
                what, k, rec[1], end)
            del m.its[k]
            return 'end'
        t = m.first + rec[1]
        if k == 'f':
            expect(t < m.last, '%s: too many frames', what)
            snap_matches(item, frame_ref(m.trs, t), t, what, m.names)
        elif k == 's':
            expect(t < m.last - 1, '%s: too many segments', what)
            S.segment_matches(item[0], item[1], m.trs, t, what, m.names)
        else:
            trid = int(item.trajid())
            expect(trid not in rec[2], '%s: %s iterated twice', what, trid)
            rec[2].add(trid)
            ref = [t for t in m.trs if t['id'] == trid]
            expect(ref, '%s: unknown trajectory %s', what, trid)
            traj_matches(item, restrict(ref[0], m.first, m.last), what)
        rec[1] += 1
