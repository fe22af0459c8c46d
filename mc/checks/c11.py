"""Dual scenes: paired frames, and a range that comes back."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C11'
CHUNK = 12
RULE = (
    "Dual scenes (coordinated files, files of unequal extent under a common "
    "range, partial ranges, frames without particles or tracers) x every history up to the tier's depth over: "
    "iterate frames/segments of the default or an explicit range, to the end, "
    "abandoned after k steps, abandoned without a step, closed, with an "
    "exception in the loop body, nested inside another default iteration; "
    "read the underlying scenes; after every history the dual scene and both "
    "underlying scenes must answer as a fresh dual scene does. Reference: "
    "lists of rows.")
ASSUME = ["one explicit-range iterator is alive at a time"]

CONF = ['equal', 'ranged', 'unequal', 'open', 'config', 'gaps', 'longer']
RNGS = [-1, (41, 44), (None, 43), (42, None), None, (40, 41)]
HOW = ['all', 'one', 'none', 'close', 'raise']
OPS = [[w, r, h] for w in ('frames', 'segs') for r in range(len(RNGS)) 
    for h in HOW if not (RNGS[r] == -1 and h in ('none', 'close'))] + \
    [['scenes'], ['meta']] + [['nested', k, r, h] for k in ('frames', 'segs')
    for r in (0, 1, 2) for h in ('all', 'one')]

def cases(tier):
    for c in range(len(CONF)):
        yield [c, []]
        for o in range(len(OPS)):
            yield [c, [o]]
    for c in (1, 3) if tier != 'thorough' else range(len(CONF)):
        for h in itertools.product(range(len(OPS)), repeat=2):
            if tier != 'thorough' and (OPS[h[0]][0] in ('scenes', 'meta') or
                (h[0] + h[1]) % 7 and c == 3): continue
            yield [c, list(h)]
    if tier == 'thorough':
        few = [i for i, o in enumerate(OPS) if len(o) in (1, 4) or o[1] in (1, 3) 
            or (o[1] == 0 and o[2] == 'all')]
        for h in itertools.product(few, repeat=3):
            yield [1, list(h)]

def refs(conf):
    ex = ('size',)
    part = [ref_traj(3, range(40, 44), ex), ref_traj(9, range(42, 46), ex)]
    trac = [ref_traj(3, range(40, 45), ('accel',), 1), 
        ref_traj(1, range(41, 46), ('accel',), 1),
        ref_traj(2, [40, 41, 45], ('accel',), 1)]
    if conf == 'unequal':
        trac = [ref_traj(3, range(30, 45), ('accel',), 1), 
            ref_traj(1, range(41, 50), ('accel',), 1)]
    if conf == 'longer': # one recording goes on after the other
        trac.append(ref_traj(5, range(44, 50), ('accel',), 1))
    if conf == 'gaps': # frames without particles, frames without tracers
        part = [ref_traj(3, [40, 41], ex), ref_traj(9, [44, 45], ex)]
        trac = [ref_traj(3, [40, 41, 42], ('accel',), 1),
            ref_traj(1, [40, 42, 44, 45], ('accel',), 1)]
    return part, trac

def prepare(x, conf):
    if conf in x.cache: return x.cache[conf]
    d = x.dir()
    part, trac = refs(conf)
    pp, tp = os.path.join(d, 'part.h5'), os.path.join(d, 'trac.h5')
    S.write_trajs(pp, part)
    S.write_frames(tp, trac, order=2)
    cfg = os.path.join(d, 's.cfg')
    with open(cfg, 'w') as f:
        f.write("[Particle]\ndiameter = 0.0005\ndensity = 1450\n[Scene]\n"
            "particles file = %s\ntracers file = %s\nfirst frame = 41\n"
            "last frame = 44\nframe rate = 500.0\n" % (pp, tp))
    x.cache[conf] = (part, trac, pp, tp, cfg)
    return x.cache[conf]

class Boom(Exception): pass

def run(case, x):
    from flowtracks.scene import DualScene, read_dual_scene
    from flowtracks.particle import Particle
    conf = CONF[case[0]]
    part, trac, pp, tp, cfg = prepare(x, conf)
    if conf == 'config':
        rng = (41, 45)
        ds = read_dual_scene(cfg)
    else:
        rng = {'equal': None, 'gaps': None, 'longer': None, 'ranged': (41, 45), 'unequal': (40, 44), 
            'open': (41, None)}[conf]
        ds = DualScene(tp, pp, 500., Particle(0.0005, 1450.), rng)
    m = (part, trac, rng, conf, pp)
    hist = []
    for o in case[1]:
        hist.append(OPS[o])
        x.step()
        apply(ds, m, OPS[o], 'after %s' % hist)
        x.state(conf, OPS[o])
    what = 'after %s' % hist
    for op in (['meta'], ['scenes'], ['frames', 0, 'all'], ['segs', 0, 'all']):
        apply(ds, m, op, what)
    x.outcome('depth %d' % len(hist))
    del ds

def bounds(m, rng):
    part, trac, own, conf, _ = m
    a, b = (own if rng == -1 else rng) or (None, None)
    res = []
    for trs in (part, trac):
        lo = min(t['t'][0] for t in trs); hi = max(t['t'][-1] for t in trs) + 1
        res.append((lo if a is None else a, hi if b is None else b))
    return res

def apply(ds, m, op, what):
    part, trac, own, conf, pp = m
    if op[0] == 'meta':
        expect(ds.get_range() == own, '%s: get_range() %s', what, 
            ds.get_range())
        expect(ds.frate == 500. and ds.part.diam == 0.0005 and 
            ds.part.density == 1450., '%s: frate, particle', what)
        expect(ds.get_particles_path() == pp, '%s: path', what)
        for sc, b in zip((ds.get_particles(), ds.get_tracers()), 
                bounds(m, -1)):
            expect(tuple(sc.frame_range()) == b, '%s: range %s instead of %s',
                what, sc.frame_range(), b)
        return
    if op[0] == 'scenes':
        for sc, trs, b in zip((ds.get_particles(), ds.get_tracers()), 
                (part, trac), bounds(m, -1)):
            w = [restrict(t, *b) for t in trs]
            trajs_match([g for g in take(sc.iter_trajectories(), 9) if len(g)],
                [t for t in w if t['t']], what)
            got = take(sc.iter_frames(), 99)
            expect([g.time() for g in got] == list(range(*b)), 
                '%s: frames of underlying scene are %s instead of %s', what, 
                [g.time() for g in got], b)
            pos = sc.collect(['pos'])[0]
            expect(len(pos) == sum(len(t['t']) for t in w), 
                '%s: %d positions collected', what, len(pos))
        return
    
    if op[0] == 'nested':
        pb, tb = bounds(m, -1)
        if pb[0] != tb[0]: return
        seg = op[1] == 'segs'
        n = max(min(pb[1], tb[1]) - pb[0] - seg, 0)
        k = 0
        for item in (ds.iter_segments() if seg else ds.iter_frames()):
            expect(k < n, '%s: too many items of outer iteration', what)
            check_item(m, op[1], item, pb[0] + k, what + ', outer')
            if k < 2:
                apply(ds, m, [('frames', 'segs')[(k + seg) % 2], op[2], op[3]],
                    what + ', inner')
            k += 1
        expect(k == n, '%s: %d items of %d in outer iteration', what, k, n)
        return
    
    kind, r, how = op
    rng = RNGS[r]
    pb, tb = bounds(m, rng)
    if pb[0] != tb[0]:
        return # not coordinated; the documentation asks for this.
    first, last = pb[0], min(pb[1], tb[1])
    n = max(last - first - (kind == 'segs'), 0)
    f = ds.iter_frames if kind == 'frames' else ds.iter_segments
    it = f() if rng == -1 else f(rng)
    if how == 'none':
        del it
        return
    stop = n + 3 if how in ('all',) else 1
    k = 0
    kept = []
    try:
        for item in it:
            t = first + k
            expect(k < n, '%s: too many items of %s in %s', what, kind, rng)
            check_item(m, kind, item, t, what)
            kept.append(item)
            k += 1
            if how == 'raise': raise Boom()
            if k >= stop: break
    except Boom:
        pass
    if how == 'all':
        expect(k == n, '%s: %d items of %s in %s instead of %d', what, k, 
            kind, rng, n)
    for i, kit in enumerate(kept):
        check_item(m, kind, kit, first + i, what + ', kept')
    if how == 'close' and hasattr(it, 'close'):
        it.close()
    del it
    if 'item' in dir(): del item

def check_item(m, kind, item, t, what):
    part, trac = m[:2]
    for name, trs in (('particles', part), ('tracers', trac)):
        if kind == 'frames':
            snap_matches(getattr(item, name), frame_ref(trs, t), t, 
                what + ', ' + name, props(trs[0]))
        else:
            S.segment_matches(getattr(item[0], name), getattr(item[1], name),
                trs, t, what + ', ' + name, props(trs[0]))
