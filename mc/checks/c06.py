"""NPZ directories: what is saved is what is loaded."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import env

PROPERTY = 'C06'
CHUNK = 40
RULE = (
    "All lists of up to 3 trajectories with starts 0..2 (after frame 20 or -1), lengths 1..4 and "
    "(in rotation) time holes, property sets, id sets, added per-trajectory "
    "arrays and free arrays, x directory states (missing, nested, existing, "
    "relative) x listing orders, written by the real writer and loaded over "
    "every combination of first/last in {none, before, start, middle, end, "
    "after}.")
ASSUME = ["added arrays are only claimed for trajectories that are returned"]
EXTRAS = [(), ('accel',), ('accel', 'count'), ('size', 'pair', 'companion'),
    ('wide',), ('number', 'single', 'tensor', 'flag', 'small')]
IDS = [[0, 1, 2], [12, 3, 7], [123456789012, 4, 5], [100, 10, 1]]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    spans = [(s, l) for l in range(1, 5) for s in range(3)]
    for k in (1, 2, 3):
        for sp in itertools.product(spans, repeat=k):
            for rep in range(8 if k == 1 else 3 if k == 2 or deep else 1):
                n += 1
                yield [[list(s) + [int((n + i) % 4 == 0)] for i, s in 
                    enumerate(sp)], n % 6, (n // 2) % 4, n % 4, (n // 3) % 4,
                    (n // 5) % 3, int(deep)]
    yield [[[i % 5, 1 + i % 7, 0] for i in range(150)], 1, 0, 1, 1, 1, 1]

def run(case, x):
    from flowtracks import io
    spec, ex, idset, adds, where, lst, allr = case
    n0 = len(spec) + where
    ids = IDS[idset] if len(spec) <= 3 else [7 * i for i in range(len(spec))]
    base = (20, -1, 20)[(n0 + ex) % 3]
    trs = [ref_traj(ids[i], [base + s + j + (hole if j >= l // 2 else 0)
        for j in range(l)], EXTRAS[ex]) for i, (s, l, hole) in enumerate(spec)]
    d = x.dir()
    cwd = os.getcwd()
    os.chdir(d)
    home = os.environ.get('HOME')
    try:
        rd = None
        if where == 0: path = os.path.join(d, 'res')
        elif where == 1: 
            path = os.path.join(d, 'a', 'b.npz', 'res/')
        elif where == 2:
            path = os.path.join(d, 'res'); os.mkdir(path)
            open(os.path.join(path, 'notes.txt'), 'w').write('none')
            # an earlier save of the same trajectories gets replaced
            io.save_trajectories(path, [make_traj(ref_traj(t['id'], [1, 2], (),
                9)) for t in trs], {})
            x.step()
        else:
            path = 'res'; rd = '~/res'; os.environ['HOME'] = d
        padds = {}
        if adds in (1, 3):
            padds['recon'] = dict((t['id'], np.arange(len(t['t']) * 2.
                ).reshape(-1, 2) + t['id']) for t in trs)
        if adds == 3:
            padds['label'] = dict((t['id'], np.array([t['id'], 5])) 
                for t in trs)
            padds['number'] = dict((t['id'], np.array(t['id'] * 1.5)) 
                for t in trs)
            padds['my traj:pos'] = dict((t['id'], np.zeros((0, 3))) 
                for t in trs)
        free = {} if adds < 2 else {'grid': np.arange(6).reshape(2, 3),
            'traj_x': np.r_[1.5, 2.5], 'rate': np.array(62.5), 
            'names': np.array(['a', 'bc']), 'none': np.zeros((0, 3), 'i2'), 
            'on': np.bool_(True)}
        objs = [make_traj(t) for t in trs]
        # either name of the same directory
        io.save_trajectories(rd if rd and len(spec) % 2 else path, objs, padds, 
            **free)
        x.step()
        x.state(spec, ex, adds)
        for k, v in free.items():
            expect_exact(np.load(os.path.join(path, k + '.npy')), v, 
                'free array %s' % k)
        env.set_listing(lst)
        pts = [None] + [base + i for i in (-1, 0, 1, 3, 5, 20)]
        rngs = [(a, b) for a in pts for b in pts]
        if not allr: 
            r = len(rngs) // 4 + 1
            o = (sum(map(sum, spec)) + ex) % 4
            rngs = rngs[o::4] + [(None, None)]
        for a, b in rngs:
            got, gadds = io.load_trajectories(rd or path, a, b)
            x.step()
            want = [restrict(t, a, None if b is None else b + 1) for t in trs]
            want = [w for w in want if w['t']]
            trajs_match(got, want, 'loaded frames %s to %s' % (a, b),
                kinds={'pos': 'f', 'count': 'i', 'companion': 'i'})
            for k, v in padds.items():
                for w in want:
                    expect(k in gadds and w['id'] in gadds[k], "added array "
                        "%s of trajectory %s not loaded", k, w['id'])
                    expect_exact(gadds[k][w['id']], v[w['id']], 
                        'added array %s of trajectory %s' % (k, w['id']))
            expect(set(gadds) <= set(padds), "additions %s", set(gadds))
        for o, t in zip(objs, trs):
            traj_matches(o, t, 'saved object')
    finally:
        os.chdir(cwd)
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
    x.outcome('%d trajectories' % min(len(trs), 4))
    x.drop(d)
