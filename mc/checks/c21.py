"""Analysed scenes: every particle row goes with its own analysis."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C21'
CHUNK = 10
RULE = (
    "Every presence pattern of 2 particles in 4 frames (thorough: 3 in 4) x "
    "rotation over row orders, configured ranges, analysed ranges, column "
    "sets, with every read of the analysed scene: keys, shapes, trajectories "
    "by id and iterated, collection of several key lists without conditions "
    "and with conditions on particle properties, analysis columns and both. "
    "One larger scene: every condition from a limit set on each of five "
    "columns and each pair of columns x inverted or not. All sequences of 3 "
    "reads. Properties and analysis columns of every pair of names out of a "
    "list.")
ASSUME = ["analysis columns and particle properties have distinct names",
    "scalar columns in conditions"]
BASE = 60
CONFR = [(BASE, BASE + 4), (BASE + 1, BASE + 4), (BASE, BASE + 3), 
    (BASE - 2, BASE + 6)]
ANR = [-1, (BASE, BASE + 3), (BASE + 1, BASE + 4), (BASE + 1, BASE + 3)]
LIM = {'size': [-1e9, 3., 10., 40., float('inf')], 'count': [-5, 4, 9, 15, 100], 
    'mark': [float('-inf'), 6., 20., 33.3, 1e6], 'num': [-7, 60, 131, 133, float('inf')], 
    'time': [0, 61, 62, 63, 100]}

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for bits in range(1, 256):
        for c in range(4):
            for a in range(4):
                n += 1
                if not deep and n % 3: continue
                yield ['scene', 2, bits, n % 5, c, a, n % 3]
    if deep:
        for bits in range(1, 4096):
            n += 1
            yield ['scene', 3, bits, n % 5, (n // 5) % 4, (n // 3) % 4, n % 3]
    cols = sorted(LIM)
    for k in (1, 2):
        for cs in itertools.combinations(cols, k):
            for c in range(4) if deep or k == 1 else (n % 4, (n + 1) % 4):
                n += 3
                yield ['conds', list(cs), c]
    for h in itertools.product(range(7), repeat=3):
        yield ['hist', list(h)]
    for pname in NAMES:
        for aname in NAMES:
            if aname != pname: yield ['names', pname, aname]

NAMES = ['t', 'trid', 'k', 'keys', 'arr', 'rng', 'id', 'part', 'Re']

def run_names(case, x):
    """Properties and columns may have any names."""
    from flowtracks import io
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.trajectory import Trajectory
    from flowtracks.analysis import analysis, GeneralAnalyser
    from flowtracks.an_scene import AnalysedScene
    _, pname, aname = case
    refs = [ref_traj(i, range(BASE + s, BASE + e)) for i, s, e in ((3, 0, 4), 
        (BASE + 2, 1, 5), (BASE + 1, 2, 4))]
    own = lambda i, t: i * 2.5 + (t - BASE) ** 2 + 0.125
    d = x.dir()
    pp, tp = os.path.join(d, 'p.h5'), os.path.join(d, 't.h5')
    io.save_particles_table(pp, [Trajectory(np.array(r['pos']), 
        np.array(r['velocity']), np.array(r['t']), r['id'], 
        **{pname: np.array([own(r['id'], t) for t in r['t']])}) 
        for r in refs])
    S.write_trajs(tp, [ref_traj(1, range(BASE, BASE + 6))])
    cfg = os.path.join(d, 's.cfg')
    with open(cfg, 'w') as f:
        f.write("[Particle]\ndensity = 1450\ndiameter = 500e-6\n[Scene]\n"
            "particles file = %s\ntracers file = %s\nfirst frame = %d\n"
            "last frame = %d\nframe rate = 500\n" % (pp, tp, BASE, BASE + 5))
    class A(GeneralAnalyser):
        def descr(self): return [(aname, float, 1)]
        def analyse(self, fr, nx):
            return [mark(fr.particles.trajid(), fr.particles.time())]
    out = os.path.join(d, 'an.h5')
    analysis(DualScene(tp, pp, 500., Particle(500e-6, 1450.), (BASE, 
        BASE + 6)), out, cfg, [A()])
    sc = AnalysedScene(out)
    x.step(); x.state(case)
    what = 'property named %s and column named %s' % (pname, aname)
    rows = []
    for r in refs:
        ts = r['t'][:-1]
        rows += [(own(r['id'], t), mark(r['id'], t)) for t in ts]
        tr = sc.trajectory_by_id(r['id'])
        expect_exact(tr.time(), np.array(ts), '%s: times', what)
        expect_close(getattr(tr, pname)(), [own(r['id'], t) for t in ts], what)
        expect_close(getattr(tr, aname)(), [mark(r['id'], t) for t in ts], 
            what)
    for where in (None, {pname: (5., 150.5, False)}, {aname: (15., 200., 
            True)}, {pname: (5., 150.5, False), aname: (15., 200., True)}):
        got = sc.collect([pname, aname], where)
        want = [r for r in rows if all(holds(r[k == aname], l) for k, l in 
            (where or {}).items())]
        expect(sorted(zip(*[g.tolist() for g in got])) == sorted(want), 
            '%s: collected %s where %s, not %s', what, got, where, want)
    del sc
    x.outcome('names')
    x.drop(d)

def build(x, trs, trac, order, conf, an, cols):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis, GeneralAnalyser
    d = x.dir()
    pp, tp = os.path.join(d, 'p.h5'), os.path.join(d, 't.h5')
    if order == 0: S.write_trajs(pp, trs)
    else: S.write_frames(pp, trs, order=order)
    S.write_trajs(tp, trac)
    cfg = os.path.join(d, 's.cfg')
    with open(cfg, 'w') as f:
        f.write("[Particle]\ndensity = 1450\ndiameter = 500e-6\n[Scene]\n"
            "particles file = %s\ntracers file = %s\nfirst frame = %d\n"
            "last frame = %d\nframe rate = 500\n" % (pp, tp, conf[0], 
            conf[1] - 1))
    
    class A(GeneralAnalyser):
        # A row length of 1, with results as numbers or rows.
        def descr(self): return [('mark', float, 1), ('step', float, 3)]
        def analyse(self, fr, nx):
            p = fr.particles
            m = mark(p.trajid(), p.time())
            return [m[:,None] if order else m, nx.particles.pos() - p.pos()]
    class B(GeneralAnalyser):
        def descr(self): return [('num', int)] if order else [('num', int, 1)]
        def analyse(self, fr, nx):
            return [num(fr.particles.trajid(), fr.particles.time())]
    ds = DualScene(tp, pp, 500., Particle(500e-6, 1450.), conf)
    out = os.path.join(d, 'an.h5')
    analysis(ds, out, cfg, [[A(), B()], [B(), A()], [B()]][cols], *(
        [] if an == -1 else [an]))
    return d, out

def mark(i, t): return i * 3.3 + (t - BASE) * 5.25
def num(i, t): return i * 5 + t * 2 - 7

def rows_of(trs, conf, an, cols):
    """{(time, trajid): row dict} of analysed rows in the scene's range."""
    lo, hi = conf if an == -1 else an
    res = {}
    for t in range(lo, hi - 1):
        if not conf[0] <= t < conf[1]: continue
        a, b = S.segments_ref(trs, t)
        for i in a:
            row = dict(a[i]); row['time'] = t; row['trajid'] = i
            row['num'] = num(i, t)
            if cols != 2:
                row['mark'] = mark(i, t)
                row['step'] = [q - p for p, q in zip(a[i]['pos'], b[i]['pos'])]
            res[t, i] = row
    return res

def holds(v, lim):
    a, b, inv = lim
    return (v < a or v >= b) if inv else (a <= v < b)

def collect(x, sc, rows, keys, where, what):
    sel = [r for r in rows.values() if all(holds(r[k], l) for k, l in 
        (where or {}).items())]
    got = sc.collect(list(keys)) if where is None else sc.collect(list(keys), 
        dict((k, tuple(v)) for k, v in where.items()))
    x.step()
    what = '%s: collect %s where %s' % (what, keys, where)
    expect(len(got) == len(keys), '%s: %d arrays', what, len(got))
    for g, k in zip(got, keys):
        expect(len(g) == len(sel), '%s: %d rows of %s instead of %d', what, 
            len(g), k, len(sel))
    if not keys: return
    def flat(vs): 
        return tuple(round(float(c), 6) for v in vs for c in np.ravel(v))
    have = sorted(flat([g[i] for g in got]) for i in range(len(sel)))
    want = sorted(flat([r[k] for k in keys]) for r in sel)
    if have != want:
        raise Violation("%s: got %s instead of %s" % (what, have, want))
    x.outcome('%s rows' % ('no' if not sel else 'some'))

def traj(tr, rows, obj, what, cols):
    ts = [t for t in tr['t'] if (t, tr['id']) in rows]
    ref = {'id': tr['id'], 't': ts}
    names = props(tr) + ['num'] + ([] if cols == 2 else ['mark', 'step'])
    for k in names: ref[k] = [rows[t, tr['id']][k] for t in ts]
    traj_matches(obj, ref, what, rtol=1e-9)

def check(x, sc, trs, rows, cols, which, what):
    names = props(trs[0])
    if which == 0:
        exp = sorted(names + ['time', 'num'] + ([] if cols == 2 else ['mark', 
            'step']))
        ks, sh = list(sc.keys()), list(sc.shapes())
        expect(sorted(ks) == exp or sorted(ks + ['time']) == exp, 
            '%s: keys %s', what, ks)
        expect(len(sh) == len(ks), '%s: %d shapes of %d keys', what, len(sh), 
            len(ks))
        for k, s in zip(ks, sh):
            w = 3 if k in ('pos', 'velocity', 'step') else 2 if k == 'pair' \
                else 1
            expect(int(s) == w, '%s: shape of %s is %s', what, k, s)
    elif which == 1:
        got = take(sc.iter_trajectories(), 20)
        expect(sorted(int(t.trajid()) for t in got) == sorted(t['id'] for t in
            trs), '%s: trajectories %s', what, [t.trajid() for t in got])
        for g in got:
            traj([t for t in trs if t['id'] == int(g.trajid())][0], rows, g, 
                what + ': iterated', cols)
    elif which == 2:
        for t in trs:
            traj(t, rows, sc.trajectory_by_id(t['id']), what + ': by id', cols)
    elif which == 3:
        collect(x, sc, rows, ['pos'], None, what)
        collect(x, sc, rows, ['num', 'pos', 'size', 'trajid', 'time'], None, 
            what)
        collect(x, sc, rows, ['size', 'num', 'size', 'num', 'num'], None, 
            what)
        collect(x, sc, rows, [], None, what)
    elif which == 4:
        collect(x, sc, rows, ['num', 'size', 'velocity'], 
            {'num': (60, 140, False)}, what)
    elif which == 5:
        collect(x, sc, rows, ['num', 'count'], {'size': (3., 40., True)}, what)
    elif which == 6:
        collect(x, sc, rows, ['velocity', 'num'], {'count': (4, 16, False), 
            'num': (131, 133, True)}, what)
    x.step()

def run(case, x):
    from flowtracks.an_scene import AnalysedScene
    if case[0] == 'names': return run_names(case, x)
    if case[0] == 'scene':
        _, P, bits, order, c, a, cols = case
        trs = S.presence(bits, P, 4, [8, 3, 5], BASE, ('size', 'count', 
            'pair'))
        trac = [ref_traj(1, range(BASE - 3, BASE + 8))]
        d, out = build(x, trs, trac, order, CONFR[c], ANR[a], cols)
        sc = AnalysedScene(out)
        rows = rows_of(trs, CONFR[c], ANR[a], cols)
        x.state(case[1:])
        for w in range(7):
            check(x, sc, trs, rows, cols, w, 'scene')
        if cols != 2:
            collect(x, sc, rows, ['step', 'mark', 'pair'], 
                {'mark': (10, 20, True)}, 'scene')
        del sc
        x.drop(d)
        return
    c = case[-1] if case[0] == 'conds' else 1
    ids = [8, 3, 2 ** 32 + 3, 20]
    trs = [ref_traj(8, range(BASE - 1, BASE + 5), ('size', 'count')), 
        ref_traj(3, [BASE, BASE + 1, BASE + 3, BASE + 4], ('size', 'count')),
        ref_traj(2 ** 32 + 3, range(BASE + 1, BASE + 3), ('size', 'count')), 
        ref_traj(20, range(BASE + 3, BASE + 4), ('size', 'count'))]
    key = 'big%d' % c
    if key not in x.cache:
        x.cache[key] = build(x, trs, [ref_traj(1, range(BASE - 3, BASE + 8))],
            3, CONFR[c], -1, 0)[1]
    sc = AnalysedScene(x.cache[key])
    rows = rows_of(trs, CONFR[c], -1, 0)
    if case[0] == 'hist':
        for i, w in enumerate(case[1]):
            x.state(case[1][:i + 1])
            check(x, sc, trs, rows, 0, w, 'reads %s' % case[1][:i + 1])
        del sc
        return
    spaces = []
    for col in case[1]:
        ls = LIM[col] if len(case[1]) == 1 else LIM[col][1:4]
        spaces.append([(a, b, i) for a in ls for b in ls for i in (False, 
            True)])
    n = 0
    for conds in itertools.product(*spaces):
        n += 1
        where = dict(zip(case[1], conds))
        x.state(c, where)
        collect(x, sc, rows, [['pos', 'mark'], ['num'], ['size'], ['mark', 
            'count', 'step']][n % 4], where, 'conditions')
    del sc
