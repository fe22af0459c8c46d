"""Analysis tables: each continuing particle once, with its own results."""
import os, itertools, sys, runpy
from ..core import expect, Violation
from ..util import *
from .. import scenes as S
from .. import interp_ref as R

PROPERTY = 'C20'
CHUNK = 8
RULE = (
    "Dual scenes: every presence pattern of 2 particles in 4 frames x a "
    "rotation over tracer presence patterns (none in a frame, few, holes), "
    "row orders, companion assignments (none, present, absent, of another "
    "frame), analyser lists (fluid velocity by each method, user-defined with "
    "several columns, several analysers), frame ranges, existing output; "
    "companions of each type of number among 12 to 300 tracers; and "
    "every tracer pattern of 3 in 3 frames with fixed particles. The table is "
    "compared with per-particle textbook results. Companion lookup: every "
    "pair of short id arrays. The installed script, over its options.")
ASSUME = ["a column has the row length declared for it",
    "particles and tracers cover the same frames",
    "as for interpolation, a particle with no eligible tracer has no defined "
    "velocity"]
TYPES = ['i1', 'u1', 'i2', 'u2', 'u4', 'u8', 'f4', 'f8']
RANGES = [-1, (0, 4), (1, 3), (1, None), (None, 3), None, (0, 2)]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for bits in range(1, 256):
        for tb in ((7, 0xfff, 0xf3f, 0x137, 0xeee, 0x5a5, 0xf0f) if deep else 
                (0xfff, [0xf3f, 0x137, 0xeee, 0x5a5, 0xf0f][bits % 5])):
            n += 1
            yield ['scene', bits, tb, n % 4, n % 5, (n // 3) % 7, n % 6]
    for tb in range(1, 512):
        if not deep and tb % 3: continue
        n += 1
        # spread over 4 frames, with the last one full.
        yield ['scene', 0xff, tb | 0xe00, n % 4, n % 5, (n // 3) % 7, n % 6]
    ids = range(3)
    for k in range(4):
        for trids in itertools.permutations((5, 0, 2 ** 32 + 7, 12), k):
            yield ['comp', list(trids)]
    for ty in TYPES:
        for n in (12, 130, 300):
            yield ['crowd', n, ty]
    for m in (None, 'inv', 'rbf', 'corrfun'):
        for k in (None, 2):
            for p in (None, 1):
                if m == 'corrfun' and p is None: continue
                yield ['script', m, k, p]

def run(case, x):
    {'scene': scene, 'comp': comp, 'script': script, 'crowd': crowd}[case[0]](x, *case[1:])

def comp(x, trids):
    from flowtracks.analysis import companion_indices
    T = np.array(trids, dtype=int)
    for m in range(4):
        for c in itertools.product((0, 5, 2 ** 32 + 7, 12, 7, -1), repeat=m):
            C = np.array(c, dtype=int)
            x.step(); x.state(trids, c)
            got = companion_indices(T, C)
            expect(got.shape == (m,), 'shape %s', got.shape)
            for g, v in zip(got, c):
                if v in trids:
                    expect(g == trids.index(v), 'companions %s in %s: %s', c, 
                        trids, got)
                else:
                    expect(g < 0, 'companions %s in %s: %s', c, trids, got)
            expect(C.tolist() == list(c), 'input changed')
            ty = np.dtype(TYPES[(m + sum(c)) % len(TYPES)])
            ok = [v for v in c if int(np.float64(v).astype(ty)) == v] if \
                ty.kind == 'f' else [v for v in c if 
                np.iinfo(ty).min <= v <= np.iinfo(ty).max]
            got = companion_indices(T, np.array(ok, dtype=ty))
            for g, v in zip(got, ok):
                expect(g == trids.index(v) if v in trids else g < 0, 
                    'companions %s (%s) in %s: %s', ok, ty, trids, got)
            expect(len(got) == len(ok), 'length %d of %d', len(got), len(ok))
    x.outcome('companions')

BASE = 70
TRPOS = [[0., 0., 0.], [0.11, 0.02, -0.03], [0.2, -0.1, 0.07]]

def make(bits, tb, order, comps):
    """Positions at interpolation scale, nothing coincides."""
    part = S.presence(bits, 2, 4, [3, 8], BASE, ('size',))
    trac = S.presence(tb, 3, 4, [8, 1, 2 ** 32 + 8], BASE, ('pair',), 5)
    for i, tr in enumerate(part):
        tr['pos'] = [[.05 + .01 * t + .02 * tr['id'] + .003 * c * t 
            for c in range(3)] for t in tr['t']]
        if comps:
            tr['companion'] = [[8, 1, 2 ** 32 + 8, 99, -1][(comps + t + i * 2) % 5] 
                for t in tr['t']]
    for tr in trac:
        k = [8, 1, 2 ** 32 + 8].index(tr['id'])
        tr['pos'] = [[TRPOS[k][c] + .013 * t * (c - 1) for c in range(3)] 
            for t in tr['t']]
    return part, trac

def analysers(kind, d):
    """flowtracks analysers and reference functions (particle row, tracer 
    rows, next particle row) -> {column: value or None}."""
    from flowtracks.analysis import GeneralAnalyser, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    corr = ([1., .8, .5, .3, .2, .1], [0., .1, .2, .35, .5, .8])
    cf = os.path.join(d, 'c.npz')
    np.savez(cf, corrs=np.array(corr[0]), bins=np.array(corr[1]))

    class Diff(GeneralAnalyser):
        def descr(self):
            return [('step', float, 3), ('mark', int, 1), ('two', float, 2)]
        def analyse(self, frame, next_frame):
            p, n = frame.particles, next_frame.particles
            return [n.pos() - p.pos(), p.trajid()[:,None] * 2 + 
                frame.particles.time(), n.velocity()[:,:2]]
    def rdiff(row, trac, nrow, trid, t):
        return {'step': np.array(nrow['pos']) - np.array(row['pos']), 
            'mark': [trid * 2 + t], 'two': nrow['velocity'][:2]}

    class Near(GeneralAnalyser):
        def descr(self):
            return [('numtrac', int, 1), ('was', float, 6), ('sum', float, 6)]
        def analyse(self, frame, next_frame):
            p, tr = frame.particles, frame.tracers
            n = len(p) # whatever was analysed before, data are as they were
            return [np.full(n, len(tr)), np.c_[p.pos(), p.velocity()],
                np.tile(np.r_[tr.pos().sum(axis=0), 
                    tr.velocity().sum(axis=0)], (n, 1))]
    def rnear(row, trac, nrow, trid, t):
        return {'numtrac': [len(trac)], 
            'was': list(row['pos']) + list(row['velocity']),
            'sum': [sum(r[k][c] for r in trac.values()) for k in 
                ('pos', 'velocity') for c in range(3)]}
    
    def fluid(meth, par):
        def ref(row, trac, nrow, trid, t):
            ids = sorted(trac)
            if not ids: v = np.zeros(3)
            else:
                c = row.get('companion')
                c = ids.index(c) if c in ids else -1
                v, amb, k = R.interp(meth, par, [trac[i]['pos'] for i in ids],
                    row['pos'], c, [trac[i]['velocity'] for i in ids], 2, 
                    None, corr)
                if v is None: return {'fluid_vel': None, 'rel_vel': None}
            return {'fluid_vel': v, 'rel_vel': np.array(row['velocity']) - v}
        it = interpolant(meth, 2, None, cf if meth == 'corrfun' else par)
        return FluidVelocitiesAnalyser(it), ref
    D, N = (Diff(), rdiff), (Near(), rnear)
    return [[fluid('inv', 1.5)], [D], [fluid('rbf', 2.), N], 
        [N, fluid('corrfun', None), D], [D, fluid('inv', 2)], [N]][kind]

def check_table(x, path, part, trac, rng, an, config, ppath):
    import tables
    lo, hi = BASE, BASE + 4
    for trs in (part, trac):
        pass
    plo = min(t['t'][0] for t in part); phi = max(t['t'][-1] for t in part) + 1
    if rng is not None:
        if rng[0] is not None: lo = rng[0]
        else: lo = plo
        if rng[1] is not None: hi = rng[1]
        else: hi = phi
    else: lo, hi = plo, phi
    want = {}
    for t in range(lo, hi - 1):
        a, b = S.segments_ref(part, t)
        tr, _ = S.segments_ref(trac, t)
        for trid in a:
            want[t, trid] = {}
            for _, ref in an:
                want[t, trid].update(ref(a[trid], tr, b[trid], trid, t))
    with tables.open_file(path, 'r') as f:
        tab = f.get_node('/analysis')
        expect(tab.attrs['config'] == config and 
            tab.attrs['trajects'] == ppath, 'attributes %s, %s', 
            tab.attrs['config'], tab.attrs['trajects'])
        raw = tab.read()
        cols = list(tab.colnames)
    names = [d[0] for a, _ in an for d in a.descr()]
    expect(cols == ['trajid', 'time'] + names, 'columns %s', cols)
    got = [(int(r['time']), int(r['trajid'])) for r in raw]
    expect(sorted(got) == sorted(want), 'analysed %s instead of %s', 
        sorted(got), sorted(want))
    for row, key in zip(raw, got):
        for k, v in want[key].items():
            if v is None: 
                x.outcome('undefined'); continue
            expect_close(np.ravel(row[k]), np.ravel(v), '%s of particle %s at '
                '%s' % (k, key[1], key[0]), rtol=1e-7, atol=1e-7)
            x.step()
    x.outcome('%d rows' % min(len(raw), 6))

def scene(x, bits, tb, order, comps, rng, kind):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis
    part, trac = make(bits, tb, order, comps)
    d = x.dir()
    pp, tp = os.path.join(d, 'p.h5'), os.path.join(d, 't.h5')
    S.write_frames(pp, part, order=order)
    S.write_frames(tp, trac, order=(order * 2) % 5)
    r = RANGES[rng]
    own = [(BASE, BASE + 4), (BASE + 1, BASE + 3), (BASE, BASE + 3), 
        (BASE - 1, BASE + 5)][(bits // 3 + bits) % 4]
    if r not in (-1, None): 
        r = tuple(None if v is None else v + BASE for v in r)
    if r is None or r != -1 and None in r:
        # Open ranges are those of each file.
        ends = [(min(t['t'][0] for t in s), max(t['t'][-1] for t in s)) for s 
            in (part, trac)]
        if ends[0] != ends[1]: r = -1
    ds = DualScene(tp, pp, 100., Particle(1e-3, 1e3), own)
    out = os.path.join(d, 'an.h5')
    an = analysers(kind, d)
    x.state(bits, tb, order, comps, r, kind)
    if bits % 4 == 1: # there is already another analysis
        analysis(ds, out, 'old.cfg', [analysers(5, d)[0][0]])
    elif bits % 4 == 2:
        with open(out, 'w') as f: f.write('something else')
    analysis(ds, out, 'the.cfg', [a for a, _ in an], *([r] if rng else []))
    check_table(x, out, part, trac, own if r == -1 else r, an, 'the.cfg', pp)
    if bits % 3 == 0: # the same analysers again
        analysis(ds, out, 'the.cfg', [a for a, _ in an])
        check_table(x, out, part, trac, own, an, 'the.cfg', pp)
    del ds
    x.drop(d)

def crowd(x, n, ty):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis
    # Ids of tracers are all over the place, the companions among the small.
    ids = [(i * 7) % n + (1000 if i % 3 == 0 else 0) for i in range(n)]
    trac = []
    for i, tid in enumerate(ids):
        tr = ref_traj(tid, range(BASE, BASE + 3), ())
        tr['pos'] = [[.001 * ((i * 37) % 101) + .0001 * t, 
            .0013 * ((i * 53) % 97), .0007 * ((i * 29) % 89)] for t in tr['t']]
        trac.append(tr)
    part = []
    small = [(i, t) for i, t in zip(range(n), ids) if t < 120]
    for k in range(8):
        i, tid = small[-1 - k * (len(small) // 8)]
        tr = ref_traj(500 + k, range(BASE, BASE + 3), ())
        tr['pos'] = [(np.array(trac[i]['pos'][j]) + 1e-5).tolist() 
            for j in range(3)]
        tr['companion'] = [np.dtype(ty).type(tid)] * 3
        part.append(tr)
    d = x.dir()
    pp, tp = os.path.join(d, 'p.h5'), os.path.join(d, 't.h5')
    S.write_frames(pp, part)
    S.write_frames(tp, trac)
    ds = DualScene(tp, pp, 100., Particle(1e-3, 1e3))
    out = os.path.join(d, 'an.h5')
    an = analysers(0, d)
    x.state('crowd', n, ty)
    analysis(ds, out, 'the.cfg', [a for a, _ in an])
    check_table(x, out, part, trac, None, an, 'the.cfg', pp)
    del ds
    x.drop(d)

def script(x, meth, k, p):
    from .. import env
    part, trac = make(0xff, 0xfff, 0, 0)
    d = x.dir()
    pp, tp = os.path.join(d, 'p.h5'), os.path.join(d, 't.h5')
    S.write_trajs(pp, part); S.write_trajs(tp, trac)
    cfg = os.path.join(d, 's.cfg')
    with open(cfg, 'w') as f:
        f.write("[Particle]\ndensity = 1450\ndiameter = 500e-6\n[Scene]\n"
            "particles file = %s\ntracers file = %s\nfirst frame = %d\n"
            "last frame = %d\nframe rate = 500\n" % (pp, tp, BASE, BASE + 2))
    corr = ([1., .8, .5, .3, .2, .1], [0., .1, .2, .35, .5, .8])
    cf = os.path.join(d, 'c.npz')
    np.savez(cf, corrs=np.array(corr[0]), bins=np.array(corr[1]))
    par = {None: 1.5, 'inv': 2., 'rbf': 3., 'corrfun': cf}[meth]
    out = os.path.join(d, 'out.h5')
    argv = ['analyse_fhdf.py', cfg, out]
    if meth: argv += ['--method', meth]
    if k: argv += ['--neighbs', str(k)]
    if p: argv += ['--param', str(par)]
    old = sys.argv
    try:
        sys.argv = argv
        runpy.run_path(os.path.join(env.REPO, 'scripts', 'analyse_fhdf.py'), 
            run_name='__main__')
    finally: sys.argv = old
    m = meth or 'inv'
    if not p: par = {'inv': 1, 'rbf': 1e5}[m]
    class An(object):
        def descr(self): return [('fluid_vel', 0, 3), ('rel_vel', 0, 3)]
    def ref(row, tr, nrow, trid, t):
        ids = sorted(tr)
        v, amb, n = R.interp(m, par, [tr[i]['pos'] for i in ids], row['pos'], 
            -1, [tr[i]['velocity'] for i in ids], k or 4, None, corr)
        return {'fluid_vel': v, 'rel_vel': np.array(row['velocity']) - v}
    x.state(meth, k, p)
    check_table(x, out, part, trac, (BASE, BASE + 3), [(An(), ref)], cfg, pp)
    x.drop(d)
