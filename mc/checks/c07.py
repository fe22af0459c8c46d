"""One entry point, same trajectories from every format."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import env

PROPERTY = 'C07'
CHUNK = 15
RULE = (
    "Scenes of up to 3 trajectories (all start/length combinations from small "
    "sets) stored as HDF table, HDF frames, NPZ directory, Matlab file, "
    "trajAcc files and (for scenes expressible so) ptv_is files, then read "
    "through trajectories() for ranges x minimal lengths x inferred/explicit "
    "format x list/iterator; and every documented kind of file name against "
    "the format inferred.")
ASSUME = ["Matlab files are read whole (their reader has no range)",
    "for trajAcc files the range selects the files, each holding the "
    "trajectories that start in its frame, numbered anew"]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    yield ['names']
    spans = [(s, l) for l in (1, 2, 3, 5) for s in (0, 1, 3)]
    for k in (1, 2, 3):
        for sp in itertools.product(spans, repeat=k):
            n += 1
            if k == 3 and not deep and n % 5: continue
            for fmt in ('hdf', 'frames', 'npz', 'mat', 'acc', 'ptvis'):
                if k == 3 and not deep and (n // 5) % 6 != \
                        ('hdf', 'frames', 'npz', 'mat', 'acc', 
                        'ptvis').index(fmt): continue
                yield ['read', fmt, [list(s) for s in sp], n % 5, n % 3, 
                    int(deep)]
    # many trajectories over many frames
    for m, step, longest in ((40, 11, 9), (130, 29, 25)):
        sp = [[i * 7 % step, 1 + i * 5 % longest] for i in range(m)]
        for fmt in ('hdf', 'frames', 'npz', 'mat', 'acc', 'ptvis'):
            for off in range(5):
                if m > 40 and off not in (1, 3): continue
                yield ['read', fmt, sp, off, off % 3, 0]

NAMES = [('traj.mat', 'mat'), ('/a/b.h5/x.mat', 'mat'), ('res/', 'npz'), 
    ('/data/ptv_is_res/', 'npz'), ('/a.h5/', 'npz'),
    ('ptv_is.%d', 'ptvis'), ('/x/y/ptv_is.%d', 'ptvis'), 
    ('a/film.txt', 'ptvis'), ('xuap.%d', 'xuap'), ('/res/xuap.%d', 'xuap'),
    ('s.h5', 'hdf'), ('s.hdf', 'hdf'), ('../s.1.h5', 'hdf'),
    ('run_h5/trajAcc.%d', 'acc'), ('exported_to_hdf/trajAcc.%d', 'acc'),
    ('x.hdf.d/ptv_is.%d', 'ptvis'), ('x.mat.d/xuap.%d', 'xuap'),
    ('x.txt.d/trajAcc.%d', 'acc'), ('res.mat/s.h5', 'hdf'), ('a.txt/b.mat', 'mat'),
    ('x.txt.d/s.hdf', 'hdf'), ('hdf/', 'npz'), ('x.mat/', 'npz'), 
    ('mat_h5.%d', 'acc'), ('hdf.trajAcc.%05d', 'acc'),
    ('trajAcc.%d', 'acc'), ('/res/trajAcc.%d', 'acc'), ('x/t.%05d', 'acc')]

def run(case, x):
    from flowtracks import io
    if case[0] == 'names':
        for n, f in NAMES:
            for pre in ('', '~/', '/abs dir/', './'):
                if pre and n.startswith('/'): continue
                x.step(); x.state(pre + n)
                expect(io.infer_format(pre + n) == f, "%s inferred to be %s", 
                    pre + n, io.infer_format(pre + n))
        return
    
    _, fmt, spec, off, idr, allr = case
    base = [30, 0, 10001, 98, 7][off]
    trs = []
    for i, (s, l) in enumerate(spec):
        tr = ref_traj([3, 1, 2][(i + idr) % 3] + 10 * idr if len(spec) < 4 
            else (i * 37 + idr) % 131 * 10 ** (3 * idr), 
            range(base + s, base + s + l), ('accel',))
        trs.append(tr)
    d = x.dir()
    sub = os.path.join(d, ['d', 'exp.h5.d', 'run.mat.old', 'x.txt.1', 
        'to_hdf'][(off + idr) % 5])
    os.mkdir(sub)
    path, name = store(fmt, trs, sub, base)
    x.state(fmt, spec, base)
    exp_fmt = 'hdf' if fmt == 'frames' else fmt
    pts = [None, base, base + 1, base + 2, base + 4, base + 20]
    n = 0
    for a in pts:
        for b in pts:
            if fmt == 'mat' and (a is not None or b is not None): continue
            if fmt in ('hdf', 'frames') and a is not None and b is not None \
                and a > b: continue
            for ml in (None, 0, 1, 2, 3):
                for it in (False, True):
                    n += 1
                    if not allr and fmt != 'mat' and (n * 7 + sum(map(sum, 
                        spec))) % 11 not in ((0, 3) if fmt != 'acc' else (0, 3,
                        5, 7)): continue
                    x.step()
                    env.set_listing(n % 4)
                    got = io.trajectories(path, a, b, 1000., 
                        None if n % 3 else exp_fmt, ml, it)
                    expect(it or isinstance(got, list), '%s: asked for a '
                        'list, got %s', fmt, type(got))
                    got = take(got, len(spec) + 7, 'trajectories()')
                    env.set_listing(0)
                    want = expected(fmt, trs, a, b, 2 if ml is None else ml)
                    what = '%s, frames %s to %s, minimal length %s' % (fmt, a,
                        b, ml)
                    if fmt == 'acc':
                        # ids are given by the reader, unique in one reading.
                        compare_anon(got, want, what)
                    elif fmt == 'ptvis':
                        compare_anon(got, want, what, only_pos=True)
                    else:
                        trajs_match(got, want, what)
                    x.outcome('%s: %d' % (fmt, len(want)))
    x.drop(d)

def compare_anon(got, want, what, only_pos=False):
    ids = [int(g.trajid()) for g in got]
    expect(len(set(ids)) == len(ids), "%s: ids %s repeat", what, ids)
    expect(len(got) == len(want), "%s: %d trajectories instead of %d", what,
        len(got), len(want))
    left = list(want)
    for g in got:
        for w in left:
            if exact(g.time(), np.array(w['t'], dtype=float)) and \
                    close(g.pos(), w['pos'], rtol=1e-6, atol=1e-8):
                break
        else:
            raise Violation("%s: unexpected trajectory at %s, positions %s" % (
                what, g.time(), g.pos()))
        left.remove(w)
        if not only_pos:
            expect_close(g.velocity(), w['velocity'], what + ': velocity')
            expect_close(g.accel(), w['accel'], what + ': accel')

def expected(fmt, trs, a, b, ml):
    res = []
    for t in trs:
        if fmt == 'acc':
            if (a is not None and t['t'][0] < a) or (b is not None and 
                t['t'][0] > b): continue
            w = t
        elif fmt == 'mat': 
            w = t
        else:
            w = restrict(t, a, None if b is None else b + 1)
            if fmt == 'ptvis' and (not w['t'] or w['t'][-1] != t['t'][-1]):
                continue
        if len(w['t']) and len(w['t']) >= ml: res.append(w)
    return res

def store(fmt, trs, d, base):
    from flowtracks import io
    if fmt == 'hdf':
        p = os.path.join(d, 'tr.h5')
        io.save_particles_table(p, [make_traj(t) for t in trs])
        return p, 'hdf'
    if fmt == 'frames':
        from flowtracks.trajectory import ParticleSnapshot
        p = os.path.join(d, 'fr.hdf')
        lo = min(t['t'][0] for t in trs); hi = max(t['t'][-1] for t in trs)
        fr = []
        for t in range(lo, hi + 1):
            ref = frame_ref(trs, t)
            if not ref: continue
            rows = list(ref)
            fr.append(ParticleSnapshot(time=t, trajid=np.array(rows), **dict(
                (k, np.array([ref[i][k] for i in rows])) for k in 
                props(trs[0]))))
        io.save_frames_hdf(p, fr)
        return p, 'hdf'
    if fmt == 'npz':
        p = os.path.join(d, 'res/')
        io.save_trajectories(p, [make_traj(t) for t in trs], {})
        return p, 'npz'
    if fmt == 'mat':
        from scipy.io import savemat
        p = os.path.join(d, 'tr.mat')
        names = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf']
        arr = np.zeros((len(trs), 1), dtype=[(n, 'O') for n in names + 
            ['t', 'trajid']])
        for i, t in enumerate(trs):
            for j, k in enumerate(['pos', 'velocity', 'accel']):
                for c in range(3):
                    arr[names[j * 3 + c]][i, 0] = \
                        np.array(t[k])[:, c:c + 1] * 1000.
            arr['t'][i, 0] = np.array(t['t'], dtype=float)[:, None]
            arr['trajid'][i, 0] = np.full((len(t['t']), 1), t['id'])
        if True:
            # Matlab makes rows of records as easily as columns.
            savemat(p, {'traj': arr.T if len(trs[0]['t']) % 2 else arr, 
                'directory': d})
        return p, 'mat'
    if fmt == 'acc':
        p = os.path.join(d, 'trajAcc.%d')
        hi = max(t['t'][-1] for t in trs)
        for f in range(base, hi + 1):
            rows = []
            for t in trs:
                if t['t'][0] != f: continue
                for i in range(len(t['t'])):
                    rows.append(list(t['pos'][i]) + list(t['velocity'][i]) +
                        list(t['accel'][i]) + [0.5] * 24 + [i])
            if not rows: continue
            with open(p % f, 'w') as out:
                for r in rows:
                    out.write(' '.join('%.12g' % v for v in r) + '\n')
        open(os.path.join(d, 'trajAcc.%d~' % base), 'w').write('junk\n')
        return p, 'acc'
    if fmt == 'ptvis':
        p = os.path.join(d, 'ptv_is.%d')
        hi = max(t['t'][-1] for t in trs) + 1
        rows = dict((f, [t for t in trs if f in t['t']]) 
            for f in range(base - 1, hi + 2))
        for f in range(base, hi + 1):
            with open(p % f, 'w') as out:
                out.write('%d\n' % len(rows[f]))
                for t in rows[f]:
                    pr = rows[f - 1].index(t) if t in rows[f - 1] else -1
                    nx = rows[f + 1].index(t) if t in rows[f + 1] else -2
                    ps = t['pos'][t['t'].index(f)]
                    out.write('%d %d %s\n' % (pr, nx, ' '.join('%.12g' % 
                        (v * 1000) for v in ps)))
        return p, 'ptvis'
