"""What is saved in a configuration file comes back."""
import itertools, os
from configparser import ConfigParser
from ..core import expect, Violation
from ..util import *
from .. import interp_ref as R
from .. import scenes as S

PROPERTY = 'C19'
CHUNK = 20
RULE = (
    "Sequences: the product of frame ranges x rates x particle properties x "
    "data of each format under file names with % signs, frame templates with "
    "and without padding x smoothing x minimal length, saved (into an empty "
    "or a used configuration object), written to a file and read with every "
    "combination of overrides; the result must hold the same data and save "
    "the same configuration. Files written by hand, with optional keys "
    "missing. Interpolants: methods x neighbour counts x radii x parameters "
    "(or defaults), judged by what they interpolate. Both in one file. Dual "
    "scenes: ranges x values x file names.")
ASSUME = ["the configuration object is read and written by the standard "
    "library", "last frame in the file is inclusive, as documented"]

RANGES = [(0, 3), (10, 14), (100001, 100009)]
RATES = [1., 500., 0.1, 1234.5678, 1e-7, 1e6 / 3]
PARTS = [(0.001, 1450.), (1. / 3, 1000 / 7.), (2.5e-4, 7800.), (1, 2)]
NAMES = ['a.h5', 'p%100.h5', 'd%%x.h5', 'n%/', 'npz/', 'ptv_is%%.%d', 'ptv_is.%05d',
    'x%%y.txt.%d', 'xuap.%d', 'xuap.%04d']
# a template of frame files has exactly one % sign
PERCENTS = [5, 7]
MINLEN = [None, 0, 0., 3, 25]
OVER = [(None, None), (True, None), (False, None), (None, 0), (None, 2), 
    (False, 7)]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for ra, fr, pt, a, ml, sm in itertools.product(range(len(RANGES)), 
            range(len(RATES)), range(len(PARTS)), range(len(NAMES)), 
            range(len(MINLEN)), (0, 1)):
        n += 1
        if not deep and n % 5 and (ra + fr + pt + ml) % 4: continue
        yield ['seq', ra, fr, pt, a, (a * 3 + n) % len(NAMES), ml, sm]
    for a in range(len(NAMES)):
        if a not in PERCENTS: yield ['data', a]
    for opt in itertools.product((None, 'yes', 'no', 'true', '0'), 
            (None, 0, 4)):
        yield ['hand'] + list(opt)
    for meth in ('inv', 'rbf', 'corrfun'):
        for k in (None, 1, 3, 6):
            for r in (None, 0.25, 1. / 3, 2):
                for p in range(4):
                    yield ['interp', meth, k, r, p]
    for ra in range(len(RANGES)):
        for fr in range(len(RATES)):
            for pt in range(len(PARTS)):
                yield ['dual', ra, fr, pt]

def run(case, x):
    {'seq': seq, 'data': data, 'hand': hand, 'interp': interp, 'dual': dual}[
        case[0]](x, *case[1:])

def save(obj, fname, cfg=None):
    cfg = ConfigParser() if cfg is None else cfg
    obj.save_config(cfg)
    with open(fname, 'w') as f: cfg.write(f)

def contents(fname):
    cfg = ConfigParser()
    with open(fname) as f: cfg.read_file(f)
    return dict((s, dict(cfg.items(s))) for s in cfg.sections())

def seq(x, ra, fr, pt, a, b, ml, sm):
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    from flowtracks.interpolation import interpolant
    d = x.dir()
    pt = PARTS[pt]
    an, bn = [os.path.join(d, n) for n in (NAMES[a], NAMES[b])]
    kw = {} if MINLEN[ml] is None else {'traj_min_len': MINLEN[ml]}
    if sm or ml % 2: kw['smooth_tracers'] = bool(sm)
    s = Sequence(RANGES[ra], RATES[fr], Particle(*pt), an, bn, **kw)
    f = os.path.join(d, 's.cfg')
    used = None
    if (ra + fr + ml) % 2: # a used object: everything is overwritten.
        used = ConfigParser()
        Sequence((5, 900), 77., Particle(8., 9.), os.path.join(d, 'zz.h5'), 
            os.path.join(d, 'yy.h5'), True, 13).save_config(used)
        for sec in ('Scene', 'Particle'): used.set(sec, 'note', 'keep ' + sec)
        used.add_section('Other'); used.set('Other', 'key', 'value')
        if fr % 2: interpolant('inv', 3, 0.5, 2.).save_config(used)
    save(s, f, used)
    first = contents(f)
    if used is not None: # what does not belong to the sequence stays
        for sec in ('Scene', 'Particle'):
            expect(first[sec].pop('note', None) == 'keep ' + sec, 
                'another key of section %s was lost', sec)
        expect(first.pop('Other', None) == {'key': 'value'}, 'other sections')
        if fr % 2:
            expect(first.pop('Interpolant', {}).get('radius') == '0.5', 
                'interpolant in the same file')
    for osm, oml in OVER:
        x.step()
        r = read_sequence(f, smooth=osm, traj_min_len=oml) if \
            (osm, oml) != (None, None) else read_sequence(f)
        what = 'sequence %s, overrides %s' % ((RANGES[ra], RATES[fr], pt, an, 
            bn, kw), (osm, oml))
        expect(tuple(r.range()) == RANGES[ra], '%s: range %s', what, r.range())
        expect(r.frate == RATES[fr], '%s: rate %r', what, r.frate)
        expect(r.part.diam == pt[0] and r.part.density == pt[1], 
            '%s: particle %r, %r', what, r.part.diam, r.part.density)
        expect(r.part_fname() == an, '%s: name %s', what, r.part_fname())
        expect(r.part_format() == s.part_format(), '%s: format %s', what, 
            r.part_format())
        g = os.path.join(d, 'again.cfg')
        save(r, g)
        want = dict((k, dict(v)) for k, v in first.items())
        if osm is not None: 
            want['Scene']['apply smoothing'] = 'yes' if osm else 'no'
        if oml is not None:
            want['Scene']['trajectory minimal length'] = str(oml)
        got = contents(g)
        for sec in want:
            for k, v in want[sec].items():
                v2 = got.get(sec, {}).get(k)
                same = v == v2 
                if not same:
                    try: same = float(v) == float(v2)
                    except (ValueError, TypeError): pass
                expect(same, '%s: %s / %s saved as %s, then as %s', what, sec, 
                    k, v, v2)
    expect(contents(f)['Scene']['tracers file'] == bn, 'tracers file %s '
        'instead of %s', contents(f)['Scene']['tracers file'], bn)
    expect(contents(f)['Scene']['apply smoothing'] in (('no', 'yes')[sm], ), 
        'smoothing saved as %s', contents(f)['Scene']['apply smoothing'])
    x.state(ra, fr, pt, a, b, ml, sm)
    x.outcome('sequence')
    x.drop(d)

def store(d, name, trs):
    from flowtracks import io
    p = os.path.join(d, name)
    if name.endswith('.h5'): S.write_trajs(p, trs)
    elif name.endswith('/'): 
        io.save_trajectories(p, [make_traj(t) for t in trs], {})
    else:
        from .. import links as L
        s, l, o = L.staggered(8, 3, 4, 0, 2)
        L.Film(s, l, o).write(p, 'xuap' if name.startswith('xuap') else 
            'ptvis', 50)
    return p

def same_trajs(a, b, what):
    key = lambda t: int(t.trajid())
    a, b = sorted(a, key=key), sorted(b, key=key)
    expect([key(t) for t in a] == [key(t) for t in b], '%s: trajectories %s '
        'instead of %s', what, [key(t) for t in b], [key(t) for t in a])
    for s, t in zip(a, b):
        da, db = s.as_dict(), t.as_dict()
        expect(set(da) == set(db), '%s: properties', what)
        for k in da: expect_exact(db[k], da[k], what + ', ' + k)

def data(x, a):
    """The data in the sequence that was read is the same."""
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    trs = [ref_traj(2, range(50, 56), ('size',)), ref_traj(4, range(52, 54),
        ('size',)), ref_traj(5, range(51, 54), ('size',))]
    d = x.dir()
    os.mkdir(os.path.join(d, 't'))
    p = store(d, NAMES[a], trs)
    for b in range(len(NAMES)):
        if b in PERCENTS: continue
        q = os.path.join(d, 't', 'b%d' % b)
        os.mkdir(q)
        q = store(q, NAMES[b], trs[::-1])
        for ml in (0, 3):
            s = Sequence((50, 58), 20., Particle(1., 2.), p, q, 
                traj_min_len=ml)
            f = os.path.join(d, 's.cfg')
            save(s, f)
            r = read_sequence(f)
            x.step(); x.state(a, b, ml)
            same_trajs(s.particle_trajectories(), r.particle_trajectories(), 
                'particles')
            same_trajs(s.tracer_trajectories(), r.tracer_trajectories(), 
                'tracers')
            r = read_sequence(f, traj_min_len=2)
            expect(all(len(t) >= 2 for t in r.particle_trajectories()) and 
                (ml != 3 or NAMES[a][-1] not in '5/' or 
                len(r.particle_trajectories()) == 3), 'overridden minimal '
                'length: %s', [len(t) for t in r.particle_trajectories()])
    x.outcome('data')
    x.drop(d)

def hand(x, sm, ml):
    from flowtracks.sequence import read_sequence
    d = x.dir()
    trs = [ref_traj(2, range(50, 56)), ref_traj(4, range(50, 52)), 
        ref_traj(5, range(51, 54))]
    p = store(d, 'p.h5', trs)
    f = os.path.join(d, 's.cfg')
    with open(f, 'w') as o:
        o.write("[Particle]\ndensity: 1450\ndiameter = 0.5e-3\n\n[Scene]\n"
            "particles file = %s\ntracers file=%s\nframe rate = 500\nfirst "
            "frame = 50\nlast frame = 54\n" % (p, p))
        if sm is not None: o.write("apply smoothing = %s\n" % sm)
        if ml is not None: o.write("trajectory minimal length = %d\n" % ml)
    for osm, oml in OVER:
        x.step(); x.state(sm, ml, osm, oml)
        r = read_sequence(f, osm, oml)
        g = os.path.join(d, 'g.cfg')
        save(r, g)
        c = contents(g)['Scene']
        wsm = osm if osm is not None else sm in ('yes', 'true')
        wml = oml if oml is not None else (ml or 0)
        expect(c['apply smoothing'] == ('yes' if wsm else 'no'), 'smoothing '
            '%s, override %s: %s', sm, osm, c['apply smoothing'])
        expect(int(c['trajectory minimal length']) == wml, 'minimal length '
            '%s, override %s: %s', ml, oml, c['trajectory minimal length'])
        expect(r.range() == (50, 55) and c['last frame'] == '54', 
            'range %s', r.range())
        want = [t for t in trs if len(t['t']) >= wml]
        if want:
            trajs_match(r.particle_trajectories(), [restrict(t, 50, 56) for t 
                in want], 'minimal length %s, override %s' % (ml, oml))
    x.outcome('by hand')
    x.drop(d)

def interp(x, meth, k, r, p):
    from flowtracks.interpolation import interpolant, read_interpolant
    d = x.dir()
    if meth == 'corrfun':
        par = os.path.join(d, ['c.npz', 'c%d.npz', '100%.npz', 
            '%%(a)s.npz'][p])
        np.savez(par, corrs=np.array([1., .8, .5, .3, .2, .1]) ** (p + 1), 
            bins=np.array([0., .1, .2, .35, .5, .8]))
    else:
        par = [None, 1, 2.5, 1. / 3][p]
    it = interpolant(meth, k, r, par)
    f = os.path.join(d, 'i.cfg')
    used = None
    if p % 2:
        used = ConfigParser()
        interpolant('inv', 2, 0.125, 9).save_config(used)
        used.add_section('Other'); used.set('Other', 'key', 'value')
        used.set('Interpolant', 'note', 'keep')
    save(it, f, used)
    if used is not None:
        expect(contents(f)['Interpolant'].get('note') == 'keep', 
            'another key of the section was lost')
        expect(contents(f)['Other'] == {'key': 'value'}, 'other sections')
    back = read_interpolant(f)
    what = 'interpolant %s' % ([meth, k, r, par],)
    x.step(); x.state(meth, k, r, p)
    expect(type(back) is type(it), '%s: type %s', what, type(back))
    expect(back.num_neighbs() == it.num_neighbs(), '%s: %s neighbours', what, 
        back.num_neighbs())
    expect(back.radius() == it.radius(), '%s: radius %s', what, back.radius())
    T, P = np.array(R.POOL), np.array(R.POINTS)
    V = np.array(R.field(8, 3))
    expect_close(back(T, P, V), it(T, P, V), what + ': interpolation')
    for i in (it, back): i.set_scene(T, P, V)
    expect_close(back.interpolate(), it.interpolate(), what + ': on scene')
    g = os.path.join(d, 'j.cfg')
    save(back, g)
    again = read_interpolant(g)
    expect_close(again(T, P, V), it(T, P, V), what + ': 2nd generation')
    x.outcome('interpolant')
    x.drop(d)

def dual(x, ra, fr, pt):
    from flowtracks.scene import read_dual_scene
    d = x.dir()
    a, b = RANGES[ra]
    trs = [[ref_traj(3, range(a - 2, b + 3))], [ref_traj(3, range(a - 1, 
        b + 2)), ref_traj(4, range(a, b))]]
    names = [('t.h5', 'p.h5'), ('t%1.h5', 'p%d%s.h5'), ('%%.h5', '%(x)s.h5')]
    tn, pn = [os.path.join(d, n) for n in names[(ra + fr) % 3]]
    S.write_trajs(tn, trs[0]); S.write_trajs(pn, trs[1])
    cfg = ConfigParser()
    for s in ('Particle', 'Scene'): cfg.add_section(s)
    di, de = PARTS[pt]
    for s, k, v in (('Particle', 'diameter', di), ('Particle', 'density', de), 
            ('Scene', 'frame rate', RATES[fr]), ('Scene', 'first frame', a), 
            ('Scene', 'last frame', b - 1), ('Scene', 'tracers file', tn), 
            ('Scene', 'particles file', pn)):
        cfg.set(s, k, str(v).replace('%', '%%'))
    f = os.path.join(d, 'd.cfg')
    with open(f, 'w') as o: cfg.write(o)
    ds = read_dual_scene(f)
    x.step(); x.state(ra, fr, pt)
    expect(ds.frate == RATES[fr] and (ds.part.diam, ds.part.density) == 
        (di, de), 'dual scene: %s, %s, %s', ds.frate, ds.part.diam, 
        ds.part.density)
    expect(tuple(ds.get_range()) == (a, b), 'range %s', ds.get_range())
    expect(ds.get_particles_path() == pn, 'path %s', ds.get_particles_path())
    k = 0
    for frame in ds.iter_frames():
        snap_matches(frame.tracers, frame_ref(trs[0], a + k), a + k, 'tracers')
        snap_matches(frame.particles, frame_ref(trs[1], a + k), a + k, 
            'particles')
        k += 1
    expect(k == b - a, '%d frames instead of %d', k, b - a)
    x.outcome('dual scene')
    x.drop(d)
