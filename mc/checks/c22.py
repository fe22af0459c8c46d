"""A failure in the middle is reported, and everything can be done again."""
import os, sys, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C22'
CHUNK = 2
RULE = (
    "Operations (each writer, analysis, each reader, scene and sequence "
    "iteration, analysed scene) x every call they make to the file libraries "
    "(tables, numpy I/O, directory functions) failing, before or after its "
    "effect; x every step of their inputs (iterables, analysers, user "
    "functions) failing; thorough: every pair of these. A failed attempt must "
    "raise or be right; the attempt after it, on the same objects and files, "
    "must be right. Crashes: the writing process ends at every such point, "
    "the next one redoes the work.")
ASSUME = ["flushing and closing a file do not fail",
    "a failure is an exception from the call or input: OSError for every "
    "point, other standard types at a part of them (quick: each operation has "
    "ten for inputs and three for file calls)"]

OPS = ['particles', 'frames', 'npz', 'npzread', 'analysis', 'hdfread', 
    'tableread', 'scene', 'frameiter', 'segiter', 'collect', 'seq', 'seqmap', 
    'analysed', 'ptvis', 'xuap', 'acc', 'single', 'dual', 'bounds']

import zipfile
class Fault(Exception):
    pass

# What a failing call or input raises.
KINDS = {}
for _b in (OSError, ZeroDivisionError, ValueError, KeyError, IndexError, 
        AttributeError, TypeError, RuntimeError, EOFError, MemoryError, 
        np.linalg.LinAlgError, FileNotFoundError, PermissionError, 
        zipfile.BadZipFile, StopIteration, KeyboardInterrupt):
    KINDS[_b.__name__] = type('Injected' + _b.__name__, (_b, Fault), {})
INPUT = ['ZeroDivisionError', 'ValueError', 'KeyError', 'IndexError', 
    'AttributeError', 'TypeError', 'RuntimeError', 'LinAlgError', 
    'StopIteration', 'KeyboardInterrupt']
FILES = ['ValueError', 'RuntimeError', 'EOFError', 'FileNotFoundError', 
    'PermissionError', 'BadZipFile', 'MemoryError', 'KeyboardInterrupt', 
    'KeyError']

class Inject(object):
    """Makes the n-th call fail."""
    def __init__(self): 
        self.n = None; self.count = 0; self.mode = 'before'; self.crash = False
        self.kind = 'OSError'
    def hit(self):
        self.count += 1
        if self.count == self.n:
            if self.crash: os._exit(7)
            k = KINDS[self.kind]
            raise k(5, 'injected') if issubclass(k, OSError) else k('injected')
    def arm(self, n, mode, kind='OSError'): 
        self.n, self.count, self.mode, self.kind = n, 0, mode, kind
    def step(self):
        """of the input"""
        if self.mode == 'input': self.hit()

inj = Inject()
_done = []

def install():
    if _done: return
    _done.append(1)
    import tables
    def wrap(owner, name):
        real = getattr(owner, name)
        def w(*a, **k):
            if name == 'read_where' and len(a) < 3 and 'condvars' not in k:
                # It looks for variables in its caller's frame.
                fr = sys._getframe(1)
                k['condvars'] = dict((n, v) for n, v in 
                    list(fr.f_globals.items()) + list(fr.f_locals.items()) if 
                    n not in a[0].colnames)
            if inj.n is None or inj.mode == 'input' or not \
                (sys._getframe(1).f_globals.get('__name__') or '').startswith(
                    'flowtracks'):
                # Faults inside the file libraries are another matter.
                return real(*a, **k)
            if inj.mode == 'before': 
                inj.hit()
                return real(*a, **k)
            r = real(*a, **k)
            # PyTables itself keeps a file open that is closed between indexing
            # and flushing.
            if name == 'create_index': return r
            try: inj.hit()
            except Fault:
                if isinstance(r, tables.File): r.close()
                raise
            return r
        setattr(owner, name, w)
    for o, n in ((tables, 'open_file'), (tables.File, 'create_table'), 
            (tables.File, 'get_node'), (tables.Table, 'append'), 
            (tables.Table, 'read_where'), (tables.Table, 'col'), 
            (tables.Table, 'read'), (tables.Column, 'create_index'), 
            (np, 'savez'), (np, 'save'), 
            (np, 'load'), (np, 'loadtxt'), (os, 'listdir'), 
            (os, 'makedirs')):
        wrap(o, n)

def cases(tier):
    for o in OPS:
        for mode in ('before', 'after', 'input'):
            for pair in ((0, 1) if tier == 'thorough' else (0,)):
                yield [o, mode, pair, 'OSError']
    for o in OPS:
        for k in INPUT:
            # an input iterable raising StopIteration is at its end.
            if k == 'StopIteration' and o != 'analysis': continue
            yield [o, 'input', 0, k]
        for i, k in enumerate(FILES):
            if tier == 'thorough' or (i + OPS.index(o)) % 3 == 0:
                yield [o, 'before', 0, k]
    for o in ('particles', 'frames', 'npz', 'analysis'):
        for mode in ('before', 'after', 'input'):
            yield [o, mode, 'crash', 'OSError']

def run(case, x):
    install()
    op, mode, pair, kind = case
    n = 0
    while True:
        n += 1
        d = x.dir()
        w = World(op, d)
        if pair == 'crash':
            pid = os.fork()
            if pid == 0:
                try:
                    inj.crash = True
                    inj.arm(n, mode, kind)
                    w.do()
                    os._exit(0)
                finally: os._exit(9)
            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            expect(st in (0, 7), '%s, crash at %s call %d: child gave %s', op, 
                mode, n, st)
            over = st == 0
        else:
            over = attempt(x, w, op, mode, n, kind)
        if pair == 1 and not over:
            for m in range(1, 60):
                if attempt(x, w, op, mode, m, kind): break
            # this world has been through all single failures in a row.
        inj.arm(None, 'before')
        x.step(); x.state(op, mode, n, kind)
        try: r = w.do()
        except Exception as e:
            raise Violation('%s: after a failure (%s call %d) it cannot be '
                'done again: %r' % (op, mode, n, e))
        w.check(r, 'after a failure (%s call %d)' % (mode, n))
        w.close()
        x.drop(d)
        if over:
            x.outcome('%s: %s %s' % (op, mode, kind))
            return
        expect(n < 400, 'too many calls')

def attempt(x, w, op, mode, n, kind):
    """returns True if the failure point is not reached."""
    x.step()
    inj.arm(n, mode, kind)
    try:
        r = w.do()
        reached = inj.count >= n
    except Fault:
        r = None; reached = True
    except (Exception, KeyboardInterrupt) as e:
        # also a report of failure, as long as there was one.
        if inj.count < n: raise
        r = None; reached = True
    finally:
        inj.arm(None, 'before')
    if r is not None:
        w.check(r, 'in spite of a failure (%s call %d)' % (mode, n))
    return not reached

class Steps(object):
    def __init__(self, it): self.it = iter(it)
    def __iter__(self): return self
    def __next__(self):
        try: r = next(self.it)
        except StopIteration:
            inj.step()
            raise
        inj.step()
        return r

class World(object):
    """Files and objects of one operation."""
    def __init__(self, op, d):
        self.op, self.d = op, d
        inj.arm(None, 'before')
        self.trs = [ref_traj(4, range(30, 34), ('size',)), ref_traj(9, 
            range(31, 35), ('size',)), ref_traj(2, range(32, 34), ('size',))]
        self.trac = [ref_traj(1, range(28, 38), ('pair',)), ref_traj(4, 
            range(29, 37), ('pair',))]
        self.h5 = os.path.join(d, 'in.h5'); S.write_trajs(self.h5, self.trs)
        self.t5 = os.path.join(d, 'tr.h5'); S.write_trajs(self.t5, self.trac)
        self.out = os.path.join(d, 'out.h5')
        self.cfg = os.path.join(d, 's.cfg')
        with open(self.cfg, 'w') as f:
            f.write("[Particle]\ndensity = 1450\ndiameter = 500e-6\n[Scene]\n"
                "particles file = %s\ntracers file = %s\nfirst frame = 30\n"
                "last frame = 34\nframe rate = 500\n" % (self.h5, self.t5))
        getattr(self, 'set_' + op, lambda: None)()
    
    def close(self):
        for k in ('sc', 'ds', 'seq', 'an'):
            if hasattr(self, k): delattr(self, k)
    
    def do(self): return getattr(self, 'do_' + self.op)()
    def check(self, r, what):
        getattr(self, 'ok_' + self.op)(r, self.op + ', ' + what)
    
    def steps(self, it):
        # a class, as a generator would turn a StopIteration to another error
        return Steps(it)
    
    # Writers
    def do_particles(self):
        from flowtracks import io
        io.save_particles_table(self.out, self.steps([make_traj(t) for t in 
            self.trs]))
        return True
    def ok_particles(self, r, what, trs=None):
        from flowtracks import io
        import tables
        trs = trs or self.trs
        trajs_match(io.trajectories_table(self.out), trs, what)
        with tables.open_file(self.out) as f:
            b = sorted((int(r['trajid']), int(r['first']), int(r['last'])) 
                for r in f.get_node('/bounds').read())
        expect(b == sorted((t['id'], t['t'][0], t['t'][-1]) for t in trs), 
            '%s: bounds %s', what, b)
    
    def do_frames(self):
        from flowtracks import io
        from flowtracks.scene import Scene
        sc = Scene(self.h5)
        io.save_frames_hdf(self.out, self.steps(sc.iter_frames()))
        return True
    ok_frames = ok_particles
    
    def do_npz(self):
        from flowtracks import io
        class Adds(dict):
            def __getitem__(s, k):
                inj.step()
                return dict.__getitem__(s, k)
        io.save_trajectories(os.path.join(self.d, 'npz'), [make_traj(t) for t 
            in self.trs], {'more': Adds((t['id'], np.arange(t['id'])) for t in 
            self.trs)}, free=np.arange(3))
        return True
    def ok_npz(self, r, what):
        from flowtracks import io
        p = os.path.join(self.d, 'npz')
        trs, adds = io.load_trajectories(p)
        trajs_match(trs, self.trs, what)
        expect(set(adds['more']) == set(t['id'] for t in self.trs), 
            '%s: added data', what)
        for k, v in adds['more'].items(): expect_exact(v, np.arange(k), what)
        expect_exact(np.load(os.path.join(p, 'free.npy')), np.arange(3), what)
    
    def set_npzread(self): self.do_npz()
    def do_npzread(self):
        from flowtracks import io
        return io.load_trajectories(os.path.join(self.d, 'npz'))[0]
    def ok_npzread(self, r, what): trajs_match(r, self.trs, what)
    
    def set_analysis(self):
        from flowtracks.scene import read_dual_scene
        self.ds = read_dual_scene(self.cfg)
    def do_analysis(self):
        from flowtracks.analysis import analysis, GeneralAnalyser
        class A(GeneralAnalyser):
            def descr(s): 
                inj.step()
                return [('mark', float, 3)]
            def analyse(s, fr, nx):
                inj.step()
                return [fr.particles.pos() * 2]
        analysis(self.ds, self.out, self.cfg, [A(), ], (31, 34))
        return True
    def ok_analysis(self, r, what):
        import tables
        with tables.open_file(self.out) as f:
            raw = f.get_node('/analysis').read()
        have = sorted((int(r['time']), int(r['trajid'])) + tuple(
            r['mark']) for r in raw)
        want = sorted((t, i) + tuple(2. * c for c in row['pos']) for t in 
            (31, 32) for i, row in S.segments_ref(self.trs, t)[0].items())
        expect_close(np.array(have), np.array(want), what)
        k = 30
        for fr in self.ds.iter_frames():
            snap_matches(fr.particles, frame_ref(self.trs, k), k, what)
            snap_matches(fr.tracers, frame_ref(self.trac, k), k, what)
            k += 1
        expect(k == 35, '%s: scene goes to %d', what, k)
    
    # Readers. The file may also be written again after a failure.
    def do_hdfread(self):
        from flowtracks import io
        return io.trajectories(self.h5, 31, 33, 1., traj_min_len=1)
    def ok_hdfread(self, r, what):
        trajs_match(r, [restrict(t, 31, 34) for t in self.trs], what)
        S.write_trajs(self.h5, self.trs) # not left open
    
    def do_tableread(self):
        from flowtracks import io
        return io.trajectories_table(self.h5)
    def ok_tableread(self, r, what):
        trajs_match(r, self.trs, what)
        S.write_trajs(self.h5, self.trs)
    
    def do_scene(self):
        from flowtracks.scene import Scene
        sc = Scene(self.h5, (31, None))
        return list(sc.iter_trajectories()), sc.frame_range()
    def ok_scene(self, r, what):
        trajs_match(r[0], [restrict(t, 31, None) for t in self.trs], what)
        expect(tuple(r[1]) == (31, 35), '%s: range %s', what, r[1])
        S.write_trajs(self.h5, self.trs)
    
    def set_frameiter(self):
        from flowtracks.scene import Scene
        self.sc = Scene(self.h5)
    set_segiter = set_collect = set_bounds = set_frameiter
    def do_frameiter(self): 
        return list(self.steps(self.sc.iter_frames()))
    def ok_frameiter(self, r, what):
        expect(len(r) == 5, '%s: %d frames', what, len(r))
        for k, f in enumerate(r): 
            snap_matches(f, frame_ref(self.trs, 30 + k), 30 + k, what)
    def do_segiter(self): return list(self.steps(self.sc.iter_segments()))
    def ok_segiter(self, r, what):
        expect(len(r) == 4, '%s: %d segments', what, len(r))
        for k, (a, b) in enumerate(r):
            S.segment_matches(a, b, self.trs, 30 + k, what, props(
                self.trs[0]))
    def do_collect(self):
        return self.sc.collect(['pos', 'time'], {'time': (31, 33, False)}) + \
            self.sc.collect(['size'])
    def ok_collect(self, r, what):
        have = sorted(tuple(p) + (int(t),) for p, t in zip(*r[:2]))
        want = sorted(tuple(t['pos'][i]) + (f,) for t in self.trs for i, f in 
            enumerate(t['t']) if 31 <= f < 33)
        expect_close(np.array(have), np.array(want), what)
        expect_close(sorted(r[2]), sorted(v for t in self.trs for v in 
            t['size']), what)
    def do_bounds(self): return self.sc.bounding_box()
    def ok_bounds(self, r, what):
        p = np.array([v for t in self.trs for v in t['pos']])
        expect_close(r[0], p.min(axis=0), what)
        expect_close(r[1], p.max(axis=0), what)
    
    def set_seq(self):
        from flowtracks.sequence import Sequence
        from flowtracks.particle import Particle
        self.seq = Sequence((30, 34), 1., Particle(1., 1.), self.h5, self.t5)
        sel = lambda trs: list(self.steps(trs))
        self.seq.set_particle_selector(sel)
        self.seq.set_tracer_selector(sel)
    set_seqmap = set_seq
    def do_seq(self): return list(self.steps(self.seq))
    def ok_seq(self, r, what):
        expect(len(r) == 4, '%s: %d steps', what, len(r))
        for k, (a, b) in enumerate(r):
            for n, trs in (('particles', self.trs), ('tracers', self.trac)):
                S.segment_matches(getattr(a, n), getattr(b, n), trs, 30 + k, 
                    what + ', ' + n, props(trs[0]))
    def do_seqmap(self):
        def f(s, a, b):
            inj.step()
            return dict((int(i), i * 100. + a.particles.time()) for i in 
                a.particles.trajid())
        return self.seq.map_trajectories(f)
    def ok_seqmap(self, r, what):
        expect(set(int(k) for k in r) == set(t['id'] for t in self.trs), 
            '%s: %s mapped', what, list(r))
        for t in self.trs:
            expect_close(r[t['id']], [t['id'] * 100. + f for f in t['t'][:-1]
                if f < 34], what)
    
    def set_analysed(self):
        self.set_analysis(); self.do_analysis(); del self.ds
    def do_analysed(self):
        from flowtracks.an_scene import AnalysedScene
        an = AnalysedScene(self.out)
        return list(an.iter_trajectories()), an.collect(['mark', 'pos'], 
            {'size': (-1e9, 1e9, False)})
    def ok_analysed(self, r, what):
        refs = []
        for t in self.trs:
            t = restrict(t, 31, min(t['t'][-1], 33))
            t['mark'] = [[2 * c for c in p] for p in t['pos']]
            refs.append(t)
        trajs_match(r[0], refs, what)
        expect_close(r[1][0], r[1][1] * 2, what)
        expect(len(r[1][0]) == sum(len(t['t']) for t in refs), '%s: %d rows', 
            what, len(r[1][0]))
        S.write_trajs(self.h5, self.trs) # not left open
        self.close()
        self.set_analysed()
    
    def set_dual(self):
        from flowtracks.scene import read_dual_scene
        self.ds = read_dual_scene(self.cfg)
    def do_dual(self):
        return list(self.steps(self.ds.iter_frames((31, 33)))), list(
            self.steps(self.ds.iter_segments()))
    def ok_dual(self, r, what):
        expect([f.particles.time() for f in r[0]] == [31, 32], '%s: frames', 
            what)
        expect([f[0].tracers.time() for f in r[1]] == [30, 31, 32, 33], 
            '%s: segments', what)
        for f in r[0]:
            t = f.particles.time()
            snap_matches(f.particles, frame_ref(self.trs, t), t, what)
            snap_matches(f.tracers, frame_ref(self.trac, t), t, what)
        for a, b in r[1]:
            t = a.particles.time()
            S.segment_matches(a.particles, b.particles, self.trs, t, what, 
                props(self.trs[0]))
    
    # Text files
    def film(self, fmt):
        from .. import links as L
        s, l, o = L.staggered(6, 2, 3, 0, 1)
        self.film = L.Film(s, l, o)
        if fmt == 'single':
            self.tmpl = os.path.join(self.d, 'ptv_is.txt')
            self.film.write_single(self.tmpl)
        else:
            self.tmpl = os.path.join(self.d, 
                {'ptvis': 'ptv_is.%d', 'xuap': 'xuap.%d'}[fmt])
            self.film.write(self.tmpl, fmt, 50)
        self.want = self.read()
    def read(self):
        from flowtracks import io
        return io.trajectories(self.tmpl, None, None, 10., traj_min_len=1)
    def set_ptvis(self): self.film('ptvis')
    def set_xuap(self): self.film('xuap')
    def set_single(self): self.film('single')
    do_ptvis = do_xuap = do_single = read
    def ok_ptvis(self, r, what):
        # what the reading itself gives is for C01..C03
        expect(len(r) == len(self.want) > 0, '%s: %d trajectories', what, 
            len(r))
        for a, b in zip(sorted(r, key=lambda t: t.trajid()), sorted(self.want,
                key=lambda t: t.trajid())):
            for k, v in b.as_dict().items(): 
                expect_exact(getattr(a, k)(), v, what)
    ok_xuap = ok_single = ok_acc = ok_ptvis
    def set_acc(self):
        self.tmpl = os.path.join(self.d, 'acc', 'traj_%d')
        os.mkdir(os.path.dirname(self.tmpl))
        for f in range(30, 36):
            # the trajectories that start in this frame
            rows = [t['pos'][i] + t['velocity'][i] + [0.5] * 27 + [i] for t in
                self.trs if t['t'][0] == f for i in range(len(t['t']))]
            np.savetxt(self.tmpl % f, np.array(rows).reshape(-1, 34))
        self.want = self.do_acc()
    def do_acc(self):
        from flowtracks import io
        return io.trajectories(self.tmpl, None, None, 10., traj_min_len=1)
