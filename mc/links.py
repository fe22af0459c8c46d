"""
Writing link files (ptv_is, xuap, single-file) from a link graph and the
reference reconstruction of its trajectories.
"""
import os, itertools
from .util import *
from .core import expect, Violation

def point(t, r, c, style=0):
    """Position component of row r in the t-th frame, in file units."""
    if style == 1: # large values, negative
        return -1234.5 * (c + 1) + 17.25 * t * (c - 1) - 301.125 * r
    if style == 2: # coincident particles, still for some time
        return 12.5 + c + 0.5 * (t // 2)
    if style == 3: # tiny
        return 0.001 * ((t * 7 + r * 13 + c * 3) % 29 + 1)
    return ((t * t * 13 + r * 29 + c * 7 + t * 5 * (c + 1)) % 211) * 0.25 \
        - 20. + r

def xvel(t, r, c):
    return ((t * 31 + r * 17 + c * 11) % 97) * 0.125 - 5.

def xacc(t, r, c):
    return ((t * 3 + r * 41 + c * 19) % 89) * 0.25 + 1000.

def num(v):
    return '%.6f' % v

class Film(object):
    """
    A recording: frame sizes, links, and which particles of the last frame
    end there (others go on beyond it), and which of the first one have
    started earlier.
    """
    def __init__(self, sizes, links, open_rows=(), earlier=(), style=0):
        self.sizes, self.links = sizes, links
        self.open_rows, self.earlier = set(open_rows), set(earlier)
        self.style = style
        self.prev = prev_of(sizes, links)
    
    def next_of(self, t, r):
        """row in the next frame, -2 if the trajectory ends."""
        if t == len(self.sizes) - 1:
            return r if r in self.open_rows else -2
        n = self.links[t][r]
        return n if n >= 0 else -2
    
    def prev_row(self, t, r):
        if t == 0:
            return r if r in self.earlier else -1
        return self.prev[t][r]
    
    def lines(self, t, fmt):
        for r in range(self.sizes[t]):
            p = [point(t, r, c, self.style) for c in range(3)]
            prv, nxt = self.prev_row(t, r), self.next_of(t, r)
            if fmt == 'xuap':
                # rows counted from 1, 0: no previous, -1: no next.
                prv, nxt = prv + 1, nxt + 1
                row = [prv, nxt] + [x / 1000. for x in p] + \
                    [x / 999. for x in p] + \
                    [xvel(t, r, c) for c in range(3)] + \
                    [xacc(t, r, c) for c in range(3)]
                yield '\t'.join('%.9f' % x for x in row + [float(t)]) + '\n'
            else:
                yield "%4d %4d %s\n" % (prv, nxt, ' '.join(
                    '%10s' % num(x) for x in p))
    
    def write(self, tmpl, fmt, first, only=None):
        """frame number first + t is in the t-th file."""
        for t in range(len(self.sizes)):
            if only is not None and t not in only: continue
            with open(tmpl % (first + t), 'w') as f:
                if fmt != 'xuap':
                    f.write('%d\n' % self.sizes[t])
                f.writelines(self.lines(t, fmt))
    
    def write_single(self, fname, final_blank=False):
        with open(fname, 'w') as f:
            for t in range(len(self.sizes)):
                # "Empty" lines may hold blanks.
                if t > 0: f.write(('\n', ' \n', '\t \n')[
                    (t + sum(self.sizes)) % 3])
                f.writelines(self.lines(t, 'ptvis'))
            if final_blank or self.sizes[-1] == 0:
                # an empty last frame is only visible as an extra line
                f.write('\n')
    
    def chains(self):
        return chains(self.sizes, self.links)
    
    def expected(self, fmt, first=0, frate=1., lo=None, hi=None, min_len=1):
        """
        Reference trajectories when frames lo <= t <= hi (0-based) are read:
        a set of (times, pos, velocity, accel).
        """
        F = len(self.sizes)
        lo = 0 if lo is None else max(lo, 0)
        hi = F - 1 if hi is None else min(hi, F - 1)
        res = []
        for ch in self.chains():
            ch = [tr for tr in ch if lo <= tr[0] <= hi]
            if not ch: continue
            t, r = ch[-1]
            if self.next_of(t, r) != -2: continue # still in progress
            if len(ch) < min_len: continue
            pos = np.array([[float(num(point(t, r, c, self.style))) / 1000.
                if fmt != 'xuap' else 
                float('%.9f' % (point(t, r, c, self.style) / 1000.))
                for c in range(3)] for t, r in ch])
            vel = np.zeros_like(pos)
            if fmt == 'xuap':
                vel = np.array([[xvel(t, r, c) for c in range(3)] 
                    for t, r in ch])
            else:
                for i in range(len(ch) - 1):
                    vel[i] = (pos[i + 1] - pos[i]) * frate
            acc = np.zeros_like(pos)
            for i in range(len(ch) - 2):
                acc[i] = (vel[i + 1] - vel[i]) * frate
            res.append(([first + t for t, r in ch], pos, vel, acc))
        return res

def compare(objs, want, what, motion=False):
    """objs: Trajectory objects, in any order."""
    ids = [int(o.trajid()) for o in objs]
    expect(len(set(ids)) == len(ids), "%s: trajectory ids %s repeat", what,
        ids)
    expect(len(objs) == len(want), "%s: %d trajectories instead of %d "
        "(times %s, expected %s)", what, len(objs), len(want),
        [o.time().tolist() for o in objs], [w[0] for w in want])
    def tup(a):
        return tuple(np.round(np.asarray(a, dtype=float).ravel(), 8) + 0.)
    left = {}
    for w in want:
        left.setdefault((tuple(w[0]), tup(w[1])), []).append(w)
    for o in objs:
        t = [float(x) for x in o.time()]
        expect(o.time().shape == (len(o),), "%s: shape of times", what)
        expect(o.pos().shape == (len(o), 3), "%s: shape of positions", what)
        key = (tuple(t), tup(o.pos()))
        if not left.get(key):
            raise Violation("%s: unexpected trajectory at times %s, positions "
                "%s; expected %s" % (what, t, o.pos().tolist(),
                [(w[0], w[1].tolist()) for w in want]))
        w = left[key].pop()
        if motion:
            # coincident trajectories can't be told apart by position.
            cands = left[key] + [w]
            got = (tup(o.velocity()), tup(o.accel()))
            for c in cands:
                if (tup(c[2]), tup(c[3])) == got: 
                    left[key] = [x for x in cands if x is not c]
                    break
            expect_close(o.velocity(), c[2], "%s: velocity of trajectory at "
                "times %s", what, t, rtol=1e-7, atol=1e-8)
            expect_close(o.accel(), c[3], "%s: acceleration of trajectory at "
                "times %s", what, t, rtol=1e-6, atol=1e-6)

def read(fmt, path, first=None, last=None, frate=1., min_len=1, limit=1000,
    via='iter'):
    from flowtracks import io
    xuap = (fmt == 'xuap')
    # What equals its documented default is left out.
    args = dict((k, v) for k, v, d in [('first', first, None), 
        ('last', last, None), ('frate', frate, 1.), 
        ('traj_min_len', min_len, None)] if v != d)
    if via in ('iter', 'list'):
        if xuap: args['xuap'] = True
        if via == 'list':
            return list(io.trajectories_ptvis(path, **args))
        return take(io.iter_trajectories_ptvis(path, **args), limit, 
            'iter_trajectories_ptvis')
    if via == 'any-iter': args['iter_allowed'] = True
    if via != 'infer': args['fmt'] = 'xuap' if xuap else 'ptvis'
    for k in ('first', 'last', 'frate'):
        args.setdefault(k, {'frate': 1.}.get(k))
    got = io.trajectories(path, **args)
    expect(via == 'any-iter' or isinstance(got, list), 'asked for a list, got '
        '%s', type(got))
    return take(got, limit, 'trajectories')

# ---------------------------------------------------------- bigger families
def crowd(F, n, at, swap):
    """
    n particles which live two or three frames, by turns, around the place 
    `at` of one that lives through the film (but for its last frame); in every
    other frame that one is at the other end if `swap`.
    """
    alive = []
    for t in range(F):
        a = [(p, (t + p % 3) // (2 + p % 2)) for p in range(n)]
        if t < F - 1:
            a.insert(n - at if swap and t % 2 else at, (-1, 0))
        alive.append(a)
    links = []
    for t in range(F - 1):
        pos = dict((x, i) for i, x in enumerate(alive[t + 1]))
        links.append([pos.get(x, -1) for x in alive[t]])
    return [len(a) for a in alive], links, []

def staggered(F, P, life, gap, scramble):
    """
    P lanes; in lane p, particles live `life` frames (the first one shorter,
    by p), then the lane rests `gap` frames. Rows of a frame are ordered by
    the scramble mode.
    """
    alive = [[] for _ in range(F)]
    for p in range(P):
        start = -(p % max(life, 1))
        k = 0
        while start < F:
            for t in range(max(start, 0), min(start + life, F)):
                alive[t].append((p, k))
            start += life + gap
            k += 1
    for t in range(F):
        a = alive[t]
        if scramble == 1: a.reverse()
        elif scramble == 2 and a:
            s = (t * 3) % len(a); alive[t] = a[s:] + a[:s]
        elif scramble == 3: a.sort(key=lambda x: ((x[0] * 7 + t * 5) % 11, x))
    sizes = [len(a) for a in alive]
    links = []
    for t in range(F - 1):
        pos = dict((x, i) for i, x in enumerate(alive[t + 1]))
        links.append([pos.get(x, -1) for x in alive[t]])
    open_rows = [i for i, (p, k) in enumerate(alive[-1]) 
        if -(p % max(life, 1)) + k * (life + gap) + life > F]
    return sizes, links, open_rows
