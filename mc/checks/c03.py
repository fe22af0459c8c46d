"""Frame range, minimal length and file selection when reading link files."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import links as L
from .. import env

PROPERTY = 'C03'
CHUNK = 50
RULE = (
    "A set of films (chains of all spans within 5 frames, in three link "
    "patterns) x every pair (first, last) including none, outside and empty "
    "ranges x numbering from 0 or 8 x minimal lengths {none,0..5} x every entry point x both "
    "directory layouts; and file-selection cases (ptv_is, xuap, trajAcc): every template spelling x "
    "frame numbering crossing a power of ten x decoy file sets x directory "
    "listing orders x current-directory/home/absolute paths.")
ASSUME = ["the single-file layout has no frame numbers to select by, so only "
    "minimal length applies to it"]

def films():
    """sizes, links"""
    # chains for every span [a, b] within 5 frames, rows sorted by pattern
    spans = [(a, b) for a in range(5) for b in range(a, 5)]
    for scr in (0, 1, 2):
        alive = []
        for t in range(5):
            rows = [s for s in spans if s[0] <= t <= s[1]]
            if scr == 1: rows.reverse()
            if scr == 2: rows.sort(key=lambda s: (s[0] * 3 + s[1] * 7 + t) % 8)
            alive.append(rows)
        links = [[alive[t + 1].index(s) if s in alive[t + 1] else -1
            for s in alive[t]] for t in range(4)]
        yield [len(a) for a in alive], links
    # a film with an empty frame in it, and single chains.
    yield [2, 2, 0, 1, 1], [[1, 0], [-1, -1], [], [0]]
    yield [1, 1, 1, 1, 1], [[0]] * 4
    yield [1, 2, 3, 2, 1], [[1], [2, 0], [-1, 1, 0], [-1, 0]]
FILMS = list(films())

TEMPLATES = ['ptv_is.%d', 'ptv_is.%05d', 'ptv_is.%06d', 'run+1(a).ptv_is.%d', 
    'ptv_is_%d.dat', '%d.ptv_is', 'ptv_is.[x].%d.v2']
XTEMPLATES = ['xuap.%d', 'xuap.%05d', 'a.b-xuap.%d', 'xuap.%d.out']
ATEMPLATES = ['trajAcc.%d', 'trajAcc.%05d', 'run+1(a).trajAcc.%d', 
    'trajAcc_%d.dat', '%d.trajAcc', 'trajAcc.[x].%06d.v2']
DECOYS = [[], ['{}~', '{}.bak', 'x{}', '#{}#'], ['{}0', '0{}', '{}.1'],
    ['README', 'ptv_is.', 'xuap.', 'ptv_is.%d', 'ptv_is.abc', 'ptv_is.1a',
        'ptv_is.-1', 'notes.txt'],
    'padded', 'dir']

def cases(tier):
    deep = tier == 'thorough'
    vias = ('iter', 'any', 'list', 'any-iter', 'infer')
    rng = [None, -1, 0, 1, 2, 3, 4, 6]
    n = 0
    for fi in range(len(FILMS)):
        for lo in rng:
            for hi in rng:
                for ml in (None, 0, 1, 2, 3, 4, 5):
                    for fmt in ('ptvis', 'xuap'):
                        n += 1
                        for k in range(5) if deep else (n % 5,):
                            for base in (0, 8): # the latter crosses 10
                                yield ['range', fi, lo, hi, ml, fmt, vias[k],
                                    base]
        for ml in (None, 0, 1, 2, 3, 4, 5):
            for v in vias:
                yield ['range', fi, None, None, ml, 'single', v, 0]
    for fmt, tmpls in (('ptvis', TEMPLATES), ('xuap', XTEMPLATES), 
        ('acc', ATEMPLATES)):
        for ti in range(len(tmpls)):
            for base in (0, 7, 97, 998, 9997, 99998, 999999998):
                for dec in range(len(DECOYS)):
                    for lst in (0, 1, 2, 5):
                        for where in ('abs', 'cwd', 'home', 'rel'):
                            if not deep and where != 'abs' and \
                                (dec + lst + ti) % 3: continue
                            yield ['files', fmt, ti, base, dec, lst, where]
    if deep:
        for s in range(3, 14):
            yield ['range-many', s]
    else:
        yield ['range-many', 11]

def run(case, x):
    {'range': run_range, 'files': run_files, 'range-many': run_many}[
        case[0]](case, x)

def prepared(x, fi, fmt, base):
    key = (fi, fmt, base)
    if key not in x.cache:
        d = x.dir()
        f = L.Film(*FILMS[fi])
        if fmt == 'single':
            p = os.path.join(d, 'ptv_is_film.txt')
            f.write_single(p)
        else:
            p = os.path.join(d, 'xuap.%d' if fmt == 'xuap' else 'ptv_is.%d')
            f.write(p, fmt, base)
        x.cache[key] = (f, p)
    return x.cache[key]

def run_range(case, x):
    _, fi, lo, hi, ml, fmt, via, base = case
    film, path = prepared(x, fi, fmt, base)
    first = None if lo is None else base + lo
    last = None if hi is None else base + hi
    x.state('range', fi, lo, hi, ml, fmt, base)
    x.step()
    got = L.read(fmt, path, first, last, 10., ml, 200, via)
    want = film.expected(fmt, base, 10., lo, hi, 2 if ml is None else ml)
    L.compare(got, want, 'frames %s to %s, minimal length %s, by %s' % (
        first, last, ml, via), motion=True)
    x.outcome('%s of range' % ('nothing' if not want else 'some'))

def run_many(case, x):
    """a long film of which each range is read."""
    s, l, o = L.staggered(30, case[1], 6, 1, 2)
    film = L.Film(s, l, o)
    d = x.dir()
    p = os.path.join(d, 'ptv_is.%d')
    film.write(p, 'ptvis', 85)
    for lo in range(0, 30, 1):
        for hi in range(lo, min(30, lo + 14), 3):
            for ml in (None, 5, 6):
                x.step()
                got = L.read('ptvis', p, 85 + lo, 85 + hi, 1., ml, 500, 'any')
                want = film.expected('ptvis', 85, 1., lo, hi,
                    2 if ml is None else ml)
                L.compare(got, want, 'frames %d to %d' % (lo, hi))
                x.state('many', case, lo, hi, ml)

class AccFiles(object):
    """
    trajAcc files of five frames, holding the paths which start in each: 2, 0 
    (an absent file), 1, 3 and 1 of them.
    """
    def __init__(self):
        self.lens = [[2, 1], [], [3], [1, 2, 1], [2]]

    def paths(self, base):
        for k, lens in enumerate(self.lens):
            for j, l in enumerate(lens):
                yield k, l, ref_traj(10 * k + j, range(base + k, base + k + l),
                    ('accel',))

    def write(self, tmpl, fmt, base):
        for k, l, t in self.paths(base):
            with open(tmpl % (base + k), 'a') as f:
                for i in range(l):
                    row = list(t['pos'][i]) + list(t['velocity'][i]) + \
                        list(t['accel'][i]) + [0.25] * 24 + [i]
                    f.write(' '.join('%.12g' % v for v in row) + '\n')

    def check(self, path, base, lo, hi, via):
        from flowtracks import io
        first = None if lo is None else base + lo
        last = None if hi is None else base + hi
        if via == 'iter':
            got = io.trajectories_acc(path, first, last)
        elif via == 'any':
            got = io.trajectories(path, first, last, 1., 'acc', 1)
        else: # format by name, default minimal length
            got = io.trajectories(path, first, last, 1.)
        want = [t for k, l, t in self.paths(base) if (lo is None or k >= lo) 
            and (hi is None or k <= hi) and (via != 'infer' or l > 1)]
        what = 'frames %s to %s, by %s' % (first, last, via)
        got = take(got, 20, what)
        expect([list(g.time()) for g in got] == [w['t'] for w in want],
            '%s: paths at %s instead of %s', what, [list(g.time()) 
            for g in got], [w['t'] for w in want])
        expect(len(set(int(g.trajid()) for g in got)) == len(got), '%s: ids '
            'repeat', what)
        for g, w in zip(got, want):
            for k in ('pos', 'velocity', 'accel'):
                expect_close(getattr(g, k)(), w[k], what + ': ' + k)

def run_files(case, x):
    _, fmt, ti, base, dec, lst, where = case
    tmpl = {'xuap': XTEMPLATES, 'ptvis': TEMPLATES, 'acc': ATEMPLATES}[fmt][ti]
    film = AccFiles() if fmt == 'acc' else L.Film(*FILMS[5])
    d = x.dir()
    film.write(os.path.join(d, tmpl), fmt, base)
    junk = {'ptvis': '1\n  -1   -2      1.0   1.0   1.0\n', 
        'xuap': '0 -1 ' + '1.0 ' * 13 + '\n',
        'acc': '1.0 ' * 33 + '0\n'}[fmt]
    if DECOYS[dec] == 'padded':
        # other spellings of the same frame numbers, unlike the template
        for k in range(5):
            for t2 in ('%d', '%02d', '%05d', '%07d'):
                import re
                name = re.sub(r'%\d*d', t2, tmpl) % (base + k)
                if not os.path.exists(os.path.join(d, name)) and \
                    name != tmpl % (base + k):
                    open(os.path.join(d, name), 'w').write(junk)
    elif DECOYS[dec] == 'dir':
        os.mkdir(os.path.join(d, 'old'))
        film.write(os.path.join(d, 'old', tmpl), fmt, base + 2)
        os.mkdir(os.path.join(d, tmpl % (base + 1) + '.d'))
    else:
        for t in DECOYS[dec]:
            for k in range(5):
                name = t.replace('{}', tmpl % (base + k))
                if name in [tmpl % n for n in range(base, base + 5)]: continue
                if is_frame(name, tmpl): continue
                with open(os.path.join(d, name), 'w') as f:
                    f.write(junk)
    env.set_listing(lst)
    x.state('files', case[1:])
    x.step()
    cwd, home = os.getcwd(), os.environ.get('HOME')
    try:
        if where == 'abs':
            path = os.path.join(d, tmpl)
        elif where == 'cwd':
            os.chdir(d); path = tmpl
        elif where == 'rel':
            os.chdir(os.path.dirname(d))
            path = os.path.join(os.path.basename(d), tmpl)
        else:
            os.environ['HOME'] = d; path = os.path.join('~', tmpl)
        for lo, hi, via in [(None, None, 'iter'), (1, 3, 'any'),
                (0, 4, 'infer')]:
            if fmt == 'acc':
                film.check(path, base, lo, hi, via)
                continue
            got = L.read(fmt, path, None if lo is None else base + lo,
                None if hi is None else base + hi, 2., 1, 200, via)
            want = film.expected(fmt, base, 2., lo, hi, 1)
            L.compare(got, want, 'template %s, numbers from %d' % (
                tmpl, base), motion=True)
    finally:
        os.chdir(cwd)
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
    x.outcome(where)
    x.drop(d)

def is_frame(name, tmpl):
    """is this legitimately a frame's file?"""
    import re
    a, b = re.split(r'%\d*d', tmpl)
    if not (name.startswith(a) and name.endswith(b)): return False
    mid = name[len(a):len(name) - len(b)]
    return mid.isdigit() and tmpl % int(mid) == name
