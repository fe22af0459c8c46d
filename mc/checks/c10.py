"""collect(): exactly the rows that satisfy every condition and the range."""
import os, itertools
from ..core import expect, Violation
from ..util import *
from .. import scenes as S

PROPERTY = 'C10'
CHUNK = 60
RULE = (
    "A scene whose scalar columns (float, int, time, trajid) hold repeated, "
    "negative, tiny, huge and adjacent values; every pair of limits out of "
    "all values, midpoints, outsiders and infinities (equal, reversed and swapped pairs "
    "included) x inverted or not x each column; all pairs (thorough: also "
    "triples) of conditions on different columns from a smaller limit set; x "
    "frame ranges x key lists (single, several, repeated, time/trajid). "
    "Reference: a filter over the list of rows.")
ASSUME = ["limits are numbers; integers up to 2^53"]

SIZES = [0.1, 0.30000000000000004, 0.3, -2.5, 1e-9, 123456.789, 123456.7891,
    0., 1e15, 0.1, 16777217., 16777216.]
COUNTS = [0, -3, 5, 5, 7, 123456789, 123456790, 1, 2, -3, 0, 9]
RANGES = [None, (31, 34), (None, 33), (32, None), (33, 33)]
KEYS = [['pos'], ['size', 'pos'], ['time', 'trajid', 'count'], ['count'], 
    ['velocity', 'size', 'size'], ['time'], ['pos', 'velocity', 'trajid', 
    'time', 'size', 'count'], ['size', 'size']]

def limits(col, few):
    vals = {'size': SIZES, 'count': COUNTS, 'time': [30, 31, 32, 33, 34, 35],
        'trajid': [2, 7, 1000000007]}[col]
    v = sorted(set(vals))
    if few:
        v = [v[0], v[len(v) // 2], v[-1]]
        return v
    mids = [(a + b) / 2. for a, b in zip(v[:-1], v[1:])]
    return v + [m for m in mids if m not in v][::2] + [v[0] - 1, v[-1] + 1,
        float('-inf'), float('inf'), 1e22, -1e22, 2.**63]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for rng in range(len(RANGES)):
        for ks in range(len(KEYS)):
            yield [rng, ks, {}]
            yield [rng, ks, None]
    for col in ('size', 'count', 'time', 'trajid'):
        ls = limits(col, False)
        for a in ls:
            for b in ls:
                for inv in (False, True):
                    for rng in range(5) if deep else (n % 5, (n + 2) % 5):
                        n += 1
                        yield [rng, n % len(KEYS), {col: [a, b, inv]}]
    cols = [('size', 'count'), ('count', 'time'), ('trajid', 'size'), 
        ('time', 'size')]
    for c1, c2 in cols:
        for a, b, c, d in itertools.product(limits(c1, True), limits(c1, True),
                limits(c2, True), limits(c2, True)):
            for i1, i2 in itertools.product((False, True), repeat=2):
                for rng in range(5) if deep else (n % 5,):
                    n += 1
                    yield [rng, n % len(KEYS), {c1: [a, b, i1], 
                        c2: [c, d, i2]}]
    if deep:
        ls = [limits(c, True) for c in ('size', 'count', 'time')]
        prs = [[(l[0], l[1]), (l[1], l[2]), (l[1], l[1]), (l[0], l[2])] 
            for l in ls]
        for ps in itertools.product(*prs):
            for inv in itertools.product((False, True), repeat=3):
                n += 1
                yield [n % 5, n % len(KEYS), dict((c, [p[0], p[1], i]) for 
                    c, p, i in zip(('size', 'count', 'time'), ps, inv))]
    # the query generator by itself, on its doc examples and all limits
    yield ['query']

def refs():
    trs = []
    k = 0
    for i, (trid, ts) in enumerate([(7, [30, 31, 32, 33]), 
            (2, [31, 32, 33, 34, 35]), (1000000007, [32, 33, 34])]):
        tr = ref_traj(trid, ts, ())
        tr['size'] = [SIZES[(k + j) % 12] for j in range(len(ts))]
        tr['count'] = [COUNTS[(k + j) % 12] for j in range(len(ts))]
        k += len(ts)
        trs.append(tr)
    return trs

def holds(v, lim):
    a, b, inv = lim
    return (v < a or v >= b) if inv else (a <= v < b)

def run(case, x):
    from flowtracks.scene import Scene, gen_query_string
    if case[0] == 'query':
        expect(gen_query_string('example', (-1, 1, False)) == 
            '((example >= -1) & (example < 1))', 'documented example, plain')
        expect(gen_query_string('example', (-1, 1, True)) == 
            '((example < -1) | (example >= 1))', 'documented example, inverted')
        ls = sorted(set(SIZES + COUNTS + [1. / 3, 1e-300, 2.**53, 1e22,
            float('inf'), float('-inf')]))
        for a in ls:
            for b in ls:
                for inv in (False, True):
                    q = gen_query_string('v', (a, b, inv))
                    x.step(); x.state(q)
                    for v in ls:
                        got = bool(eval(q, {}, {'v': np.float64(v)}))
                        expect(got == holds(v, (a, b, inv)), 
                            'query %s for v = %r', q, v)
        return
    rng, ks, where = case
    if 'p' not in x.cache:
        d = x.dir()
        p = os.path.join(d, 's.h5')
        S.write_trajs(p, refs())
        x.cache['p'] = p
    sc = Scene(x.cache['p'], RANGES[rng])
    a, b = RANGES[rng] or (None, None)
    rows = []
    for t in refs():
        t = restrict(t, a, b)
        for i, f in enumerate(t['t']):
            row = dict((k, t[k][i]) for k in props(t))
            row['time'] = f; row['trajid'] = t['id']
            rows.append(row)
    if where:
        w = dict((k, tuple(v)) for k, v in where.items())
        rows = [r for r in rows if all(holds(r[k], l) for k, l in w.items())]
    else: w = where
    keys = KEYS[ks]
    got = sc.collect(list(keys)) if where is None else sc.collect(list(keys), 
        w)
    x.step()
    x.state(rng, where)
    expect(len(got) == len(keys), "%d results for %d keys", len(got), 
        len(keys))
    have = []
    for g, k in zip(got, keys):
        expect(len(g) == len(rows), "%d rows of %s instead of %d", len(g), k,
            len(rows))
        expect(g.shape[1:] == np.shape(refs()[0].get(k, [0])[0]), 
            'shape of %s is %s', k, g.shape)
    def flat(vs): 
        return tuple(float(c) for v in vs for c in np.ravel(v))
    have = sorted(flat([g[i] for g in got]) for i in range(len(rows)))
    want = sorted(flat([r[k] for k in keys]) for r in rows)
    if have != want:
        raise Violation("collected %s of %s where %s in %s: got %s, expected "
            "%s" % (keys, 'scene', where, RANGES[rng], have, want))
    x.outcome('%d rows' % len(rows))
    del sc
