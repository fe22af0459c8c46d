"""Particle sets: properties, getters, setters, schemas, point tables."""
import itertools
from ..core import expect, Violation
from ..util import *
from .. import util

PROPERTY = 'C26'
CHUNK = 120
RULE = (
    "Every history of up to 3 (thorough 4) operations from 16 (create, "
    "replace, set whole, also to numbers of another type, set selected points "
    "by number/slice/mask/list, on "
    "mandatory and extra properties of two live sets) on base sets, "
    "trajectories and snapshots of 0..3 points; after each one every "
    "property is read whole and by each kind of selector, with both schemas, "
    "dictionaries and lengths, for both sets; values replaced as a whole stay "
    "as they were for those holding them. Tables of selected points: "
    "every selector of 12 x lengths 0..5 x time types. Particle volume and "
    "mass on a grid. A property of every name out of a list, on each kind of "
    "set.")
ASSUME = ["a property is read only once it has a value", 
    "numbers are set into selected points of properties of the same type"]

KINDS = ('set', 'traj', 'snap')
# (name, property, where: None for whole, which set)
OPS = [('create', 'size', 0), ('create', 'size', 1), ('create', 'flow', 0), 
    ('create-empty', 'count', 1), ('create', 'pos', 0), 
    ('whole', 'pos', 0), ('whole', 'velocity', 1), ('whole', 'size', 1), 
    ('number', 'pos', 0), ('slice', 'velocity', 0), ('mask', 'pos', 1), 
    ('list', 'size', 0), ('whole', 'count', 1), ('number', 'flow', 0), 
    ('whole-other', 'count', 1), ('whole-other', 'velocity', 0)]

# Any identifier may name a property, if not a mandatory one or a method.
NAMES = ['t', 'id', 'x', 'trid', 'time_', '_t', '_id', 'tr', 'kwds', 'attr', 
    'selector', 'propname', 'new_val', 'n', 'v', 'traj', 'frame', 'data', 
    'shape', 'dtype', 'length', 'size_', 'T', 'get', 'set', 'set_flow', 'Re']

def run_name(case, x):
    _, kind, n, name = case
    obj, ref = make(kind, n, 1)
    for later in (False, True):
        x.step(); x.state(case, later)
        if later:
            ref[name] = value('size', n, 9)
            obj.create_property(name, ref[name].copy())
        check(obj, kind, n, 1, ref, set(), '%s with a property named %s' % (
            kind, name))
    getattr(obj, 'set_' + name)(ref[name] + 1.)
    ref[name] = ref[name] + 1.
    check(obj, kind, n, 1, ref, set(), '%s with %s set' % (kind, name))
    from flowtracks import trajectory as T
    kw = dict((k, v.copy()) for k, v in ref.items())
    if kind == 'traj': kw['trajid'] = 4
    if kind == 'snap': kw['time'] = 41
    check({'set': T.ParticleSet, 'traj': T.Trajectory, 'snap': 
        T.ParticleSnapshot}[kind](**kw), kind, n, 1, ref, set(), 
        '%s made with a property named %s' % (kind, name))
    x.outcome('name')

def cases(tier):
    deep = tier == 'thorough'
    for kinds in (('set', 'traj'), ('traj', 'traj'), ('snap', 'traj'), 
            ('snap', 'snap'), ('traj', 'set')):
        for n in (0, 1, 3):
            for d in range(0, 5 if deep else 4):
                if d == 4 and n != 3: continue
                for ops in itertools.product(range(len(OPS)), repeat=d):
                    yield ['hist', list(kinds), n, list(ops)]
    for L in range(6):
        for tt in ('int', 'float', 'single'):
            for trid in (0, 5, 2 ** 31 + 3):
                yield ['table', L, tt, trid]
    for kind in ('set', 'traj', 'snap'):
        for n in (0, 1, 3):
            for name in NAMES:
                yield ['name', kind, n, name]
    for d in (1e-6, 5e-4, 1., 2.5):
        for rho in (1., 1450., .001):
            yield ['particle', d, rho]

def value(prop, n, salt):
    w = {'pos': 3, 'velocity': 3, 'flow': 2}.get(prop)
    if w is None:
        v = [salt * 100. + i for i in range(n)]
        return np.array(v, dtype=np.int64 if prop == 'count' else float)
    return np.array([[salt * 100. + 10 * i + c for c in range(w)] 
        for i in range(n)]).reshape(n, w)

def make(kind, n, salt):
    from flowtracks import trajectory as T
    ref = {'pos': value('pos', n, salt), 
        'velocity': value('velocity', n, salt + 1)}
    kw = dict((k, v.copy()) for k, v in ref.items())
    if kind == 'set':
        obj = T.ParticleSet(**kw)
    elif kind == 'traj':
        ref['time'] = np.arange(7, 7 + n)
        obj = T.Trajectory(time=ref['time'].copy(), trajid=3 + salt, **kw)
    else:
        ref['trajid'] = np.arange(20, 20 + n)
        obj = T.ParticleSnapshot(time=40 + salt, trajid=ref['trajid'].copy(), 
            **kw)
    return obj, ref

def check(obj, kind, n, salt, ref, pending, what):
    expect(len(obj) == n, '%s: length %d', what, len(obj))
    if kind == 'traj': expect(obj.trajid() == 3 + salt, '%s: id', what)
    if kind == 'snap': expect(obj.time() == 40 + salt, '%s: time', what)
    for p in ('pos', 'velocity', 'size', 'flow', 'count', 'time', 'trajid'):
        expect(bool(obj.has_property(p)) == (p in ref or p in pending), 
            '%s: has_property(%s) is %s', what, p, obj.has_property(p))
    sels = [0, -1, slice(None), slice(1, None), slice(None, None, -1), 
        np.arange(n) % 2 == 0, np.array([i for i in range(n) if i != 1], 
        dtype=int), [0] * 2]
    for p, v in ref.items():
        expect_exact(getattr(obj, p)(), v, '%s: %s', what, p)
        for s in sels:
            if n == 0 and (isinstance(s, int) or isinstance(s, list)): continue
            expect_exact(getattr(obj, p)(s), v[s], '%s: %s(%s)', what, p, s)
            expect_exact(getattr(obj, p)(selector=s), v[s], '%s: %s(%s)', what, 
                p, s)
    if pending: return
    expect(obj.schema() == dict((p, v.shape[1:]) for p, v in ref.items()), 
        '%s: schema %s', what, obj.schema())
    ext = obj.ext_schema()
    expect(ext == dict((p, (v.dtype.type, v.shape[1] if v.ndim > 1 else 1)) 
        for p, v in ref.items()), '%s: extended schema %s', what, ext)
    d = obj.as_dict()
    expect(set(d) == set(ref), '%s: dictionary of %s', what, sorted(d))
    for p, v in ref.items():
        expect_exact(d[p], v, '%s: %s in the dictionary', what, p)

def glance(obj, ref, pending, what):
    for p, v in ref.items():
        expect(np.shape(getattr(obj, p)()) == v.shape, '%s: %s', what, p)
    if pending: return
    expect(set(obj.as_dict()) == set(ref), '%s: dictionary', what)
    expect(set(obj.schema()) == set(ref), '%s: schema', what)
    expect(set(obj.ext_schema()) == set(ref), '%s: extended schema', what)

def run(case, x):
    util.DIV = 64.
    {'hist': run_hist, 'name': run_name, 'table': run_table, 'particle': run_particle}[case[0]](
        case, x)

def run_hist(case, x):
    _, kinds, n, ops = case
    sets = [make(k, n, 10 * i) for i, k in enumerate(kinds)]
    pend = [set(), set()]
    handed = []
    for step, o in enumerate(ops):
        op, prop, which = OPS[o]
        obj, ref = sets[which]
        v = value(prop, n, 30 + step)
        if op == 'whole-other':
            v = (v * .5).astype(np.float32) if prop == 'count' else \
                v.astype(np.int64)
        if prop in ref and op in ('create', 'whole', 'whole-other'):
            old = getattr(obj, prop)()
            handed.append((prop, old, old.copy()))
        if op == 'create':
            obj.create_property(prop, v.copy())
            ref[prop] = v
        elif op == 'create-empty':
            if prop in ref: return
            obj.create_property(prop, None)
            pend[which].add(prop)
        elif prop not in ref and prop not in pend[which]:
            return # nothing to set
        elif op.startswith('whole'):
            getattr(obj, 'set_' + prop)(v.copy())
            ref[prop] = v
            pend[which].discard(prop)
        else:
            if prop in pend[which]: return
            s = {'number': -1, 'slice': slice(0, None, 2), 
                'mask': np.arange(n) % 2 == 1, 'list': list(range(n))[::2]}[op]
            if n == 0 and op == 'number': return
            if n == 0 and op == 'list': s = np.array([], dtype=int)
            new = v[s].astype(ref[prop].dtype)
            if step % 2:
                getattr(obj, 'set_' + prop)(new, s)
            else:
                getattr(obj, 'set_' + prop)(new, selector=s)
            ref[prop][s] = new
        x.step()
        x.state(kinds, n, [sorted((p, q.tolist()) for p, q in r.items()) 
            for _, r in sets])
        if step < len(ops) - 1: 
            # answers now may not influence those given later
            for i, (ob, r) in enumerate(sets):
                glance(ob, r, pend[i], 'set %d in %s' % (i, ops[:step + 1]))
            continue
        for i, (ob, r) in enumerate(sets):
            check(ob, kinds[i], n, 10 * i, r, pend[i], 'set %d after %s' % (i, 
                [OPS[k] for k in ops]))
    for prop, old, was in handed:
        expect_exact(old, was, '%s held elsewhere changed with %s', prop, 
            [OPS[k] for k in ops])
    if not ops:
        for i, (ob, r) in enumerate(sets):
            check(ob, kinds[i], n, 10 * i, r, pend[i], 'set %d, new' % i)
    x.outcome('history of %d' % len(ops))

def run_table(case, x):
    _, L, tt, trid = case
    tr = ref_traj(trid % 97, range(9998, 9998 + L), ('accel',))
    tr['id'] = trid
    obj = make_traj(tr, int if tt == 'int' else float)
    if tt == 'single': # values there have few digits
        for p in ('pos', 'velocity'):
            getattr(obj, 'set_' + p)(getattr(obj, p)().astype(np.float32))
    full = [tr['pos'][i] + tr['velocity'][i] + [float(tr['t'][i]), float(trid)]
        for i in range(L)]
    sels = [('all', slice(None), range(L)), ('tail', slice(1, None), 
        range(1, L)), ('reverse', slice(None, None, -1), range(L)[::-1]), 
        ('none', slice(0, 0), []), ('mask', np.arange(L) % 2 == 0, 
        range(0, L, 2)), ('no-mask', np.zeros(L, bool), []), 
        ('array', np.array([L - 1, 0, 0]) if L else np.array([], int), 
        [L - 1, 0, 0] if L else []), ('last two', slice(-2, None), 
        range(max(0, L - 2), L))]
    if L: 
        sels += [('list', [0, L - 1], [0, L - 1]), 
            ('array of one', np.array([L // 2]), [L // 2])]
    for name, s, ixs in sels:
        x.step(); x.state(case, name)
        want = np.array([full[i] for i in ixs]).reshape(len(ixs), 8)
        expect_exact(obj[s], want, 'points selected: %s of %d', name, L)
    for i in range(L):
        for k in (i, i - L, np.int64(i)):
            x.step()
            expect_exact(obj[k], np.array(full[i]), 'point %d', k)
    x.outcome('tables')

def run_particle(case, x):
    from flowtracks.particle import Particle
    _, d, rho = case
    p = Particle(d, rho)
    x.step(); x.state(case)
    expect(p.diam == d and p.density == rho, 'attributes')
    # inscribed in the cube of its diameter.
    expect_close(p.volume() / d ** 3, 0.5235987755982989, 'volume')
    expect_close(p.mass(), rho * d ** 3 * 0.5235987755982989, 'mass', 
        atol=0.)
    x.outcome('particles')
