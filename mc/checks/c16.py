"""An interpolant's answers depend on its current scene, not on its history."""
import itertools, os
from ..core import expect, Violation
from ..util import *
from .. import interp_ref as R

PROPERTY = 'C16'
CHUNK = 4
RULE = (
    "All sequences of scene changes (whole scene, field positions (some of them nearly "
    "the same as before), "
    "interpolation points with and without companions, data with another "
    "number of components (one of them, as a 1D array), other data in the same array or a new one, "
    "trimming of points, a frame without tracers) and "
    "queries (interpolation, with a neighbour selection replaced, Jacobian, "
    "neighbours, off-scene call, neighbour distances) up to a length, for "
    "each method. Every answer must be that of a new interpolant that only "
    "ever saw the current scene; answers handed out must not change later, "
    "and overwriting them must not matter.")
ASSUME = ["data has as many rows as there are tracers when it is used",
    "companion indices refer to existing tracers"]

TRACERS = {'A': [0, 2, 3, 4, 6], 'B': [1, 3, 5, 7], 'C': [7, 6, 5, 4, 3],
    'E': []}
# Tracers may move just a little between frames.
PLACES = dict((k, [R.POOL[i] for i in v]) for k, v in TRACERS.items())
PLACES['M'] = [[p * (1 + 1.5e-6 * (i + 1)) for p in R.POOL[j]] 
    for i, j in enumerate(TRACERS['A'])]
PTS = {'1': [0, 2, 3], '2': [1, 2]}
COMP = {'1': [1, -1, 3], '2': [-1, 0]}

SETS = ['sA1', 'sB2c', 'fB', 'fC', 'fM', 'p2', 'p1c', 'dX', 'dY', 'dV', 'dZ', 't0', 't1',
    'sE1', 'fE']
ASKS = ['I', 'S', 'J', 'D', 'O', 'N']
DEPTH = {'quick': 4, 'thorough': 5}
METHODS = ['inv', 'rbf', 'corrfun']

def cases(tier):
    ops = SETS + ['I', 'S', 'J', 'O'] # D, N in the end
    # One case covers the sequences with a common beginning.
    for method in METHODS:
        for radius in (None, 0.7):
            dep = DEPTH[tier]
            if method != 'inv' or radius is not None:
                dep -= 1
            for pre in itertools.product(ops, repeat=2):
                yield [method, radius, list(pre), dep - 2]

def run(case, x):
    method, radius, pre, more = case
    d = x.dir()
    par = {'inv': 1.5, 'rbf': 4., 'corrfun': os.path.join(d, 'c.npz')}[method]
    if method == 'corrfun':
        np.savez(par, corrs=np.array([1., .8, .5, .3, .2, .1]), 
            bins=np.array([0., .1, .2, .35, .5, .8]))
    ops = SETS + ASKS
    fresh = {}
    for start in ('sA1', 'bare'):
        for end in itertools.product(ops, repeat=more):
            history(x, method, radius, par, (start,) + tuple(pre) + end, fresh)
    x.drop(d)

class Model(object):
    def __init__(self):
        self.T = self.P = self.C = self.D = None
        self.pkey = None
    def key(self):
        return repr((self.T, self.P, self.C, self.D))
    def scene(self): return self.T is not None and self.P is not None
    def data_ok(self):
        return self.scene() and self.D is not None and \
            len(self.D) == len(self.T)

def arr(rows, w=3):
    return np.array(rows, dtype=float).reshape(-1, w)

def new(method, radius, par):
    from flowtracks.interpolation import interpolant
    return interpolant(method, 3, radius, par)

def data_for(n, kind):
    if kind == 'X': return R.field(n, 3)
    if kind == 'Z': return R.field(n, 1, 2)
    if kind == 'Y': return R.field(n, 2, 1)
    return R.field(n, 3, 1 + kind % 2)

class Given(object):
    """What a caller passes in: new arrays, or its own work arrays, one per 
    purpose and shape, filled anew for each call."""
    def __init__(self, reuse):
        self.reuse = reuse
        self.work = {}
    def __call__(self, what, rows, w=3):
        a = arr(rows, w)
        if not self.reuse: return a
        old = self.work.setdefault((what, a.shape), a)
        old[...] = a
        return old

def answer(it, ask, m):
    """A dictionary of arrays."""
    n = len(m.T or ())
    if ask == 'I':
        return {'interpolation': it.interpolate()}
    if ask == 'S':
        sub = it.current_active_neighbs().copy()
        if sub.shape[0]:
            sub[0, 1:] = n # only the closest neighbour of the first point
        if sub.shape[0] > 1:
            sub[-1, :1] = n # all but the closest of the last.
        return {'interpolation of a selection': it.interpolate(sub)}
    if ask == 'J':
        return {'jacobian': it.eulerian_jacobian()}
    if ask == 'D':
        return {'distances': it.current_dists(), 'neighbours': 
            it.current_active_neighbs(), 'relative positions': 
            it.current_relative_positions(), 'data': it.current_data(), 
            'field': it.field_positions()}
    if ask == 'O':
        T = arr([R.POOL[i] for i in (7, 0, 3, 5)])
        P = arr([R.POINTS[i] for i in (2, 1)])
        return {'off-scene interpolation': it(T, P, 
            arr(R.field(4, 3, 2)), np.array([2, -1]))}
    if ask == 'N':
        T = arr([R.POOL[i] for i in (7, 0, 3, 5)])
        return {'neighbour distances': it.neighb_dists(T, 
            arr([R.POINTS[2]]), np.array([1]))}

def allowed(m, ask, method):
    if ask in ('O', 'N'): return True
    if not m.scene(): return False
    if ask == 'D': return m.D is not None
    if not m.data_ok(): return False
    if len(m.P) == 0 : return ask == 'I'
    return True

def history(x, method, radius, par, ops, fresh):
    it = new(method, radius, par)
    m = Model()
    give = Given(ops[0] == 'bare')
    handed = []
    done = []
    turn = 0
    for op in ops + ('I', 'D', 'S', 'J', 'N'):
        if op in ASKS:
            if not allowed(m, op, method): continue
            done.append(op)
            x.step()
            got = answer(it, op, m)
            k = (op, m.key()) if op not in 'ON' else op
            if k not in fresh:
                f = new(method, radius, par)
                if m.scene() and m.D is not None:
                    f.set_scene(arr(m.T), arr(m.P), arr(m.D, 
                        len(m.D[0]) if m.D else 3), 
                        None if m.C is None else np.array(m.C, dtype=int))
                fresh[k] = dict((q, np.array(v)) for q, v in 
                    answer(f, op, m).items())
            for q, v in got.items():
                want = fresh[k][q]
                if not close(v, want, rtol=1e-9, atol=1e-12):
                    raise Violation("%s, radius %s, after %s: %s is %s, but "
                        "%s from a new interpolant" % (method, radius, 
                        '-'.join(done), q, v.tolist(), want.tolist()))
                if op != 'D':
                    if op in 'IJS' and len(done) % 2: # scribble on it
                        v[...] = 1e30
                    handed.append((op, v, v.copy()))
            x.outcome({'I': 'interpolations', 'S': 'selections', 'J': 
                'jacobians', 'D': 'neighbours', 'O': 'off-scene', 
                'N': 'distances'}[op])
            continue
        if op == 'bare': continue
        if op[0] == 's':
            m.T = PLACES[op[1]]
            m.P = [R.POINTS[i] for i in PTS[op[2]]]
            m.C = COMP[op[2]] if op.endswith('c') else None
            m.D = data_for(len(m.T), 'X')
            m.dk = 'X'
            it.set_scene(give('T', m.T), give('P', m.P), give('D', m.D),
                None if m.C is None else np.array(m.C, dtype=int))
        elif op[0] == 'f':
            m.T = PLACES[op[1]]
            it.set_field_positions(give('T', m.T))
        elif op[0] == 'p':
            if m.T is None: continue
            m.P = [R.POINTS[i] for i in PTS[op[1]]]
            m.C = COMP[op[1]] if op.endswith('c') else None
            it.set_interp_points(give('P', m.P),
                None if m.C is None else np.array(m.C, dtype=int))
        elif op[0] == 'd':
            if m.T is None or len(m.T) == 0: continue
            if op[1] == 'V':
                turn += 1
                m.D = data_for(len(m.T), turn)
            else:
                m.D = data_for(len(m.T), op[1])
            v = give('D', m.D, len(m.D[0]))
            it.set_data_on_current_field(v[:,0] if op == 'dZ' else v)
        elif op[0] == 't':
            if not m.scene() or not m.P: continue
            which = [(i == 0) == (op == 't0') for i in range(len(m.P))]
            it.trim_points(np.array(which))
            m.P = [p for p, w in zip(m.P, which) if not w]
            if m.C is not None:
                m.C = [c for c, w in zip(m.C, which) if not w]
        done.append(op)
        x.state(method, m.key())
    for op, v, c in handed:
        if not np.array_equal(v, c, equal_nan=True):
            raise Violation("%s, radius %s, %s: an earlier answer (%s) "
                "changed later" % (method, radius, '-'.join(done), op))
