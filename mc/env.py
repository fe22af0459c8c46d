"""
The controlled environment in which every execution of flowtracks happens.

Every source of nondeterminism the library can observe is owned here:

* uninitialised memory: np.empty/np.empty_like return memory filled with a
  recognisable pattern (or, by case, zeros or small numbers), so reading a cell
  nobody wrote shows up as a wrong value every time rather than sometimes;
* directory listing order: os.listdir/os.scandir answer in an order the case
  under execution chooses (see ``listing``);
* the code under test is imported from the working tree (never from stale
  byte-code; see the ``check`` launcher, which sets PYTHONPYCACHEPREFIX).
"""
import os, sys, warnings, functools

REPO = os.environ.get('VERIF_REPO', '/repo')

_real_listdir = os.listdir
_real_scandir = os.scandir
_order = [0]

def set_listing(mode):
    """mode: 0 sorted, 1 reversed, k>=2 the k-th rotation/interleaving."""
    _order[0] = mode

def _permute(names, key):
    names = sorted(names, key=key)
    m = _order[0]
    n = len(names)
    if m == 0 or n < 2:
        return names
    if m == 1:
        return names[::-1]
    if m == 2: # odd places first
        return names[1::2] + names[::2]
    r = m % n
    return names[r:] + names[:r]

def _listdir(path='.'):
    return _permute(_real_listdir(path), key=lambda n: n)

class _Scan(object):
    def __init__(self, entries): self._it = iter(entries)
    def __iter__(self): return self
    def __next__(self): return next(self._it)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass

def _scandir(path='.'):
    with _real_scandir(path) as it:
        entries = list(it)
    return _Scan(_permute(entries, key=lambda e: e.name))

# What uninitialised memory holds: 0 - values that occur nowhere else, 1 - 
# zeros, 2 - small or huge numbers of the other sign.
_FILLS = [(-7.25e+217, -7.25e+30, True, 0x7d), (0., 0., False, 0), 
    (7.25e+217, 7.25e+30, False, None)]
_poisoning = [0]

def set_poison(mode):
    _poisoning[0] = mode

def _poison(arr):
    try:
        if arr.size == 0 or arr.dtype.hasobject:
            return arr
        k = arr.dtype.kind
        big, single, boolean, byte = _FILLS[_poisoning[0]]
        if k in 'fc':
            arr.fill(big if arr.dtype.itemsize >= 8 else single)
        elif k == 'b':
            arr.fill(boolean)
        elif k in 'iu' and byte is None:
            arr.fill(2)
        elif k in 'iuV':
            if arr.flags.c_contiguous:
                flat = arr if k != 'V' else arr.reshape(-1)
                flat.view('u1').fill(byte or 0)
    except (ValueError, TypeError):
        pass
    return arr

def _from_library():
    """was np.empty() called directly by the code under test?"""
    name = sys._getframe(2).f_globals.get('__name__') or ''
    return name.startswith('flowtracks')

def install():
    import numpy as np
    real_empty, real_like = np.empty, np.empty_like

    @functools.wraps(real_empty)
    def empty(*a, **k):
        arr = real_empty(*a, **k)
        return _poison(arr) if _from_library() else arr

    @functools.wraps(real_like)
    def empty_like(*a, **k):
        arr = real_like(*a, **k)
        return _poison(arr) if _from_library() else arr

    import scipy, scipy.spatial, scipy.io, scipy.interpolate, tables # unpatched import
    np.empty = empty
    np.empty_like = empty_like
    os.listdir = _listdir
    os.scandir = _scandir
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
    sys.path.insert(0, REPO)
    import flowtracks
    where = os.path.realpath(os.path.dirname(flowtracks.__file__))
    want = os.path.realpath(os.path.join(REPO, 'flowtracks'))
    if where != want:
        raise RuntimeError("flowtracks imported from %s, not %s" % (where, want))
