"""
The explorer: runs *every* case of a check's bounded space on the real code.

A check is a module of mc.checks with

  PROPERTY     the property id
  cases(tier)  a generator of cases, each a JSON-able list/dict fully
               describing one execution: inputs, operation history,
               environment answers
  run(case, x) executes the case on flowtracks next to the reference model;
               raises Violation when they differ
  RULE         text: how the space is built and bounded
  ASSUME       list of texts

There is no sampling and no time cap: cases() is enumerated to its end.  Each
chunk of consecutive cases is executed in a freshly forked process, so an
execution depends on nothing but its chunk, and the chunk is what a replay
file records.
"""
import os, sys, json, time, signal, shutil, tempfile, traceback, hashlib
import zlib, resource, importlib, collections, itertools
import multiprocessing as mp
from multiprocessing import connection

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Violation(Exception):
    pass

class HarnessError(Exception):
    pass

class _Timeout(BaseException):
    pass

def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)

class Ctx(object):
    """What a case reports to, and its scratch space."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.cache = {} # of the chunk: files prepared for several cases.
        self._n = 0

    def state(self, *obj):
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        self.states.add(h)

    def step(self, n=1):
        self.transitions += n

    def outcome(self, name):
        self.outcomes[name] += 1

    def dir(self):
        self._n += 1
        d = os.path.join(self.scratch, 'd%d' % self._n)
        os.mkdir(d)
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)

CASE_CPU = 60

def _alarm(*a):
    raise _Timeout()

def run_one(mod, case, ctx):
    """returns None or a violation message."""
    from . import env
    env.set_listing(0)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU', CASE_CPU))
    try:
        mod.run(case, ctx)
        ctx.traces += 1
        return None
    except Violation as e:
        return str(e)
    except _Timeout:
        return "did not finish in %d CPU seconds" % \
            getattr(mod, 'CASE_CPU', CASE_CPU)
    except HarnessError:
        raise
    except OSError as e:
        if e.errno in (28, 24, 23, 12): # no space, too many files, memory
            raise
        return "raised " + traceback.format_exc()
    except Exception:
        return "raised " + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        env.set_listing(0)

def _work(conn, modname, chunk, scratch):
    from . import env
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        mod = importlib.import_module(modname)
        os.mkdir(scratch)
        ctx = Ctx(scratch)
        bad = None
        for ix, case in enumerate(chunk):
            env.set_poison((0, 1, 0, 2)[zlib.crc32(canon(case).encode()) & 3])
            msg = run_one(mod, case, ctx)
            if msg is not None:
                bad = (ix, msg)
                break
        conn.send(('ok', list(ctx.states), ctx.transitions, ctx.traces,
                   dict(ctx.outcomes), bad))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)

def chunks(it, size):
    buf = []
    for c in it:
        buf.append(c)
        if len(buf) >= size:
            yield buf
            buf = []
    if buf:
        yield buf

def in_child(modname, chunk, scratch):
    a, b = mp.Pipe(duplex=False)
    p = mp.get_context('fork').Process(
        target=_work, args=(b, modname, chunk, scratch))
    p.start()
    b.close()
    return p, a

def explore(modname, all_chunks, base, jobs, keep_going=False):
    """
    Runs all chunks. Returns (totals, violations, errors); violations a list
    of (chunk, ix, msg).
    """
    tot = dict(states=set(), transitions=0, traces=0,
               outcomes=collections.Counter(), cases=0)
    bads, errs = [], []
    live = {}
    it = enumerate(all_chunks)
    done = False
    while live or not done:
        while not done and len(live) < jobs:
            try:
                n, chunk = next(it)
            except StopIteration:
                done = True
                break
            p, a = in_child(modname, chunk, os.path.join(base, 'w%d' % n))
            live[a] = (p, chunk)
        if not live:
            break
        for a in connection.wait(list(live)):
            p, chunk = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = ('error', 'worker died without an answer')
            a.close()
            p.join()
            if r[0] == 'error':
                errs.append((chunk, r[1]))
                done = True
                continue
            _, st, tr, tc, oc, bad = r
            tot['states'].update(st)
            tot['transitions'] += tr
            tot['traces'] += tc
            tot['outcomes'].update(oc)
            tot['cases'] += len(chunk)
            if bad is not None:
                bads.append((chunk, bad[0], bad[1]))
                if not keep_going:
                    done = True
    return tot, bads, errs

def known_findings(prop):
    """
    Lines "known: {"property", "case", "what"}" of known_findings.txt: one 
    specific failing case each. Its "fixed:" lines suppress nothing.
    """
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                rec = json.loads(line[len('known: '):])
                if rec['property'] == prop:
                    res.append(rec)
    return res

def canon(case):
    return json.dumps(case, sort_keys=True)

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--count', action='store_true')
    # Only for trying a change of the code out: every nth case, no evidence.
    ap.add_argument('--stride', type=int, default=1)
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    prop = args.property
    t0 = time.time()

    modname = 'mc.checks.' + prop.lower()
    base = tempfile.mkdtemp(prefix='mc-%s-' % prop,
        dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        from . import env
        env.install()
        mod = importlib.import_module(modname)
        size = getattr(mod, 'CHUNK', 25)

        if args.count:
            print(sum(1 for _ in mod.cases(tier)))
            return 0

        if args.replay:
            rec = json.load(open(args.replay))
            tot, bads, errs = explore(modname, [rec['history']], base, 1)
        else:
            known = known_findings(prop)
            kset = set(canon(k['case']) for k in known)
            # Listed findings run on their own, so that they hide nothing.
            src = (c for c in mod.cases(tier) if canon(c) not in kset) \
                if kset else mod.cases(tier)
            if args.stride > 1:
                src = itertools.islice(src, 0, None, args.stride)
            tot, bads, errs = explore(modname, chunks(src, size), base,
                args.jobs, args.keep_going)
            for k in known:
                _, kb, ke = explore(modname, [[k['case']]], base, 1)
                if kb:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k['what']))
                errs.extend(ke)
    finally:
        shutil.rmtree(base, ignore_errors=True)

    for chunk, ix, msg in bads[:5 if args.keep_going else 1]:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        hist = chunk[:ix + 1]
        name = '%s-%s.json' % (prop,
            hashlib.sha1(canon(hist).encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        if not args.replay:
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': chunk[ix], 'what': msg,
                    'history': hist, 'run': './check %s --replay %s' % (
                        prop, path)}, f, indent=1)
        print("--- case %s" % canon(chunk[ix])[:2000])
        print("--- %s" % msg[-3000:])
        print("VIOLATION property=%s replay=%s" % (
            prop, args.replay or path))
    for chunk, err in errs[:2]:
        sys.stderr.write("HARNESS ERROR\n%s\n" % err)

    wall = time.time() - t0
    if not args.replay and args.stride == 1:
        samples = getattr(mod, 'SAMPLES', None)
        if samples is None:
            samples = []
            for i, c in enumerate(mod.cases(tier)):
                if i in (0, 7, 101, 1009):
                    samples.append(c)
                if i > 1009: break
        ev = {
            'property': prop, 'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
            'level': 'model_checking',
            'coverage': {
                'states': len(tot['states']),
                'transitions': tot['transitions'],
                'traces_validated_against_impl': tot['traces'],
                'outcomes': dict(tot['outcomes']),
                'rule': mod.RULE,
                'exhaustive': not bads and not errs,
                'samples': samples,
            },
            'assumptions': list(getattr(mod, 'ASSUME', [])),
            'wall_s': round(wall, 2),
            'violations': len(bads),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d states, %d transitions, outcomes %s, %.1f s" % (
        prop, tier, tot['cases'], len(tot['states']), tot['transitions'],
        dict(tot['outcomes']), wall))
    if bads:
        return 1
    if errs:
        return 2
    return 0
