"""Mutation campaign: small changes of the code, one at a time, in scratch
copies; those which pass the repository's tests are run against the checks that
execute the function changed. Survivors are for a human to judge: equivalent,
outside the properties, or a gap of the checks.

    mutate.py list FILE...             the mutants
    mutate.py run MAP OUT [-j N] FILE...

Environment: OPS=2 for another set of changes (statements swapped or moved out
of a block, another variable or attribute used, iteration cut or reversed,
subscripts and conditions of comprehensions dropped); STRIDE=n to run every nth case only; ONLY=file.json to take only
mutants whose line contains one of the strings listed.

MAP is a JSON object {"file:function": ["C01", ...]}.
"""
import ast, json, os, subprocess, sys, tempfile, shutil, zlib
from concurrent.futures import ThreadPoolExecutor
import threading

REPO = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.FloorDiv: ['/'], ast.Pow: ['*']}
UNWRAP = {'sort', 'sorted', 'copy', 'set', 'list', 'array', 'asarray', 'unique',
          'atleast_1d', 'atleast_2d', 'ravel', 'astype', 'abs', 'float', 'int',
          'sqrt', 'nonzero', 'transpose'}


def mutants(path):
    src = open(path, encoding='utf8').read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset,
                     off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(n, new, fn, what, span=None):
        a, b = span or pos(n)
        out.append((fn, n.lineno, what, a, b, new))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name if fn == '' else fn + '.' + n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), fn, 'cmp ' + o)
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                add(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), fn, 'bin ' + o)
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('(%s)' % seg(v) for v in n.values), fn, 'bool')
            for k in range(len(n.values)):
                vs = [v for i, v in enumerate(n.values) if i != k]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, o2.join('(%s)' % seg(v) for v in vs), fn, 'bool drop %d' % k)
        if isinstance(n, ast.UnaryOp):
            add(n, seg(n.operand), fn, 'unary')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), fn, 'const')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), fn, 'const+1')
                if n.value: add(n, str(n.value - 1), fn, 'const-1')
            elif isinstance(n.value, float):
                add(n, str(n.value * 2), fn, 'const*2')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'True', fn, 'if True')
            add(n.test, 'False', fn, 'if False')
        if isinstance(n, ast.Slice):
            if n.lower: add(n.lower, '', fn, 'slice lower')
            if n.upper: add(n.upper, '', fn, 'slice upper')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k)
                    add(k, '', fn, 'kw ' + k.arg, span=(a, b) if False else kwspan(raw, a, b))
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if nm in UNWRAP:
                if n.args: add(n, seg(n.args[0]), fn, 'unwrap ' + nm)
                elif isinstance(f, ast.Attribute): add(n, seg(f.value), fn, 'unwrap .' + nm)
            if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                a, b = n.args[:2]
                add(n, '%s, %s' % (seg(b), seg(a)), fn, 'swap args', span=(pos(a)[0], pos(b)[1]))
        if isinstance(n, ast.stmt) and fn:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or \
               isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield)):
                add(n, 'pass', fn, 'delete ' + type(n).__name__)
            if isinstance(n, ast.AugAssign):
                add(n, '%s = %s' % (seg(n.target), seg(n.value)), fn, 'aug')
            if isinstance(n, ast.Break): add(n, 'continue', fn, 'break')
            if isinstance(n, ast.Continue):
                add(n, 'break', fn, 'continue'); add(n, 'pass', fn, 'continue')
            if isinstance(n, ast.Return) and n.value is not None:
                add(n, 'return None', fn, 'return None')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.JoinedStr): continue
            visit(c, fn)

    SIMPLE = (ast.Assign, ast.AugAssign, ast.Delete, ast.For, ast.If, ast.With, ast.While, ast.Raise, ast.Return, ast.Try)
    isstmt = lambda q: isinstance(q, SIMPLE) or isinstance(q, ast.Expr) and not isinstance(q.value, ast.Constant)
    pick = lambda names, n, k: [v for _, v in sorted((zlib.crc32(('%s %s %s' % (v, n.lineno, n.col_offset)).encode()), v) for v in names)][:k]

    def block(q):
        """whole lines of a statement"""
        a, b = pos(q)
        a = off[q.lineno - 1]
        return raw[a:b].decode()

    def redent(text, by):
        return '\n'.join(l[by:] if by > 0 else ' ' * -by + l if l.strip() else l for l in text.split('\n'))

    def second(n, fn, names, attrs):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name if fn == '' else fn + '.' + n.name
        if isinstance(n, ast.FunctionDef):
            names = {a.arg for a in n.args.args} | {q.id for q in ast.walk(n) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
            names -= {'self'}
        if isinstance(n, ast.ClassDef):
            attrs = {q.attr for q in ast.walk(n) if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == 'self' and isinstance(q.ctx, ast.Store)}
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if not isinstance(body, list) or not fn: continue
            for q, r in zip(body[:-1], body[1:]):
                if isstmt(q) and isstmt(r) and q.col_offset == r.col_offset and q.lineno != r.lineno:
                    mid = raw[pos(q)[1]:off[r.lineno - 1]].decode()
                    add(q, block(r) + mid + block(q), fn, 'swap', span=(off[q.lineno - 1], pos(r)[1]))
                # the next statement into this block
                if isinstance(q, (ast.For, ast.If, ast.With, ast.While)) and isstmt(r) and not getattr(q, 'orelse', None):
                    by = q.body[-1].col_offset - r.col_offset
                    mid = raw[pos(q)[1]:off[r.lineno - 1]].decode()
                    add(r, block(q) + mid + redent(block(r), -by), fn, 'into', span=(off[q.lineno - 1], pos(r)[1]))
            for q in body:
                if isinstance(q, (ast.For, ast.If, ast.With, ast.While)) and not getattr(q, 'orelse', None) and len(q.body) > 1 and isstmt(q.body[-1]):
                    r = q.body[-1]
                    by = r.col_offset - q.col_offset
                    add(r, redent(block(r), by), fn, 'out', span=(off[r.lineno - 1], pos(r)[1]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            for v in pick(names - {n.id}, n, 1): add(n, v, fn, 'name')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in attrs:
            for v in pick(attrs - {n.attr}, n, 1): add(n, 'self.' + v, fn, 'attr')
        if isinstance(n, ast.For):
            t = seg(n.iter)
            for v in ('list(%s)[1:]', 'list(%s)[:-1]', 'list(%s)[::-1]'): add(n.iter, v % t, fn, 'for')
        if isinstance(n, ast.comprehension):
            t = seg(n.iter)
            for v in ('list(%s)[1:]', 'list(%s)[::-1]'): add(n.iter, v % t, fn, 'comp')
            for q in n.ifs: add(q, 'True', fn, 'comp if')
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            add(n, seg(n.value), fn, 'subscript')
        if isinstance(n, ast.Call):
            for a in n.args:
                if isinstance(a, ast.Constant) and a.value is None or isinstance(a, ast.Starred): continue
                if len(n.args) > 1: add(a, 'None', fn, 'arg None')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.JoinedStr): continue
            second(c, fn, names, attrs)

    def kwspan(raw, a, b):
        i = a - 1
        while raw[i:i+1] in b' \n\t': i -= 1
        if raw[i:i+1] == b',': return (i, b)
        j = b
        while raw[j:j+1] in b' \n\t': j += 1
        return (a, j + 1) if raw[j:j+1] == b',' else (a, b)
    if os.environ.get('OPS') == '2': second(tree, '', set(), set())
    else: visit(tree, '')
    good = []
    for fn, ln, what, a, b, new in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t == raw: continue
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree): continue
        except SyntaxError:
            continue
        good.append((fn, ln, what, raw[a:b].decode(), new, t))
    return good


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            for m in mutants(os.path.join(REPO, 'flowtracks', f)):
                print('%s:%s:%d %s: %r -> %r' % ((f,) + m[:5]))
        return
    mp, outp = json.load(open(sys.argv[2])), sys.argv[3]
    args = sys.argv[4:]
    jobs = 8
    if args[0] == '-j': jobs = int(args[1]); args = args[2:]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)['key'] for l in open(outp)}
    only = json.load(open(os.environ['ONLY'])) if 'ONLY' in os.environ else None
    todo = []
    for f in args:
        for i, m in enumerate(mutants(os.path.join(REPO, 'flowtracks', f))):
            key = '%s:%s:%d %s: %r -> %r' % ((f,) + m[:5])
            if only is not None and not any(o in key for o in only): continue
            if key not in done: todo.append((key, f, m))
    lock = threading.Lock()
    pool = []
    def work(item):
        key, f, m = item
        with lock:
            d = pool.pop() if pool else None
        if d is None:
            d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
            subprocess.run(['git', 'clone', '-q', REPO, d + '/repo'], check=True)
        r = d + '/repo'
        p = os.path.join(r, 'flowtracks', f)
        clean = open(p, 'rb').read()
        open(p, 'wb').write(m[5])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=r,
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        res, by = None, None
        try:
            t = subprocess.run(['timeout', '120', '/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'],
                               cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            if t:
                res = 'tests'
            else:
                res = 'SURVIVED'
                for c in mp.get(f + ':' + m[0], mp.get(f + ':*', [])):
                    e = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
                    q = subprocess.run(['timeout', '-k', '5', '800', V + '/check', c, '--jobs', '1', '--stride', os.environ.get('STRIDE', '1')], env=e,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if q.returncode == 1: res, by = 'caught', c; break
                    if q.returncode: res, by = 'rc%d' % q.returncode, c; break
        finally:
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=r)
            subprocess.run(['git', 'clean', '-qfd'], cwd=r)
        with lock:
            pool.append(d)
            open(outp, 'a').write(json.dumps({'key': key, 'res': res, 'by': by}) + '\n')
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, todo))
    for d in pool: shutil.rmtree(d)


main()
