"""Docstrings turned to documentation markup."""
import itertools, re
from ..core import expect, Violation

PROPERTY = 'C27'
CHUNK = 2000
RULE = (
    "Every docstring of up to 5 (thorough 6) lines of 10 kinds (empty, blank, "
    "title, indented title, title with text, definition, definition of "
    "several names, indented text, text with a colon inside, text with a "
    "dash), line texts unique by place: blocks read back from the result "
    "against those of the source; and every docstring of the package.")
ASSUME = ["indentation is stripped from docstrings before they are given, as "
    "the documentation generator does"]

def line(kind, i):
    w = 'w%d' % i
    return {'empty': '', 'blank': '   ', 'title': 'Title%d:' % i, 
        'title2': '  Title%d:' % i, 'titletext': 'Title%d: text %s here' % (i, 
        w), 'def': 'arg%d - is a %s thing' % (i, w), 
        'def2': 'a%d, b%d,c%d -  are %s-like: things' % (i, i, i, w), 
        'text': '  some %s text.' % w, 'colon': 'with %s: a colon' % w, 
        'dash': '(an %s) - with dash, - twice' % w}[kind]
KINDS = ['empty', 'blank', 'title', 'title2', 'titletext', 'def', 'def2', 
    'text', 'colon', 'dash']

def cases(tier):
    deep = tier == 'thorough'
    for d in range(0, 7 if deep else 6):
        for ks in itertools.product(range(10), repeat=d):
            if 1 in ks and d > 4: continue # blank, as empty
            if 3 in ks and d > 5: continue
            yield list(ks)
    yield 'package'

def blocks_of(kinds):
    """[(type, heading, [text lines])], separated by '' where blank lines are"""
    res = []
    fresh = True # at a section start
    for i, k in enumerate(kinds):
        k = KINDS[k]
        ln = line(k, i)
        if k in ('empty', 'blank'):
            res.append(None)
            fresh = True
            continue
        if fresh and k in ('title', 'title2', 'titletext'):
            res.append(['title', 'Title%d' % i, []])
            if k == 'titletext':
                res.append(['para', None, ['text w%d here' % i]])
        elif k == 'def':
            res.append(['item', 'arg%d' % i, ['is a w%d thing' % i]])
        elif k == 'def2':
            res.append(['item', 'a%d, b%d,c%d' % (i, i, i), 
                ['are w%d-like: things' % i]])
        elif res and res[-1] and res[-1][0] != 'title':
            res[-1][2].append(ln.strip())
        else:
            res.append(['para', None, [ln.strip()]])
        fresh = False
    return [r for r in res if r is not None]

item = re.compile(r'^\* ``(.*?)``: (.*)$')
title = re.compile(r'^\*(\w+)\*$')

def parse(lines):
    """What markup readers see."""
    res = []
    after_blank = True
    for ln in lines:
        if not ln.strip():
            after_blank = True
            continue
        m, t = item.match(ln), title.match(ln)
        if m:
            expect(after_blank, 'item runs into the text before: %s', ln)
            res.append(['item', m.group(1), [m.group(2)]])
        elif t:
            expect(after_blank, 'title runs into the text before: %s', ln)
            res.append(['title', t.group(1), []])
        elif after_blank or not res:
            expect(ln == ln.lstrip(), 'indented text not of an item: %r', ln)
            res.append(['para', None, [ln]])
        else:
            expect(res[-1][0] != 'title', 'text runs into a title: %s', ln)
            if res[-1][0] == 'item':
                expect(ln.startswith('  ') and ln[2] != ' ', 'continuation of '
                    'an item is not aligned: %r', ln)
            else:
                expect(ln == ln.lstrip(), 'text of a paragraph is indented: '
                    '%r', ln)
            res[-1][2].append(ln.strip())
        after_blank = False
    return res

def words(s):
    return re.findall(r'\w+', s)

def run(case, x):
    from flowtracks.format_docstrings import parse_docstring
    if case == 'package':
        return run_package(x)
    lines = [line(KINDS[k], i) for i, k in enumerate(case)]
    given = list(lines)
    parse_docstring(None, 'function', 'f', None, None, given)
    x.step(); x.state(case)
    got, want = parse(given), blocks_of(case)
    expect(got == want, 'docstring %s became %s: blocks %s instead of %s', lines, 
        given, got, want)
    x.outcome('%d lines' % len(case))

def run_package(x):
    import inspect, pkgutil, importlib, flowtracks
    from flowtracks.format_docstrings import parse_docstring
    import matplotlib; matplotlib.use('Agg')
    seen = 0
    def one(ob, name):
        doc = inspect.getdoc(ob)
        if not doc: return 0
        src = doc.split('\n')
        out = list(src)
        parse_docstring(None, 'x', name, ob, None, out)
        expect(words(' '.join(src)) == words(' '.join(out)), 
            'words of the documentation of %s are changed', name)
        x.step(); x.state(name)
        return 1
    for m in pkgutil.iter_modules(flowtracks.__path__):
        mod = importlib.import_module('flowtracks.' + m.name)
        seen += one(mod, m.name)
        for n, ob in vars(mod).items():
            if getattr(ob, '__module__', None) != mod.__name__: continue
            seen += one(ob, n)
            if inspect.isclass(ob):
                for n2, o2 in vars(ob).items():
                    if callable(o2): seen += one(o2, n + '.' + n2)
    expect(seen > 50, 'documentation of only %d objects', seen)
    x.outcome('package')
    # connected to the documentation generator
    from flowtracks import format_docstrings as f
    calls = []
    class App(object):
        def connect(self, *a): calls.append(a)
    f.setup(App())
    expect(calls == [('autodoc-process-docstring', parse_docstring)], 
        'connection: %s', calls)
