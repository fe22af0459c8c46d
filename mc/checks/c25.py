"""Probability density and vector graphs."""
import itertools, math
from ..core import expect, Violation
from ..util import *

PROPERTY = 'C25'
CHUNK = 40
RULE = (
    "Every multiset of up to 4 (thorough 5) samples from 9 values (negative, "
    "zero, equal, powers of ten, roundoff-prone ones) in two orders x 1..4, "
    "10 bins x linear/log bins: samples counted by the returned edges; "
    "graphs of the same with linear/log density, what is drawn read back "
    "from the figure. Every history of up to 3 component plots over two "
    "figures x option sets, all subplots read back.")
ASSUME = ["log bins need two different positive samples, linear ones one "
    "sample", "samples are finite"]

RED = [1., 0., 0., 1.]
VALS = [-2.5, 0., 1e-3, 0.1, 0.3, 1., 7., 10., 1000.]

def cases(tier):
    deep = tier == 'thorough'
    n = 0
    for m in range(1, 6 if deep else 5):
        for ixs in itertools.combinations_with_replacement(range(9), m):
            n += 1
            for log in (False, True):
                pos = set(VALS[i] for i in ixs if VALS[i] > 0)
                if log and len(pos) < 2: continue
                yield ['pdf', list(ixs), n % 3, log]
    # Ranges over which rounding of edges may move the extreme samples
    for a in range(1, 41):
        for b in range(1, 41, 1 if deep else 3):
            if a != b: yield ['edges', a, b]
    for n, ixs in enumerate(itertools.combinations(range(2, 9), 3)):
        for bins in (1, 2, 5):
            for log in (False, True):
                for dens in (False, True):
                    for mk in ('o', 's'):
                        yield ['graph', list(ixs), bins, log, dens, mk]
    ops = [(f, o) for f in (0, 1, 2) for o in range(7)]
    for d in (1, 2, 3):
        for seq in itertools.product(ops, repeat=d):
            if d == 3 and not deep and sum(o for f, o in seq) % 9: continue
            # a figure is used for the first time in order
            yield ['vectors', [list(s) for s in seq]]

def pl():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as p
    return p

def given(**options):
    """options which are off are left to their defaults"""
    return dict((k, v) for k, v in options.items() if v)

def check_pdf(data, bins, log, hist, edges, what):
    expect(np.shape(hist) == (bins,) and np.shape(edges) == (bins + 1,), 
        '%s: %s densities, %s edges', what, np.shape(hist), np.shape(edges))
    used = [v for v in data if v > 0 or not log]
    w = np.diff(edges)
    expect((w > 0).all(), '%s: edges do not rise: %s', what, list(edges))
    if log:
        expect(edges[0] == min(used) and edges[-1] == max(used), 
            '%s: edges %s are not from the least to the greatest of %s', what, 
            list(edges), used)
        r = np.log(edges)
        expect(np.allclose(np.diff(r), (r[-1] - r[0]) / bins, rtol=1e-6), 
            '%s: edges %s not spaced logarithmically', what, list(edges))
    else:
        expect(np.allclose(w, w[0], rtol=1e-6), '%s: edges %s not uniform', 
            what, list(edges))
        if min(used) < max(used):
            expect(abs(edges[0] - min(used)) < 1e-9 and 
                abs(edges[-1] - max(used)) < 1e-9, '%s: edges %s of %s', what, 
                list(edges), used)
    for b in range(bins):
        last = b == bins - 1
        count = sum(1 for v in used if edges[b] <= v and (v < edges[b + 1] or 
            last and v <= edges[b + 1]))
        expect(abs(hist[b] * w[b] * len(used) - count) < 1e-6, '%s: density '
            '%s in bin %s to %s of %s has %s of %s samples', what, hist[b], 
            edges[b], edges[b + 1], used, count, len(used))
    expect(abs((hist * w).sum() - 1.) < 1e-9, '%s: total %s', what, 
        (hist * w).sum())

def run(case, x):
    from flowtracks import graphics
    if case[0] == 'pdf':
        _, ixs, order, log = case
        vals = [VALS[i] for i in ixs]
        vals = vals[order:] + vals[:order] if order < 2 else vals[::-1]
        for bins in (1, 2, 3, 4, 10):
            data = np.array(vals)
            hist, edges = graphics.pdf_bins(data, bins, **given(log_bins=log))
            x.step(); x.state(ixs, log, bins)
            what = '%d %s bins' % (bins, 'log' if log else 'linear')
            check_pdf(vals, bins, log, hist, edges, what)
            expect_exact(data, np.array(vals), 'data changed')
        x.outcome('log' if log else 'linear')
    elif case[0] == 'edges':
        _, a, b = case
        vals = [a / 7., b / 3., (a + b) / 11.]
        if len(set(vals)) < 2: return
        for bins in (1, 2, 7, 30):
            for log in (False, True):
                hist, edges = graphics.pdf_bins(np.array(vals), bins, log)
                x.step(); x.state(case, bins, log)
                check_pdf(vals, bins, log, hist, edges, 'extremes, %d bins' % 
                    bins)
        x.outcome('extremes')
    elif case[0] == 'graph':
        p = pl()
        _, ixs, bins, log, dens, mk = case
        vals = [VALS[i] for i in ixs] + [VALS[ixs[0]]]
        p.close('all')
        fig = p.figure()
        graphics.pdf_graph(np.array(vals), bins, **given(log=log, 
            log_density=dens, marker=mk if mk != 'o' else None))
        x.step(); x.state(case)
        ax = fig.gca()
        lines = ax.get_lines()
        expect(len(lines) == 1, '%d lines drawn', len(lines))
        hist, edges = graphics.pdf_bins(np.array(vals), bins, log)
        expect_close(lines[0].get_xdata(), edges[:-1], 'places of bins')
        expect_close(lines[0].get_ydata(), hist, 'densities')
        expect(lines[0].get_marker() == mk and lines[0].get_linestyle() == '-',
            'style %s%s', lines[0].get_linestyle(), lines[0].get_marker())
        want = ('log' if log else 'linear', 'log' if dens else 'linear')
        got = (ax.get_xscale(), ax.get_yscale())
        expect(got == want, 'scales %s instead of %s', got, want)
        expect('robability density' in ax.get_ylabel(), 'no label')
        p.close('all')
        fig = p.figure()
        res = graphics.generalized_histogram_disp(hist, edges[:-1],
            **given(log_bins=log, log_density=dens))
        ax = fig.gca()
        expect(len(res) == 1 and list(ax.get_lines()) == list(res), 
            'lines returned are not those drawn')
        expect_close(res[0].get_xdata(), edges[:-1], 'places of bins')
        expect_close(res[0].get_ydata(), hist, 'densities')
        expect(res[0].get_marker() == 'o' and res[0].get_linestyle() == 'None', 
            'default marker')
        expect((ax.get_xscale(), ax.get_yscale()) == want, 'scales')
        p.close('all')
        x.outcome('graph %s-%s' % want)
    else:
        run_vectors(case, x)

def run_vectors(case, x):
    from flowtracks.graphics import plot_vectors
    import matplotlib.ticker as tk
    p = pl()
    p.close('all')
    figs, drawn = {}, {}
    for n, (f, o) in enumerate(case[1]):
        m = (1, 2, 5)[n]
        vecs = np.array([[val(n + 1, t, c) + 1. for c in range(3)] 
            for t in range(m)])
        keep = vecs.copy()
        indep = np.array([100. + 3 * t * (n + 1) for t in range(m)])
        kw, mk = {}, '-'
        if o == 1: kw = {'marker': 'o'}
        if o == 2: kw = {'ytick_dens': 4}
        if o == 3: kw = {'yticks_format': tk.FormatStrFormatter('%.3f'), 
            'unit_str': '[m]'}
        if o == 4: kw = {'common_scale': 30.}
        if o == 5: kw = {'arrows': vecs[:, ::-1] * 2., 'arrow_color': 'r'}
        if o == 6: kw = {'unit_str': 'mm', 'ytick_dens': 3, 'marker': '--', 
            'arrows': -vecs}
        if f in figs: 
            kw['fig'] = figs[f]
        elif f == 2: # a figure made by the caller
            figs[f] = p.figure()
            kw['fig'] = figs[f]
            drawn[f] = []
        res = plot_vectors(vecs, indep, 'time', **kw)
        x.step()
        if f in figs: 
            expect(res is figs[f], 'another figure returned')
        else:
            expect(all(res is not g for g in figs.values()), 
                'an existing figure was drawn on')
            figs[f] = res
            drawn[f] = []
        drawn[f].append((indep, vecs, kw))
        expect_exact(vecs, keep, 'vectors changed')
        x.state(sorted((k, len(v)) for k, v in drawn.items()), f, o)
        
        for g, fig in figs.items():
            axs = fig.axes
            expect(len(axs) == 3, '%d subplots', len(axs))
            tops = [a.get_position().y0 for a in axs]
            expect(tops[0] > tops[1] > tops[2], 'order of subplots')
            geo = [tuple(a.get_subplotspec().get_geometry()[:2]) for a in axs]
            expect(geo == [(3, 1)] * 3, 'grid of subplots %s', geo)
            for c, a in enumerate(axs):
                ls = a.get_lines()
                expect(len(ls) == len(drawn[g]), 'component %d has %d lines '
                    'instead of %d', c, len(ls), len(drawn[g]))
                for l, (ind, v, k) in zip(ls, drawn[g]):
                    expect_close(l.get_xdata(), ind, 'independent variable')
                    expect_close(l.get_ydata(), v[:, c], 'component %d', c)
                    mk = k.get('marker', '-')
                    expect((l.get_marker() if mk == 'o' else l.get_linestyle()) 
                        == mk, 'marker')
                qs = [q for q in a.collections if hasattr(q, 'U')]
                arr = [(i, v, k['arrows'], k) for i, v, k in drawn[g] 
                    if 'arrows' in k]
                expect(len(qs) == len(arr), '%d sets of arrows', len(qs))
                for q, (i, v, ar, k) in zip(qs, arr):
                    expect_close(q.U, np.zeros(len(i)), 'arrows are vertical')
                    expect_close(q.V, ar[:, c], 'arrows of component %d', c)
                    if 'arrow_color' in k:
                        expect_close(q.get_facecolor(), [RED], 
                            'colour of arrows')
                    expect_close(q.get_offsets(), np.c_[i, v[:, c]], 'places '
                        'of arrows')
                i, v, k = drawn[g][-1]
                lab = a.get_ylabel()
                expect(lab.startswith('XYZ'[c]) and 
                    lab.endswith(k.get('unit_str', '')), 'label %s', lab)
                expect(a.get_xaxis().get_visible() == (c == 2), 
                    'X axis of subplot %d', c)
                if 'common_scale' in k:
                    mean = v[:, c].sum() / len(v)
                    expect_close(a.get_ylim(), [mean - 30., mean + 30.], 
                        'limits of component %d', c)
                if 'ytick_dens' in k:
                    lo, hi = min(v[:, c]), max(v[:, c])
                    d = k['ytick_dens']
                    expect_close(a.get_yticks(), [lo + (hi - lo) * j / (d - 1.)
                        for j in range(d)], 'ticks of component %d', c)
                if 'yticks_format' in k:
                    expect(a.get_yaxis().get_major_formatter() is 
                        k['yticks_format'], 'format of ticks')
            expect(axs[2].get_xlabel() == 'time', 'label')
    p.close('all')
    x.outcome('component plots')
