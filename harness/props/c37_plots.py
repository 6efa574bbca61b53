# C37: plots show the data of the model and leave no trace.
import collections
import io
import re
import subprocess
import xml.etree.ElementTree as ET

import matplotlib
import matplotlib.colors as mc_
import matplotlib.image as mpimg
import matplotlib.patches as mpp
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1100, 30000)
CAP = (150, 850)
RULE = 'one case = one model (or a list of models) drawn by one plotting function with random options and labels; distinct by model and options'
MINIMUM = {'distinct': 500, 'comparison': 60, 'eigenvalues': 60, 'flow': 60, 'graph-standard': 60, 'graph-extended': 50, 'redistributions': 60, 'sequence': 60, 'trellis-standard': 25, 'trellis-extended': 25, 'interactive': 40, 'refused': 40, 'drawn': 60, 'edge': 800, 'node': 600, 'cell': 2000, 'spectral-gap': 8, 'ribbon': 1500, 'highlighted': 150, 'transient': 8, 'hidden': 150, 'peaked': 12}
ASSUMPTIONS = ['the path which the trellis highlights is the one the model predicts (its optimality is the subject of the property on predictions)', 'the figures are produced with the off-screen renderer', 'what the extended mode shows is read from the picture which Graphviz makes of the description it is given']
CASE_LIMIT = 120

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
WHITE, GRAY, BLUE = '#ffffff', '#e0e0e0', '#80b1d3'
GRAPHS = []
HOSTILE = ['a:b', 'node', 'edge', 'graph', 'c "q"', 'x;y', 'u -> v', '<b>', 'back\\slash', 'x\\N', 'R&D', '1.5', '{x|y}', 'a,b', '#1', '[z]', "it's", 'digraph', '-', 'p/q', 'a&lt;b', 'strict', 'subgraph', '0']


def tap():
    # what is handed to Graphviz, and what Graphviz makes of it
    import pydot
    if getattr(pydot.Dot.create, 'verif', False):
        return
    create = pydot.Dot.create

    def recorded(self, *args, **kwargs):
        out = create(self, *args, **kwargs)
        GRAPHS.append((self.to_string(), out))
        return out

    recorded.verif = True
    pydot.Dot.create = recorded


class Picture:

    def __init__(self, source):
        svg = subprocess.run(['dot', '-Tsvg'], input=source.encode(), capture_output=True, timeout=60).stdout.decode()
        self.nodes, self.edges, self.clusters = [], [], []
        for g in ET.fromstring(svg).iter('{http://www.w3.org/2000/svg}g'):
            kind = g.get('class')
            if kind not in ('node', 'edge', 'cluster'):
                continue
            title = g.find('{http://www.w3.org/2000/svg}title').text
            texts = [t.text.replace('\xa0', ' ') if t.text else '' for t in g.iter('{http://www.w3.org/2000/svg}text')]
            shapes = [x for x in g.iter() if x.tag.endswith(('ellipse', 'polygon', 'path'))]
            item = {'title': title, 'text': '\n'.join(texts), 'texts': texts, 'shapes': shapes}
            xs = [float(t.get('x')) for t in g.iter('{http://www.w3.org/2000/svg}text')]
            ys = [float(t.get('y')) for t in g.iter('{http://www.w3.org/2000/svg}text')]
            item['x'], item['y'] = (float(np.mean(xs)), float(np.mean(ys))) if xs else (None, None)
            getattr(self, kind + 's').append(item)

    def ends(self, e):
        # the nodes joined by an edge
        for a in self.nodes:
            if e['title'].startswith(a['title'] + '->'):
                rest = e['title'][len(a['title']) + 2:]
                for b in self.nodes:
                    if rest == b['title']:
                        return a, b
        return None


def fill(item):
    s = [x for x in item['shapes'] if x.tag.endswith(('ellipse', 'polygon'))]
    return s[0].get('fill', 'none').lower() if s else None


def outline(item):
    s = [x for x in item['shapes'] if x.tag.endswith(('ellipse', 'polygon'))]
    if not s:
        return None
    if s[0].tag.endswith('ellipse'):
        return 'ellipse'
    return {5: 'box', 7: 'hexagon'}.get(len(s[0].get('points').split()), 'other')


def stroke(item):
    s = [x for x in item['shapes'] if x.tag.endswith('path')]
    c = s[0].get('stroke', '').lower() if s else None
    return ('#000000' if c == 'black' else '#ffffff' if c == 'white' else c), s[0].get('stroke-dasharray') is not None


def digits(text, value):
    # a probability shown with a few decimals
    m = re.fullmatch(r'\s*(\d+\.(\d+))\s*', text)
    return m is not None and abs(float(m.group(1)) - value) <= 0.5 * 10.0 ** -len(m.group(2)) + 1e-9


def hexa(c):
    return mc_.to_hex(c)


def ticks(axis, size):
    # position -> text
    return {round(float(p), 6): t.get_text() for p, t in zip(axis.get_ticklocs(), axis.get_ticklabels()) if -0.5 < p < size - 0.5}


def labelled(mon, axis, names, what):
    got = ticks(axis, len(names))
    mon.check(got == {float(i): str(x) for i, x in enumerate(names)}, 'tick-labels', lambda: f'{what}: {got!r} instead of {names!r}')


def steps_axis(mon, ax, length, what):
    got = ticks(ax.xaxis, length)
    mon.check(len(got) > 0 and all(p == int(p) and t == str(int(p)) for p, t in got.items()) and 0.0 in got, 'tick-steps', lambda: f'{what}: {got!r}')
    if length <= 11:
        mon.check(len(got) == length, 'tick-steps', lambda: f'{what}: {got!r} for {length}')
    lo, hi = sorted(ax.get_xlim())
    mon.check(lo <= -0.499 and hi >= length - 0.501, 'nothing-cut-off', lambda: f'{what}: steps 0..{length - 1} within {lo} {hi}')


def image(mon, ax, want, what):
    mon.check(len(ax.images) == 1, 'image', lambda: f'{what}: {len(ax.images)} images')
    im = ax.images[0]
    got = np.asarray(im.get_array(), dtype=float)
    mon.event('cell', got.size)
    mon.check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-9), 'cells', lambda: f'{what}: {got.tolist()!r} instead of {want.tolist()!r}')
    mon.check(im.norm.vmin == 0.0 and im.norm.vmax == 1.0, 'color-scale', lambda: f'{what}: {im.norm.vmin} {im.norm.vmax}')
    grade = [sum(im.cmap(im.norm(v))[:3]) for v in ((0.0, 1.0) if set(np.unique(want)) <= {0.0, 1.0} else (0.0, 0.3, 0.6, 1.0))]
    mon.check(all(a > b for a, b in zip(grade, grade[1:])), 'color-scale', lambda: f'{what}: {grade!r}')
    left, right, bottom, top = im.get_extent()
    mon.check(left < right and top < bottom and abs(left + 0.5) < 1e-9 and abs(top + 0.5) < 1e-9, 'orientation', lambda: f'{what}: {im.get_extent()!r}')
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    mon.check(x0 < x1 and y0 > y1, 'orientation', lambda: f'{what}: axes {x0} {x1} {y0} {y1}')
    mon.check(x0 <= left + 1e-9 and x1 >= right - 1e-9 and y1 <= top + 1e-9 and y0 >= bottom - 1e-9, 'nothing-cut-off', lambda: f'{what}: {ax.get_xlim()} {ax.get_ylim()}')


# each drawing below: (call, inspection)

def comparison(rng, mon, m, w):
    models, hidden = [m], [w]
    every = rng.random() < 0.5
    for _ in range(int(rng.integers(1, 6))):
        a, b = model(rng, mon, force=(w['E'] is not None) if every else None)
        models.append(a)
        hidden.append(b)
    if rng.random() < 0.1:
        models[1], hidden[1] = models[0], hidden[0]
    kw = {'models': models}
    emission = all(x['E'] is not None for x in hidden) and rng.random() < 0.6
    if emission or rng.random() < 0.5:
        kw['underlying_matrices'] = 'emission' if emission else 'transition'
    names = None
    if rng.random() < 0.6:
        names = [f'model {i}' for i in rng.permutation(len(models))]
        kw['names'] = names

    def look(fig, axes):
        mon.check(isinstance(axes, list) and len(axes) >= len(models), 'axes', lambda: f'{axes!r}')
        shown = [a for a in axes if a.images]
        mon.check(len(shown) == len(models), 'axes', lambda: f'{len(shown)} subplots for {len(models)} models')
        mon.check(all(a in fig.axes for a in axes), 'axes')
        titles = []
        for i, (ax, x) in enumerate(zip(shown, hidden)):
            image(mon, ax, x['E'] if emission else x['P'], f'model {i}')
            titles.append(ax.get_title())
            if names is not None:
                mon.check(ax.get_title() == names[i], 'names', lambda: f'{ax.get_title()!r} instead of {names[i]!r}')
            else:
                kinds = {x['E'] is not None for x in hidden}
                tag = 'HMM' if kinds == {True} else 'MC' if kinds == {False} else 'MODEL'
                mon.check(re.search(r'(?<![A-Z])' + tag + r'_\{?' + str(i + 1) + r'\b', ax.get_title()) is not None, 'names', lambda: f'{ax.get_title()!r} for model {i} among {tag}')
        mon.check(len(set(titles)) == len(titles), 'names', lambda: f'{titles!r}')
        pos = [a.get_position() for a in shown]
        order = sorted(range(len(shown)), key=lambda i: (-round(pos[i].y0, 3), round(pos[i].x0, 3)))
        mon.check(order == list(range(len(shown))), 'order', lambda: f'{order!r}')
    return pydtmc.plot_comparison, kw, look, hidden


def eigenvalues(rng, mon, m, w):
    def look(fig, ax):
        P = w['P']
        ev = np.linalg.eigvals(P).astype(complex)
        lines = [l for l in ax.lines]
        stars = [l for l in lines if l.get_marker() == '*']
        mon.check(len(stars) == 1, 'eigenvalues', lambda: f'{len(stars)} sets of points')
        z = np.asarray(stars[0].get_xdata()) + 1j * np.asarray(stars[0].get_ydata())
        tol = 1e-8 if w['kind'] not in ('nilpotent',) else 1e-4
        d = np.abs(z[:, None] - np.append(ev, 1.0)[None, :])
        mon.check(bool(d.min(axis=0).max() < tol), 'eigenvalues', lambda: f'{z!r} does not show all of {ev!r}')
        mon.check(bool(d.min(axis=1).max() < tol), 'eigenvalues', lambda: f'{z!r} shows more than {ev!r}')
        rings = []
        for l in lines:
            if l in stars:
                continue
            r = np.hypot(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float))
            mon.check(np.ptp(r) < 1e-9, 'circles', lambda: f'{r!r}')
            rings.append(float(r[0]))
        mon.check(sum(abs(r - 1) < 1e-9 for r in rings) >= 1, 'unit-circle', lambda: f'{rings!r}')
        a = np.sort(np.abs(ev))
        legend = [t.get_text() for t in ax.get_legend().get_texts()]
        mon.check('Eigenvalues' in legend, 'legend', lambda: f'{legend!r}')
        ergodic = ref.is_irreducible(P) and ref.period_of(P, list(range(len(P)))) == 1
        mu = a[-2]
        if ergodic and (1 - 1e-3 > mu > 1e-3):
            mon.event('spectral-gap')
            mon.check(len(rings) == 2 and min(abs(r - mu) for r in rings) < 1e-8 and 'Spectral Gap' in legend, 'spectral-gap', lambda: f'circles {rings!r}, legend {legend!r}, second largest modulus {mu}')
            areas = [c for c in ax.collections]
            mon.check(len(areas) > 0, 'spectral-gap', lambda: 'no area')
            ring = np.concatenate([p.vertices for c in areas for p in c.get_paths() if len(p.vertices)])
            r = np.hypot(ring[:, 0], ring[:, 1])
            mon.check(abs(r.max() - 1) < 0.02 and abs(r.min() - mu) < 0.02, 'spectral-gap', lambda: f'area between {r.min()} and {r.max()} instead of {mu} and 1')
        elif not ergodic:
            mon.event('no-spectral-gap')
            mon.check(len(rings) == 1 and 'Spectral Gap' not in legend, 'spectral-gap', lambda: f'not ergodic: circles {rings!r}, legend {legend!r}')
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        mon.check(x0 < -1 and x1 > 1 and y0 < -1 and y1 > 1 and float(ax.get_aspect()) == 1.0, 'nothing-cut-off', lambda: f'{x0} {x1} {y0} {y1} {ax.get_aspect()!r}')
    return pydtmc.plot_eigenvalues, {'model': m}, look, [w]


def history(w, init, steps):
    d = [np.asarray(init, dtype=float)]
    for _ in range(steps):
        d.append(d[-1] @ w['P'])
    return np.array(d)


def flow(rng, mon, m, w):
    steps, interval = int(rng.integers(2, 7)), int(rng.integers(1, 5))
    kw = {'model': m, 'steps': steps, 'interval': interval}
    # the least numbers which are accepted are found by asking
    init = np.full(w['n'], 1.0 / w['n'])
    if rng.random() < 0.7:
        kw['initial_status'], init = gen.status(rng, w['names'])
        if kw['initial_status'] is None:
            del kw['initial_status']
    if rng.random() < 0.4:
        kw['palette'] = gen.pick(rng, ['viridis', 'plasma', 'magma', 'jet', 'Blues', 'hsv', 'coolwarm', 'cividis', 'gray', 'Spectral', 'turbo'])

    def look(fig, ax):
        n = w['n']
        D = history(w, init, steps * interval)[::interval]
        Q = np.linalg.matrix_power(w['P'], interval)
        legend = ax.get_legend()
        names = [t.get_text() for t in legend.get_texts()]
        mon.check(names == w['names'], 'legend', lambda: f'{names!r}')
        colors = [h.get_facecolor()[:3] for h in legend.legend_handles]
        bars, ribbons = [], []
        for p in ax.patches:
            xy = p.get_path().vertices
            (bars if len(xy) <= 5 else ribbons).append((xy, p.get_facecolor()[:3]))
        cols = collections.defaultdict(list)
        for xy, c in bars:
            cols[round(float(np.mean(xy[:4, 0])), 6)].append((float(xy[:, 1].min()), float(xy[:, 1].max()), c))
        mon.check(sorted(cols) == [float(i) for i in range(steps + 1)], 'columns', lambda: f'{sorted(cols)!r} for {steps} steps')
        lo, hi = sorted(ax.get_xlim())
        mon.check(lo <= -0.4 and hi >= steps + 0.4, 'nothing-cut-off', lambda: f'columns 0..{steps} within {lo} {hi}')
        for j in range(steps + 1):
            col = cols[float(j)]
            mon.check(len(col) == n, 'bars', lambda: f'{len(col)} bars in column {j}')
            col.sort()
            # from the first state to the last, downwards
            for i, (b, t, c) in enumerate(col):
                mon.event('cell')
                mon.check(np.allclose(c, colors[i], atol=1e-9) or t - b < 1e-9, 'bar-color', lambda: f'column {j} bar {i}')
                mon.check(abs((t - b) / 0.9 - D[j, i]) < 1e-8, 'bar-height', lambda: f'column {j} state {i}: {(t - b) / 0.9} instead of {D[j, i]}')
            for (_, t, _), (b, _, _) in zip(col, col[1:]):
                mon.check(b > t - 1e-9, 'bars-apart', lambda: f'column {j}: {col!r}')
            mon.check(col[0][0] > -1e-9 and col[-1][1] < 1 + 1e-9, 'nothing-cut-off', lambda: f'column {j}: {col!r}')
        y0, y1 = ax.get_ylim()
        mon.check(y0 >= 1 - 1e-9 and y1 <= 1e-9, 'orientation', lambda: f'{y0} {y1}')
        # ribbons: where they start, where they end, how thick they are
        F = np.zeros((steps, n, n))
        for xy, c in ribbons:
            x0, x1 = xy[:, 0].min(), xy[:, 0].max()
            a, b = xy[np.abs(xy[:, 0] - x0) < 1e-9][:, 1], xy[np.abs(xy[:, 0] - x1) < 1e-9][:, 1]
            left, right = (a.min(), a.max()), (b.min(), b.max())
            if left[1] - left[0] < 1e-9:
                continue
            mon.event('ribbon')
            j = int(np.floor((x0 + x1) / 2))
            mon.check(abs((right[1] - right[0]) - (left[1] - left[0])) < 1e-8, 'ribbon-thickness', lambda: f'{left} {right}')
            s = [i for i, (u, v, _) in enumerate(cols[float(j)]) if u - 1e-7 <= left[0] and left[1] <= v + 1e-7]
            t = [i for i, (u, v, _) in enumerate(cols[float(j + 1)]) if u - 1e-7 <= right[0] and right[1] <= v + 1e-7]
            mon.check(len(s) == 1 and len(t) == 1, 'ribbon-ends', lambda: f'column {j}: {left} {right} in {s} {t}')
            mon.check(np.allclose(c, colors[s[0]], atol=1e-9), 'ribbon-color', lambda: f'{c!r} {colors[s[0]]!r}')
            F[j, s[0], t[0]] += left[1] - left[0]
        want = np.array([0.9 * D[j][:, None] * Q for j in range(steps)])
        mon.check(np.abs(F - want).max() < 1e-7, 'ribbon-flow', lambda: f'{F.tolist()!r} instead of {want.tolist()!r}')
        got = collections.Counter((round(t.get_position()[0]), t.get_text()) for t in ax.texts)
        for t in ax.texts:
            x, y = t.get_position()
            j = round(x)
            i = [i for i, (u, v, _) in enumerate(cols[float(j)]) if u <= y <= v]
            mon.check(abs(x - j) < 1e-6 and len(i) == 1 and digits(t.get_text(), D[j, i[0]]), 'bar-text', lambda: f'{t.get_text()!r} at {x} {y}')
        for j in range(steps + 1):
            k = sum(1 for x, _ in got.elements() if x == j)
            mon.check(int((D[j] > 0.0501).sum()) <= k <= int((D[j] > 0.0499).sum()), 'bar-text', lambda: f'{k} texts in column {j} of {D[j]!r}')
    return pydtmc.plot_flow, kw, look, [w]


def shape_of(path):
    codes = path.codes
    if codes is not None and 4 in codes:
        return 'ellipse'
    return {5: 'box', 7: 'hexagon'}.get(len(path.vertices), 'other')


def standard_nodes(mon, ax):
    from matplotlib.collections import PathCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            off, faces, paths = np.asarray(c.get_offsets()), c.get_facecolors(), c.get_paths()
            for i, xy in enumerate(off):
                f = faces[i % len(faces)] if len(faces) else (0, 0, 0, 0)
                out.append({'xy': tuple(map(float, xy)), 'fill': hexa(f) if f[3] > 0 else None, 'shape': shape_of(paths[i % len(paths)])})
    return out


def arrows(ax):
    out = []
    for p in ax.patches:
        if isinstance(p, mpp.FancyArrowPatch):
            a, b = p._posA_posB
            # the head is at the end
            style = type(p.get_arrowstyle()).__name__
            ls = p.get_linestyle()
            out.append({'a': tuple(map(float, a)), 'b': tuple(map(float, b)), 'color': hexa(p.get_edgecolor()), 'dashed': ls not in ('-', 'solid'), 'style': style})
    return out


def at(points, xy, tol=1e-9):
    hits = [k for k, v in points.items() if abs(v[0] - xy[0]) < tol and abs(v[1] - xy[1]) < tol]
    return hits[0] if len(hits) == 1 else None


def graph(rng, mon, m, w):
    kw = {'model': m}
    opts = {'nodes_color': True, 'nodes_shape': True, 'edges_label': True, 'force_standard': False}
    for k in opts:
        if rng.random() < 0.7:
            opts[k] = kw[k] = bool(rng.random() < 0.5)
    opts['force_standard'] = kw['force_standard'] = bool(rng.random() < 0.55)
    P, E, names, symbols = w['P'], w['E'], w['names'], w['symbols']
    n = w['n']
    want = {(names[i], names[j]): P[i, j] for i in range(n) for j in range(n) if P[i, j] > 0}
    if E is not None:
        want.update({(names[i], symbols[j]): E[i, j] for i in range(n) for j in range(len(symbols)) if E[i, j] > 0})
    everything = names + (symbols if E is not None else [])
    trans = set() if E is not None else {names[i] for i in ref.transient_states(P)}
    classes = None if E is not None else [[names[i] for i in c] for c in ref.classes(P)]

    def colors_and_shapes(color, shape, plain):
        # color, shape: name -> observed
        if not opts['nodes_color']:
            mon.check(all(c in (None, 'none', WHITE, 'white') for c in color.values()), 'node-color', lambda: f'{color!r} without colors')
        elif E is None:
            for c in classes:
                mon.check(len({color[x] for x in c}) == 1, 'node-color', lambda: f'class {c!r}: {color!r}')
            if len(classes) <= 9:
                mon.check(len({color[c[0]] for c in classes}) == len(classes), 'node-color', lambda: f'{classes!r}: {color!r}')
        else:
            mon.check(len({color[x] for x in names}) == min(n, 9) and all(color[y] == GRAY for y in symbols) and GRAY not in [color[x] for x in names], 'node-color', lambda: f'{color!r}')
        for x in everything:
            t = 'ellipse'
            if opts['nodes_shape']:
                t = 'box' if x in trans else 'hexagon' if E is not None and x in symbols else 'ellipse'
                if x in trans:
                    mon.event('transient')
            mon.check(shape[x] == t, 'node-shape', lambda: f'{x!r}: {shape[x]} instead of {t}')
        mon.event('node', len(everything))

    def edges(shown, color):
        # shown: (from, to) -> (color, dashed)
        mon.event('edge', len(shown))
        mon.check(set(shown) == set(want), 'edges', lambda: f'{sorted(map(str, set(shown) ^ set(want)))!r} drawn or missing')
        for (a, b), (c, dashed) in shown.items():
            emission = E is not None and b in symbols
            mon.check(dashed == emission, 'edge-style', lambda: f'{a!r} {b!r}')
            mon.check(c == (color[a] if emission and opts['nodes_color'] else '#000000'), 'edge-color', lambda: f'{a!r} {b!r}: {c}')

    def look_extended(fig, ax, graphs):
        mon.event('graph-extended')
        mon.check(len(graphs) == 1, 'graphviz', lambda: f'{len(graphs)} graphs')
        source, png = graphs[0]
        img = mpimg.imread(io.BytesIO(png))
        mon.check(len(fig.images) == 1 and np.array_equal(np.asarray(fig.images[0].get_array()), img), 'picture-shown', lambda: f'{len(fig.images)} images')
        h, v = fig.get_size_inches() * fig.dpi
        mon.check(h >= img.shape[1] and v >= img.shape[0], 'nothing-cut-off', lambda: f'picture {img.shape} in {h} {v}')
        pic = Picture(source)
        texts = [x['text'] for x in pic.nodes]
        mon.check(sorted(texts) == sorted(everything), 'nodes', lambda: f'{texts!r} instead of {everything!r}')
        colors_and_shapes({x['text']: fill(x) for x in pic.nodes}, {x['text']: outline(x) for x in pic.nodes}, None)
        shown = {}
        for e in pic.edges:
            ends = pic.ends(e)
            mon.check(ends is not None, 'edges', lambda: f'{e["title"]!r}')
            key = ends[0]['text'], ends[1]['text']
            mon.check(key not in shown, 'edges', lambda: f'{key!r} twice')
            shown[key] = stroke(e)
            if opts['edges_label']:
                mon.check(key in want and digits(e['text'], want[key]), 'edge-label', lambda: f'{key!r}: {e["text"]!r} instead of {want.get(key)}')
            else:
                mon.check(e['text'] == '', 'edge-label', lambda: f'{key!r}: {e["text"]!r}')
        edges(shown, {x['text']: fill(x) for x in pic.nodes})

    def look_standard(fig, ax):
        mon.event('graph-standard')
        nodes = standard_nodes(mon, ax)
        mon.check(len(nodes) == len(everything), 'nodes', lambda: f'{len(nodes)} nodes')
        free = list(ax.texts)
        where = {}
        for t in list(free):
            if t.get_text() in everything and t.get_text() not in where:
                hit = [v for v in nodes if abs(v['xy'][0] - t.get_position()[0]) < 1e-9 and abs(v['xy'][1] - t.get_position()[1]) < 1e-9]
                if len(hit) == 1:
                    where[t.get_text()] = hit[0]
                    free.remove(t)
        mon.check(set(where) == set(everything), 'nodes', lambda: f'{sorted(set(everything) - set(where))!r} without a node')
        mon.check(len({v['xy'] for v in where.values()}) == len(everything), 'nodes', lambda: 'nodes on one another')
        if E is not None:
            ys, yy = {round(where[x]['xy'][1], 9) for x in names}, {round(where[x]['xy'][1], 9) for x in symbols}
            mon.check(len(ys) == 1 and len(yy) == 1 and ys != yy, 'layers', lambda: f'{ys} {yy}')
        colors_and_shapes({x: where[x]['fill'] for x in everything}, {x: where[x]['shape'] for x in everything}, None)
        points = {x: v['xy'] for x, v in where.items()}
        shown = {}
        for e in arrows(ax):
            key = at(points, e['a']), at(points, e['b'])
            mon.check(None not in key and key not in shown, 'edges', lambda: f'{e!r}')
            mon.check(e['style'] in ('CurveB', 'CurveFilledB', 'Simple', 'Fancy'), 'edge-direction', lambda: f'{e["style"]}')
            shown[key] = e['color'], e['dashed']
        edges(shown, {x: where[x]['fill'] for x in everything})
        if not opts['edges_label']:
            mon.check(not free, 'edge-label', lambda: f'{[t.get_text() for t in free]!r}')
            return
        mon.check(len(free) == len(want), 'edge-label', lambda: f'{len(free)} texts for {len(want)} edges')
        # every edge carries its own number: on the line, on the right of the arrow when the opposite arrow exists
        tr = ax.transData.transform
        spots = [(t, tr(t.get_position())) for t in free]
        used = set()
        for (a, b), p in want.items():
            pa, pb = tr(points[a]), tr(points[b])
            hits = []
            for i, (t, xy) in enumerate(spots):
                if not digits(t.get_text(), p):
                    continue
                if a == b:
                    ok = np.hypot(*(xy - pa)) < 1.0
                else:
                    d = pb - pa
                    long, side = float(np.dot(xy - pa, d) / np.dot(d, d)), float(np.cross(d, xy - pa)) / np.hypot(*d)
                    if (b, a) in want:
                        ok = abs(long - 0.5) < 0.02 and side < 0.5
                    else:
                        ok = 0.2 < long < 0.9 and abs(side) < 1.0
                if ok:
                    hits.append(i)
            mon.check(len(hits) > 0, 'edge-label', lambda: f'{a!r} -> {b!r} ({p}): {[t.get_text() for t, _ in spots]!r}')
            used.update(hits)
        mon.check(len(used) == len(spots), 'edge-label', lambda: f'{[spots[i][0].get_text() for i in set(range(len(spots))) - used]!r} belong to no edge')

    def look(fig, ax, graphs=()):
        if opts['force_standard']:
            mon.check(not graphs, 'standard-mode')
            look_standard(fig, ax)
        else:
            look_extended(fig, ax, graphs)
    return pydtmc.plot_graph, kw, look, [w]


def redistributions(rng, mon, m, w):
    steps = int(rng.integers(2, 25)) if rng.random() < 0.8 else int(rng.integers(1, 3))
    kw = {'model': m, 'redistributions': steps}
    init = np.full(w['n'], 1.0 / w['n'])
    if rng.random() < 0.7:
        kw['initial_status'], init = gen.status(rng, w['names'])
        if kw['initial_status'] is None:
            del kw['initial_status']
    pt = gen.pick(rng, ['heatmap', 'projection', None])
    if pt:
        kw['plot_type'] = pt

    def look(fig, ax):
        D = history(w, init, steps)
        if pt == 'heatmap':
            image(mon, ax, D.T, 'redistributions')
            labelled(mon, ax.yaxis, w['names'], 'states')
            steps_axis(mon, ax, steps + 1, 'heatmap')
        else:
            legend = [t.get_text() for t in ax.get_legend().get_texts()]
            lines = {l.get_label(): l for l in ax.lines}
            mon.check(len(lines) == len(ax.lines), 'lines', lambda: f'{list(lines)!r}')
            for i, x in enumerate(w['names']):
                mon.check(x in lines and x in legend, 'lines', lambda: f'{x!r} not in {list(lines)!r} or {legend!r}')
                mon.event('cell', steps + 1)
                X, Y = np.asarray(lines[x].get_xdata(), dtype=float), np.asarray(lines[x].get_ydata(), dtype=float)
                mon.check(np.array_equal(X, np.arange(steps + 1.0)) and np.abs(Y - D[:, i]).max() < 1e-8, 'lines', lambda: f'{x!r}: {Y!r} instead of {D[:, i]!r}')
            rest = set(lines) - set(w['names'])
            if np.allclose(init, 1.0 / w['n']):
                mon.check(rest == {'Start'} and abs(float(lines['Start'].get_ydata()[0]) - 1.0 / w['n']) < 1e-9 and float(lines['Start'].get_xdata()[0]) == 0, 'start', lambda: f'{rest!r}')
            else:
                mon.check(not rest, 'start', lambda: f'{rest!r}')
            steps_axis(mon, ax, steps + 1, 'projection')
            y0, y1 = ax.get_ylim()
            mon.check(y0 <= 0 and y1 >= 1, 'nothing-cut-off', lambda: f'{y0} {y1}')
    return pydtmc.plot_redistributions, kw, look, [w]


def sequence(rng, mon, m, w):
    steps = int(rng.integers(2, 40))
    kw = {'model': m, 'steps': steps, 'seed': int(rng.integers(1000))}
    if rng.random() < 0.6:
        kw['initial_state'] = gen.state_ref(rng, w['names'], int(rng.integers(w['n'])))
    pt = gen.pick(rng, ['heatmap', 'histogram', 'matrix', None])
    if pt:
        kw['plot_type'] = pt

    def look(fig, axes):
        walk = w['fresh']().simulate(steps, initial_state=kw.get('initial_state'), output_indices=True, seed=kw['seed'])
        walks = [(walk, w['names'], 'States')] if w['E'] is None else [(walk[0], w['names'], 'States'), (walk[1], w['symbols'], 'Symbols')]
        mon.check(isinstance(axes, list) and len(axes) == len(walks), 'axes', lambda: f'{axes!r}')
        for ax, (s, names, what) in zip(axes, walks):
            k = len(names)
            if pt == 'heatmap':
                M = np.zeros((k, k))
                for a, b in zip(s, s[1:]):
                    M[a, b] += 1
                image(mon, ax, M / M.sum(), what)
                labelled(mon, ax.xaxis, names, what)
                labelled(mon, ax.yaxis, names, what)
                mon.check(ax.get_xlabel() == what and ax.get_ylabel() == what, 'axis-names', lambda: f'{ax.get_xlabel()!r} {ax.get_ylabel()!r}')
            elif pt == 'matrix':
                M = np.zeros((k, len(s)))
                for i, a in enumerate(s):
                    M[a, i] = 1
                image(mon, ax, M, what)
                labelled(mon, ax.yaxis, names, what)
                steps_axis(mon, ax, len(s), what)
                mon.check(ax.get_ylabel() == what, 'axis-names', lambda: f'{ax.get_ylabel()!r}')
            else:
                bars = [p for p in ax.patches if isinstance(p, mpp.Rectangle)]
                got = {round(p.get_x() + p.get_width() / 2, 6): (p.get_height(), p.get_y()) for p in bars}
                want = {float(i): s.count(i) / len(s) for i in range(k)}
                mon.event('cell', k)
                mon.check(len(bars) == k and set(got) == set(want) and all(abs(got[i][0] - want[i]) < 1e-9 and got[i][1] == 0 for i in want), 'bars', lambda: f'{got!r} instead of {want!r}')
                labelled(mon, ax.xaxis, names, what)
                mon.check(ax.get_xlabel() == what, 'axis-names', lambda: f'{ax.get_xlabel()!r}')
                (y0, y1), (x0, x1) = ax.get_ylim(), ax.get_xlim()
                mon.check(y0 <= 0 and y1 >= 1 and x0 <= -0.4 and x1 >= k - 0.6, 'nothing-cut-off', lambda: f'{y0} {y1} {x0} {x1}')
    return pydtmc.plot_sequence, kw, look, [w]


def trellis(rng, mon, m, w):
    steps = int(rng.integers(2, 7))
    if rng.random() < 0.3:
        # nearly certain emissions: scaled backward probabilities far above 1
        n, k = w['E'].shape
        E = np.full((n, k), 2.0**-rng.integers(6, 12))
        for i in range(n):
            E[i, i % k] = 1 - E[i].sum() + E[i, i % k]
        P, names, symbols = w['P'], w['names'], w['symbols']
        w['E'], w['fresh'] = E, lambda: H(P.copy(), E.copy(), list(names), list(symbols))
        m = w['fresh']()
        mon.event('peaked')
    kw = {'hmm': m, 'steps': steps, 'seed': int(rng.integers(1000)), 'force_standard': bool(rng.random() < 0.5)}
    n = w['n']
    init = np.full(n, 1.0 / n)
    if rng.random() < 0.6:
        i = int(rng.integers(n))
        kw['initial_state'] = gen.state_ref(rng, w['names'], i)
        init = np.eye(n)[i]
    P, E = w['P'], w['E']

    def values():
        fresh = w['fresh']()
        _, symbols = fresh.simulate(steps, initial_state=kw.get('initial_state'), output_indices=True, seed=kw['seed'])
        seen = symbols[1:]
        F = [init]
        for s in seen:
            a = (F[-1] @ P) * E[:, s]
            F.append(a / a.sum())
        dec = fresh.decode(seen, initial_status=init.tolist())
        return symbols, np.array(F).T, np.asarray(dec[2])

    def judge(what, label, cells, colors, links, headers, rows, symbols, M):
        # cells[i][t]: text; colors[i][t]; links: ((i, t), (i, t)) -> highlighted
        F = steps + 1
        mon.check(rows == w['names'], 'trellis-states', lambda: f'{what}: {rows!r}')
        mon.check(len(headers) == F and headers[1:] == [w['symbols'][s] for s in symbols[1:]], 'trellis-symbols', lambda: f'{what}: {headers!r} for {symbols!r}')
        mon.check('0' in headers[0] and 'T' in headers[0], 'trellis-symbols', lambda: f'{what}: {headers!r}')
        mon.check(M.shape == (n, F), 'trellis-values', lambda: f'{what}: {M.shape}')
        for i in range(n):
            for t in range(F):
                mon.event('cell')
                mon.check(digits(cells[i][t], M[i, t]), 'trellis-values', lambda: f'{what}: state {i} time {t}: {cells[i][t]!r} instead of {M[i, t]}')
        path = []
        for t in range(F):
            on = [i for i in range(n) if colors[i][t] == BLUE]
            mon.check(len(on) == 1, 'trellis-path', lambda: f'{what}: time {t}: {on!r}')
            path.append(on[0])
        mon.event('highlighted', F)
        best = w['fresh']().predict('mle', symbols[1:], initial_status=init.tolist(), output_indices=True)[1]
        mon.check(path[1:] == [int(x) for x in best], 'trellis-path', lambda: f'{what}: {path!r} instead of {best!r}')
        first = init * P[:, path[1]]
        mon.check(first[path[0]] >= first.max() - 1e-12, 'trellis-path', lambda: f'{what}: starts in {path[0]} although {first!r}')
        want = {}
        for t in range(F - 1):
            for i in range(n):
                if t == 0 and init[i] == 0:
                    continue
                for j in range(n):
                    if P[i, j] > 0:
                        want[((i, t), (j, t + 1))] = path[t] == i and path[t + 1] == j
        mon.event('edge', len(links))
        mon.check(set(links) == set(want), 'trellis-edges', lambda: f'{what}: {sorted(set(links) ^ set(want))!r}')
        mon.check(links == want, 'trellis-edge-path', lambda: f'{what}: {[k for k in want if want[k] != links[k]]!r}')

    def look(fig, axes, graphs=()):
        symbols, forward, backward = values()
        mon.check(isinstance(axes, list) and len(axes) == 2, 'axes', lambda: f'{axes!r}')
        titles = [a.get_title() for a in axes]
        mon.check(titles == ['Backward Trellis', 'Forward Trellis'], 'trellis-titles', lambda: f'{titles!r}')
        if kw['force_standard']:
            mon.event('trellis-standard')
            mon.check(not graphs, 'standard-mode')
            for ax, M, ahead in ((axes[0], backward, False), (axes[1], forward, True)):
                what = ax.get_title()
                nodes = standard_nodes(mon, ax)
                texts = {}
                for t in ax.texts:
                    texts[tuple(map(float, t.get_position()))] = t.get_text()
                mon.check(len(texts) == len(ax.texts), 'trellis-values', lambda: 'texts on one another')
                fills = {v['xy']: v['fill'] for v in nodes}
                cellpos = [v['xy'] for v in nodes if v['fill'] is not None]
                mon.check(len(cellpos) == n * (steps + 1), 'trellis-values', lambda: f'{what}: {len(cellpos)} nodes')
                xs, ys = sorted({p[0] for p in cellpos}), sorted({p[1] for p in cellpos}, reverse=True)
                mon.check(len(xs) == steps + 1 and len(ys) == n, 'trellis-values', lambda: f'{xs!r} {ys!r}')
                cells = [[texts.get((x, y), '') for x in xs] for y in ys]
                colors = [[fills.get((x, y)) for x in xs] for y in ys]
                rows = [next((t for (x, yy), t in texts.items() if yy == y and x < xs[0]), None) for y in ys]
                headers = [next((t for (xx, y), t in texts.items() if xx == x and y > ys[0]), None) for x in xs]
                where = {(x, y): (i, t) for i, y in enumerate(ys) for t, x in enumerate(xs)}
                links = {}
                for e in arrows(ax):
                    a, b = where.get(e['a']), where.get(e['b'])
                    mon.check(a is not None and b is not None, 'trellis-edges', lambda: f'{e!r}')
                    links[(a, b) if ahead else (b, a)] = e['color'] == BLUE
                judge(what, ax, cells, colors, links, headers, rows, symbols, M)
        else:
            mon.event('trellis-extended')
            mon.check(len(graphs) == 2, 'graphviz', lambda: f'{len(graphs)} graphs')
            for ax, (source, png), M, ahead in ((axes[0], graphs[0], backward, False), (axes[1], graphs[1], forward, True)):
                what = ax.get_title()
                mon.check(len(ax.images) == 1 and np.array_equal(np.asarray(ax.images[0].get_array()), mpimg.imread(io.BytesIO(png))), 'picture-shown')
                pic = Picture(source)
                cellnodes = [v for v in pic.nodes if outline(v) == 'ellipse']
                rownodes = sorted((v for v in pic.nodes if outline(v) is None or outline(v) != 'ellipse'), key=lambda v: v['y'])
                mon.check(len(cellnodes) == n * (steps + 1), 'trellis-values', lambda: f'{what}: {len(cellnodes)} nodes')
                # the columns are the clusters
                boxes = []
                for c in pic.clusters:
                    if c['text']:
                        pts = np.array([[float(v) for v in p.split(',')] for p in c['shapes'][0].get('points').split()])
                        boxes.append((pts[:, 0].min(), pts[:, 0].max(), c['text'].replace('\n', ''), c['title']))
                # Graphviz may place a column elsewhere when the model has few transitions: the columns are then taken in the order of the description
                numbers = [re.findall(r'\d+', b[3])[-1:] for b in boxes]
                boxes = sorted(boxes) if not all(numbers) else [b for _, _, b in sorted((int(k[0]), b[0], b) for k, b in zip(numbers, boxes))]
                mon.check(len(boxes) == steps + 1, 'trellis-symbols', lambda: f'{boxes!r}')
                ys = sorted({round(v['y'], 3) for v in cellnodes})
                mon.check(len(ys) == n, 'trellis-values', lambda: f'{ys!r}')
                cells = [[None] * (steps + 1) for _ in range(n)]
                colors = [[None] * (steps + 1) for _ in range(n)]
                where = {}
                for v in cellnodes:
                    t = next(k for k, b in enumerate(boxes) if b[0] <= v['x'] <= b[1])
                    i = ys.index(round(v['y'], 3))
                    cells[i][t], colors[i][t], where[v['title']] = v['text'], fill(v), (i, t)
                links = {}
                for e in pic.edges:
                    ends = pic.ends(e)
                    c, _ = stroke(e) if any(x.tag.endswith('path') for x in e['shapes']) else (None, None)
                    if c in (None, '', 'none', 'transparent') or ends is None or ends[0]['title'] not in where:
                        continue
                    a, b = where[ends[0]['title']], where[ends[1]['title']]
                    links[(a, b) if ahead else (b, a)] = c == BLUE
                judge(what, ax, cells, colors, links, [b[2] for b in boxes], [v['text'] for v in rownodes], symbols, M)
    return pydtmc.plot_trellis, kw, look, [w]


def model(rng, mon, force=None, sizes=(3, 5, 8)):
    hidden = force if force is not None else rng.random() < 0.45
    if hidden:
        kind, P, E = gen.hmm(rng, 4, 4)
        _, _, names, symbols = gen.hmm_labels(rng, *E.shape)
        if rng.random() < 0.3:
            pool = [HOSTILE[i] for i in rng.permutation(len(HOSTILE))]
            names, symbols = pool[:E.shape[0]], pool[E.shape[0]:sum(E.shape)]
        mon.event('hidden')
    else:
        kind, P, lab, names = kit.pick_chain(rng, sizes=sizes, p=(.4, .4, .2))
        E, symbols = None, None
        if rng.random() < 0.3:
            names = [HOSTILE[i] for i in rng.permutation(len(HOSTILE))][:P.shape[0]]
            if len(names) < P.shape[0]:
                names = [f'a:{i}' for i in range(P.shape[0])]

    def fresh():
        return MC(P.copy(), list(names)) if E is None else H(P.copy(), E.copy(), list(names), list(symbols))
    return fresh(), {'P': P, 'E': E, 'names': names, 'symbols': symbols, 'kind': kind, 'n': P.shape[0], 'fresh': fresh}


DRAWINGS = {'comparison': comparison, 'eigenvalues': eigenvalues, 'flow': flow, 'graph': graph, 'redistributions': redistributions, 'sequence': sequence, 'trellis': trellis}


def case(rng, mon, tier, index):

    tap()
    plt.close('all')
    what = gen.pick(rng, ['comparison', 'eigenvalues', 'flow', 'graph', 'graph', 'graph', 'redistributions', 'sequence', 'trellis', 'trellis'])
    m, w = model(rng, mon, force=True if what == 'trellis' else None)
    if what == 'graph' and rng.random() < 0.3:
        # small probabilities, many decimals
        P = rng.dirichlet(np.full(w['n'], 0.4), size=w['n'])
        w['P'] = P = P / P.sum(axis=1, keepdims=True)
        E, names, symbols = w['E'], w['names'], w['symbols']
        w['fresh'] = lambda: MC(P.copy(), list(names)) if E is None else H(P.copy(), E.copy(), list(names), list(symbols))
        m = w['fresh']()
    if rng.random() < 0.3 and w['E'] is None:
        kit.disturb(rng, m)
    f, kw, look, shown = DRAWINGS[what](rng, mon, m, w)
    dpi = 100
    if rng.random() < 0.5:
        kw['dpi'] = dpi = gen.pick(rng, [75, 100, 150, 200])
    mon.context(plot=what, kind=w['kind'], P=w['P'], E=w['E'], names=w['names'], symbols=w['symbols'], arguments={k: v for k, v in kw.items() if k not in ('model', 'models', 'hmm')})
    mon.event(what) if what not in ('graph', 'trellis') else None
    mon.distinct(w['P'], what, sorted((k, repr(v)) for k, v in kw.items() if k not in ('model', 'models', 'hmm')))

    # what must be left as it is
    models = kw['models'] if 'models' in kw else [m]
    frozen = [kit.freeze_hmm(x) if isinstance(x, H) else kit.freeze(x) for x in models]
    args = {k: (list(v) if isinstance(v, list) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    interactive = rng.random() < 0.12
    others = int(rng.integers(3))
    mine = [plt.figure() for _ in range(others)]
    for g in mine:
        g.gca().plot([1, 2], [3, 4])
    plt.interactive(interactive)
    style = gen.pick(rng, [{}, {}, {'axes.grid': True}, {'font.size': 8.0}, {'figure.figsize': [5.0, 4.0]}, {'lines.linewidth': 3.0}])
    saved = dict(matplotlib.rcParams)
    matplotlib.rcParams.update(style)
    settings = {k: v for k, v in dict(matplotlib.rcParams).items()}
    cmaps = list(plt.colormaps())
    GRAPHS.clear()

    def left():
        now = dict(matplotlib.rcParams)
        bad = [k for k in settings if repr(now[k]) != repr(settings[k])]
        mon.check(not bad, 'settings-unchanged', lambda: f'{bad!r}')
        mon.check(plt.isinteractive() == interactive, 'settings-unchanged', lambda: 'interactive mode')
        mon.check(list(plt.colormaps()) == cmaps, 'settings-unchanged', lambda: 'color maps')
        now = [kit.freeze_hmm(x) if isinstance(x, H) else kit.freeze(x) for x in models]
        mon.check(now == frozen, 'model-unchanged', lambda: 'the model changed')
        for k, v in args.items():
            mon.check(v is kw[k] or (np.array_equal(v, kw[k]) if isinstance(v, np.ndarray) else v == kw[k]), 'arguments-unchanged', lambda: f'{k}: {kw[k]!r} instead of {v!r}')
        for g in mine:
            mon.check(g.number in plt.get_fignums() and len(g.axes) == 1 and len(g.axes[0].lines) == 1, 'figures-unchanged', lambda: 'another figure changed')

    try:
        if rng.random() < 0.1:
            # a refused call leaves nothing behind
            mon.event('refused')
            bad = dict(kw)
            k = gen.pick(rng, [x for x in list(kw) + ['dpi'] if x != 'seed'])
            bad[k] = gen.pick(rng, [-3, 'wrong', [], 2.5j, {'a': 1}])
            v, ex = kit.outcome(f, **bad)
            mon.check(isinstance(ex, (pydtmc.ValidationError, ValueError)), 'refused', lambda: f'{k}={bad[k]!r}: {v!r} {ex!r}')
            mon.check(len(plt.get_fignums()) == others, 'no-figure-left', lambda: f'{plt.get_fignums()!r}')
            left()
        GRAPHS.clear()
        if what == 'trellis':
            fresh = w['fresh']()
            _, symbols = fresh.simulate(kw['steps'], initial_state=kw.get('initial_state'), output_indices=True, seed=kw['seed'])
            init = np.full(w['n'], 1.0 / w['n']).tolist() if 'initial_state' not in kw else kw['initial_state']
            if fresh.predict('mle', symbols[1:], initial_status=init) is None:
                # the documented error: there is no path to show
                mon.event('no-path')
                out, ex = kit.outcome(f, **kw)
                mon.check(type(ex) is ValueError, 'no-path', lambda: f'{out!r} {ex!r}')
                mon.check(len(plt.get_fignums()) == others, 'no-figure-left', lambda: f'{plt.get_fignums()!r}')
                left()
                return
        out = f(**kw)
        opened = [x for x in plt.get_fignums() if x not in [g.number for g in mine]]
        mon.check(len(opened) == 1, 'one-figure', lambda: f'{opened!r}')
        fig = plt.figure(opened[0])
        if interactive:
            mon.event('interactive')
            mon.check(out is None, 'displayed', lambda: f'{out!r}')
            left()
            return
        mon.check(isinstance(out, tuple) and len(out) == 2 and out[0] is fig, 'handles', lambda: f'{out!r}')
        left()
        mon.check(abs(fig.dpi - dpi) < 1e-9, 'dpi', lambda: f'{fig.dpi} instead of {dpi}')
        if what in ('graph', 'trellis'):
            look(out[0], out[1], list(GRAPHS))
        else:
            look(*out)
        if rng.random() < 0.15:
            mon.event('drawn')
            _, ex = kit.outcome(fig.canvas.draw)
            mon.check(ex is None, 'drawable', lambda: f'{ex!r}')
    finally:
        plt.close('all')
        plt.interactive(False)
        matplotlib.rcParams.update(saved)
