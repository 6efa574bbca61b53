# C27: in-memory conversions: dictionary, graph, matrix, and back.
import networkx as nx
import numpy as np
import pandas as pd

import pydtmc
from vh import gen, kit

CASES = (2400, 40000)
CAP = (90, 700)
RULE = 'one case = one generated chain or hidden Markov model (built directly or obtained by a transformation) sent through dictionary, graph and matrix and back; distinct by model'
MINIMUM = {'distinct': 900, 'chains': 500, 'models': 300, 'derived': 150, 'weighted-graph': 200, 'shuffled-graph': 200, 'matrix-normalised': 200, 'refused': 200, 'without-edges': 150}
ASSUMPTIONS = ['through dictionaries the probabilities are preserved exactly, through graphs and matrices up to the normalisation (1e-12)', 'graphs have no parallel edges']

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel


def derived(rng, mc):
    # a chain made by the library itself
    n = mc.size
    k = int(rng.integers(7))
    if k == 0:
        return mc.to_nth_order(int(rng.integers(2, 6)))
    if k == 1:
        return mc.to_lazy_chain(float(rng.uniform(0.05, 0.95)))
    if k == 2:
        return mc.to_canonical_form()
    if k == 3:
        return mc.to_bounded_chain(gen.pick(rng, ['absorbing', 'reflecting', 0.3]))
    if k == 4:
        return mc.merge_with(MC.random(n, mc.states, seed=int(rng.integers(1000))), float(rng.uniform(0.1, 0.9)))
    if k == 5:
        return MC.random(n, mc.states, seed=int(rng.integers(2**31)))
    return MC.fit_sequence('mle', mc.states, mc.simulate(30, seed=int(rng.integers(2**31))))


def same_chain(mon, r, mc, rule, exact):
    kit.valid_chain(mon, pydtmc, r)
    mon.equal(r.states, mc.states, rule + '-labels')
    if exact:
        mon.check(np.array_equal(r.p, mc.p), rule, lambda: f'{r.p!r} instead of {mc.p!r}')
        mon.check(r == mc and hash(r) == hash(mc), rule)
    else:
        mon.close(r.p, mc.p, rule, 1e-12, 1e-15)
        mon.check(bool(((r.p == 0) == (mc.p == 0)).all()), rule)


def same_model(mon, r, m, rule, exact):
    kit.valid_hmm(mon, pydtmc, r)
    mon.equal((r.states, r.symbols), (m.states, m.symbols), rule + '-labels')
    if exact:
        mon.check(np.array_equal(r.p, m.p) and np.array_equal(r.e, m.e) and r == m and hash(r) == hash(m), rule, lambda: f'{r.p!r} {r.e!r}')
    else:
        mon.close(r.p, m.p, rule, 1e-12, 1e-15)
        mon.close(r.e, m.e, rule, 1e-12, 1e-15)
        mon.check(bool(((r.p == 0) == (m.p == 0)).all() and ((r.e == 0) == (m.e == 0)).all()), rule)


def rescaled(rng, g):
    # the same graph, every row of weights multiplied by its own constant, the edges in another order
    out = nx.MultiDiGraph() if rng.random() < 0.2 else nx.DiGraph()
    out.add_nodes_from(g.nodes(data=True))
    edges = list(g.edges(data=True))
    scale, huge = {}, {}
    for u in dict.fromkeys((u, d.get('type')) for u, _, d in edges):
        if rng.random() < 0.08:
            # weights whose sum is beyond the largest number
            huge[u] = max(d['weight'] for a, _, d in edges if (a, d.get('type')) == u)
    for i in rng.permutation(len(edges)):
        u, v, d = edges[int(i)]
        key = (u, d.get('type'))
        c = scale.setdefault(key, float(gen.pick(rng, [1, 2, 3, 100, 0.01, 7.5, 1e-10, 1e12])))
        w = d['weight'] / huge[key] * 1.7e308 if key in huge else d['weight'] * c
        out.add_edge(u, v, **{**d, 'weight': gen.pick(rng, [float(w), np.float64(w)])})
    return out


def normal(M):
    M = np.array(M, dtype=float)
    M[M.max(axis=1) > 1e300] /= 1e10
    M[M.sum(axis=1) == 0] = 1.0
    return M / M.sum(axis=1, keepdims=True)


def weights(rng, rows, cols):
    # counts or weights, some rows empty
    M = rng.integers(0, 20, size=(rows, cols)).astype(float)
    M[rng.random(M.shape) < 0.3] = 0
    if rng.random() < 0.4:
        M = M * float(gen.pick(rng, [0.001, 1e6, 0.37, 1e-9, 1e-12, 1e-100, 1e100]))
    if rng.random() < 0.2:
        # every row on its own scale
        M = M * 10.0**rng.integers(-14, 7, size=(rows, 1))
    if rng.random() < 0.3:
        M[int(rng.integers(rows))] = 0
    if rng.random() < 0.15:
        # a row whose sum is beyond the largest number
        i = int(rng.integers(rows))
        M[i] = rng.uniform(0.3, 1, size=cols) * 1.7e308
    return M


def form_of(rng, W):
    if W.max() > 1e300:
        return gen.pick(rng, [('list', W.tolist()), ('array', W.copy())])
    return gen.as_form(rng, W)


def case(rng, mon, tier, index):

    if rng.random() < 0.6:
        big = rng.random() < 0.01
        kind, P, lab, names = kit.pick_big(rng) if big else kit.pick_chain(rng)
        if big:
            mon.event('big')
        elif rng.random() < 0.2:
            P = gen.pick(rng, [gen.tiny, gen.extreme])(rng, P)
            mon.event('small-probabilities')
        mc = kit.build(rng, pydtmc, P, lab)
        if rng.random() < 0.4:
            mon.context(kind=kind, P=P, labels=names)
            mc = derived(rng, mc)
            mon.event('derived')
        kit.disturb(rng, mc)
        P, names = mc.p, mc.states
        n = mc.size
        mon.context(kind=kind, P=P, labels=names)
        mon.event('chains')
        mon.distinct(P, names)
        before = kit.freeze(mc)

        d = mc.to_dictionary()
        mon.equal(set(d), {(a, b) for a in names for b in names}, 'dictionary-keys')
        mon.check(all(float(d[a, b]) == P[i, j] for i, a in enumerate(names) for j, b in enumerate(names)), 'dictionary-values', lambda: f'{d!r}')
        same_chain(mon, MC.from_dictionary(d), mc, 'dictionary', True)
        if rng.random() < 0.4:
            # the order of the diagonal pairs decides the order of the states
            perm = [int(i) for i in rng.permutation(n)]
            keys = [(names[i], names[i]) for i in perm] + kit.shuffled(rng, [k for k in d if k[0] != k[1]])
            r = MC.from_dictionary({k: d[k] for k in keys})
            mon.equal(r.states, [names[i] for i in perm], 'dictionary-order')
            mon.check(np.array_equal(r.p, P[np.ix_(perm, perm)]), 'dictionary-order', lambda: f'{r.p!r}')
        kit.poison(d)

        g = mc.to_graph()
        mon.check(isinstance(g, nx.DiGraph) and list(g.nodes) == names, 'graph-nodes', lambda: f'{list(g.nodes)}')
        mon.equal({(u, v): float(w) for u, v, w in g.edges(data='weight')}, {(a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names) if P[i, j] > 0}, 'graph-edges')
        same_chain(mon, MC.from_graph(g), mc, 'graph', False)
        if rng.random() < 0.5:
            mon.event('shuffled-graph')
            mon.event('weighted-graph')
            h = rescaled(rng, g)
            frozen = list(h.edges(data=True)).__repr__()
            same_chain(mon, MC.from_graph(h), mc, 'weighted-graph', False)
            mon.equal(list(h.edges(data=True)).__repr__(), frozen, 'arguments-unchanged')
        if rng.random() < 0.3:
            mon.event('multigraph')
            same_chain(mon, MC.from_graph(nx.MultiDiGraph(g)), mc, 'multigraph', False)
        if rng.random() < 0.3:
            # states without edges
            mon.event('without-edges')
            h = nx.DiGraph(rescaled(rng, g))
            lone = [a for a in names if rng.random() < 0.4]
            h.remove_edges_from([(u, v) for u, v in h.edges if u in lone])
            r = MC.from_graph(h)
            W = P.copy()
            W[[names.index(a) for a in lone]] = 1 / len(names)
            q = [names.index(a) for a in h.nodes]
            mon.equal(r.states, list(h.nodes), 'without-edges')
            mon.close(r.p, W[np.ix_(q, q)], 'without-edges', 1e-12, 1e-15)
        g.clear()

        M = mc.to_matrix()
        mon.check(np.array_equal(M, P), 'matrix', lambda: f'{M!r}')
        same_chain(mon, MC.from_matrix(M, names), mc, 'matrix', False)
        kit.poison(M)
        kit.unchanged(mon, mc, before)

        if rng.random() < 0.4:
            n = int(rng.integers(2, 8))
            W = weights(rng, n, n)
            lab = gen.labels(rng, n)
            form, arg = form_of(rng, W)
            mon.context(weights=W, form=form)
            mon.event('matrix-normalised')
            if W.max() > 1e300:
                mon.event('overflowing-sums')
            r = MC.from_matrix(arg, lab) if lab else MC.from_matrix(arg)
            kit.valid_chain(mon, pydtmc, r)
            mon.equal(r.states, kit.names(lab, n), 'matrix-labels')
            mon.close(r.p, normal(W), 'matrix-normalised', 1e-12, 1e-15)

        if rng.random() < 0.4:
            mon.event('refused')
            d = MC.random(3, ['a', 'b', 'c'], seed=1).to_dictionary()
            bad = dict(d)
            what = gen.pick(rng, ['missing', 'value', 'sum', 'key', 'single', 'nan', 'text', 'empty', 'blank', 'bool', 'list'])
            mon.context(bad=what)
            k = gen.pick(rng, sorted(d))
            if what == 'missing':
                del bad[k]
            elif what == 'value':
                bad[k] = gen.pick(rng, [-0.1, 1.5, 1 + 1e-9 + 1e-6, -1e-9])
            elif what == 'sum':
                bad[k] = min(1.0, bad[k] + 0.01)
            elif what == 'key':
                bad[gen.pick(rng, [('a',), ('a', 'b', 'c'), 'ab', ('a', 1), (1, 2), ('a', 'z')])] = 0.0
            elif what == 'single':
                bad = {('a', 'a'): 1.0}
            elif what == 'nan':
                bad[k] = gen.pick(rng, [float('nan'), float('inf')])
            elif what == 'text':
                bad[k] = gen.pick(rng, ['0.5', None, 0.5j, [0.5]])
            elif what == 'empty':
                bad = {}
            elif what == 'blank':
                bad = {(a.replace('b', '  '), b.replace('b', '  ')): v for (a, b), v in d.items()}
            elif what == 'bool':
                bad = {('a', 'a'): True, ('a', 'b'): 0.0, ('b', 'a'): 0.0, ('b', 'b'): 1.0}
            else:
                bad = list(d.items())
            kit.rejected(mon, pydtmc, 'refused-dictionary', MC.from_dictionary, bad, allow=(ValueError,))
            g = nx.DiGraph()
            g.add_weighted_edges_from([('a', 'b', 1), ('b', 'a', 2)])
            what = gen.pick(rng, ['undirected', 'one', 'number', 'zero', 'negative', 'nan', 'inf', 'missing', 'none', 'blank'])
            mon.context(bad=what)
            if what == 'undirected':
                g = nx.Graph(g)
            elif what == 'one':
                g.remove_node('b')
            elif what == 'number':
                g.add_edge('a', 3, weight=1)
            elif what == 'none':
                g = gen.pick(rng, [None, {}, [('a', 'b', 1)], np.eye(2)])
            elif what == 'blank':
                g.add_edge('a', ' ', weight=1)
            elif what == 'missing':
                g.add_edge('b', 'b')
            else:
                g.add_edge('b', 'b', weight={'zero': 0, 'negative': -1.0, 'nan': float('nan'), 'inf': float('inf')}[what])
            kit.rejected(mon, pydtmc, 'refused-graph', MC.from_graph, g, allow=(ValueError,))
            bad = gen.pick(rng, [np.ones((2, 3)), np.ones(4), [[1, -1], [1, 1]], [[1, np.nan], [1, 1]], [[1, np.inf], [1, 1]], [[1]], None, 'x', [['a', 'b'], ['c', 'd']], np.ones((2, 2, 2)), [[1j, 1], [1, 1]]])
            mon.context(bad=bad)
            kit.rejected(mon, pydtmc, 'refused-matrix', MC.from_matrix, bad)
            bad = gen.pick(rng, [['a'], ['a', 'a'], ['a', ''], ['a', ' '], ['a', 1], ('a', 'b'), 'ab', ['a', 'b', 'c'], 5])
            mon.context(bad=bad)
            kit.rejected(mon, pydtmc, 'refused-labels', MC.from_matrix, [[1, 1], [1, 1]], bad)
        return

    kind, P, E = gen.hmm(rng)
    n, k = E.shape
    s, y, names, syms = gen.hmm_labels(rng, n, k)
    m = kit.build_hmm(rng, pydtmc, P, E, s, y)
    if rng.random() < 0.2:
        m = H.random(n, k, list(names), symbols=list(syms), seed=int(rng.integers(2**31)))
        mon.event('derived')
    frozen = kit.freeze_hmm(m)
    P, E = m.p, m.e
    mon.context(kind=kind, P=P, E=E, states=names, symbols=syms)
    mon.event('models')
    mon.distinct(P, E, names, syms)

    d = m.to_dictionary()
    want = {('P', a, b): P[i, j] for i, a in enumerate(names) for j, b in enumerate(names)}
    want.update({('E', a, b): E[i, j] for i, a in enumerate(names) for j, b in enumerate(syms)})
    mon.equal({q: float(v) for q, v in d.items()}, want, 'dictionary')
    same_model(mon, H.from_dictionary(d), m, 'dictionary', True)
    if rng.random() < 0.4:
        ps, pk = [int(i) for i in rng.permutation(n)], [int(i) for i in rng.permutation(k)]
        keys = [('P', names[i], names[i]) for i in ps]
        keys += [('E', names[ps[0]], syms[j]) for j in pk]
        keys += kit.shuffled(rng, [q for q in d if q not in set(keys)])
        r = H.from_dictionary({q: d[q] for q in keys})
        mon.equal((r.states, r.symbols), ([names[i] for i in ps], [syms[j] for j in pk]), 'dictionary-order')
        mon.check(np.array_equal(r.p, P[np.ix_(ps, ps)]) and np.array_equal(r.e, E[np.ix_(ps, pk)]), 'dictionary-order', lambda: f'{r.p!r} {r.e!r}')
    kit.poison(d)

    g = m.to_graph()
    mon.equal(dict(g.nodes(data='layer')), {**{a: 1 for a in names}, **{b: 0 for b in syms}}, 'graph-nodes')
    edges = {(a, b): ('P', float(P[i, j])) for i, a in enumerate(names) for j, b in enumerate(names) if P[i, j] > 0}
    edges.update({(a, b): ('E', float(E[i, j])) for i, a in enumerate(names) for j, b in enumerate(syms) if E[i, j] > 0})
    mon.equal({(u, v): (x['type'], float(x['weight'])) for u, v, x in g.edges(data=True)}, edges, 'graph-edges')
    same_model(mon, H.from_graph(g), m, 'graph', False)
    if rng.random() < 0.5:
        mon.event('shuffled-graph')
        mon.event('weighted-graph')
        same_model(mon, H.from_graph(rescaled(rng, g)), m, 'weighted-graph', False)
    if rng.random() < 0.3:
        mon.event('multigraph')
        same_model(mon, H.from_graph(nx.MultiDiGraph(g)), m, 'multigraph', False)
    if rng.random() < 0.3:
        mon.event('without-edges')
        h = nx.DiGraph(rescaled(rng, g))
        la, lb = [a for a in names if rng.random() < 0.3], [a for a in names if rng.random() < 0.3]
        h.remove_edges_from([(u, v) for u, v, x in h.edges(data=True) if u in (la if x['type'] == 'P' else lb)])
        W, V = P.copy(), E.copy()
        W[[names.index(a) for a in la]] = 1 / n
        V[[names.index(a) for a in lb]] = 1 / k
        r = H.from_graph(h)
        q, z = [names.index(a) for a in r.states], [syms.index(a) for a in r.symbols]
        mon.close(r.p, W[np.ix_(q, q)], 'without-edges', 1e-12, 1e-15)
        mon.close(r.e, V[np.ix_(q, z)], 'without-edges', 1e-12, 1e-15)
    g.clear()

    A, B = m.to_matrices()
    mon.check(np.array_equal(A, P) and np.array_equal(B, E), 'matrices')
    same_model(mon, H.from_matrices(A, B, names, syms), m, 'matrices', False)
    kit.poison((A, B))
    mon.check(kit.freeze_hmm(m) == frozen, 'model-unchanged')

    if rng.random() < 0.5:
        W, V = weights(rng, n, n), weights(rng, n, k)
        mon.context(weights=(W, V))
        mon.event('matrix-normalised')
        r = H.from_matrices(form_of(rng, W)[1], form_of(rng, V)[1], s, y)
        kit.valid_hmm(mon, pydtmc, r)
        mon.equal((r.states, r.symbols), (names, syms), 'matrices-labels')
        mon.close(r.p, normal(W), 'matrices-normalised', 1e-12, 1e-15)
        mon.close(r.e, normal(V), 'matrices-normalised', 1e-12, 1e-15)
    if rng.random() < 0.4:
        mon.event('refused')
        d = H.random(2, 3, ['a', 'b'], symbols=['x', 'y', 'z'], seed=1).to_dictionary()
        bad = dict(d)
        q = gen.pick(rng, sorted(d))
        what = gen.pick(rng, ['missing', 'value', 'sum', 'key', 'nan', 'text', 'empty', 'nosymbols', 'overlap'])
        mon.context(bad=what)
        if what == 'missing':
            del bad[q]
        elif what == 'value':
            bad[q] = gen.pick(rng, [-0.1, 1.5, -1e-9])
        elif what == 'sum':
            bad[q] = min(1.0, bad[q] + 0.01)
        elif what == 'key':
            bad[gen.pick(rng, [('a', 'b'), ('X', 'a', 'b'), ('E', 'a', 1), ('E', 'x', 'a'), ('E', 'c', 'x'), ('E', 'a', 'w')])] = 0.0
        elif what == 'nan':
            bad[q] = gen.pick(rng, [float('nan'), float('inf')])
        elif what == 'text':
            bad[q] = gen.pick(rng, ['0.5', None, [0.5]])
        elif what == 'empty':
            bad = {}
        elif what == 'nosymbols':
            bad = {z: v for z, v in d.items() if z[0] == 'P'}
        else:
            bad = {(z[0], z[1], 'a' if z[2] == 'x' else z[2]): v for z, v in d.items()}
        kit.rejected(mon, pydtmc, 'refused-dictionary', H.from_dictionary, bad, allow=(ValueError,))
        g = m.to_graph()
        u, v = gen.pick(rng, list(g.edges))
        what = gen.pick(rng, ['layer', 'type', 'weight', 'undirected', 'few', 'none', 'symbol'])
        mon.context(bad=what, edge=(u, v))
        if what == 'layer':
            g.nodes[u]['layer'] = gen.pick(rng, [2, -1, 'x', None])
        elif what == 'type':
            g.edges[u, v]['type'] = gen.pick(rng, ['X', '', None, 0])
        elif what == 'weight':
            g.edges[u, v]['weight'] = gen.pick(rng, [0, -1.0, float('nan'), float('inf'), 'x', None])
        elif what == 'undirected':
            g = nx.Graph(g)
        elif what == 'few':
            g.remove_nodes_from(list(syms)[1:])
        elif what == 'symbol':
            g.add_edge(syms[0], names[0], type='P', weight=1.0)
        else:
            g = None
        kit.rejected(mon, pydtmc, 'refused-graph', H.from_graph, g, allow=(ValueError,))
        bad = gen.pick(rng, [(np.ones((2, 3)), np.ones((2, 2))), (np.ones((2, 2)), np.ones((3, 2))), (np.ones((2, 2)), -np.ones((2, 2))), (np.ones((2, 2)), [[1, np.nan], [1, 1]]), (None, np.ones((2, 2))), (np.ones((2, 2)), np.ones((2, 1))),
                             (np.ones((2, 2)), np.ones((2, 2)), ['a', 'b'], ['b', 'c']), (np.ones((2, 2)), np.ones((2, 2)), ['a'], None), (np.ones((2, 2)), np.ones((2, 2)), None, ['a', 'a'])])
        mon.context(bad=bad)
        kit.rejected(mon, pydtmc, 'refused-matrices', H.from_matrices, *bad)
