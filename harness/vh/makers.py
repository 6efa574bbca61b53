# Valid calls of every function which makes a model: (function, keyword arguments, expectations).
# Expectations: states and symbols (labels in order, None when they are not prescribed), size, refusals (documented errors which are legitimate).
import os
import uuid

import networkx as nx
import numpy as np

from . import gen, kit


def some_labels(rng, n):
    lab = gen.labels(rng, n)
    return lab, (None if lab is None else list(lab))


def chain_matrix(rng, m=8):
    P = gen.chain(rng, m)[1]
    if rng.random() < 0.15:
        P = gen.tiny(rng, P)
    slack = 0.0
    if rng.random() < 0.1:
        # rows which sum to one only within the accepted tolerance
        slack = 5e-6
        P = P * (1 - rng.uniform(0, slack, size=(P.shape[0], 1)))
    return P, slack


def mask_for(rng, n, k, square):
    m = np.full((n, k), np.nan)
    for i in range(n):
        if rng.random() < 0.5:
            cols = rng.choice(k, size=int(rng.integers(0, k)), replace=False)
            m[i, cols] = np.floor(rng.dirichlet(np.ones(len(cols) + 1))[:-1] * 60) / 64 if len(cols) else []
    return m


def chain_maker(rng, MC, scratch=None):
    what = str(rng.choice(['ctor', 'ctor', 'from_dictionary', 'from_graph', 'from_matrix', 'approximation', 'birth_death', 'dirichlet_process', 'fit_function', 'fit_sequence', 'gamblers_ruin', 'identity',
                           'population_genetics_model', 'random', 'random_distribution', 'urn_model', 'from_file']))
    f = MC if what == 'ctor' else getattr(MC, what)
    n = int(rng.integers(2, 9))
    x = {'what': what, 'refusals': (), 'slack': 0.0}
    if what in ('ctor', 'from_dictionary', 'from_graph', 'from_matrix', 'from_file'):
        P, x['slack'] = chain_matrix(rng)
        n = P.shape[0]
        lab, names = some_labels(rng, n)
        x['P'] = P
        if what == 'from_file':
            ext = gen.pick(rng, ['.json', '.csv', '.txt', '.xml'])
            names = [f's{i}x' for i in rng.permutation(n)]
            path = os.path.join(scratch or os.environ['VERIF_SCRATCH'], f'm{uuid.uuid4().hex}{ext}')
            MC(P, names).to_file(path)
            x.update(states=names, size=n, path=path)
            return f, {'file_path': path}, x
        if what == 'ctor':
            x.update(states=lab, size=n)
            form, M = gen.as_form(rng, P)
            return f, ({'p': M} if lab is None and rng.random() < 0.5 else {'p': M, 'states': names}), x
        if what == 'from_matrix':
            M = np.floor(rng.random((n, n)) * 9) * (rng.random((n, n)) < 0.8) * float(rng.choice([1.0, 1e-3, 1e200]))
            x.update(states=lab, size=n)
            x['P'] = None
            return f, {'m': M if rng.random() < 0.6 else M.tolist(), 'states': names}, x
        names = names or [f'{i + 1}' for i in range(n)]
        if what == 'from_dictionary':
            x.update(states=names, size=n)
            return f, {'d': {(a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)}}, x
        g = nx.DiGraph()
        g.add_nodes_from(names)
        scale = rng.uniform(0.5, 4, size=n)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if P[i, j] > 0:
                    g.add_edge(a, b, weight=float(P[i, j] * scale[i]))
        x.update(states=names, size=n)
        x['P'] = None
        return f, {'graph': g if rng.random() < 0.7 else nx.MultiDiGraph(g)}, x
    lab, names = some_labels(rng, n)
    kw = {} if lab is None and rng.random() < 0.5 else {'states': names}
    x.update(states=lab, size=n)
    if what == 'approximation':
        x['slack'] = 1e-7  # quadrature
        kind = gen.pick(rng, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
        kw.update(size=n, approximation_type=kind, alpha=float(rng.uniform(-5, 5)), sigma=float(gen.pick(rng, [1e-6, 1e-3, 0.1, 1.0, 30.0, 1e6])), rho=float(gen.pick(rng, [0.0, 0.5, -0.5, 0.99, -0.99, 0.999])))
        if kind in ('rouwenhorst', 'tauchen') and rng.random() < 0.1:
            kw['rho'] = float(gen.pick(rng, [1.0, -1.0]))
        if kind == 'tauchen' and rng.random() < 0.5:
            kw['k'] = float(gen.pick(rng, [1.0, 2.5, 6.0]))
        x['refusals'] = (ValueError,)
    elif what == 'birth_death':
        a = rng.dirichlet(np.ones(3) * float(rng.choice([0.2, 1, 5])), size=n)
        p, q = a[:, 0].copy(), a[:, 1].copy()
        p[-1] = q[0] = 0
        q = np.minimum(q, 1 - p)
        q[p + q > 1] = 0
        kw.update(p=p, q=q)
    elif what == 'dirichlet_process':
        kw.update(size=n, diffusion_factor=int(rng.integers(1, n + 1)), seed=int(rng.integers(2**31)), shift_concentration=bool(rng.random() < 0.5))
        if rng.random() < 0.5:
            kw['diagonal_bias_factor'] = float(gen.pick(rng, [1e-3, 0.5, 10.0, 1e6]))
    elif what == 'fit_function':
        names = names or [f'v{i}' for i in range(n)]
        c, w = float(rng.uniform(0, 1)), float(gen.pick(rng, [1.0, 0.1, 1e-4]))
        lo = float(gen.pick(rng, [0.0, 0.5, 3.0]))
        zero = rng.random() < 0.15
        kw = dict(quadrature_type=gen.pick(rng, ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']), possible_states=names,
                  f=(lambda x_index, x_value, y_index, y_value: 0.0) if zero else (lambda x_index, x_value, y_index, y_value: float(np.exp(-(y_value - c * x_value)**2 / w)) + 1e-7))
        if rng.random() < 0.5:
            kw['quadrature_interval'] = (lo, lo + float(gen.pick(rng, [0.1, 1.0, 7.0])))
        x['states'] = list(names)
        if kw['quadrature_type'] == 'simpson-rule' and n % 2 == 0:  # it needs an even number of intervals
            kw['quadrature_type'] = 'trapezoid-rule'
    elif what == 'fit_sequence':
        names = names or [f'v{i}' for i in range(n)]
        idx = [int(i) for i in rng.integers(n, size=int(rng.integers(2, 60)))]
        kw = dict(fitting_type=gen.pick(rng, ['mle', 'map']), possible_states=names, sequence=gen.seq_form(rng, names, idx))
        if rng.random() < 0.6:
            kw['fitting_param'] = bool(rng.random() < 0.5) if kw['fitting_type'] == 'mle' else rng.integers(1, 6, size=(n, n))
        x['states'] = list(names)
    elif what == 'gamblers_ruin':
        n = max(n, 3)
        lab, names = some_labels(rng, n)
        kw = dict(size=n, w=float(gen.pick(rng, [0.5, 1e-9, 1 - 1e-9, 0.3])), states=names)
        x.update(states=lab, size=n)
    elif what == 'identity':
        kw.update(size=n)
    elif what == 'population_genetics_model':
        model = gen.pick(rng, ['moran', 'wright-fisher'])
        lab, names = some_labels(rng, n + 1)
        top = 1 / (4 * n)
        kw = dict(model=model, n=n, s=float(gen.pick(rng, [0.0, -1.0, 1.0, -0.3, 0.7])), u=float(gen.pick(rng, [0.0, 1e-9, top])), v=float(gen.pick(rng, [0.0, 1e-9, top])), states=names)
        x.update(states=None, size=n + 1)
        if lab is not None:
            x['states'] = lab
    elif what == 'random':
        kw.update(size=n, seed=int(rng.integers(2**31)))
        if rng.random() < 0.5:
            kw['mask'] = mask_for(rng, n, n, True)
        else:
            kw['zeros'] = int(rng.integers(0, n * (n - 1) + 1))
    elif what == 'random_distribution':
        f0, extra = gen.pick(rng, [('normal', {}), ('exponential', {'scale': 2.0}), ('poisson', {'lam': 0.4}), ('standard_cauchy', None), ('pareto', {'a': 0.01}), ('gamma', {'shape': 0.01}), ('uniform', {'low': -1.0, 'high': 0.2}), ('binomial', {'n': 1, 'p': 0.1})])
        if extra is None:
            f0, extra = 'gumbel', {}
        kw.update(size=n, f=f0, seed=int(rng.integers(2**31)), **extra)
    elif what == 'urn_model':
        m = int(rng.integers(1, 6))
        lab, names = some_labels(rng, 2 * m + 1)
        kw = dict(model=gen.pick(rng, ['bernoulli-laplace', 'ehrenfest']), n=m, states=names)
        x.update(states=lab, size=2 * m + 1)
    return f, kw, x


def model_maker(rng, H, scratch=None):
    what = str(rng.choice(['ctor', 'ctor', 'from_dictionary', 'from_graph', 'from_matrices', 'random', 'estimate', 'fit', 'from_file']))
    f = H if what == 'ctor' else getattr(H, what)
    kind, P, E = gen.hmm(rng, 6, 6)
    if rng.random() < 0.1:
        P = gen.tiny(rng, P)
    n, k = E.shape
    s, y, names, symbols = gen.hmm_labels(rng, n, k)
    x = {'what': what, 'states': names, 'symbols': symbols, 'size': (n, k), 'refusals': (), 'P': P, 'E': E}
    if what == 'ctor':
        return f, dict(p=gen.as_form(rng, P)[1], e=gen.as_form(rng, E)[1], states=None if s is None else list(s), symbols=None if y is None else list(y)), x
    if what == 'from_matrices':
        x['P'] = x['E'] = None
        a = np.floor(rng.random((n, n)) * 9) * (rng.random((n, n)) < 0.8) * float(rng.choice([1.0, 1e-3, 1e200]))
        b = np.floor(rng.random((n, k)) * 9) * (rng.random((n, k)) < 0.8) * float(rng.choice([1.0, 1e-3, 1e200]))
        return f, dict(mp=a, me=b, states=None if s is None else list(s), symbols=None if y is None else list(y)), x
    if what == 'random':
        x['P'] = x['E'] = None
        kw = dict(n=n, k=k, states=None if s is None else list(s), symbols=None if y is None else list(y), seed=int(rng.integers(2**31)))
        if rng.random() < 0.5:
            kw['p_mask'] = mask_for(rng, n, n, True)
        else:
            kw['p_zeros'] = int(rng.integers(0, n * (n - 1) + 1))
        if rng.random() < 0.5:
            kw['e_mask'] = mask_for(rng, n, k, False)
        else:
            kw['e_zeros'] = int(rng.integers(0, n * (k - 1) + 1))
        return f, kw, x
    if what == 'from_dictionary':
        d = {('P', a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)}
        d.update({('E', a, b): float(E[i, j]) for i, a in enumerate(names) for j, b in enumerate(symbols)})
        return f, {'d': d}, x
    if what == 'from_graph':
        return f, {'graph': H(P, E, names, symbols).to_graph()}, x
    if what == 'from_file':
        names, symbols = [f's{i}x' for i in rng.permutation(n)], [f'o{i}y' for i in rng.permutation(k)]
        path = os.path.join(scratch or os.environ['VERIF_SCRATCH'], f'm{uuid.uuid4().hex}{gen.pick(rng, [".json", ".csv", ".txt", ".xml"])}')
        H(P, E, names, symbols).to_file(path)
        x.update(states=names, symbols=symbols, path=path)
        return f, {'file_path': path}, x
    x['P'] = x['E'] = None
    if what == 'estimate':
        length = int(rng.choice([2, 5, 40]))
        a, b = [int(i) for i in rng.integers(n, size=length)], [int(i) for i in rng.integers(k, size=length)]
        return f, dict(possible_states=list(names), possible_symbols=list(symbols), sequence_states=gen.seq_form(rng, names, a), sequence_symbols=gen.seq_form(rng, symbols, b)), x
    seqs = [gen.emissions(rng, P, E, np.full(n, 1 / n), int(rng.integers(2, 12)))[1] for _ in range(int(rng.integers(1, 4)))]
    ys = [gen.seq_form(rng, symbols, q) for q in seqs]
    x['refusals'] = (ValueError,)
    kw = dict(fitting_type=gen.pick(rng, ['baum-welch', 'map', 'mle', 'viterbi']), possible_states=list(names), possible_symbols=list(symbols), p_guess=P.copy(), e_guess=E.copy(), symbols=ys[0] if len(ys) == 1 else ys)
    if rng.random() < 0.5:
        kw['initial_status'] = gen.status(rng, names)[0]
    return f, kw, x
