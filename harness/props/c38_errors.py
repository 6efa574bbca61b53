# C38: calls either return or raise the documented errors.
import dis
import inspect
import json
import os
import re

import networkx as nx
import numpy as np
import pandas as pd
import scipy.sparse as sp

import pydtmc
from vh import catalog, deep, gen, kit, makers

CASES = (1200, 40000)
CAP = (130, 800)
RULE = 'one case = one model (ordinary, extreme or borderline) and a dozen calls with hostile, plausible and mixed arguments; distinct by model and calls'
MINIMUM = {'distinct': 600, 'call': 9000, 'returned': 2000, 'refused': 4500, 'value-error': 30, 'property': 2500, 'free-fuzz': 2500, 'extreme-model': 200, 'still-answers': 700, 'parameter-named': 3000, 'callback-error': 1200, 'callback-answer': 500, 'file': 6000, 'file-read': 10}
ASSUMPTIONS = ['sizes, orders and numbers of steps stay below a few hundred, so that memory and time are not at stake', 'arguments match the signature']
CASE_LIMIT = 120

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
HERE = os.path.realpath(os.path.dirname(pydtmc.__file__))


class Odd(str):
    pass


class Rows(list):
    pass


class Weird:
    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i >= 3:
            raise IndexError(i)
        return 0.5

    def __float__(self):
        return 0.5


def scalars(rng):
    return gen.pick(rng, [None, True, False, 0, 1, 2, 3, 5, -1, -2, 17, 200, 0.0, 1.0, 0.5, -0.5, 1e-320, 1e308, -1e308, float('nan'), float('inf'), -float('inf'), 1j, 2 + 0j, np.float32(0.5), np.int8(1), np.uint64(2), np.bool_(True), np.float64('nan'), np.nan, -0.0, 2**63, -2**63, 10**30,
                          '', ' ', '1', '0', 'a', 'P1', 'E1', 'absorbing', 'mle', 'map', 'natural', 'é', '\x00', '\ud800', 'None', '-1', '0.5', 'nan', 'tauchen', 'x' * 500, b'', b'1', Odd('1'), Odd(''), object(), int, len, Weird(), np.datetime64('2020-01-01'), ..., NotImplemented, range(3), slice(2)])


def containers(rng, n, k, names):
    def v(x):
        return gen.pick(rng, [x, tuple(x), set(map(str, x)), np.array(x, dtype=object), Rows(x), {i: y for i, y in enumerate(x)}, iter(x), [x], [x, x], pd.Series(x, dtype=object)])
    u = [1.0 / n] * n
    a = gen.pick(rng, [[], [None], list(range(n)), list(names), names[:1], [0], [0, 1], [0, 0], [1.0] * n, u, u + [0.0], [-1.0] + [1.0] * (n - 1), [float('nan')] * n, [float('inf')] * n, [True] * n, [0, names[-1]], ['1'] * n, [n], [-1], [[]], [[0], [1]], [[0, 1], list(range(2, n))], [list(names)], [[names[0]], list(names[1:])],
                       list(range(n)) * 3, list(names) * 3, [scalars(rng) for _ in range(3)], [scalars(rng)], [10**30], [2**63, 0], ['\ud800', 'a'], [0.5, 0.5], [1e308, 1e308], [np.int64(0), np.int64(1)], [np.float64(0), 1]])
    return v(a) if rng.random() < 0.4 else a


def matrices(rng, n, k, P):
    m = gen.pick(rng, [P, P[:-1], P[:, :-1], P * 0, P * 2, -P, P + np.nan, P * np.inf, P[0], P[:1], np.zeros((0, 0)), np.zeros((n, 0)), np.ones((1, 1)), np.eye(n), np.ones((n, n)), np.full((n, n), np.nan), np.full((n, k), np.nan), np.zeros((n, n)), np.full((n, n), 1e-300), np.full((n, n), 1e300), np.full((n, k), 1.0 / k), P * (1 + 1e-6), P[None], P.astype(complex), P.astype(object),
                       P.astype(str), P > 0.5, np.round(P), P.astype(np.float16), np.ones((n, n), dtype=np.int8), np.full((n, n), np.datetime64('2020-01-01')), np.ones((2, 2, 2, 2)), np.array(0.5), np.array([]), np.array([[]])])
    f = int(rng.integers(8))
    try:
        if f == 0:
            return m.tolist()
        if f == 1:
            return pd.DataFrame(m)
        if f == 2:
            return sp.csr_matrix(m)
        if f == 3:
            return sp.coo_matrix(m)
        if f == 4:
            return np.ma.masked_invalid(m)
        if f == 5:
            return np.asmatrix(m)
        if f == 6:
            return sp.csr_array(m) if hasattr(sp, 'csr_array') else m
    except Exception:
        return m
    return m


def mappings(rng, n, names, P):
    d = {(a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)}
    return gen.pick(rng, [{}, {1: 2}, d, {('P',) + k: v for k, v in d.items()}, {k: str(v) for k, v in d.items()}, {k: scalars(rng) for k in d}, {('a', 'b'): 1.0}, {('P', 'a', 'a'): 1.0}, {('E', 'a', 'x'): 1.0}, {('P', 'a', 'a'): 1.0, ('E', 'b', 'x'): 1.0}, {(): 1.0}, {('a',): 1.0}, {('a', 'a'): 1.0}, {('a', 1): 1.0}, {'ab': 1.0},
                          {('X', 'a', 'b'): 1.0}, {None: None}, {('P', 'a', 'a'): 0.5, ('P', 'a', 'b'): 0.5, ('P', 'b', 'a'): 0.5, ('P', 'b', 'b'): 0.5}])


def graphs(rng, n, names, P):
    base = MC(P, list(names)).to_graph()
    g = gen.pick(rng, [nx.Graph(), nx.DiGraph(), nx.MultiDiGraph(), base, nx.MultiDiGraph(base), nx.Graph(base), nx.path_graph(4), nx.path_graph(3, create_using=nx.DiGraph), nx.DiGraph([('a', 'b')]), nx.DiGraph([('a', 'b', {'weight': 1.0})]), nx.DiGraph([('a', 'b', {'weight': None})]), nx.DiGraph([('a', 'b', {'weight': 'x'}), ('b', 'a')]), nx.freeze(base.copy())])
    if rng.random() < 0.5 and not nx.is_frozen(g):
        for i, x in enumerate(list(g.nodes)):
            g.nodes[x]['layer'] = gen.pick(rng, [0, 1, i % 2, 'x', None, 2])
        for e in list(g.edges):
            g.edges[e]['type'] = gen.pick(rng, ['P', 'E', 'X', 1])
    return g


def functions(rng):
    def boom(x_index, x_value, y_index, y_value):
        raise RuntimeError('user error')
    return gen.pick(rng, [len, int, print, lambda: 1, lambda x: x, lambda x_index, x_value, y_index, y_value: 'x', lambda x_index, x_value, y_index, y_value: -1.0, lambda x_index, x_value, y_index, y_value: np.nan, lambda *a: 1.0, lambda **k: 1.0, boom, lambda x_index, x_value, y_index, y_value: 10**400, np.random.normal, lambda x_index, x_value, y_index, y_value: 1j])


def hostile(rng, n, k, names, P):
    r = rng.random()
    if r < 0.42:
        return scalars(rng)
    if r < 0.68:
        return containers(rng, n, k, names)
    if r < 0.86:
        return matrices(rng, n, k, P)
    if r < 0.91:
        return mappings(rng, n, names, P)
    if r < 0.95:
        return graphs(rng, n, names, P)
    if r < 0.97:
        return functions(rng)
    return gen.pick(rng, [MC(P, list(names)), MC.identity(n + 1), H.random(2, 2, seed=1), MC, [MC(P, list(names))] * 2])


def plausible(rng, p, n, k, names, symbols, P):
    # a value which may well be right for a parameter of this name
    i = int(rng.integers(n))
    table = {
        'steps': [1, 2, 5, 30, np.int64(4)], 'order': [2, 3], 's': [2, 3, n - 1, 0.5], 'size': [2, 3, 8], 'n': [2, 3, 6], 'k': [2, 3, 1.5], 'jump': [1, 2], 'seed': [0, 1, 2**32 - 1, None], 'zeros': [0, 1, 3], 'p_zeros': [0, 2], 'e_zeros': [0, 2], 'redistributions': [1, 4], 'blocks': [1, 2, 3], 'interval': [1, 2], 'dpi': [75, 100],
        'state': [i, names[i]], 'state1': [i], 'state2': [names[i]], 'state_target': [i], 'state_origin': [names[i]], 'initial_state': [i, None, names[i]], 'final_state': [i, None], 'final_symbol': [0, None], 'symbol': [0, symbols[0]],
        'states': [list(names), [0, 1], None, list(names[:-1])], 'states1': [[0]], 'states2': [[1]], 'targets': [[0], None, names[0]], 'origins': [[0]], 'first_passage_states': [[n - 1], None], 'partitions': [[[0], list(range(1, n))]], 'symbols': [list(symbols), [0, 1, 0], None],
        'sequence': [[0, 1, 0, 1], list(names) * 2], 'sequence1': [[0, 1, 0]], 'sequence2': [None, [1, 0]], 'sequences': [[[0, 1], [1, 0]]], 'time_points': [1, [1, 2], 0], 'rewards': [[1.0] * n], 'initial_distribution': [None, [1.0 / n] * n], 'initial_status': [None, i, [1.0 / n] * n], 'inertial_weights': [0.5, [0.5] * n],
        'method': ['adaptive', 'spectral-bottom-up'], 'committor_type': ['forward', 'backward'], 'cutoff_type': ['natural', 'traditional'], 'boundary_condition': ['absorbing', 0.5], 'weighted': [True, False], 'output_index': [True, False], 'output_indices': [True, False], 'output_last': [True, False], 'use_scaling': [True, False], 'target': ['both', 'state', 'symbol'],
        'prediction_type': ['map', 'viterbi', 'mle'], 'gamma': [0.5], 'other': [MC.random(n, seed=3)], 'p': [P, P.tolist()], 'e': [np.full((n, k), 1.0 / k)], 'm': [P * 3], 'mp': [P * 3], 'me': [np.ones((n, k))], 'd': [{(a, b): float(P[x, y]) for x, a in enumerate(names) for y, b in enumerate(names)}], 'graph': [MC(P, list(names)).to_graph()],
        'approximation_type': ['tauchen', 'rouwenhorst', 'adda-cooper', 'tauchen-hussey'], 'alpha': [0.0, 1.5], 'sigma': [1.0, 0.1], 'rho': [0.5, -0.9, 0.0], 'w': [0.5, 0.1], 'model': ['moran', 'wright-fisher', 'ehrenfest', 'bernoulli-laplace', MC(P, list(names)), H.random(2, 2, seed=1)], 'u': [0.0, 0.1], 'v': [0.0, 0.1], 'q': [[0.0] + [0.3] * (n - 1)], 'diffusion_factor': [1, 2],
        'diagonal_bias_factor': [None, 1.0], 'shift_concentration': [True], 'mask': [None, np.full((n, n), np.nan)], 'p_mask': [None], 'e_mask': [None], 'f': ['normal', lambda x_index, x_value, y_index, y_value: 1.0], 'quadrature_type': ['trapezoid-rule', 'niederreiter', 'simpson-rule', 'gauss-legendre', 'gauss-chebyshev', 'newton-cotes'], 'quadrature_interval': [None, (0.0, 1.0)],
        'possible_states': [list(names)], 'possible_symbols': [list(symbols)], 'fitting_type': ['mle', 'map', 'baum-welch', 'viterbi'], 'fitting_param': [None, True, np.ones((n, n))], 'p_guess': [P], 'e_guess': [np.full((n, k), 1.0 / k)], 'sequence_states': [[0, 1, 0]], 'sequence_symbols': [[0, 1, 0]], 'significance': [0.05, 0.2], 'mc': [MC(P, list(names))], 'hmm': [H.random(2, 2, seed=1)],
        'nodes_color': [True], 'nodes_shape': [False], 'edges_label': [True], 'force_standard': [True], 'plot_type': ['heatmap', 'projection', 'histogram', 'matrix'], 'palette': ['viridis', 'Blues', 'hsv', 'tab10', 'jet_r'], 'models': [[MC(P, list(names))] * 2], 'underlying_matrices': ['transition', 'emission'], 'names': [None, ['a', 'b']],
        'file_path': [os.path.join(os.environ['VERIF_SCRATCH'], x) for x in ('a.json', 'b.csv', 'c.txt', 'd.xml', 'e.bin', 'missing/f.json')]}
    return gen.pick(rng, table[p]) if p in table else scalars(rng)


def public(cls):
    out = []
    for name in dir(cls):
        if name.startswith('_'):
            continue
        f = inspect.getattr_static(cls, name)
        if isinstance(f, property):
            continue
        g = f.__func__ if isinstance(f, (staticmethod, classmethod)) else f
        if callable(g):
            s = inspect.signature(g)
            out.append((name, [p for p in s.parameters.values() if p.name != 'self' and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]))
    return out


PUBLIC = {MC: public(MC), H: public(H)}
ASSESS = [pydtmc.assess_first_order, pydtmc.assess_homogeneity, pydtmc.assess_markov_property, pydtmc.assess_stationarity, pydtmc.assess_theoretical_compatibility]
PLOTS = [pydtmc.plot_comparison, pydtmc.plot_eigenvalues, pydtmc.plot_flow, pydtmc.plot_graph, pydtmc.plot_redistributions, pydtmc.plot_sequence, pydtmc.plot_trellis]
# signatures behind the wrappers of the aliases are those of the originals
LARGE = {'steps', 'order', 'size', 'n', 'k', 'redistributions', 'jump', 'blocks', 'interval', 'diffusion_factor', 'time_points'}


def tame(p, v, plot=False):
    # no call may ask for unbounded work: large numbers stay out of the parameters which scale it
    if p in LARGE and isinstance(v, (int, np.integer)) and not isinstance(v, bool) and v > (6 if plot or p in ('size', 'n', 'k') else 200):
        return 5
    if p == 'time_points' and isinstance(v, (list, tuple, Rows)) and any(isinstance(x, (int, np.integer)) and x > 200 for x in v):
        return [3, 1]
    return v


def deliberate(ex):
    # whether the error was raised by a raise statement of the library
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    code = tb.tb_frame.f_code
    if not os.path.realpath(code.co_filename).startswith(HERE):
        return False
    for ins in dis.get_instructions(code):
        if ins.offset == tb.tb_lasti:
            return ins.opname == 'RAISE_VARARGS'
    return False


def judge(mon, name, params, kw, call, expect_return=False, isolated=False):
    mon.event('call')
    mon.context(call=name, arguments=kw)
    try:
        v = call()
    except (pydtmc.ValidationError, ValueError) as ex:
        text = str(ex)
        kind = type(ex) is pydtmc.ValidationError
        mon.event('refused' if kind else 'value-error')
        mon.check(type(ex) in (pydtmc.ValidationError, ValueError), 'documented-error', lambda: f'{name}({kw!r}): {ex!r}')
        mon.check(len(text.strip()) > 5 and '@arg@' not in text, 'message', lambda: f'{name}({kw!r}): {text!r}')
        mon.check(deliberate(ex), 'raised-by-the-library', lambda: f'{name}({kw!r}): {ex!r} comes from inside')
        mon.check(not expect_return, 'valid-call', lambda: f'{name}: {ex!r}')
        m = re.match(r'The "([^"]*)" parameter', text)
        if kind and m and params is not None:
            mon.event('parameter-named')
            mon.check(m.group(1) in params, 'parameter-named', lambda: f'{name}({kw!r}): {text!r}')
        return None
    except Exception as ex:
        if isinstance(ex, np.linalg.LinAlgError) and name in ('mean_first_passage_times_to', 'mfpt_to') and kw.get('targets') is None and isolated:
            mon.known('passage-times-singular', name)
            return None
        mon.check(False, 'documented-error', lambda: f'{name}({kw!r}): {type(ex).__name__}: {ex}')
        return None
    mon.check(True, 'documented-error')
    mon.event('returned')
    return v


def page(rng, ext, model, names, symbols):
    # the text of a file: parts of a sound one between parts which are not
    words = [*names, *symbols, '', ' ', 'P', 'E', 'X', '0', '1', '0.5', '-1', 'nan', 'inf', '1e400', 'é', '\x00', '_', 'P_', 'E_', 'P_a', 'E_x', '"', "'", ',', '#', 'true', '10' * 200]
    keys = (['reference'] if model else []) + (['state_from', 'element_to'] if model else ['state_from', 'state_to']) + ['probability']
    if ext == 'json':
        def value(depth):
            r = int(rng.integers(9 if depth else 7))
            if r == 7:
                return [value(depth - 1) for _ in range(int(rng.integers(4)))]
            if r == 8:
                return {gen.pick(rng, keys + ['x', '']): value(depth - 1) for _ in range(int(rng.integers(5)))}
            return [None, True, 0.5, 1, -1, gen.pick(rng, words), gen.pick(rng, [10**400, float('nan'), float('inf'), 1e308, 0])][r]

        def item():
            o = {}
            for k in keys:
                o[k] = gen.pick(rng, list(names)) if k != 'probability' else 0.5
                if k == 'reference':
                    o[k] = gen.pick(rng, ['P', 'E'])
            if rng.random() < 0.4:
                o[gen.pick(rng, keys + ['x'])] = value(2)
            if rng.random() < 0.15:
                del o[gen.pick(rng, list(o))]
            return o
        v = [item() if rng.random() < 0.7 else value(2) for _ in range(int(rng.integers(1, 4)))] if rng.random() < 0.8 else value(3)
        text = json.dumps(v)
        return text if rng.random() < 0.9 else text[:int(rng.integers(len(text)))]
    if ext == 'xml':
        tag = gen.pick(rng, ['MarkovChain', 'HiddenMarkovModel', 'Item', 'x']) if rng.random() < 0.3 else 'HiddenMarkovModel' if model else 'MarkovChain'
        esc = lambda x: ''.join(c for c in x if c.isprintable()).replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')  # noqa: E731
        items = []
        for _ in range(int(rng.integers(4))):
            att = {k: gen.pick(rng, words) for k in keys if rng.random() < 0.9}
            name = 'Item' if rng.random() < 0.85 else gen.pick(rng, ['item', 'MarkovChain', 'HiddenMarkovModel', 'x'])
            items.append(gen.pick(rng, ['', '', '', 'text', '<!-- note -->', '<?go on?>', '<![CDATA[x]]>']) + f'<{name} ' + ' '.join(f'{k}="{esc(v)}"' for k, v in att.items()) + gen.pick(rng, ['/>', '/>', f'>{gen.pick(rng, ["", "x", "<Item/>", "<!-- note -->"])}</{name}>']))
        head = gen.pick(rng, ['', '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0" encoding="nothing"?>', '<!DOCTYPE x [<!ENTITY a "b">]>', ' '])
        text = f'{head}<{tag}>' + ''.join(items) + f'</{tag}>'
        return text if rng.random() < 0.9 else text[:int(rng.integers(len(text)))]
    rows = [[gen.pick(rng, words) for _ in range(int(rng.integers(5)))] for _ in range(int(rng.integers(1, 5)))]
    if ext == 'txt' and rng.random() < 0.6:
        rows = [([gen.pick(rng, ['P', 'E'])] if model else []) + [gen.pick(rng, words), gen.pick(rng, words), gen.pick(rng, words + ['0.5', '1', '0.25'])] for _ in range(int(rng.integers(1, 5)))]
    if ext == 'csv' and rng.random() < 0.6:
        head = ['P_a', 'P_b', 'E_x', 'E_y'] if model else ['a', 'b']
        rows = [head] + [[gen.pick(rng, ['0.5', '0.5', '1', *words]) for _ in head] for _ in range(int(rng.integers(1, 4)))]
    return gen.pick(rng, ['\n', '\n', '\r\n', '\r']).join((',' if ext == 'csv' else ' ').join(r) for r in rows) + gen.pick(rng, ['', '\n', '\n\n'])


def files(rng, mon, m, model, names, symbols):
    for _ in range(6):
        ext = gen.pick(rng, ['csv', 'json', 'txt', 'xml'])
        path = os.path.join(os.environ['VERIF_SCRATCH'], f'c38-{os.getpid()}.{ext}')
        text = page(rng, ext, model, names, symbols)
        if rng.random() < 0.3:
            try:
                m.to_file(path)
                with open(path, encoding='utf-8', errors='surrogatepass', newline='') as file:
                    text = file.read()
                i = int(rng.integers(len(text)))
                if rng.random() < 0.7:
                    text = text[:i] + gen.pick(rng, [*names, '', '0', ' ', 'null', '[]', '{}', ',', '\n', '"']) + text[min(len(text), i + int(rng.integers(4))):]
            except ValueError:
                pass
        with open(path, 'w', encoding='utf-8', errors='surrogatepass', newline='') as file:
            file.write(text)
        cls = H if model else MC
        mon.event('file')
        mon.context(call='from_file', extension=ext, text=text)
        try:
            r = cls.from_file(path)
            mon.event('file-read')
            mon.check(bool(np.isfinite(r.p).all() and (r.p >= 0).all() and np.abs(r.p.sum(axis=1) - 1).max() < 1e-4), 'file', lambda: f'{r.p!r} from {text!r}')
        except (pydtmc.ValidationError, ValueError, OSError) as ex:
            mon.check(len(str(ex).strip()) > 5, 'file', lambda: f'{ex!r} from {text!r}')
        except Exception as ex:
            mon.check(False, 'file', lambda: f'{type(ex).__name__}: {ex} from {text!r}')
        os.unlink(path)


class UserError(Exception):
    pass


ERRORS = [KeyError, IndexError, LookupError, AttributeError, NameError, AssertionError, NotImplementedError, RuntimeError, RecursionError, MemoryError, StopIteration, OSError, FileNotFoundError, TimeoutError, ImportError, EOFError, BufferError, UserWarning, UnicodeError, ArithmeticError, ZeroDivisionError, OverflowError, TypeError, ValueError, UserError, np.linalg.LinAlgError]


def callbacks(rng, mon):
    # a transition function of the user which fails, or answers with anything, at one of its calls
    n = int(rng.integers(2, 5))
    quadrature = gen.pick(rng, ['gauss-chebyshev', 'gauss-legendre', 'newton-cotes', 'niederreiter', 'trapezoid-rule'])
    at = (int(rng.integers(n)), int(rng.integers(n)))
    error = gen.pick(rng, ERRORS) if rng.random() < 0.7 else None
    answer = scalars(rng)

    def f(x_index, x_value, y_index, y_value):
        if (x_index, y_index) == at:
            if error is not None:
                raise error('boom')
            return answer
        return 1.0

    mon.event('callback-error' if error else 'callback-answer')
    kw = {'quadrature_type': quadrature, 'possible_states': [f's{i}' for i in range(n)], 'f': f, 'quadrature_interval': (0.0, 1.0)}
    mon.context(error=error, answer=answer)
    r = judge(mon, 'fit_function', set(kw), kw, lambda: MC.fit_function(**kw))
    if error is not None:
        mon.check(r is None, 'callback', lambda: f'{kw!r}: a chain although the function raised {error}')
    elif r is not None:
        mon.check(bool(np.isfinite(r.p).all() and (r.p >= 0).all() and np.abs(r.p.sum(axis=1) - 1).max() < 1e-6), 'callback', lambda: f'{kw!r}: {r.p!r}')
    mon.context(error=None, answer=None)


def faint(P):
    # whether groups of states are linked by next to nothing: the matrix falls apart without its faintest transitions
    A = (P > 1e-8).astype(int)
    return nx.number_strongly_connected_components(nx.from_numpy_array(A, create_using=nx.DiGraph)) > 1


def borderline(rng, P):
    # valid models where computations are delicate
    n = P.shape[0]
    r = int(rng.integers(7))
    if r == 0:
        P = P * (1 - rng.uniform(0, 5e-6, size=(n, 1)))
    elif r == 1:
        P = (1 - 1e-9) * np.eye(n) + 1e-9 * P
    elif r == 2:
        P = np.eye(n)[rng.permutation(n)]
    elif r == 3:
        P = gen.tiny(rng, P)
    elif r == 4:
        Q = np.tril(np.ones((n, n)))
        P = Q / Q.sum(axis=1, keepdims=True)
    elif r == 5:
        P = np.tile(P[0], (n, 1))
    else:
        P = np.full((n, n), 1.0 / n)
    return P


def case(rng, mon, tier, index):

    scratch = os.environ['VERIF_SCRATCH']
    os.chdir(scratch)
    model = rng.random() < 0.35
    if model:
        kind, P, E = gen.hmm(rng, 4, 4)
        if rng.random() < 0.25:
            mon.event('extreme-model')
            P = borderline(rng, P)
        n, k = E.shape
        _, _, names, symbols = gen.hmm_labels(rng, n, k)
        cls, qs, w = H, catalog.MODEL, catalog.World(P, E)
        view = catalog.View(names, None, symbols)
        make = lambda: H(P.copy(), E.copy(), list(names), list(symbols))
    else:
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 6, 12), p=(.45, .4, .15))
        if rng.random() < 0.25:
            mon.event('extreme-model')
            P = borderline(rng, P)
        n, k = P.shape[0], 3
        symbols = ['x1', 'x2', 'x3']
        cls, qs, w = MC, catalog.CHAIN, catalog.World(P)
        view = catalog.View(names)
        make = lambda: MC(P.copy(), list(names))
    mon.context(kind=kind, P=P, names=names)
    m = make()
    frozen = kit.freeze_hmm(m) if model else kit.freeze(m)
    files(rng, mon, m, model, names, symbols)
    for _ in range(2):
        callbacks(rng, mon)
    trail = []
    refused = False
    for _ in range(12):
        r = rng.random()
        if r < 0.25:
            # properties always answer
            props = [q for q in qs if q.prop]
            q = gen.pick(rng, props)
            mon.event('property')
            judge(mon, q.name, None, None, lambda: getattr(m, q.name), expect_return=True)
            trail.append(q.name)
            continue
        if r < 0.5:
            # a query with one or two hostile arguments
            q = gen.pick(rng, [q for q in qs if not q.prop])
            a = q.arguments(rng, w)
            if any(v is None and kd == 'partition' for _, kd, v in a):
                continue
            kw = {p: view.render(rng, kd, v) for p, kd, v in a}
            for p in list(kw):
                if rng.random() < 0.4:
                    kw[p] = tame(p, hostile(rng, n, k, names, P))
            name = gen.pick(rng, [q.name, *q.aliases])
            params = dict(PUBLIC[cls]).get(q.name)
            params = None if params is None else {p.name for p in params}
            f = getattr(m, name)
        elif r < 0.62:
            f, kw, x = makers.model_maker(rng, H) if rng.random() < 0.3 else makers.chain_maker(rng, MC)
            name, params = x['what'], set(inspect.signature(f).parameters)
            for p in list(kw):
                if rng.random() < 0.35 and p in params and p != 'file_path':
                    kw[p] = tame(p, hostile(rng, n, k, names, P))
        elif r < 0.93 or tier == 'quick' and r < 0.985:
            mon.event('free-fuzz')
            if rng.random() < 0.15:
                f = gen.pick(rng, ASSESS)
                name, params = f.__name__, list(inspect.signature(f).parameters.values())
            elif rng.random() < 0.1:
                name, f = cls.__name__, cls
                params = [p for p in inspect.signature(cls.__init__).parameters.values() if p.name != 'self']
            else:
                name, params = gen.pick(rng, PUBLIC[cls])
                f = getattr(m, name)
            kw = {}
            for p in params:
                if p.default is inspect.Parameter.empty or rng.random() < 0.5:
                    kw[p.name] = tame(p.name, hostile(rng, n, k, names, P) if rng.random() < 0.35 else plausible(rng, p.name, n, k, names, symbols, P))
            params = {p.name for p in params}
        else:
            import matplotlib.pyplot as plt
            f = gen.pick(rng, PLOTS)
            name = f.__name__
            kw = {}
            for p in inspect.signature(f).parameters.values():
                if p.default is inspect.Parameter.empty or rng.random() < 0.5:
                    kw[p.name] = tame(p.name, hostile(rng, n, k, names, P) if rng.random() < 0.3 else plausible(rng, p.name, n, k, names, symbols, P), True)
            params = set(inspect.signature(f).parameters)
            mon.event('plot')
            g = f

            def f(**kw):
                with plt.ioff():
                    try:
                        return g(**kw)
                    finally:
                        plt.close('all')
        kw = {a: b for a, b in kw.items()}
        judge(mon, name, params, kw, lambda: f(**kw), isolated=not model and faint(P))
        trail.append(name)
        if rng.random() < 0.1:
            refused = True
            now = kit.freeze_hmm(m) if model else kit.freeze(m)
            mon.check(now == frozen, 'model-unchanged', lambda: f'after {trail}')
    mon.distinct(P, trail)
    if refused or rng.random() < 0.5:
        mon.event('still-answers')
        fresh = make()
        for a in ('p', 'states', 'size', 'is_ergodic', 'is_regular') + (() if model else ('pi', 'communicating_classes', 'periods', 'transient_states')):
            x, y = getattr(m, a), getattr(fresh, a)
            mon.check(deep.same(x, y, 1e-10), 'still-answers', lambda: f'{a}: {x!r} instead of {y!r}')


def finish(mon, tier, seed):
    m = MC([[1, 1e-17], [1e-17, 1]])
    try:
        v = m.mean_first_passage_times_to()
        mon.close(v, [[0, 1e17], [1e17, 0]], 'passage-times', 1e-6)
    except np.linalg.LinAlgError:
        mon.known('passage-times-singular', 'witness')
