# C02: invalid models and arguments are always refused, whoever calls.
import os
import types
import uuid

import networkx as nx
import numpy as np

import pydtmc
from vh import catalog, deep, gen, kit, makers

CASES = (3960, 44000)
CAP = (110, 800)
RULE = 'one case = one valid call (constructor, generator, fitting, conversion or query) and several versions of it with exactly one thing wrong, made from callers with arbitrary names; distinct by call and damage'
MINIMUM = {'distinct': 2800, 'damaged-matrix': 1200, 'damaged-labels': 1000, 'damaged-argument': 4500, 'damaged-query': 2200, 'imitating-caller': 7000, 'undamaged': 1000, 'chains': 200, 'models': 220, 'makers': 900, 'containers': 2000, 'assessments': 150, 'relations': 200, 'limits': 250, 'boundary': 13000}
ASSUMPTIONS = ['callers outside of the library; lists, arrays, data frames and sparse matrices are the accepted containers of matrices, and lists those of labels and sequences']
CASE_LIMIT = 90

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
NAMES = ['random', 'from_matrix', 'from_matrices', 'fit_sequence', 'fit', 'estimate', 'identity', 'to_lazy_chain', 'lump', 'restrict', 'from_dictionary', 'birth_death', 'approximation', 'merge_with', 'closest_reversible',
         'aggregate', 'to_subchain', 'from_file', 'from_graph', 'gamblers_ruin', 'urn_model', 'simulate', 'main', '__init__', 'test_something', 'validate']
MODULES = ['__main__', 'pydtmc', 'markov_chain', 'user.pydtmc.markov_chain', 'pydtmc_extra', 'generators', '']


def caller(rng):
    # a function with an arbitrary name in a module with an arbitrary name, which makes the call
    how = str(rng.choice(['plain', 'named', 'named', 'lambda', 'method', 'class-body']))
    name, module = gen.pick(rng, NAMES), gen.pick(rng, MODULES)
    space = {'__name__': module}
    if how == 'plain':
        return None, lambda f, a, k: f(*a, **k)
    if how == 'lambda':
        exec(f'{name if name.isidentifier() else "x"} = lambda f, a, k: f(*a, **k)', space)
        return 'lambda', space[name]
    if how == 'named':
        exec(f'def {name}(f, a, k):\n    return f(*a, **k)\n', space)
        return f'{module}.{name}', space[name]
    if how == 'method':
        exec(f'class Builder:\n    @staticmethod\n    def {name}(f, a, k):\n        return f(*a, **k)\n', space)
        return f'{module}.Builder.{name}', getattr(space['Builder'], name)
    exec(f'def go(f, a, k):\n    class {name}:\n        value = f(*a, **k)\n    return {name}.value\n', space)
    return f'{module}.class {name}', space['go']


# damage: each function returns a list of (what, damaged value)

def sums(rng, M):
    M = M.copy()
    i = int(rng.integers(M.shape[0]))
    j = int(np.argmax(M[i]))
    d = min(float(gen.pick(rng, [5e-5, 3e-4, 2e-3, 0.01, 0.1, 0.5])), 0.5 * M[i, j])
    M[i, j] -= d
    return M


def excess(rng, M):
    M = M.copy()
    i = int(rng.integers(M.shape[0]))
    j = int(np.argmin(M[i]))
    M[i, j] += float(gen.pick(rng, [5e-5, 3e-4, 2e-3, 0.01, 0.2]))
    return M


def negative(rng, M):
    M = M.copy()
    i = int(rng.integers(M.shape[0]))
    a, b = [int(x) for x in rng.choice(M.shape[1], size=2, replace=False)]
    d = M[i, a] + float(gen.pick(rng, [1e-6, 1e-3, 0.3]))
    M[i, a] -= d
    M[i, b] += d
    return M


def set_entry(v):
    def f(rng, M):
        M = M.copy()
        M[int(rng.integers(M.shape[0])), int(rng.integers(M.shape[1]))] = v
        return M
    return f


def over(rng, M):
    # the fixed probabilities of one row exceed one, next to free ones
    M = M.copy()
    i = int(rng.integers(M.shape[0]))
    M[i] = np.nan
    if M.shape[1] < 3:
        M[i] = [0.75, 0.75]
    else:
        a, b = [int(x) for x in rng.choice(M.shape[1], size=2, replace=False)]
        M[i, a] = float(gen.pick(rng, [0.5, 0.75, 1.0]))
        M[i, b] = 1.0 - M[i, a] + float(gen.pick(rng, [0.001, 0.1, M[i, a]]))
    return M


def crossed(rng, M):
    # inf and -inf, or two opposite errors which hide one another in the total
    M = M.copy()
    if M.shape[0] < 2:
        return M * 0.5
    rows = [int(x) for x in rng.choice(M.shape[0], size=2, replace=False)]
    a, b = int(np.argmax(M[rows[0]])), int(np.argmin(M[rows[1]]))
    d = float(gen.pick(rng, [5e-5, 3e-4, 2e-3, 0.05])) * M[rows[0], a] + 5e-5
    M[rows[0], a] -= d
    M[rows[1], b] += d
    return M


ROW_DAMAGE = {'row-sum-below': sums, 'row-sum-above': excess, 'opposite-errors': crossed, 'zero-row': lambda rng, M: np.vstack((M[:-1], np.zeros(M.shape[1]))), 'transposed-sums': lambda rng, M: None}
ENTRY_DAMAGE = {'negative': negative, 'nan': set_entry(np.nan), 'inf': set_entry(np.inf), 'minus-inf': set_entry(-np.inf), 'above-one': set_entry(1.5), 'all-nan': lambda rng, M: np.full_like(M, np.nan)}
SHAPE_DAMAGE = {'vector': lambda rng, M: M[0].copy(), 'cube': lambda rng, M: np.stack([M, M]), 'empty': lambda rng, M: np.zeros((0, 0)), 'one-row': lambda rng, M: M[:1].copy(), 'one-by-one': lambda rng, M: np.ones((1, 1)),
                'one-column': lambda rng, M: np.ones((M.shape[0], 1)), 'fewer-rows': lambda rng, M: M[:-1].copy(), 'fewer-columns': lambda rng, M: (lambda A: A / np.maximum(A.sum(axis=1, keepdims=True), 1e-300))(M[:, :-1] + 1e-3)}
TYPE_DAMAGE = {'complex': lambda rng, M: M.astype(complex), 'text': lambda rng, M: [[str(x) for x in r] for r in M], 'none': lambda rng, M: None, 'object': lambda rng, M: M.astype(object), 'number': lambda rng, M: 0.5,
               'ragged': lambda rng, M: [M[0].tolist(), M[1].tolist()[:-1]] + M[2:].tolist(), 'dictionary': lambda rng, M: {i: r for i, r in enumerate(M.tolist())}, 'tuple': lambda rng, M: tuple(map(tuple, M.tolist())),
               'generator': lambda rng, M: (r for r in M.tolist()), 'boolean': lambda rng, M: (M > 0), 'string': lambda rng, M: '0.5 0.5; 0.5 0.5', 'none-inside': lambda rng, M: [[None] + r[1:] for r in M.tolist()], 'bytes': lambda rng, M: M.tobytes()}


def packed(rng, mon, M):
    # the same numbers in some accepted container
    if not isinstance(M, np.ndarray) or M.ndim != 2 or M.size == 0 or M.dtype.kind not in 'f':
        return M
    mon.event('containers')
    form, V = gen.as_form(rng, M)
    return V


def damaged_matrix(rng, mon, M, square, kinds=('row', 'entry', 'shape', 'type')):
    kind = gen.pick(rng, list(kinds))
    if kind == 'row':
        what = gen.pick(rng, sorted(ROW_DAMAGE))
        V = ROW_DAMAGE[what](rng, M)
        if what == 'transposed-sums':
            V = M.T.copy() if square and np.abs(M.sum(axis=0) - 1).max() > 1e-3 else sums(rng, M)
    elif kind == 'entry':
        what = gen.pick(rng, sorted(ENTRY_DAMAGE))
        V = ENTRY_DAMAGE[what](rng, M)
    elif kind == 'shape':
        names = sorted(SHAPE_DAMAGE)
        what = gen.pick(rng, names)
        V = SHAPE_DAMAGE[what](rng, M)
        if what == 'fewer-columns' and (not square and M.shape[1] > 2):
            what, V = 'one-column', np.ones((M.shape[0], 1))
    else:
        what = gen.pick(rng, sorted(TYPE_DAMAGE))
        V = TYPE_DAMAGE[what](rng, M)
    return what, packed(rng, mon, V)


def damaged_labels(rng, names, current=None):
    names = [str(x) for x in names]
    n = len(names)
    i = int(rng.integers(n))
    put = lambda v: names[:i] + [v] + names[i + 1:]
    what = gen.pick(rng, ['repeated', 'empty', 'blank', 'tab', 'number', 'none', 'bytes', 'tuple', 'set', 'array', 'string', 'dictionary', 'fewer', 'more', 'single', 'no-labels', 'nested', 'boolean', 'generator'])
    V = {'repeated': lambda: names[:-1] + [names[0]], 'empty': lambda: put(''), 'blank': lambda: put('   '), 'tab': lambda: put('\t\n'), 'number': lambda: put(1), 'none': lambda: put(None), 'bytes': lambda: put(b'a'),
         'tuple': lambda: tuple(names), 'set': lambda: set(names), 'array': lambda: np.array(names), 'string': lambda: ''.join(names), 'dictionary': lambda: {x: x for x in names}, 'fewer': lambda: names[:-1] if n > 2 else names[:1],
         'more': lambda: names + ['one more label'], 'single': lambda: names[:1], 'no-labels': lambda: [], 'nested': lambda: put([names[i]]), 'boolean': lambda: put(True), 'generator': lambda: (x for x in names)}[what]()
    return what, V


BAD_ANY = [('none', None), ('list', []), ('dictionary', {}), ('object', object()), ('text', 'nothing like this'), ('blank', ' '), ('nan', float('nan')), ('complex', 1j), ('bytes', b'1'), ('function', len), ('class', int), ('array', np.array([1, 2]))]


def bad(*values, keep=('none', 'list', 'dictionary', 'object', 'text', 'blank', 'nan', 'complex', 'bytes', 'function', 'class', 'array')):
    # a boolean is not a number, in either of its types
    values += tuple(np.True_ if v is True else [np.True_ if x is True else np.False_ for x in v] for v in values if v is True or isinstance(v, list) and v and all(isinstance(x, bool) for x in v))
    return [(repr(v), v) for v in values] + [(a, b) for a, b in BAD_ANY if a in keep]


NO_NONE = tuple(a for a, _ in BAD_ANY if a != 'none')
INTEGERS = {  # parameter -> (values out of range, may it be none)
    'steps': ((0, -1, -10**9, 2.0, 2.5, '3', True, np.float64(4), [3]), False), 'order': ((1, 0, -2, 2.0, True), False), 'jump': ((0, -1, 1.0, True), False), 's': ((1, 0, -1, 10**6, 2.0, True), False),
    'size': ((1, 0, -3, 2.0, '4', True), False), 'diffusion_factor': ((0, -1, 10**6, 1.0, True), False), 'zeros': ((-1, 10**6, 1.0, True), False), 'p_zeros': ((-1, 10**6, 1.0, True), False), 'e_zeros': ((-1, 10**6, 1.0, True), False)}
FLOATS = {'sigma': ((0.0, -1.0, np.inf, '1.0'), False), 'alpha': ((np.inf, -np.inf, '0'), False), 'rho': ((1.01, -1.01, np.inf, 5.0), False), 'w': ((0.0, 1.0, -0.5, 1.5, np.inf), False), 'gamma': ((0.0, 1.0, -0.1, 1.1, np.inf), False),
          'diagonal_bias_factor': ((0.0, -1.0, np.inf), True)}
ENUMS = ['approximation_type', 'fitting_type', 'quadrature_type', 'model', 'cutoff_type', 'method', 'committor_type', 'prediction_type', 'target']
BOOLEANS = ['weighted', 'output_index', 'output_indices', 'output_last', 'use_scaling', 'shift_concentration']


def scalar_damage(rng, param, value, n):
    # [(what, value)] for parameters which are not states, matrices or labels; None when there is no rule for the parameter
    if param in INTEGERS:
        v, none = INTEGERS[param]
        return bad(*v, keep=NO_NONE if none else NO_NONE + ('none',))
    if param in FLOATS:
        v, none = FLOATS[param]
        return bad(*v, keep=NO_NONE if none else NO_NONE + ('none',))
    if param in ENUMS:
        return bad('', str(value).upper(), str(value) + ' ', 'unknown', 3, True)
    if param in BOOLEANS:
        return bad(1, 0, 'True', 1.0)
    if param == 'seed':
        return bad(-1, 2**32, 1.5, 'x', True, [1], keep=('dictionary', 'object', 'text', 'complex', 'bytes', 'function'))
    if param == 'boundary_condition':
        return bad(-0.1, 1.1, np.inf, 'Absorbing', 'none', True, keep=('none', 'list', 'dictionary', 'object', 'text', 'blank', 'nan', 'complex'))
    if param == 'time_points':
        return bad(-1, [1, 1], [-1], [1.0], ['1'], 1.0, True, (1, 2), [True], [[1]])
    if param == 'quadrature_interval':
        return bad([0.0, 1.0], (1.0, 0.0), (0.5, 0.5), (0.0,), (0.0, 1.0, 2.0), (0.0, np.inf), (0.0, np.nan), ('0', '1'), (-1.0, 1.0), (None, 1.0), 1.0, keep=NO_NONE)
    if param == 'f':
        return bad(lambda x: 0.5, lambda a, b, c, d: 0.5, lambda x_index, x_value, y_index, y_value: 'x', lambda x_index, x_value, y_index, y_value: np.nan, lambda x_index, x_value, y_index, y_value: np.inf, lambda x_index, x_value, y_index: 1.0, 3)
    return None


def mapped_damage(rng, kind, view, v, w, query, param):
    # arguments written in terms of states
    n = w.n
    names = view.names if kind not in ('symbol', 'symbols', 'emissions') else view.symbols
    k = len(names)
    # labels which merely look like a position are labels
    unknown = [x for x in (str(int(rng.integers(k))), '0', str(k - 1), f'{int(rng.integers(k))}.0') if x not in names][:1] + ['nobody at home', names[0] + ' ', ' ' + names[-1], names[0] + names[-1] + '?']
    if kind in ('state', 'symbol'):
        return bad(-1, k, k + 5, -k, 1.0, True, [0], (0,), *unknown, keep=('list', 'dictionary', 'object', 'blank', 'nan', 'complex', 'bytes', 'array'))
    if kind in ('states', 'symbols'):
        out = bad([], [0, 0], [names[0], names[0]], [-1], [k], [0, k], [0, names[1]], [0.0], [True], [None], (0,), {0}, -1, k, 0.0, True, [[0]], [unknown[0]], [names[0], unknown[0]], unknown[0], np.array([0]), np.array([names[0]]),
                  keep=('dictionary', 'object', 'blank', 'nan', 'complex', 'bytes'))
        if query in ('committor_probabilities', 'mean_first_passage_times_between', 'first_passage_reward', 'to_subchain', 'restrict'):
            out += [('all of them', list(range(k))), ('all of them', list(names))]
        if query in ('committor_probabilities', 'mean_first_passage_times_between', 'first_passage_reward', 'to_subchain'):
            out += [('none', None)]
        return out
    if kind in ('walk', 'emissions'):
        return bad([], [0], [names[0]], [0, k], [0, -1], [0, names[1]], [0.0, 1.0], [True, False], (0, 1), np.array([0, 1]), [names[0], unknown[0]], [names[0], None], [[0, 1]], 0, names[0], {0: 1}, [0, np.nan])
    if kind == 'vector' and param == 'rewards':
        return bad([1.0] * (n + 1), [1.0] * (n - 1), [np.nan] + [1.0] * (n - 1), [np.inf] * n, ['1'] * n, [1j] * n, tuple([1.0] * n), 1.0, [None] * n, [[1.0] * n] * 2, [])
    if kind == 'vector' and param == 'inertial_weights':
        return bad([0.5] * (n + 1), [0.5] * (n - 1), [np.nan] + [0.5] * (n - 1), [1.5] * n, [-0.5] + [0.5] * (n - 1), ['1'] * n, [1j] * n, tuple([0.5] * n), [])
    if kind in ('vector', 'status'):
        u = [1.0 / n] * n
        slip = float(gen.pick(rng, [5e-5, 2e-4, 1e-3, 4e-3]))
        out = bad([1.0 / (n + 1)] * (n + 1), [1.0] + [0.0] * n, [np.nan] + u[1:], [np.inf] + u[1:], [u[0] + 0.01] + u[1:], [u[0] - 0.01] + u[1:], [u[0] + slip] + u[1:], u[:-1] + [u[-1] - slip], (np.array(u) * (1 + slip)), [-0.5, 1.5] + [0.0] * (n - 2), [0.0] * n, [1.0] * n, [str(x) for x in u], [complex(x) for x in u], tuple(u), [u, u], [],
                  np.array(u)[:, None], [None] * n, 0.5, keep=('dictionary', 'object', 'text', 'blank', 'complex', 'bytes', 'function'))
        if n > 2:
            out.append(('too short', [1.0] + [0.0] * (n - 2)))
        if kind == 'status':
            out += bad(-1, n, True, *unknown, keep=())
        return out
    if kind == 'partition':
        flat = list(range(n))
        return bad([flat], [[i] for i in flat], [], [[0], [0] + flat[1:]], [flat[1:], [0]], [[0], flat[2:]] if n > 2 else [], [[0.0], flat[1:]], [tuple([0]), flat[1:]], ([0], flat[1:]), [[unknown[0]], list(names[1:])], [[0], list(names[1:])], [[0], flat[1:] + [n]])
    if kind == 'chain':
        return bad(np.eye(n), pydtmc.MarkovChain(np.eye(n + 1)), [[1.0]], type)
    return None


def refuse(rng, mon, rule, f, args, kw, what):
    who, call = caller(rng)
    if who is not None:
        mon.event('imitating-caller')
    mon.context(damage=what, caller=who)
    try:
        v = call(f, args, kw)
    except (pydtmc.ValidationError, ValueError) as ex:
        if rule != 'invalid-dictionary' and not isinstance(ex, pydtmc.ValidationError):
            # value errors are documented for what only the whole model tells
            mon.check(False, rule, lambda: f'{getattr(f, "__qualname__", f)} with {what}: {ex!r}')
        mon.check(bool(str(ex).strip()), rule, lambda: f'{what}: no message')
        return
    except Exception as ex:
        mon.check(False, rule, lambda: f'{getattr(f, "__qualname__", f)} with {what}: {ex!r}')
        return
    mon.check(False, rule, lambda: f'{getattr(f, "__qualname__", f)} with {what} was not refused from {who}: {v!r} {getattr(v, "p", "")!r}')


def accept(rng, mon, f, args, kw, refusals=()):
    # the undamaged call is not refused by the validation, whoever calls
    mon.event('undamaged')
    who, call = caller(rng)
    mon.context(damage=None, caller=who)
    try:
        v = call(f, args, kw)
        mon.check(True, 'valid-call-accepted')
        return v
    except Exception as ex:
        mon.check(isinstance(ex, refusals), 'valid-call-accepted', lambda: f'{getattr(f, "__qualname__", f)} from {who}: {ex!r}')


def constructors(rng, mon):
    if rng.random() < 0.5:
        mon.event('chains')
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 6, 9), p=(.5, .3, .2))
        n = P.shape[0]
        mon.context(kind=kind, P=P, names=names)
        accept(rng, mon, MC, (packed(rng, mon, P), list(names)), {})
        for _ in range(5):
            if rng.random() < 0.6:
                what, V = damaged_matrix(rng, mon, P, True)
                mon.event('damaged-matrix')
                mon.distinct('mc', what, P)
                style = int(rng.integers(3))
                refuse(rng, mon, 'invalid-matrix', MC, (V,) if style else (), {} if style == 1 else {'states': gen.pick(rng, [None, list(names)])} if style else {'p': V}, f'matrix: {what}')
            else:
                what, V = damaged_labels(rng, names)
                mon.event('damaged-labels')
                mon.distinct('mcl', what, names)
                refuse(rng, mon, 'invalid-labels', MC, (packed(rng, mon, P), V), {}, f'labels: {what}')
        return
    mon.event('models')
    kind, P, E = gen.hmm(rng, 5, 5)
    n, k = E.shape
    _, _, names, symbols = gen.hmm_labels(rng, n, k)
    mon.context(kind=kind, P=P, E=E, names=names, symbols=symbols)
    good = [P, E, list(names), list(symbols)]
    accept(rng, mon, H, (packed(rng, mon, P), packed(rng, mon, E), list(names), list(symbols)), {})
    for _ in range(5):
        args = list(good)
        i = int(rng.integers(4))
        if i < 2:
            what, args[i] = damaged_matrix(rng, mon, good[i], i == 0)
            mon.event('damaged-matrix')
        else:
            what, args[i] = damaged_labels(rng, good[i])
            mon.event('damaged-labels')
            if rng.random() < 0.15:
                what, args[i] = 'shared between states and symbols', list(good[i][:-1]) + [good[5 - i][0]]
        mon.distinct('hmm', i, what, P)
        refuse(rng, mon, 'invalid-matrix' if i < 2 else 'invalid-labels', H, tuple(args), {}, f'argument {i}: {what}')


def conversions(rng, mon):
    # dictionaries, graphs and matrices of weights
    mon.event('makers')
    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5), p=(.6, .4))
    n = P.shape[0]
    hk, hP, hE = gen.hmm(rng, 4, 4)
    _, _, hs, hy = gen.hmm_labels(rng, *hE.shape)
    mon.context(P=P, names=names, hP=hP, hE=hE, hs=hs, hy=hy)
    d = {(a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)}
    hd = {('P', a, b): float(hP[i, j]) for i, a in enumerate(hs) for j, b in enumerate(hs)}
    hd.update({('E', a, b): float(hE[i, j]) for i, a in enumerate(hs) for j, b in enumerate(hy)})
    for _ in range(6):
        mon.event('damaged-argument')
        model = bool(rng.random() < 0.4)
        src = hd if model else d
        cls = H if model else MC
        r = int(rng.integers(3))
        if r == 0:
            what = gen.pick(rng, ['missing', 'negative', 'above', 'nan', 'inf', 'text', 'none', 'short-key', 'long-key', 'text-key', 'blank-key', 'number-key', 'empty', 'not-a-dictionary', 'row-sum', 'complex', 'boolean', 'one-state', 'list-of-pairs'])
            v = dict(src)
            key = gen.pick(rng, list(v))
            if what == 'missing':
                del v[key]
            elif what in ('negative', 'above', 'nan', 'inf', 'text', 'none', 'complex', 'boolean'):
                v[key] = {'negative': -0.1, 'above': 1.1, 'nan': np.nan, 'inf': np.inf, 'text': '0.5', 'none': None, 'complex': 0.5j, 'boolean': True}[what]
            elif what.endswith('key'):
                x = v.pop(key)
                v[{'short-key': key[:1], 'long-key': key + ('x',), 'text-key': ''.join(key), 'blank-key': key[:-1] + (' ',), 'number-key': key[:-1] + (1,)}[what]] = x
            elif what == 'empty':
                v = {}
            elif what == 'not-a-dictionary':
                v = gen.pick(rng, [None, [], 'x', 3, P])
            elif what == 'row-sum':
                key = max(v, key=lambda q: v[q])
                v[key] -= float(gen.pick(rng, [0.1, 4e-3, 3e-4, 5e-5]))
            elif what == 'one-state':
                v = {('P', 'a', 'a'): 1.0, ('E', 'a', 'x'): 0.5, ('E', 'a', 'y'): 0.5} if model else {('a', 'a'): 1.0}
            else:
                v = list(v.items())
            refuse(rng, mon, 'invalid-dictionary', cls.from_dictionary, (v,), {}, f'dictionary: {what}')
        elif r == 1:
            g = H(hP, hE, hs, hy).to_graph() if model else MC(P, names).to_graph()
            what = gen.pick(rng, ['undirected', 'none', 'empty', 'one-node', 'number-node', 'blank-node', 'negative', 'zero', 'nan', 'inf', 'text', 'no-weight', 'missing-layer', 'wrong-type', 'missing-type'])
            e = gen.pick(rng, list(g.edges))
            if what == 'undirected':
                g = nx.Graph(g)
            elif what == 'none':
                g = gen.pick(rng, [None, d, P, 'x', nx.MultiGraph(g)])
            elif what == 'empty':
                g = nx.DiGraph()
            elif what == 'one-node':
                g = nx.DiGraph()
                g.add_node('a', layer=1)
            elif what in ('number-node', 'blank-node'):
                g = nx.relabel_nodes(g, {list(g.nodes)[0]: 1 if what == 'number-node' else ' '})
            elif what in ('negative', 'zero', 'nan', 'inf', 'text'):
                g.edges[e]['weight'] = {'negative': -0.5, 'zero': 0.0, 'nan': np.nan, 'inf': np.inf, 'text': '1'}[what]
            elif what == 'no-weight':
                del g.edges[e]['weight']
            elif not model:
                continue
            elif what == 'missing-layer':
                del g.nodes[list(g.nodes)[0]]['layer']
            else:
                if what == 'wrong-type':
                    g.edges[e]['type'] = gen.pick(rng, ['p', 'X', '', 1, None])
                else:
                    del g.edges[e]['type']
            refuse(rng, mon, 'invalid-graph', cls.from_graph, (g,), {}, f'graph: {what}')
        else:
            W = np.floor(rng.random((3, 3)) * 5) + 1
            W2 = np.floor(rng.random((3, 4)) * 5) + 1
            i = int(rng.integers(4)) if model else int(rng.choice([0, 2]))
            args = [W, W2, ['a', 'b', 'c'], ['x', 'y', 'z', 'w']]
            if i < 2:
                kinds = {'negative': set_entry(-1.0), 'nan': set_entry(np.nan), 'inf': set_entry(np.inf), **{k: f for k, f in SHAPE_DAMAGE.items() if k != 'one-by-one' or not model}, **{k: f for k, f in TYPE_DAMAGE.items()}}
                what = gen.pick(rng, sorted(kinds))
                if what == 'fewer-columns' and i == 1:
                    what = 'one-column'
                args[i] = kinds[what](rng, args[i])
            else:
                what, args[i] = damaged_labels(rng, args[i])
            if not model:
                args = [args[0], args[2]]
            refuse(rng, mon, 'invalid-weights', H.from_matrices if model else MC.from_matrix, tuple(args), {}, f'weights, argument {i}: {what}')
        mon.distinct('conv', model, r, what, P)


def generators(rng, mon):
    mon.event('makers')
    f, kw, x = makers.model_maker(rng, H) if rng.random() < 0.3 else makers.chain_maker(rng, MC)
    if 'path' in x:
        os.unlink(x['path'])
        return conversions(rng, mon)
    mon.context(maker=x['what'], arguments={k: v for k, v in kw.items()})
    accept(rng, mon, f, (), {k: deep.snapshot(v) for k, v in kw.items()}, x['refusals'])
    n = x['size'][0] if isinstance(x['size'], tuple) else x['size']
    for _ in range(6):
        p = gen.pick(rng, sorted(kw))
        v = kw[p]
        what = None
        if p in ('states', 'possible_states', 'symbols', 'possible_symbols') and isinstance(v, list) and not (x['what'] == 'fit' and p == 'symbols'):
            what, bv = damaged_labels(rng, v)
            if p.startswith('possible') and what in ('more', 'fewer') and x['what'] in ('fit_sequence', 'estimate', 'fit_function', 'fit'):
                continue
        elif p in ('mask', 'p_mask', 'e_mask'):
            what, bv = gen.pick(rng, [('short', v[:-1]), ('narrow', v[:, :-1]), ('negative', set_entry(-0.1)(rng, v)), ('above-one', set_entry(1.1)(rng, v)), ('infinite', set_entry(np.inf)(rng, v)), ('row-over', np.full_like(v, 0.9)), ('row-over-free', over(rng, v)), ('row-over-free', over(rng, v)), ('text', [['x']]), ('flat', v.ravel()), ('number', 0.5)])
        elif x['what'] == 'birth_death' and p in ('p', 'q'):
            what, bv = gen.pick(rng, [('negative', [-0.1] + [0.0] * (n - 1)), ('above', [0.0] * (n - 2) + [1.5, 0.0] if p == 'p' else [0.0, 1.5] + [0.0] * (n - 2)), ('nan', [np.nan] * n), ('longer', [0.0] * (n + 1)), ('wrong-end', [0.0] * (n - 1) + [0.5] if p == 'p' else [0.5] + [0.0] * (n - 1)), ('text', ['0'] * n), ('none', None), ('tuple', (0.0,) * n)])
        elif x['what'] in ('fit', 'ctor') and p in ('p', 'p_guess'):
            what, bv = damaged_matrix(rng, mon, x['P'] if x['P'] is not None else v, True)
        elif x['what'] in ('fit', 'ctor') and p in ('e', 'e_guess'):
            what, bv = damaged_matrix(rng, mon, x['E'] if x['E'] is not None else v, False)
        elif x['what'] == 'population_genetics_model' and p in ('n', 's', 'u', 'v'):
            what, bv = gen.pick(rng, {'n': bad(1, 0, -1, 501, 2.0, True), 's': bad(-1.5, np.inf, '0', 1), 'u': bad(-0.1, 1.1, np.inf, '0', 1), 'v': bad(-0.1, 1.1, np.inf, '0', 1)}[p])
        elif x['what'] == 'urn_model' and p == 'n':
            what, bv = gen.pick(rng, bad(0, -1, 2.0, True))
        elif x['what'] in ('random',) and p in ('n', 'k'):
            what, bv = gen.pick(rng, bad(1, 0, -1, 2.0, True))
        elif x['what'] == 'approximation' and p == 'k':
            what, bv = gen.pick(rng, bad(0.5, 0.0, -1.0, np.inf, '3', 3, keep=NO_NONE))
        elif x['what'] == 'random_distribution' and p == 'f':
            what, bv = gen.pick(rng, bad('nonexistent', 'seed', '__init__', len, 3))
        elif x['what'] in ('fit_sequence', 'estimate', 'fit') and p in ('sequence', 'sequence_states', 'sequence_symbols', 'symbols'):
            names = kw['possible_states' if p in ('sequence', 'sequence_states') else 'possible_symbols']
            pool = bad([], [0], [names[0]], [0, len(names)], [0, -1], [0, names[1]], [0.0, 1.0], (0, 1), [names[0], 'nobody at home'], [names[0], None], {0: 1}, np.array([0, 1]))
            if x['what'] != 'fit':
                pool += bad([[0, 1]], keep=())
            what, bv = gen.pick(rng, pool)
        elif x['what'] == 'fit' and p == 'initial_status':
            view = catalog.View(kw['possible_states'], None, kw['possible_symbols'])
            what, bv = gen.pick(rng, mapped_damage(rng, 'status', view, None, catalog.World(kw['p_guess'], kw['e_guess']), 'fit', p))
        elif x['what'] == 'fit_sequence' and p == 'fitting_param':
            what, bv = gen.pick(rng, bad(np.ones((n + 1, n + 1)), np.zeros((n, n)), np.full((n, n), 1.5), np.full((n, n), np.nan), 'x', 2, keep=('dictionary', 'object', 'text', 'complex')))
        elif x['what'] == 'fit_function' and p == 'quadrature_type' or p not in kw:
            what, bv = gen.pick(rng, scalar_damage(rng, 'quadrature_type', v, n))
        elif not (p in ('p', 'e', 'm', 'd', 'mp', 'me', 'graph', 'n', 's', 'k')):
            pool = scalar_damage(rng, p, v, n)
            if pool:
                what, bv = gen.pick(rng, pool)
        if what is None:
            continue
        if x['what'] == 'gamblers_ruin' and p == 'size':
            what, bv = gen.pick(rng, bad(2, 1, 0, 3.0, True))
        if p == 'seed' and bv is None:
            continue
        mon.event('damaged-argument')
        mon.distinct('maker', x['what'], p, str(what))
        bad_kw = {k: deep.snapshot(u) for k, u in kw.items()}
        bad_kw[p] = bv
        refuse(rng, mon, 'invalid-argument', f, (), bad_kw, f'{p}: {what}')


def queries(rng, mon):
    model = rng.random() < 0.35
    if model:
        kind, P, E = gen.hmm(rng, 4, 4)
        _, _, names, symbols = gen.hmm_labels(rng, *E.shape)
        m, view, w, qs = H(P, E, list(names), list(symbols)), catalog.View(names, None, symbols), catalog.World(P, E), catalog.MODEL
    else:
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 6), p=(.5, .5))
        m, view, w, qs = MC(P, list(names)), catalog.View(names), catalog.World(P), catalog.CHAIN
    qs = [q for q in qs if q.draw is not None]
    mon.context(kind=kind, P=P, names=names)
    frozen = kit.freeze_hmm(m) if model else kit.freeze(m)
    state = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    for _ in range(5):
        q = gen.pick(rng, qs)
        a = q.arguments(rng, w)
        if not a or any(v is None and k == 'partition' for _, k, v in a):
            continue
        i = int(rng.integers(len(a)))
        p, k, v = a[i]
        kw = {pp: view.render(rng, kk, vv) for pp, kk, vv in a}
        pool = scalar_damage(rng, p, v, w.n) if k in ('raw', 'list') else mapped_damage(rng, k, view, v, w, q.name, p)
        if not pool:
            continue
        what, bv = gen.pick(rng, pool)
        if p == 'steps' and q.name == 'simulate' and what == '1':
            continue
        if p == 'inertial_weights' and k == 'raw':
            what, bv = gen.pick(rng, bad(-0.1, 1.1, np.inf, True, keep=('none', 'list', 'dictionary', 'object', 'text', 'complex')))
        if bv is None and p in ('initial_state', 'final_state', 'final_symbol', 'initial_status', 'initial_distribution', 'first_passage_states', 'targets', 'symbols', 'states', 'seed', 'sequence2') and not (q.name in ('to_subchain', 'first_passage_reward', 'decode', 'predict') and p in ('states', 'first_passage_states', 'symbols', 'initial_state')):
            continue
        if p == 'rewards' and what == 'array':
            continue
        if p == 'rewards' and isinstance(bv, list) and len(bv) == w.n and not any(x is None or isinstance(x, (str, complex, list)) or x != x or abs(x) == np.inf for x in bv):
            continue
        kw[p] = bv
        mon.context(query=q.name, arguments=kw)
        mon.event('damaged-query')
        mon.distinct('query', model, q.name, p, str(what))
        refuse(rng, mon, 'invalid-query', getattr(m, gen.pick(rng, [q.name, *q.aliases])), (), kw, f'{p}: {what}')
        mon.check((kit.freeze_hmm(m) if model else kit.freeze(m)) == frozen, 'receiver-unchanged', lambda: f'{m.p!r}')
    mon.check(state == (np.random.get_state()[1].tobytes(), np.random.get_state()[2]), 'global-generator-untouched')


def assessments(rng, mon):
    mon.event('assessments')
    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 4), p=(.5, .5))
    n = P.shape[0]
    mc = MC(P, list(names))
    seq = [names[i] for i in rng.integers(n, size=40)]
    seqs = [seq[:20], seq[20:]]
    mon.context(P=P, names=names)
    calls = [(pydtmc.assess_first_order, {'possible_states': list(names), 'sequence': seq, 'significance': 0.05}), (pydtmc.assess_homogeneity, {'possible_states': list(names), 'sequences': seqs, 'significance': 0.05}),
             (pydtmc.assess_markov_property, {'possible_states': list(names), 'sequence': seq, 'significance': 0.05}), (pydtmc.assess_stationarity, {'possible_states': list(names), 'sequence': seq, 'blocks': 2, 'significance': 0.05}),
             (pydtmc.assess_theoretical_compatibility, {'mc': mc, 'sequence': seq, 'significance': 0.05})]
    for _ in range(6):
        f, kw = gen.pick(rng, calls)
        p = gen.pick(rng, sorted(kw))
        if p == 'significance':
            what, v = gen.pick(rng, bad(0.0, -0.05, 0.21, 1.0, np.inf, '0.05', 1, True))
        elif p == 'blocks':
            what, v = gen.pick(rng, bad(0, -1, 2.0, True))
        elif p == 'possible_states':
            what, v = damaged_labels(rng, names)
            if what in ('more', 'fewer'):
                continue
        elif p == 'mc':
            what, v = gen.pick(rng, bad(P, pydtmc, MC))
        else:
            pool = bad([], [0], [names[0]], [0, n], [0, -1], [0, names[1]], [0.0, 1.0], (0, 1), [names[0], 'nobody at home'], [names[0], None], {0: 1}, np.array([0, 1]))
            if p == 'sequences':
                pool = [(w, [seq, x] if rng.random() < 0.5 else x) for w, x in pool if isinstance(x, (list, tuple, np.ndarray, dict))] + bad([seq], seq, (seq, seq), [seq, tuple(seq)], [0, 1, 1, 0], keep=('none', 'text', 'object'))
            what, v = gen.pick(rng, pool)
        mon.event('damaged-argument')
        mon.distinct('assess', f.__name__, p, str(what))
        refuse(rng, mon, 'invalid-argument', f, (), {**kw, p: v}, f'{p}: {what}')


def relations(rng, mon):
    # arguments which are valid one by one but not together, and the nearest ones which are
    mon.event('relations')
    n = int(rng.integers(3, 7))
    P = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
    names = gen.default_labels(n, 's')
    m = MC(P, names)
    view = catalog.View(names)
    mon.context(P=P, names=names)

    def refs(x):
        x = [int(i) for i in rng.permutation(list(x))]
        return [names[i] for i in x] if rng.random() < 0.5 else x
    order = [int(i) for i in rng.permutation(n)]
    cut = int(rng.integers(1, n - 1))
    one, two = order[:cut], order[cut:cut + int(rng.integers(1, n - cut + 1))]
    q = gen.pick(rng, ['committor_probabilities', 'committor_probabilities'] + catalog_aliases('committor_probabilities'))
    form = gen.pick(rng, ['forward', 'backward'])
    f = getattr(m, q)
    accept(rng, mon, f, (form, refs(one), refs(two)), {})
    shared = gen.pick(rng, one)
    refuse(rng, mon, 'incompatible-arguments', f, (form, refs(one), refs(set(two) | {shared})), {}, 'sets of states which overlap')
    f = m.first_passage_reward
    others = [i for i in range(n) if i != order[0]]
    some = [int(i) for i in rng.choice(others, size=int(rng.integers(1, n - 1)), replace=False)]
    rewards = [float(x) for x in rng.random(n)]
    start = order[0] if rng.random() < 0.5 else names[order[0]]
    accept(rng, mon, f, (3, start, refs(some), rewards), {})
    refuse(rng, mon, 'incompatible-arguments', f, (3, start, refs(some[:-1] + [order[0]]), rewards), {}, 'the first passage states include the initial one')
    refuse(rng, mon, 'incompatible-arguments', f, (3, start, refs(others), rewards), {}, 'the first passage states are all the others')
    two_states = MC([[0.5, 0.5], [0.25, 0.75]])
    for what, f, args in (('first passage rewards of two states', two_states.first_passage_reward, (3, 0, [1], [0.5, 1.0])),):
        try:
            v = f(*args)
            mon.check(False, 'incompatible-arguments', lambda: f'{what}: {v!r}')
        except ValueError:
            mon.check(True, 'incompatible-arguments')
        except pydtmc.ValidationError:
            mon.check(True, 'incompatible-arguments')

    # birth and death
    r = rng.random(n)
    up, down = r * rng.random(n), None
    up[-1] = 0.0
    down = (1 - up) * rng.random(n)
    down[0] = 0.0
    full = int(rng.integers(1, n - 1))
    up[full], down[full] = gen.pick(rng, [(0.5, 0.5), (0.25, 0.75), (0.125, 0.875)])
    accept(rng, mon, MC.birth_death, (up.tolist(), down.tolist()), {})
    worse = down.copy()
    worse[full] += float(gen.pick(rng, [0.1, 1e-2, 1e-4, 1e-6]))
    refuse(rng, mon, 'incompatible-arguments', MC.birth_death, (up.tolist(), worse.tolist()), {}, 'birth and death probabilities above one')
    refuse(rng, mon, 'incompatible-arguments', MC.birth_death, (up.tolist(), down[:-1].tolist()) if rng.random() < 0.5 else (up[1:].tolist(), down.tolist()), {}, 'vectors of different sizes')
    refuse(rng, mon, 'incompatible-arguments', MC.birth_death, ([0.0], [0.0]), {}, 'a single state')

    # population genetics
    size = int(gen.pick(rng, [2, 4, 8, 16, 64]))
    top, low = 1 / (4 * size), float(rng.random()) / (4 * size)
    over = top * float(gen.pick(rng, [2.0, 1.1, 1.001, 1.0 + 1e-9]))
    s = float(np.round(rng.uniform(-0.5, 1), 3))
    mon.context(n=size, s=s)
    accept(rng, mon, MC.population_genetics_model, ('wright-fisher', size, s, *kit.shuffled(rng, [top, low])), {})
    refuse(rng, mon, 'incompatible-arguments', MC.population_genetics_model, ('wright-fisher', size, s, *kit.shuffled(rng, [over, low])), {}, 'mutation rates which are too high')
    u, v = float(rng.random()) * 0.1, float(rng.random()) * 0.1
    accept(rng, mon, MC.population_genetics_model, ('moran', size, 1.0, u, v), {})
    refuse(rng, mon, 'incompatible-arguments', MC.population_genetics_model, ('moran', size, float(gen.pick(rng, [1.0 + 1e-9, 1.001, 1.5, 40.0])), u, v), {}, 'a selection intensity which is too high')

    # names of states and symbols
    k = int(rng.integers(2, 5))
    syms = [f'y{i}' for i in range(k)]
    clash = list(syms)
    clash[int(rng.integers(k))] = gen.pick(rng, names)
    E = np.full((n, k), 1 / k)
    makers_ = [('random', H.random, lambda y: (n, k, names, 0, None, y)), ('from_matrices', H.from_matrices, lambda y: (P, E, names, y)), ('estimate', H.estimate, lambda y: (names, y, [0, 1, 0], [0, 1, 1])), ('constructor', H, lambda y: (P, E, names, y))]
    for what, f, args in makers_:
        accept(rng, mon, f, args(list(syms)), {})
        refuse(rng, mon, 'incompatible-arguments', f, args(list(clash)), {}, f'{what}: a name shared by states and symbols')
    hm = H(P, E, names, syms)
    refuse(rng, mon, 'incompatible-arguments', hm.restrict, () if rng.random() < 0.5 else (None, None), {}, 'a restriction to nothing in particular')

    # quadratures
    odd = int(gen.pick(rng, [3, 5, 7]))
    g = lambda x_index, x_value, y_index, y_value: 1.0 + x_value * y_value  # noqa: E731
    accept(rng, mon, MC.fit_function, ('simpson-rule', [f'q{i}' for i in range(odd)], g), {})
    refuse(rng, mon, 'incompatible-arguments', MC.fit_function, ('simpson-rule', [f'q{i}' for i in range(odd + 1)], g), {}, 'an even number of states for the Simpson rule')
    wrong = ['x_index', 'x_value', 'y_index', 'y_value']
    wrong[int(rng.integers(4))] = gen.pick(rng, ['z_value', 'x', 'x_Index', 'index', 'y_values'])
    space = {}
    exec(f'def h({", ".join(wrong)}):\n    return 1.0', space)
    refuse(rng, mon, 'incompatible-arguments', MC.fit_function, (gen.pick(rng, ['gauss-chebyshev', 'gauss-legendre', 'newton-cotes', 'trapezoid-rule']), [f'q{i}' for i in range(odd)], space['h']), {}, f'a function of {wrong}')

    # sizes of the other objects
    sizes = [n - 1, n + 1, 2 * n] if n > 2 else [n + 1, 2 * n]
    for z in sizes:
        z = int(z)
        if z < 2:
            continue
        Q = np.array([gen.random_row(rng, z, range(z), 'float') for _ in range(z)])
        refuse(rng, mon, 'incompatible-arguments', m.merge_with, (MC(Q), float(rng.uniform(0.1, 0.9))), {}, f'a chain of {z} states')
        vector = [float(x) for x in gen.random_row(rng, z, range(z), 'float')]
        for name, p, args in (('redistribute', 'initial_status', (3,)), ('closest_reversible', 'initial_distribution', ()), ('mixing_time', 'initial_distribution', ())):
            refuse(rng, mon, 'incompatible-arguments', getattr(m, name), args, {p: vector}, f'{name}: a distribution of {z} states')
        M = np.array([gen.random_row(rng, k, range(k), 'float') for _ in range(z)])
        for what, maker in (('normalised', H.from_matrices), ('constructor', H)):
            refuse(rng, mon, 'incompatible-arguments', maker, (P, M, names, syms), {}, f'{what}: emissions of {z} states')
    R = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
    accept(rng, mon, m.merge_with, (MC(R), 0.5), {})
    for what, other in (('a hidden model', hm), ('a matrix', R), ('the class', MC), ('nothing', None)):
        refuse(rng, mon, 'incompatible-arguments', m.merge_with, (other, 0.5), {}, f'merging with {what}')
    length = int(rng.integers(3, 8))
    path, seen = [int(x) for x in rng.integers(n, size=length)], [int(x) for x in rng.integers(k, size=length)]
    accept(rng, mon, H.estimate, (names, syms, path, seen), {})
    try:
        v = H.estimate(*((names, syms, path[1:], seen) if rng.random() < 0.5 else (names, syms, path, seen + [0])))
        mon.check(False, 'incompatible-arguments', lambda: f'sequences of different lengths: {v!r}')
    except (ValueError, pydtmc.ValidationError):
        mon.check(True, 'incompatible-arguments')
    # plots
    refuse(rng, mon, 'incompatible-arguments', pydtmc.plot_comparison, ([m, hm] if rng.random() < 0.5 else [m, two_states], 'emission'), {}, 'a comparison of emissions of chains')
    mon.distinct('relations', P, names)


def boundaries(own, n):
    # (name, function of one value, values just inside, values just outside); the chain has n >= 4 states and is ergodic
    m, hm = own['m'], own['hm']
    states = own['names']
    tiny = float(np.nextafter(0, 1))
    under = float(np.nextafter(1, 0))
    beyond = float(np.nextafter(1, 2))
    whole = (2.0, '2', True, None, 2.5, np.float64(3), [2], np.nan, np.inf)
    real = ('0.5', None, True, [0.5], np.nan, np.inf, -np.inf, 0.5j)
    short = own['path']
    flat = np.array([[1.0, 2.0], [3.0, 1.0]])
    fit = lambda k: MC.fit_sequence('map', ['a', 'b'], [0, 1, 1, 0], k)  # noqa: E731

    def put(M, v):
        M = M.copy()
        M[0, 1] = v
        return M

    significance = [('assess_first_order, significance', lambda v: pydtmc.assess_first_order(states, short, v), [0.2, 0.01], [0.0, -0.1, 0.2 + 1e-12, 0.5, 1, *real]), ('assess_markov_property, significance', lambda v: pydtmc.assess_markov_property(states, short, v), [0.2, 0.01], [0.0, -0.1, 0.2 + 1e-12, 0.5, 1, *real]),
                    ('assess_homogeneity, significance', lambda v: pydtmc.assess_homogeneity(states, [short, short], v), [0.2, 0.01], [0.0, -0.1, 0.2 + 1e-12, 0.5, 1, *real]), ('assess_stationarity, significance', lambda v: pydtmc.assess_stationarity(states, short, 1, v), [0.2, 0.01], [0.0, -0.1, 0.2 + 1e-12, 0.5, 1, *real]),
                    ('assess_theoretical_compatibility, significance', lambda v: pydtmc.assess_theoretical_compatibility(m, short, v), [0.2, 0.01], [0.0, -0.1, 0.2 + 1e-12, 0.5, 1, *real]), ('assess_stationarity, blocks', lambda v: pydtmc.assess_stationarity(states, short, v), [1, 2], [0, -1, *whole])]
    return significance + [
        ('aggregate', lambda v: m.aggregate(v), [2, n - 1], [1, 0, -1, n, n + 1, 10**9, *whole]),
        ('aggregate, method', lambda v: m.aggregate(2, v), ['adaptive', 'spectral-bottom-up', 'spectral-top-down'], ['Adaptive', 'spectral', '', ' adaptive', 0, None, True]),
        ('identity', MC.identity, [2, 3], [1, 0, -1, -2, *whole]),
        ('random', lambda v: MC.random(v, seed=1), [2], [1, 0, -1, -2, *whole]),
        ('random, zeros', lambda v: MC.random(3, zeros=v, seed=1), [0, 1, 6], [-1, -6, 7, 9, 10**6, *whole]),
        ('random distribution', lambda v: MC.random_distribution(v, 'uniform', seed=1), [2], [1, 0, -1, -2, *whole]),
        ('dirichlet', lambda v: MC.dirichlet_process(v, 1, seed=1), [2], [1, 0, -1, -2, *whole]),
        ('dirichlet, diffusion', lambda v: MC.dirichlet_process(3, v, seed=1), [1, 3], [0, -1, 4, *whole]),
        ('dirichlet, bias', lambda v: MC.dirichlet_process(3, 2, seed=1, diagonal_bias_factor=v), [1e-3, 10.0, None], [0.0, -1e-9, -1.0, 1, *[x for x in real if x is not None]]),
        ('gambler', lambda v: MC.gamblers_ruin(v, 0.5), [3], [2, 1, 0, -1, *whole]),
        ('gambler, odds', lambda v: MC.gamblers_ruin(3, v), [tiny, under, 0.5], [0.0, 1.0, -0.1, beyond, 1, *real]),
        ('population', lambda v: MC.population_genetics_model('moran', v), [2, 20], [1, 0, -1, 501, 10**6, *whole]),
        ('population, selection', lambda v: MC.population_genetics_model('moran', 4, v), [-1.0, 0.0, 1.0], [-beyond, -2.0, 1, *real]),
        ('population, mutation', lambda v: MC.population_genetics_model('moran', 4, 0.0, v), [0.0, 1e-9, 1.0], [-tiny, -0.1, beyond, 1, *real]),
        ('population, back mutation', lambda v: MC.population_genetics_model('moran', 4, 0.0, 1e-9, v), [0.0, 1e-9, 1.0], [-tiny, -0.1, beyond, 1, *real]),
        ('urn', lambda v: MC.urn_model('bernoulli-laplace', v), [1, 2], [0, -1, *whole]),
        ('approximation', lambda v: MC.approximation(v, 'rouwenhorst', 0.0, 1.0, 0.5), [2], [1, 0, -1, *whole]),
        ('approximation, sigma', lambda v: MC.approximation(3, 'rouwenhorst', 0.0, v, 0.5), [1e-9, 1.0], [0.0, -1.0, 1, *real]),
        ('approximation, rho', lambda v: MC.approximation(3, 'rouwenhorst', 0.0, 1.0, v), [-1.0, 1.0, 0.0], [-beyond, beyond, 1, *real]),
        ('approximation, strict rho', lambda v: MC.approximation(3, own['strict'], 0.0, 1.0, v), [0.0, 0.9], [-1.0, 1.0, beyond, 1, *real]),
        ('approximation, tauchen', lambda v: MC.approximation(3, 'tauchen', 0.0, 1.0, 0.5, k=v), [1.0, None, 3.5], [under, 0.0, -3.0, 1, *[x for x in real if x is not None]]),
        ('approximation, tauchen-hussey', lambda v: MC.approximation(3, 'tauchen-hussey', 0.0, 1.0, 0.5, k=v), [1.0, None], [0.0, -1e-9, -1.0, 1, *[x for x in real if x is not None]]),
        ('approximation, alpha', lambda v: MC.approximation(3, 'rouwenhorst', v, 1.0, 0.5), [0.0, -5.0], [0, *real]),
        ('fit, prior', fit, [None, flat, flat.tolist(), np.ones((2, 2))], [put(flat, x) for x in (0.0, 0.5, 1.5, -1.0, np.nan, np.inf)] + [flat[:1], flat.ravel(), np.ones((3, 3)), 2, 'x', [[1, '2'], [1, 1]], np.stack([flat, flat]), True]),
        ('fit, smoothing', lambda v: MC.fit_sequence('mle', ['a', 'b'], [0, 1, 1, 0], v), [None, True, False], [1, 0, 'x', 0.5, flat, np.nan]),
        ('lazy', lambda v: m.to_lazy_chain(v), [0.0, 1.0, 0.5, [0.5] * n, [0.0] * n], [-tiny, beyond, -0.1, 1.5, [0.5] * (n - 1), [0.5] * (n + 1), [0.5] * (n - 1) + [1.5], [-tiny] + [0.5] * (n - 1), [[0.5] * n] * 2, [0.5] * (n - 1) + [np.nan], [], *[x for x in real if not isinstance(x, list)]]),
        ('merge', lambda v: m.merge_with(m, v), [tiny, under, 0.5], [0.0, 1.0, -0.1, 1.5, 1, *real]),
        ('order', lambda v: m.to_nth_order(v), [2, 3], [1, 0, -1, *whole]),
        ('steps', lambda v: m.simulate(v, seed=1), [2, 3], [1, 0, -1, *whole]),
        ('steps, prediction', lambda v: m.predict(v, 0), [1, 2], [0, -1, *whole]),
        ('steps, redistribution', lambda v: m.redistribute(v), [1, 2], [0, -1, *whole]),
        ('steps, rewards', lambda v: m.expected_rewards(v, [1.0] * n), [1, 2], [0, -1, *whole]),
        ('steps, transitions', lambda v: m.expected_transitions(v), [1, 2], [0, -1, *whole]),
        ('steps, passage', lambda v: m.first_passage_probabilities(v, 0), [1, 2], [0, -1, *whole]),
        ('steps, hit', lambda v: m.first_passage_reward(v, 0, [1], [1.0] * n), [2, 3], [0, -1, *whole]),
        ('jump', lambda v: m.mixing_time(jump=v), [1, 2], [0, -1, *whole]),
        ('hidden random', lambda v: H.random(v, 2, seed=1), [2], [1, 0, -1, *whole]),
        ('hidden random, symbols', lambda v: H.random(2, v, seed=1), [2], [1, 0, -1, *whole]),
        ('hidden random, zeros', lambda v: H.random(3, 3, None, v, seed=1), [0, 6], [-1, 7, 9, *whole]),
        ('hidden random, emission zeros', lambda v: H.random(3, 3, None, 0, None, None, v, seed=1), [0, 6], [-1, 7, 9, *whole]),
        ('hidden simulation', lambda v: hm.simulate(v, seed=1), [2, 3], [1, 0, -1, *whole]),
        ('bounded', lambda v: m.to_bounded_chain(v), ['absorbing', 'reflecting', 0.0, 1.0, 0.5], [-tiny, beyond, '', 'Absorbing', 2, -1, *real]),
        ('status', lambda v: m.redistribute(2, v), [None, 0, n - 1, m.states[0], [1.0] + [0.0] * (n - 1)], [n, -1, True, 1.0, m.states[0] + '?', [0.5] * n if n != 2 else [1.0] * n, [1.0] * n, [-tiny, 1.0] + [0.0] * (n - 2), [np.nan, 1.0] + [0.0] * (n - 2), [[1.0] + [0.0] * (n - 1)] * 2, [[[1.0] + [0.0] * (n - 1)]]]),
        ('times', lambda v: m.time_correlations(short, None, v), [1, 2, [1, 2], [0]], [-1, [1, -1], [1, 1], [1, 2.0], [1, '2'], [1, True], [], (1, 2), 1.0, True]),
        ('seed', lambda v: m.simulate(3, seed=v), [0, 2**32 - 1, None], [-1, 2**32, 1.0, '1', True, [1]]),
        ('partition', lambda v: m.lump(v), [], [[list(range(n - 1)), [n]], [list(range(n))], [[i] for i in range(n)], [list(range(n - 1)), ['?']], [range(n - 1), [n - 1]], [list(range(n - 1)), [n - 1], [n - 1]], [list(range(n - 1)), [-1]], [tuple(range(n - 1)), [n - 1]], 'x', None, []]),
        ('sequence', lambda v: m.sequence_probability(v), [[0, 1], [m.states[0], m.states[1]]], [[0, m.states[1]], [m.states[0], 1], [0], [], [0, n], [0, -1], [0, True], [0, 1.0], [m.states[0], ' '], (0, 1), '01', None]),
    ]


def limits(rng, mon):
    # every numeric limit, on both of its sides
    mon.event('limits')
    n = int(rng.integers(4, 6))
    P = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
    P = (P + 0.01) / (1 + 0.01 * n)
    P /= P.sum(axis=1, keepdims=True)
    names = [f's{i}' for i in range(n)]
    E = np.full((n, 2), 0.5)
    path = [int(x) for x in rng.integers(n, size=30)] + list(range(n))
    own = {'m': MC(P, names), 'hm': H(P, E, names, ['x', 'y']), 'names': names, 'path': path, 'seen': [0, 1], 'strict': str(rng.choice(['adda-cooper', 'tauchen-hussey']))}
    mon.context(P=P, names=names)
    table = boundaries(own, n)
    for i in rng.choice(len(table), size=12, replace=False):
        name, f, inside, outside = table[int(i)]
        if inside:
            accept(rng, mon, f, (deep.snapshot(gen.pick(rng, inside)),), {})
        for k in rng.choice(len(outside), size=min(5, len(outside)), replace=False):
            v = outside[int(k)]
            mon.event('boundary')
            mon.distinct('boundary', name, int(k))
            mon.context(boundary=name, value=v)
            refuse(rng, mon, 'beyond-limits', f, (v,), {}, f'{name}: {v!r}')


def catalog_aliases(name):
    return [a for q in catalog.CHAIN if q.name == name for a in q.aliases]


def case(rng, mon, tier, index):

    (constructors, generators, queries, conversions, constructors, generators, queries, generators, assessments, relations, limits)[index % 11](rng, mon)
