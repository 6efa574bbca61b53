# Deep comparison of, and deep writing into, whatever the library accepts and returns.
import copy

import networkx as nx
import numpy as np


def same(a, b, tol=0.0):
    import pandas as pd
    import scipy.sparse as sp
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b) and str(a) == str(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in 'fc':
            if tol:
                return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * (1 + abs(b))))
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) == int(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, nx.Graph):
        return same([list(a.nodes(data=True)), list(a.edges(data=True))], [list(b.nodes(data=True)), list(b.edges(data=True))], tol)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return bool(a.equals(b))
    if sp.issparse(a):
        return bool(np.array_equal(a.toarray(), b.toarray()))
    if type(a).__name__ == 'MarkovChain':
        return a.states == b.states and same(a.p, b.p, tol)
    if type(a).__name__ == 'HiddenMarkovModel':
        return a.states == b.states and a.symbols == b.symbols and same(a.p, b.p, tol) and same(a.e, b.e, tol)
    if callable(a):
        return a is b
    return bool(a == b)


def snapshot(v):
    return v if callable(v) else copy.deepcopy(v)


def poison(v):
    # a hostile owner: overwrites whatever it can reach
    import pandas as pd
    import scipy.sparse as sp
    if isinstance(v, np.ndarray):
        if v.size and not v.flags.writeable:
            try:
                v.flags.writeable = True
            except ValueError:
                return
        if v.size:
            try:
                v.fill(7 if v.dtype.kind in 'iub' else -3.5)
            except (TypeError, ValueError):
                pass
    elif isinstance(v, list):
        for x in v:
            poison(x)
        v.reverse()
        v.append('poison')
        if len(v) > 1:
            v[0] = 'poison'
    elif isinstance(v, dict):
        for x in list(v.values()):
            poison(x)
        v.clear()
    elif isinstance(v, tuple):
        for x in v:
            poison(x)
    elif isinstance(v, nx.Graph):
        for *_, d in v.edges(data=True):
            d.clear()
        v.clear()
    elif isinstance(v, pd.DataFrame):
        v.iloc[:, :] = -3.5
    elif isinstance(v, pd.Series):
        v.iloc[:] = -3.5
    elif sp.issparse(v):
        v.data[:] = -3.5
    elif type(v).__name__ in ('MarkovChain', 'HiddenMarkovModel'):
        for a in ('p', 'e', 'states', 'symbols', 'pi', 'adjacency_matrix'):
            if hasattr(v, a):
                poison(getattr(v, a))
