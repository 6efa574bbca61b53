# Helpers shared by the checks: hostile consumption of results, models built through different routes, order of queries.
import copy

import numpy as np

from . import gen


def poison(v):
    # a hostile caller: whatever it is handed, it overwrites
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            try:
                v.fill(7 if v.dtype.kind in 'iub' else -3.5)
            except (TypeError, ValueError):
                pass
    elif isinstance(v, list):
        for x in v:
            poison(x)
        v.clear()
        v.append('poison')
    elif isinstance(v, dict):
        for x in list(v.values()):
            poison(x)
        v.clear()
    elif isinstance(v, tuple):
        for x in v:
            poison(x)


def take(v):
    c = copy.deepcopy(v)
    poison(v)
    return c


def nmax(rng, sizes=(4, 7, 10, 16), p=(0.35, 0.35, 0.2, 0.1)):
    return int(rng.choice(sizes, p=p))


def shuffled(rng, items):
    return [items[i] for i in rng.permutation(len(items))]


def build(rng, pyd, P, lab, route=None):
    # a chain with exactly this matrix and these labels, through one of the public constructors
    P = np.asarray(P, dtype=float)
    route = route or str(rng.choice(['ctor', 'ctor', 'ctor', 'dictionary', 'deepcopy', 'ctor-form']))
    if route == 'ctor-form':
        _, M = gen.as_form(rng, P)
        return pyd.MarkovChain(M, None if lab is None else list(lab))
    if route == 'dictionary':
        names = lab or gen.default_labels(P.shape[0])
        return pyd.MarkovChain.from_dictionary({(a, b): float(P[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)})
    mc = pyd.MarkovChain(P.copy(), None if lab is None else list(lab))
    if route == 'deepcopy':
        mc = copy.deepcopy(mc)
    return mc


def names(lab, n):
    return list(lab) if lab is not None else gen.default_labels(n)


def pick_chain(rng, kind=None, sizes=(4, 7, 10, 16), p=(0.35, 0.35, 0.2, 0.1)):
    kind, P = gen.chain(rng, nmax(rng, sizes, p), kind)
    lab = gen.labels(rng, P.shape[0])
    return kind, P, lab, names(lab, P.shape[0])


def pick_big(rng):
    kind, P = gen.big_chain(rng)
    lab = gen.labels(rng, P.shape[0])
    return kind, P, lab, names(lab, P.shape[0])


def disturb(rng, mc):
    # some unrelated queries before the observed ones, so that caches are in different states; their results are poisoned
    pool = ['pi', 'periods', 'communicating_classes', 'recurrent_classes', 'transient_states', 'fundamental_matrix',
            'accessibility_matrix', 'is_ergodic', 'is_reversible', 'cyclic_classes', 'adjacency_matrix', 'communication_matrix',
            'absorbing_states', 'implied_timescales', 'p', 'states', 'incidence_matrix', 'recurrent_states']
    for k in rng.choice(len(pool), size=int(rng.integers(0, 6)), replace=False):
        poison(getattr(mc, pool[int(k)]))


def outcome(fn, *args, **kwargs):
    # (value, None) or (None, exception)
    try:
        return fn(*args, **kwargs), None
    except Exception as ex:
        return None, ex


def rejected(mon, pyd, rule, fn, *args, allow=(), **kwargs):
    # the call must be refused with one of the documented errors
    v, ex = outcome(fn, *args, **kwargs)
    allowed = (pyd.ValidationError,) + tuple(allow)
    mon.check(ex is not None and isinstance(ex, allowed), rule, lambda: f'{getattr(fn, "__qualname__", fn)} returned {v!r} / raised {ex!r}')
    return ex


def pick2(rng, a, b):
    return a if rng.random() < 0.6 else b


def close(got, want, rtol=1e-6, atol=1e-8):
    from .monitor import is_close
    return is_close(got, want, rtol, atol)


def condition(A):
    # of a system I - Q: rounding errors of the entries of Q are absolute ones
    if not A.shape[0]:
        return 1.0
    c = float(np.linalg.cond(A))
    return max(c, float(np.abs(np.linalg.inv(A)).sum(axis=1).max())) if np.isfinite(c) and c < 1e14 else np.inf


def accuracy(cond, n, base=1e-10):
    # the relative accuracy which can be asked of a solution of n equations
    return base + 5e-15 * max(n, 1) * float(cond)


def freeze(mc):
    # what a caller can see of a chain, for later comparison
    return mc.p.tobytes(), tuple(mc.states), mc.size


def unchanged(mon, mc, frozen, rule='original-unchanged'):
    mon.check(freeze(mc) == frozen, rule, lambda: f'the chain became {mc.p!r} {mc.states!r}')


def valid_chain(mon, pyd, mc, rule='valid-chain'):
    # the class invariant of a chain, observed from outside
    mon.check(type(mc) is pyd.MarkovChain, rule, lambda: f'not a chain: {type(mc)!r}')
    p, s, n = mc.p, mc.states, mc.size
    ok = isinstance(p, np.ndarray) and p.dtype == np.float64 and p.shape == (n, n) and n >= 2 and mc.n == n
    mon.check(ok, rule, lambda: f'shape {getattr(p, "shape", None)} size {n}')
    mon.check(bool(np.isfinite(p).all() and (p >= 0).all() and (p <= 1 + 1e-9).all() and np.abs(p.sum(axis=1) - 1).max() < 1e-6), rule, lambda: f'not stochastic: {p!r}')
    ok = isinstance(s, list) and len(s) == n and all(isinstance(x, str) and x.strip() for x in s) and len(set(s)) == n
    mon.check(ok, rule, lambda: f'labels {s!r}')


def valid_hmm(mon, pyd, m, rule='valid-hmm'):
    mon.check(type(m) is pyd.HiddenMarkovModel, rule, lambda: f'not a model: {type(m)!r}')
    p, e, s, y = m.p, m.e, m.states, m.symbols
    n, k = len(s), len(y)
    ok = p.shape == (n, n) and e.shape == (n, k) and n >= 2 and k >= 2 and m.size == (n, k) and m.n == n and m.k == k
    mon.check(ok, rule, lambda: f'shapes {p.shape} {e.shape} {n} {k} {m.size}')
    for a in (p, e):
        mon.check(bool(np.isfinite(a).all() and (a >= 0).all() and (a <= 1 + 1e-9).all() and np.abs(a.sum(axis=1) - 1).max() < 1e-9), rule, lambda: f'not stochastic: {a!r}')
    ok = all(isinstance(x, str) and x.strip() for x in s + y) and len(set(s)) == n and len(set(y)) == k and not set(s) & set(y)
    mon.check(ok, rule, lambda: f'labels {s!r} {y!r}')


def law(mon, rule, counts, probs, least=1e-10):
    # observed counts against a distribution: exact support, then a goodness of fit test on pooled cells
    from scipy.stats import chi2
    counts, probs = np.asarray(counts, dtype=float), np.asarray(probs, dtype=float)
    total = counts.sum()
    mon.check(bool((counts[probs <= 0] == 0).all()), rule + '-support', lambda: f'counts {counts.tolist()} outside of the support of {probs.tolist()}')
    if total < 20:
        return False
    order = np.argsort(probs)
    cells, c, p = [], 0.0, 0.0
    for i in order:
        if probs[i] <= 0:
            continue
        c += counts[i]
        p += probs[i]
        if p * total >= 8:
            cells.append((c, p))
            c, p = 0.0, 0.0
    if p > 0 and cells:
        cells[-1] = (cells[-1][0] + c, cells[-1][1] + p)
    if len(cells) < 2:
        return False
    stat = sum((o - q * total)**2 / (q * total) for o, q in cells)
    pv = float(chi2.sf(stat, len(cells) - 1))
    mon.check(pv > least, rule + '-law', lambda: f'p-value {pv:.3g}: counts {counts.tolist()} for probabilities {probs.tolist()}')
    return True


def rare(mon, rule, count, total, prob):
    # an event of small probability: exact two-sided binomial tail
    from scipy.stats import binom
    tail = min(float(binom.cdf(count, total, prob)), float(binom.sf(count - 1, total, prob)))
    mon.check(tail > 1e-11, rule, lambda: f'{count} times out of {total} with a probability of {prob} (tail {tail:.3g})')


def build_hmm(rng, pyd, P, E, s, y, route=None):
    route = route or str(rng.choice(['ctor', 'ctor', 'matrices', 'dictionary', 'deepcopy', 'ctor-form']))
    n, k = E.shape
    H = pyd.HiddenMarkovModel
    if route == 'dictionary':
        a, b = s or gen.default_labels(n, 'P'), y or gen.default_labels(k, 'E')
        d = {('P', u, v): float(P[i, j]) for i, u in enumerate(a) for j, v in enumerate(a)}
        d.update({('E', u, v): float(E[i, j]) for i, u in enumerate(a) for j, v in enumerate(b)})
        return H.from_dictionary(d)
    if route == 'ctor-form':
        return H(gen.as_form(rng, P)[1], gen.as_form(rng, E)[1], None if s is None else list(s), None if y is None else list(y))
    m = H(P.copy(), E.copy(), None if s is None else list(s), None if y is None else list(y))
    return copy.deepcopy(m) if route == 'deepcopy' else m


def freeze_hmm(m):
    return m.p.tobytes(), m.e.tobytes(), tuple(m.states), tuple(m.symbols)
