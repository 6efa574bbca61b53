# C23: aggregation and closest reversible chain.
import itertools
import sys

import numpy as np
import scipy.optimize as spo

import pydtmc
from vh import gen, kit, ref

CASES = (3200, 60000)
CAP = (90, 700)
RULE = 'one case = one generated chain reduced to a number of states by one method, or its closest reversible chain with respect to a distribution; distinct by all of them; trivial when the chain is reversible already'
MINIMUM = {'distinct': 250, 'refinement-3': 20, 'refinement-4': 20, 'aggregation': 150, 'bottom-up': 60, 'top-down': 60, 'spectral-split': 30, 'reversible': 100, 'nearly-reversible': 150, 'optimal': 80, 'detailed-balance': 80, 'null-probabilities': 15, 'little-weight': 60, 'coarsening-1': 20, 'coarsening-2': 20, 'coarsening-3': 15, 'clusters': 60, 'clusters-many-states': 1}
ASSUMPTIONS = ['an aggregation must be the aggregation by some partition of the states, weighted by the stationary distribution (all partitions are enumerated, up to 7 states)',
               'clusters: chains which leave clusters of at least two well mixed states with a probability of 0.001 are aggregated to these clusters by every method',
               'top-down: the pairs merged are, one after the other, those of the smallest divergence rate among the leaves of the tree of such splits of the current aggregation; judged when eigenvalues and divergences are well separated',
               'bottom-up: the blocks are those of the greedy refinement which splits, by the sign of the second eigenvector of its additive reversibilization, the block whose split has the smallest Kullback-Leibler divergence rate; judged when eigenvalues and divergences are well separated',
               'closest reversible: the squared distance is at most 1e-3 above the optimum found by an independent solver; the documented ValueError is allowed; the solver is known to stop early (known finding): a chain which is further away is accepted only when the same call with a tighter tolerance of the solver reaches the optimum']
CASE_LIMIT = 120


def growth(n):
    # set partitions as restricted growth strings
    def rec(s, m):
        if len(s) == n:
            yield s
            return
        for v in range(m + 1):
            yield from rec(s + (v,), max(m, v + 1))
    yield from rec((0,), 1)


def aggregated(P, pi, string):
    k = max(string) + 1
    F = np.eye(k)[list(string)]
    return (F.T * pi) @ P @ F / (F.T @ pi)[:, None]


def matches(Q, R):
    # equality up to the order of the states
    k = Q.shape[0]
    if not np.allclose(np.sort(np.diag(Q)), np.sort(np.diag(R)), atol=2e-6) or not np.allclose(np.sort(Q.sum(axis=0)), np.sort(R.sum(axis=0)), atol=2e-6):
        return False
    return any(np.allclose(Q, R[np.ix_(q, q)], atol=1e-6) for q in map(list, itertools.permutations(range(k))))


def aggregation(rng, mon):

    P = gen.ergodic(rng, int(gen.pick(rng, [4, 5, 6, 7])), 3)
    if rng.random() < 0.35:
        # nearly decoupled blocks
        n = int(rng.integers(4, 8))
        cut = int(rng.integers(2, n - 1))
        P = np.zeros((n, n))
        for i in range(n):
            own = list(range(cut)) if i < cut else list(range(cut, n))
            P[i] = 0.96 * gen.random_row(rng, n, own, 'float') + 0.04 * gen.random_row(rng, n, range(n), 'float')
        perm = rng.permutation(n)
        P = P[np.ix_(perm, perm)]
    n = P.shape[0]
    lab = gen.labels(rng, n)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    before = kit.freeze(mc)
    pi = ref.stationary_of_class(P, list(range(n)))
    s = int(rng.integers(2, n))
    method = str(rng.choice(['adaptive', 'spectral-bottom-up', 'spectral-top-down']))
    mon.context(P=P, labels=lab, s=s, method=method)
    mon.distinct(P, s, method)
    out = mc.aggregate(s, method) if method != 'adaptive' or rng.random() < 0.5 else mc.aggregate(s)
    kit.valid_chain(mon, pydtmc, out)
    mon.event('bottom-up' if method == 'spectral-bottom-up' else 'top-down')
    mon.equal(out.size, s, 'aggregation-size')
    Q = out.p
    kit.unchanged(mon, mc, before)
    hit = False
    for string in growth(n):
        if max(string) + 1 == s and matches(Q, aggregated(P, pi, string)):
            hit = True
            break
    mon.check(hit, 'aggregation', lambda: f'no partition of the states gives {Q.tolist()}')
    parts = refine(P, pi, s) if method == 'spectral-bottom-up' else coarsen(P, pi, s)
    if parts is None:
        return
    mon.event(('refinement-%d' % min(s, 4)) if method == 'spectral-bottom-up' else 'coarsening-%d' % min(n - s, 3))
    string = np.zeros(n, dtype=int)
    for i, part in enumerate(parts):
        string[list(part)] = i
    mon.check(matches(Q, aggregated(P, pi, tuple(int(x) for x in string))), 'spectral-split', lambda: f'{Q.tolist()} is not the aggregation by {parts}')


def clusters(rng, mon, tier):
    # states which mix quickly inside clusters and rarely leave them: every method must find the clusters, and the adaptive one also with many states
    large = rng.random() < (0.04 if tier == 'quick' else 0.1)
    k = int(rng.integers(2, 5))
    sizes = [int(x) for x in (rng.integers(32 // k + 1, 36 // k + 1, size=k) if large else rng.integers(2, 5, size=k))]
    lab = np.repeat(np.arange(k), sizes)
    lab = lab[rng.permutation(lab.size)]
    n = lab.size
    P = np.where(lab[:, None] == lab[None, :], rng.random((n, n)) + 0.4, 0.0)
    P /= P.sum(axis=1, keepdims=True)
    R = rng.random((n, n)) + 0.05
    P = 0.999 * P + 0.001 * R / R.sum(axis=1, keepdims=True)
    P /= P.sum(axis=1, keepdims=True)
    method = str(rng.choice(['adaptive', 'spectral-bottom-up', 'spectral-top-down']))
    mc = pydtmc.MarkovChain(P)
    pi = ref.stationary_of_class(P, list(range(n)))
    mon.context(P=P, clusters=lab, s=k, method=method)
    mon.distinct(P, k, method)
    mon.event('clusters-many-states' if large else 'clusters')
    out = mc.aggregate(k, method)
    kit.valid_chain(mon, pydtmc, out)
    mon.check(matches(out.p, aggregated(P, pi, [int(x) for x in lab])), 'clusters', lambda: f'{out.p.tolist()} is not the aggregation by the clusters')


def split(P, pi, part, gap=1e-5, margin=1e-6):
    # the split of a set of states by the sign of the second eigenvector of its additive reversibilization, or None when it is not clear
    part = sorted(part)
    M, w = P[np.ix_(part, part)], pi[part]
    d = np.sqrt(w)
    A = 0.5 * (M + (M.T * w) / w[:, None])
    e, V = np.linalg.eigh((A * d[:, None]) / d)
    order = np.argsort(-np.abs(e))
    e, v = e[order], V[:, order[1]] / d
    if abs(abs(e[0]) - abs(e[1])) < gap or (len(part) > 2 and abs(abs(e[1]) - abs(e[2])) < gap) or np.abs(v).min() < margin * np.abs(v).max() or (v > 0).all() or (v < 0).all():
        return None
    return [i for i, x in zip(part, v) if x > 0], [i for i, x in zip(part, v) if x < 0]


def divergence(P, pi, parts):
    # the Kullback-Leibler divergence rate between the chain and the lift of its aggregation by the stationary distribution
    n = P.shape[0]
    where = np.zeros(n, dtype=int)
    for i, part in enumerate(parts):
        where[part] = i
    F = np.eye(len(parts))[where]
    mass = pi @ F
    Q = (F.T * pi) @ P @ F / mass[:, None]
    L = Q[np.ix_(where, where)] * pi[None, :] / mass[where][None, :]
    ok = P > 0
    return float((pi[:, None] * P)[ok] @ np.log(P[ok] / L[ok]))


def refine(P, pi, s):
    parts = [list(range(P.shape[0]))]
    while len(parts) < s:
        found = []
        for i, part in enumerate(parts):
            if len(part) > 1:
                halves = split(P, pi, part)
                if halves is None:
                    return None
                new = parts[:i] + list(halves) + parts[i + 1:]
                found.append((divergence(P, pi, new), new))
        found.sort(key=lambda x: x[0])
        if len(found) > 1 and found[1][0] - found[0][0] < 1e-7:
            return None
        parts = found[0][1]
    return parts


def coarsen(P, pi, s):
    # merges, one after the other, the best of the pairs at the leaves of the tree of spectral splits of the current aggregation
    parts = [[i] for i in range(P.shape[0])]
    while len(parts) > s:
        k = len(parts)
        string = np.zeros(P.shape[0], dtype=int)
        for i, part in enumerate(parts):
            string[part] = i
        Q = aggregated(P, pi, [int(x) for x in string])
        w = np.array([pi[part].sum() for part in parts])
        pairs, todo = [], [list(range(k))]
        while todo:
            group = todo.pop()
            if len(group) == 2:
                pairs.append(group)
            elif len(group) > 2:
                halves = split(Q, w, group, 1e-4, 1e-3)
                if halves is None:
                    return None
                todo.extend(halves)
        found = sorted(((divergence(P, pi, [q for x, q in enumerate(parts) if x not in (i, j)] + [parts[i] + parts[j]]), i, j) for i, j in pairs), key=lambda x: x[0])
        if len(found) > 1 and found[1][0] - found[0][0] < 1e-7:
            return None
        _, i, j = found[0]
        parts = [q for x, q in enumerate(parts) if x not in (i, j)] + [parts[i] + parts[j]]
    return parts


def optimum(P, d, weighted):
    # non-negative least squares over the symmetric flows d_i x_ij, row sums enforced by a large weight
    n = P.shape[0]
    if (d == 0).any():
        # a state without weight is free to keep its row; the others never lead to it
        X = P.copy()
        pos = np.flatnonzero(d > 0)
        if pos.size == 1:
            X[pos] = 0
            X[pos, pos] = 1
            return X
        sub = optimum(P[np.ix_(pos, pos)], d[pos], False)
        if sub is None:
            return None
        X[pos] = 0
        X[np.ix_(pos, pos)] = sub
        return X
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    rows, rhs = [], []
    for i in range(n):
        for j in range(n):
            w = np.sqrt(d[i] / d[j]) if weighted else 1.0
            r = np.zeros(len(pairs))
            r[pairs.index((min(i, j), max(i, j)))] = w / d[i]
            rows.append(r)
            rhs.append(w * P[i, j])
    big = 1e5
    for i in range(n):
        r = np.zeros(len(pairs))
        for k, (a, b) in enumerate(pairs):
            if i in (a, b):
                r[k] = big / d[i]
        rows.append(r)
        rhs.append(big)
    try:
        x, _ = spo.nnls(np.array(rows), np.array(rhs), maxiter=5000)
    except RuntimeError:
        return None
    X = np.zeros((n, n))
    for k, (a, b) in enumerate(pairs):
        X[a, b] = x[k] / d[a]
        X[b, a] = x[k] / d[b]
    return X


def distance(P, X, d, weighted):
    w = d[:, None] / d[None, :] if weighted else 1.0
    return float((w * (X - P)**2).sum())


def tightly(mc, d, weighted):
    # the closest reversible chain computed with a tighter tolerance; None when it is refused or does not use the solver
    original, used = spo.minimize, []

    def minimize(*args, **kwargs):
        used.append(1)
        kwargs['options'] = {'disp': False, 'ftol': 1e-16, 'maxiter': 2000}
        return original(*args, **kwargs)
    # wherever the package keeps it
    places = [(m, k) for name, m in list(sys.modules.items()) if m is not None and (name == 'scipy.optimize' or name.split('.')[0] == 'pydtmc') for k, v in list(vars(m).items()) if v is original]
    for m, k in places:
        setattr(m, k, minimize)
    try:
        out = mc.closest_reversible(d, weighted).p
    except ValueError:
        out = None
    finally:
        for m, k in places:
            setattr(m, k, original)
    return out if used else None


def closest(rng, mon):

    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 4, 5, 6), p=(.3, .3, .25, .15))
    n = P.shape[0]
    if rng.random() < 0.2:
        # a reversible chain, perturbed
        W = rng.random((n, n)) + 0.05
        P = W + W.T
        if rng.random() < 0.4:
            P += np.diag(P.sum(axis=1).max() - P.sum(axis=1))
        P /= P.sum(axis=1, keepdims=True)
        P *= np.exp(10.0**-rng.uniform(1, 7) * rng.normal(size=(n, n)))
        P /= P.sum(axis=1, keepdims=True)
        mon.event('nearly-reversible')
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    before = kit.freeze(mc)
    weighted = bool(rng.random() < 0.4)
    r = rng.random()
    if r < 0.25:
        args, d = [None], np.full(n, 1 / n)
    else:
        d = gen.distribution(rng, n, None if r > 0.7 else 'dense')
        if rng.random() < 0.2:
            # states of little weight
            d = d * 10.0**-rng.uniform(0, 4, size=n)
            d /= d.sum()
            mon.event('little-weight')
        args = [d.copy() if rng.random() < 0.5 else d.tolist()]
    mon.context(kind=kind, P=P, labels=lab, distribution=d, weighted=weighted)
    if weighted and (d == 0).any():
        kit.rejected(mon, pydtmc, 'weighted-null-probabilities', mc.closest_reversible, *args, weighted)
        return
    try:
        out = mc.closest_reversible(args[0], weighted)
    except ValueError as ex:
        # the documented refusal: only when weights are small or when the optimum falls apart
        Y = optimum(P, d, weighted) if d.min() >= 0.03 else None
        if Y is not None and np.abs(Y.sum(axis=1) - 1).max() < 1e-6 and ref.is_irreducible(np.where(Y > 1e-2, Y, 0)):
            mon.fail('computable', f'{ex!r} although {Y.tolist()} is a reversible chain')
        return mon.skip('could not be computed')
    mon.rules['computable'] += 1
    kit.valid_chain(mon, pydtmc, out)
    mon.equal(out.states, names, 'labels')
    mon.check(out.is_reversible is True, 'reversible')
    kit.unchanged(mon, mc, before)
    X = out.p
    if mc.is_reversible:
        mon.event('reversible-already')
        mon.close(X, P, 'reversible-already', 1e-9, 1e-9)
        return
    mon.distinct(P, d, weighted)
    if (d == 0).any():
        mon.event('null-probabilities')
    F = d[:, None] * X
    mon.close(F, F.T, 'detailed-balance', 0, 1e-6)
    got = distance(P, X, d, weighted)
    Y = optimum(P, d, weighted)
    if Y is None:
        return mon.skip('no reference optimum')
    # a reference which violates its constraints is no reference
    if np.abs(Y.sum(axis=1) - 1).max() > 1e-6:
        return mon.skip('no reference optimum')
    best = distance(P, Y, d, weighted)
    if got > best + 1e-3 * (1 + best):
        # the known finding is the default tolerance of the solver: with a tighter one the same call reaches the optimum
        tight = tightly(mc, d, weighted)
        if tight is None:
            explained = d[d > 0].min() < 0.03
        else:
            explained = distance(P, tight, d, weighted) <= best + 1e-3 * (1 + best)
        if explained:
            mon.rules['optimal'] += 1
            return mon.known('early-termination', f'distance {got} while {best} is possible')
    mon.check(got <= best + 1e-3 * (1 + best), 'optimal', lambda: f'distance {got} while {best} is possible: {X.tolist()}')


def case(rng, mon, tier, index):
    if rng.random() < 0.55:
        if rng.random() < 0.08:
            kind, P, lab, names = kit.pick_chain(rng)
            n = P.shape[0]
            mc = kit.build(rng, pydtmc, P, lab)
            mon.context(kind=kind, P=P)
            ergodic = ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1
            if n == 2 or not ergodic:
                kit.rejected(mon, pydtmc, 'not-aggregable', mc.aggregate, 2, allow=(ValueError,))
            if n > 2:
                kit.rejected(mon, pydtmc, 'invalid-size', mc.aggregate, gen.pick(rng, [n, n + 1, 1, 0, -1, 2.5, '2', None]))
            return
        if rng.random() < 0.25:
            return clusters(rng, mon, tier)
        aggregation(rng, mon)
    else:
        closest(rng, mon)


def finish(mon, tier, seed):
    P = np.array([[0.4, 0.15, 0.05, 0.4], [0.35, 0.05, 0.25, 0.35], [0.9, 0.05, 0.0, 0.05], [0.4, 0.25, 0.1, 0.25]])
    d = np.array([0.0001, 0.3999, 0.0, 0.6])
    mon.context(witness=P, distribution=d)
    X = pydtmc.MarkovChain(P).closest_reversible(d).p
    best = distance(P, optimum(P, d, False), d, False)
    if distance(P, X, d, False) > best + 1e-3 * (1 + best):
        mon.known('early-termination', 'witness')
