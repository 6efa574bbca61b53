# Workload generators: transition matrices with a known structure, labels, input forms and ways to refer to a state.
import numpy as np

UNICODE = ['αlpha', 'βeta', 'ünïcode', '日本', 'Ωmega', 'ñandú', 'éclair', 'žlutý', 'кот', 'ß', 'ø', 'İ', 'ǆ', '𝒳', 'ﬁ', 'Å', 'ç', 'ł', 'đ', 'þ']
WORDS = ['sunny', 'cloudy', 'rainy', 'snow', 'Fog', 'hail', 'wind', 'STORM', 'dry', 'wet', 'hot', 'cold', 'up', 'down', 'flat', 'bull', 'bear', 'calm', 'mist', 'dew']


def labels(rng, n, style=None, prefix=''):
    # returns None (default labels) or a list of n distinct valid labels, usually not in lexicographic order
    style = style or rng.choice(['default', 'letters', 'shuffled', 'numeric', 'words', 'unicode', 'overlap', 'spaced', 'case', 'index'])
    style = str(style)
    if style == 'default':
        return None
    if style == 'letters':
        out = [f'{prefix}{chr(65 + i % 26)}{i // 26 or ""}' for i in range(n)]
    elif style == 'shuffled':
        out = [f'{prefix}s{i}' for i in rng.permutation(n)]
    elif style == 'numeric':
        out = [prefix + str(int(x)) for x in rng.permutation(np.arange(1, n + 1))]
    elif style == 'index':
        # numeric labels equal to the index of another state
        out = [prefix + str(int(x)) for x in np.roll(np.arange(n), int(rng.integers(1, max(2, n))))]
    elif style == 'words':
        out = [prefix + (WORDS[i] if i < len(WORDS) else f'w{i}') for i in rng.permutation(n)]
    elif style == 'unicode':
        out = [prefix + (UNICODE[i] if i < len(UNICODE) else f'ü{i}') for i in rng.permutation(n)]
    elif style == 'overlap':
        # labels which are prefixes of one another
        out = [prefix + 'a' * (i + 1) for i in rng.permutation(n)]
    elif style == 'spaced':
        out = [f'{prefix}state no {i}' for i in rng.permutation(n)]
    elif style == 'blanks':
        # labels which differ only by the blanks around them
        out = [' ' * (i % 2) + prefix + 'v' + str(i // 4) + ' ' * (i // 2 % 2) for i in rng.permutation(n)]
    else:
        out = [f'{prefix}{"x" if i % 2 else "X"}{i // 2}' for i in rng.permutation(n)]
    return [str(x) for x in out]


def default_labels(n, prefix=''):
    return [f'{prefix}{i}' for i in range(1, n + 1)]


def dyadic_row(rng, n, support, denom):
    # a row with the given support whose entries are multiples of 1/denom (a power of two): its sum is exactly one
    k = len(support)
    row = np.zeros(n)
    if k == 1:
        row[support[0]] = 1.0
        return row
    while denom < k:
        denom *= 2
    cuts = np.sort(rng.choice(np.arange(1, denom), size=k - 1, replace=False))
    parts = np.diff(np.concatenate(([0], cuts, [denom])))
    row[support] = parts / denom
    return row


def random_row(rng, n, support, style, denom=64):
    support = np.asarray(support, dtype=int)
    if style == 'dyadic':
        return dyadic_row(rng, n, support, denom)
    row = np.zeros(n)
    k = support.size
    if k == 1:
        row[support[0]] = 1.0
        return row
    if style == 'decimal':
        # rows written with two decimals, as users do
        w = rng.multinomial(100 - k, rng.dirichlet(np.ones(k))) + 1
        row[support] = w / 100.0
        return row
    if style == 'skewed':
        w = rng.dirichlet(np.ones(k)) * 0.97 + 0.03 / k
        w = w**2
        w = np.maximum(w / w.sum(), 2e-3)
    else:
        w = rng.dirichlet(np.full(k, 2.0)) * 0.9 + 0.1 / k
    row[support] = w / w.sum()
    return row


def pick_style(rng):
    return str(rng.choice(['dyadic', 'decimal', 'float', 'skewed'], p=[0.35, 0.25, 0.25, 0.15]))


def supports_irreducible(rng, n, period, extra):
    # the support of an irreducible block of n states and the given period: cyclic layers, strongly connected by a tour
    layers = [[] for _ in range(period)]
    order = list(rng.permutation(n))
    for i, s in enumerate(order):
        layers[i % period if i < period else int(rng.integers(period))].append(int(s))
    sup = [set() for _ in range(n)]
    big = max(len(x) for x in layers)
    # tour through every state: 'big' laps over the layers
    tour = [layers[d][lap % len(layers[d])] for lap in range(big) for d in range(period)]
    for a, b in zip(tour, tour[1:] + tour[:1]):
        sup[a].add(b)
    for d in range(period):
        for a in layers[d]:
            for b in layers[(d + 1) % period]:
                if rng.random() < extra:
                    sup[a].add(b)
    return [sorted(x) for x in sup], layers


def structured(rng, nmax=10, recurrent=None, periods=None, transient=None, style=None, permute=True):
    # a chain with known recurrent classes and periods, and known transient states; returns (P, info)
    style = style or pick_style(rng)
    if recurrent is None:
        recurrent = int(rng.choice([1, 1, 2, 3]))
    sizes, pers = [], []
    budget = nmax
    for c in range(recurrent):
        left = recurrent - c - 1
        top = max(1, min(budget - left, nmax // recurrent + 2))
        size = int(rng.integers(1, top + 1))
        per = periods[c] if periods else int(rng.choice([1, 1, 2, 3, 4]))
        per = min(per, size)
        sizes.append(size)
        pers.append(per)
        budget -= size
    t = int(rng.integers(0, max(1, min(budget, 6)) + 1)) if transient is None else int(transient)
    t = max(0, min(t, max(budget, 0)))
    n = sum(sizes) + t
    if n < 2:
        t += 2 - n
        n = 2
    P = np.zeros((n, n))
    classes, offset, true_pers = [], 0, []
    for size, per in zip(sizes, pers):
        sup, _ = supports_irreducible(rng, size, per, float(rng.choice([0.1, 0.4, 0.9])))
        for i in range(size):
            P[offset + i] = random_row(rng, n, [offset + j for j in sup[i]], style)
        classes.append(list(range(offset, offset + size)))
        offset += size
    trans = list(range(offset, n))
    for idx, i in enumerate(trans):
        # each transient state reaches the recurrent part directly or through an earlier transient state
        targets = list(range(offset)) + trans[:idx]
        sup = {int(rng.choice(targets))}
        for j in range(n):
            if rng.random() < 0.25:
                sup.add(j)
        P[i] = random_row(rng, n, sorted(sup), style)
    if permute:
        perm = rng.permutation(n)
        Q = np.zeros_like(P)
        Q[np.ix_(perm, perm)] = P
        P = Q
    return P


def blocks(rng, top=24):
    # several classes, many of them large, the links between which form a random acyclic graph
    k = int(rng.integers(2, 5))
    sizes = [int(rng.integers(2, top + 1)) for _ in range(k)]
    starts = np.concatenate(([0], np.cumsum(sizes)))
    n = int(starts[-1])
    P = np.zeros((n, n))
    dense = float(rng.choice([0.05, 0.3, 0.9]))
    style = pick_style(rng)
    for c in range(k):
        sup, _ = supports_irreducible(rng, sizes[c], min(sizes[c], int(rng.choice([1, 1, 1, 2, 3]))), dense)
        linked = c > 0 and rng.random() < 0.7
        gate = int(rng.integers(sizes[c]))
        for i in range(sizes[c]):
            out = [int(starts[c]) + j for j in sup[i]]
            if linked and (i == gate or rng.random() < 0.1):
                out += [int(x) for x in rng.choice(int(starts[c]), size=int(rng.integers(1, 3)))]
            P[starts[c] + i] = random_row(rng, n, sorted(set(out)), style)
    perm = rng.permutation(n)
    Q = np.zeros_like(P)
    Q[np.ix_(perm, perm)] = P
    return Q


def scales(rng, P, strength=None):
    # replaces some entries by powers of two between 2**-6 and 2**-28, so that others come close to one; the support is kept
    P = P.copy()
    top = strength or int(rng.choice([10, 16, 22, 28]))
    dense = rng.random() < 0.5
    for i in range(P.shape[0]):
        sup = [int(j) for j in np.flatnonzero(P[i] > 0)]
        if len(sup) < 2 or rng.random() > (0.8 if dense else 0.3):
            continue
        small = [sup[k] for k in rng.permutation(len(sup))[:int(rng.integers(1, len(sup)))]]
        rest = [j for j in sup if j not in small]
        for j in small:
            P[i, j] = 2.0**-int(rng.integers(6, top + 1))
        P[i, rest] /= P[i, rest].sum()
        P[i, rest] *= 1 - P[i, small].sum()
        if len(rest) == 1:
            P[i, rest[0]] = 1 - P[i, small].sum()
    return P


def leaky(rng, P, top=28):
    # the walk leaves some of the transient classes with a very small probability only; the support is kept
    from . import ref
    P = P.copy()
    for c in ref.transient_classes(P):
        out = [j for j in range(P.shape[0]) if j not in c]
        scale = 2.0**-int(rng.integers(6, top + 1))
        if not all(P[np.ix_([i], c)].sum() > 0 for i in c):
            continue
        for i in c:
            gone = P[i, out].sum()
            if gone > 0:
                P[i, out] *= scale
                P[i, c] *= (1 - gone * scale) / P[i, c].sum()
    return P


def rare(rng, P, top=24):
    # one state is hardly ever entered: its entries in the rows of the other states become very small; the support is kept
    P = P.copy()
    n = P.shape[0]
    s = int(rng.integers(n))
    for i in range(n):
        rest = [j for j in range(n) if j != s]
        if i != s and P[i, s] > 0 and P[i, rest].sum() > 0:
            P[i, s] = 2.0**-int(rng.integers(top - 10, top + 1))
            P[i, rest] *= (1 - P[i, s]) / P[i, rest].sum()
    return P


def tiny(rng, P):
    # replaces some entries by very small ones, keeping the support and the row sums (the largest entry takes the mass)
    P = P.copy()
    for i in range(P.shape[0]):
        sup = np.flatnonzero(P[i] > 0)
        if sup.size > 2 and rng.random() < 0.6:
            j = int(rng.choice(sup))
            rest = [k for k in sup if k != j]
            P[i, j] = float(10.0**-rng.integers(3, 13))
            P[i, rest] *= (1 - P[i, j]) / P[i, rest].sum()
    return P


def extreme(rng, P):
    # some entries become positive numbers which nothing but a comparison with zero sees (down to 1e-300); the support is kept
    P = P.copy()
    for i in range(P.shape[0]):
        sup = np.flatnonzero(P[i] > 0)
        if sup.size > 2 and rng.random() < 0.6:
            j = int(rng.choice(sup))
            rest = [k for k in sup if k != j]
            P[i, j] = float(10.0**-int(10**rng.uniform(0.6, 2.47)))
            P[i, rest] *= (1 - P[i, j]) / P[i, rest].sum()
    return P


def deep_leak(rng, low=30, top=42, end='absorbing'):
    # a small closed-looking group of states which the walk leaves with a probability of 2**-low to 2**-top only; sums are exact
    m, a = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = m + a
    P = np.zeros((n, n))
    for i in range(m):
        sup = {(i + 1) % m}
        sup |= {j for j in range(m) if rng.random() < 0.5}
        P[i, :m] = dyadic_row(rng, m, sorted(sup), 16)
    if end == 'absorbing' or a == 1:
        P[m:, m:] = np.eye(a)
    else:
        for i in range(a):
            P[m + i, m:] = dyadic_row(rng, a, sorted({(i + 1) % a} | {j for j in range(a) if rng.random() < 0.5}), 16)
    for i in rng.permutation(m)[:int(rng.integers(1, m + 1))]:
        outs = m + rng.permutation(a)[:int(rng.integers(1, min(a, 2) + 1))]
        e = 2.0**-int(rng.integers(low, top + 1))
        parts = [e] if len(outs) == 1 else ([e / 2, e / 2] if rng.random() < 0.5 else [e / 4, 3 * e / 4])
        for j, x in zip(outs, parts):
            P[i, j] = x
        k = int(np.argmax(P[i, :m]))
        P[i, k] -= sum(parts)
    perm = rng.permutation(n)
    Q = np.zeros_like(P)
    Q[np.ix_(perm, perm)] = P
    return Q


def isolated(rng, end):
    # groups of states which the walk leaves with probabilities around and far below the rounding of one; the last group is absorbing or recurrent
    sizes = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 3)))]
    last = 1 if end == 'absorbing' else int(rng.integers(2, 4))
    groups, at = [], 0
    for k in sizes + [last] * (2 if end == 'absorbing' and rng.random() < 0.5 else 1):
        groups.append(list(range(at, at + k)))
        at += k
    P = np.zeros((at, at))
    for g in groups:
        for x, i in enumerate(g):
            sup = {g[(x + 1) % len(g)]} | {j for j in g if rng.random() < 0.5}
            P[i, sorted(sup)] = rng.uniform(0.1, 1, size=len(sup))
    P /= P.sum(axis=1, keepdims=True)
    back = end == 'recurrent' and rng.random() < 0.5
    tails = groups[len(sizes):]
    for k, g in enumerate(groups[:len(sizes)]):
        for target in [groups[k + 1]] + (tails if rng.random() < 0.5 else []):
            P[gen_pick(rng, g), gen_pick(rng, target)] = float(rng.uniform(1, 9)) * 10.0**-int(rng.integers(10, 30))
        if k and rng.random() < 0.5:
            P[gen_pick(rng, g), gen_pick(rng, groups[k - 1])] = float(rng.uniform(1, 9)) * 10.0**-int(rng.integers(10, 30))
    if back:
        P[gen_pick(rng, groups[-1]), gen_pick(rng, groups[0])] = float(rng.uniform(1, 9)) * 10.0**-int(rng.integers(10, 30))
    perm = rng.permutation(at)
    Q = np.zeros_like(P)
    Q[np.ix_(perm, perm)] = P
    return Q


def gen_pick(rng, items):
    return items[int(rng.integers(len(items)))]


def ergodic(rng, nmax=10, nmin=2, style=None):
    # irreducible and aperiodic
    style = style or pick_style(rng)
    n = int(rng.integers(nmin, nmax + 1))
    while True:
        sup, _ = supports_irreducible(rng, n, 1, float(rng.choice([0.05, 0.2, 0.5, 1.0])))
        if rng.random() < 0.5:
            for i in range(n):
                if rng.random() < 0.3:
                    sup[i] = sorted(set(sup[i]) | {i})
        P = np.array([random_row(rng, n, sup[i], style) for i in range(n)])
        from . import ref
        if ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1:
            return P


def irreducible(rng, nmax=10, period=None, style=None):
    style = style or pick_style(rng)
    period = period or int(rng.choice([1, 2, 2, 3, 4, 5, 6]))
    n = int(rng.integers(max(2, period), max(nmax, period + 1) + 1))
    sup, _ = supports_irreducible(rng, n, min(period, n), float(rng.choice([0.1, 0.4, 0.9])))
    P = np.array([random_row(rng, n, sup[i], style) for i in range(n)])
    perm = rng.permutation(n)
    return P[np.ix_(perm, perm)]


def absorbing(rng, nmax=10, style=None):
    style = style or pick_style(rng)
    n = int(rng.integers(2, nmax + 1))
    a = int(rng.integers(1, n)) if n > 2 else 1
    a = min(a, int(rng.integers(1, 4)))
    P = np.zeros((n, n))
    for i in range(a):
        P[i, i] = 1.0
    for i in range(a, n):
        sup = {int(rng.integers(0, i))}
        for j in range(n):
            if rng.random() < 0.3:
                sup.add(j)
        P[i] = random_row(rng, n, sorted(sup), style)
    perm = rng.permutation(n)
    return P[np.ix_(perm, perm)]


def birth_death(rng, n, style='dyadic', absorbing_ends=False):
    P = np.zeros((n, n))
    for i in range(n):
        sup = [j for j in (i - 1, i, i + 1) if 0 <= j < n]
        if rng.random() < 0.3 and len(sup) > 1 and 0 < i < n - 1:
            sup.remove(i)
        P[i] = random_row(rng, n, sup, style)
    if absorbing_ends:
        P[0] = 0
        P[0, 0] = 1
        P[-1] = 0
        P[-1, -1] = 1
    return P


def reversible(rng, n, density=0.6):
    W = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            if rng.random() < density or j == i + 1:
                W[i, j] = W[j, i] = float(rng.integers(1, 17))
    return W / W.sum(axis=1, keepdims=True)


def symmetric(rng, n):
    # symmetric and doubly stochastic, exact in binary
    A = np.zeros((n, n))
    k = int(rng.integers(1, 4))
    for _ in range(k):
        p = rng.permutation(n)
        M = np.zeros((n, n))
        M[np.arange(n), p] = 1
        A += (M + M.T) / 2
    w = {1: 1, 2: 2, 3: 4}[k]
    A = A / w + np.eye(n) * (1 - k / w)
    return A


def doubly(rng, n):
    k = int(rng.choice([1, 2, 4]))
    A = np.zeros((n, n))
    for _ in range(k):
        A[np.arange(n), rng.permutation(n)] += 1.0 / k
    return A


def monotone(rng, n):
    # stochastically monotone: rows ordered by dominance (cumulative sums decrease down the rows), exact in binary
    while True:
        C = np.sort(rng.integers(0, 65, size=(n, n - 1)), axis=1)
        C = -np.sort(-C, axis=0)
        C = np.sort(C, axis=1)
        C = np.hstack((np.zeros((n, 1)), C, np.full((n, 1), 64)))
        P = np.diff(C, axis=1) / 64.0
        if (P >= 0).all():
            return P


def lumpable(rng, nmax=9):
    # a chain lumpable with respect to a known contiguous partition, with dyadic entries
    k = int(rng.integers(2, 4))
    sizes = [int(rng.integers(1, 4)) for _ in range(k)]
    if max(sizes) == 1:
        sizes[0] = 2
    while sum(sizes) > nmax:
        sizes[int(np.argmax(sizes))] -= 1
    n = sum(sizes)
    bounds = np.concatenate(([0], np.cumsum(sizes)))
    part = [list(range(bounds[i], bounds[i + 1])) for i in range(k)]
    Q = np.array([dyadic_row(rng, k, sorted(rng.choice(k, size=int(rng.integers(1, k + 1)), replace=False)), 16) for _ in range(k)])
    P = np.zeros((n, n))
    for a in range(k):
        for i in part[a]:
            for b in range(k):
                if Q[a, b] > 0:
                    size = len(part[b])
                    sub = sorted(rng.choice(size, size=int(rng.integers(1, size + 1)), replace=False))
                    P[i, part[b]] = dyadic_row(rng, size, sub, 16) * Q[a, b]
    return P, part, Q


KINDS = ['structured', 'ergodic', 'irreducible', 'absorbing', 'birthdeath', 'gambler', 'identity', 'permutation', 'reversible', 'symmetric', 'doubly', 'monotone', 'rank1', 'lumpable', 'dense', 'ring', 'sparse']


def chain(rng, nmax=10, kind=None):
    # returns (kind, P): any chain
    name, P = plain_chain(rng, nmax, kind)
    if SCALES and name not in ('identity', 'permutation', 'symmetric', 'doubly', 'monotone', 'rank1', 'lumpable') and rng.random() < SCALES:
        return (name + '-leaky', leaky(rng, P)) if name in ('structured', 'absorbing', 'sparse', 'gambler') and rng.random() < 0.4 else (name + '-scales', scales(rng, P))
    return name, P


SCALES = 0.12


def plain_chain(rng, nmax=10, kind=None):
    kind = kind or str(rng.choice(KINDS))
    n = int(rng.integers(2, nmax + 1))
    if kind == 'structured':
        P = structured(rng, nmax)
    elif kind == 'ergodic':
        P = ergodic(rng, nmax)
    elif kind == 'irreducible':
        P = irreducible(rng, nmax)
    elif kind == 'absorbing':
        P = absorbing(rng, nmax)
    elif kind == 'birthdeath':
        P = birth_death(rng, n, pick_style(rng))
    elif kind == 'gambler':
        n = max(n, 3)
        w = float(rng.choice([0.25, 0.5, 0.6, 0.75, 0.375]))
        P = np.zeros((n, n))
        P[0, 0] = P[-1, -1] = 1
        for i in range(1, n - 1):
            P[i, i - 1], P[i, i + 1] = 1 - w, w
        perm = rng.permutation(n)
        if rng.random() < 0.5:
            P = P[np.ix_(perm, perm)]
    elif kind == 'identity':
        P = np.eye(n)
    elif kind == 'permutation':
        P = np.eye(n)[rng.permutation(n)]
    elif kind == 'reversible':
        P = reversible(rng, n)
    elif kind == 'symmetric':
        P = symmetric(rng, n)
    elif kind == 'doubly':
        P = doubly(rng, n)
    elif kind == 'monotone':
        P = monotone(rng, n)
    elif kind == 'rank1':
        P = np.tile(random_row(rng, n, sorted(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)), pick_style(rng)), (n, 1))
    elif kind == 'lumpable':
        P = lumpable(rng, max(nmax, 4))[0]
        perm = rng.permutation(P.shape[0])
        if rng.random() < 0.5:
            P = P[np.ix_(perm, perm)]
    elif kind == 'dense':
        P = np.array([random_row(rng, n, range(n), pick_style(rng)) for _ in range(n)])
    elif kind == 'ring':
        n = max(n, 3)
        stay = float(rng.choice([0.0, 0.0, 0.25]))
        fwd = float(rng.choice([0.5, 0.75, 1.0]))
        P = np.zeros((n, n))
        for i in range(n):
            P[i, i] += stay
            P[i, (i + 1) % n] += (1 - stay) * fwd
            P[i, (i - 1) % n] += (1 - stay) * (1 - fwd)
    else:
        d = float(rng.uniform(0.1, 0.6))
        st = pick_style(rng)
        P = np.zeros((n, n))
        for i in range(n):
            sup = [j for j in range(n) if rng.random() < d] or [int(rng.integers(n))]
            P[i] = random_row(rng, n, sup, st)
    return kind, P


# forms in which a matrix can be given

def as_form(rng, M, form=None):
    import pandas as pd
    import scipy.sparse as sp
    form = str(form or rng.choice(['array', 'list', 'frame', 'csr', 'fortran', 'arraylist', 'float32?', 'int?', 'noncontig', 'coo']))
    M = np.asarray(M, dtype=float)
    if form == 'list':
        return form, M.tolist()
    if form == 'frame':
        return form, pd.DataFrame(M, index=[f'r{i}' for i in range(M.shape[0])], columns=[f'c{i}' for i in range(M.shape[1])])
    if form == 'csr':
        return form, sp.csr_matrix(M)
    if form == 'coo':
        return form, sp.coo_matrix(M)
    if form == 'fortran':
        return form, np.asfortranarray(M)
    if form == 'arraylist':
        return form, [np.array(r) for r in M]
    if form == 'noncontig':
        big = np.zeros((2 * M.shape[0], 2 * M.shape[1]))
        big[::2, ::2] = M
        return form, big[::2, ::2]
    if form == 'int?' and np.array_equal(M, M.astype(int)):
        return 'int', M.astype(int)
    if form == 'float32?' and np.array_equal(M.astype(np.float32).astype(float), M):
        return 'float32', M.astype(np.float32)
    return 'array', M.copy()


def state_ref(rng, lab, i):
    # a way to refer to state i
    k = int(rng.integers(4))
    if k == 0:
        return int(i)
    if k == 1:
        return np.int64(i)
    return lab[i]


def state_refs(rng, lab, idx, shuffle=True):
    # a list of references to states; the code under test requires them homogeneous
    idx = list(idx)
    if shuffle:
        idx = [idx[k] for k in rng.permutation(len(idx))]
    if rng.random() < 0.35:
        return [int(i) for i in idx]
    return [lab[i] for i in idx]


def seq_form(rng, lab, idx):
    # a sequence of states: labels or indices
    if rng.random() < 0.4:
        return [int(i) for i in idx]
    return [lab[i] for i in idx]


def distribution(rng, n, style=None):
    style = style or str(rng.choice(['dense', 'sparse', 'point', 'dyadic', 'uniform']))
    if style == 'point':
        d = np.zeros(n)
        d[int(rng.integers(n))] = 1.0
        return d
    if style == 'uniform':
        return np.full(n, 1.0 / n)
    sup = range(n) if style == 'dense' else sorted(rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    return random_row(rng, n, list(sup), 'dyadic' if style == 'dyadic' else 'float')


def walk(rng, P, steps, start=None):
    n = P.shape[0]
    s = int(rng.integers(n)) if start is None else int(start)
    out = [s]
    for _ in range(steps):
        s = int(rng.choice(n, p=P[s] / P[s].sum()))
        out.append(s)
    return out


def emission(rng, n, k, style=None):
    style = style or pick_style(rng)
    E = np.zeros((n, k))
    for i in range(n):
        sup = sorted(rng.choice(k, size=int(rng.integers(1, k + 1)), replace=False)) if rng.random() < 0.5 else list(range(k))
        E[i] = random_row(rng, k, sup, style)
    return E


def hmm(rng, nmax=5, kmax=5):
    kind, P = chain(rng, nmax, str(rng.choice(['dense', 'ergodic', 'structured', 'sparse', 'absorbing', 'irreducible', 'ring', 'identity'])))
    k = int(rng.integers(2, kmax + 1))
    E = emission(rng, P.shape[0], k)
    if rng.random() < 0.15:
        # rare symbols: probabilities down to 1e-60
        kind += '-rare'
        for i in range(P.shape[0]):
            sup = [int(j) for j in rng.permutation(np.flatnonzero(E[i] > 0))]
            if len(sup) > 1 and rng.random() < 0.7:
                E[i, sup[0]] = float(10.0**-rng.integers(5, 14 if rng.random() < 0.6 else 60))
                E[i, sup[1:]] /= E[i, sup[1:]].sum()
                E[i, sup[1:]] *= 1 - E[i, sup[0]]
    return kind, P, E


def big_rows(rng, n, m):
    M = np.zeros((n, m))
    for i in range(n):
        sup = rng.choice(m, size=min(m, int(rng.integers(1, 5))), replace=False)
        M[i, sup] = rng.dirichlet(np.ones(len(sup))) * 0.9 + 0.1 / len(sup)
    return M / M.sum(axis=1, keepdims=True)


def big_chain(rng):
    """More states than a byte can count: one class, or a few closed classes and transient states around them."""
    n = int(rng.integers(129, 300))
    P = big_rows(rng, n, n)
    s = rng.permutation(n)
    if rng.random() < 0.5:
        for a, b in zip(s, np.roll(s, -1)):
            P[a] *= 0.75
            P[a, b] += 0.25
        return 'big', P
    cuts = sorted(int(x) for x in rng.choice(np.arange(1, n), size=3, replace=False))
    blocks = [s[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for b in blocks[:2]:
        P[b] = 0
        P[np.ix_(b, b)] = big_rows(rng, len(b), len(b))
    return 'big', P


def big_cycle(rng):
    """A chain whose period is too large for a byte, with its cyclic classes."""
    d = int(rng.integers(129, 270))
    s = [int(x) for x in rng.permutation(d + int(rng.integers(0, 12)))]
    n = len(s)
    cls = [[x] for x in s[:d]]
    for x in s[d:]:
        cls[int(rng.integers(d))].append(x)
    P = np.zeros((n, n))
    for a, b in zip(cls, cls[1:] + cls[:1]):
        P[np.ix_(a, b)] = rng.dirichlet(np.ones(len(b)), size=len(a))
    return P, sorted((sorted(c) for c in cls), key=lambda c: (-len(c), c[0]))


def big_hmm(rng):
    """More states or symbols than a byte can count."""
    n = int(rng.integers(129, 300))
    k = int(rng.integers(2, 6)) if rng.random() < 0.7 else int(rng.integers(129, 300))
    P, E = big_rows(rng, n, n), big_rows(rng, n, k) if k < 6 else rng.dirichlet(np.ones(k), size=n)
    s = rng.permutation(n)
    for a, b in zip(s, np.roll(s, -1)):
        # a cycle through all the states
        P[a] *= 0.75
        P[a, b] += 0.25
    return 'big', P, E


def pick(rng, items):
    return items[int(rng.integers(len(items)))]


def hmm_labels(rng, n, k):
    # (states, symbols): None or distinct labels which do not overlap
    while True:
        s, y = labels(rng, n), labels(rng, k, None, str(rng.choice(['', 'o_', 'y'])))
        a = s or default_labels(n, 'P')
        b = y or default_labels(k, 'E')
        if not set(a) & set(b):
            return s, y, a, b


def status(rng, names, d=None):
    # an initial status: (argument, distribution)
    n = len(names)
    k = int(rng.integers(4))
    if k == 0:
        return None, np.full(n, 1.0 / n)
    if k == 1:
        i = int(rng.integers(n))
        v = np.zeros(n)
        v[i] = 1.0
        return state_ref(rng, names, i), v
    v = distribution(rng, n)
    return (v.tolist() if k == 2 else v.copy()), v


def emissions(rng, P, E, init, length):
    # a possible sequence of symbols: initial state at time zero, then transition and emission
    s = int(rng.choice(P.shape[0], p=init / init.sum()))
    out, path = [], []
    for _ in range(length):
        s = int(rng.choice(P.shape[0], p=P[s] / P[s].sum()))
        path.append(s)
        out.append(int(rng.choice(E.shape[1], p=E[s] / E[s].sum())))
    return path, out


# seeds whose first draws have one within 2e-6 of one: where cumulated rows fall short of it
EXTREME_SEEDS = [16957, 106212, 122915, 191232, 253505, 385122, 630458, 664210, 904333, 923748, 1031273, 1133883, 1247859, 1472677, 1543026, 1559880, 1945426, 1954674, 1969729]


def loose_rows(rng, n, k):
    # rows which sum to one within the accepted tolerance only, some of them with nothing in the last columns
    M = rng.dirichlet(np.full(k, float(pick(rng, [0.4, 1, 3]))), size=n)
    for i in range(n):
        if rng.random() < 0.4:
            M[i, int(rng.integers(1, k)):] = 0
            M[i] = M[i] / M[i].sum() if M[i].sum() > 0 else np.eye(k)[0]
        M[i] *= float(pick(rng, [1, 1 - 9e-6, 1 - 9e-6, 1 - 5e-6, 1 - 1e-9, 1 + 9e-6]))
    return np.minimum(M, 1.0)
