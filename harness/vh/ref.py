# Independent reference models. Nothing here uses the code under test, and the methods differ from the ones it uses
# (boolean closures instead of graph algorithms, linear systems per class instead of eigenvectors, enumeration instead of
# recursions wherever the size allows it).
import itertools
import math

from fractions import Fraction

import numpy as np


# structure

def closure(P):
    # reach[i, j]: j can be reached from i in zero or more steps
    n = P.shape[0]
    R = (np.asarray(P) > 0) | np.eye(n, dtype=bool)
    for k in range(n):
        R |= np.outer(R[:, k], R[k, :])
    return R


def classes(P):
    # communicating classes: largest first, ties by smallest state
    R = closure(P)
    M = R & R.T
    seen, out = set(), []
    for i in range(P.shape[0]):
        if i not in seen:
            c = [int(j) for j in np.flatnonzero(M[i])]
            seen.update(c)
            out.append(c)
    return sorted(out, key=lambda c: (-len(c), c[0]))


def is_closed(P, c):
    s = set(c)
    return all(int(j) in s for i in c for j in np.flatnonzero(P[i] > 0))


def recurrent_classes(P):
    return [c for c in classes(P) if is_closed(P, c)]


def transient_classes(P):
    return [c for c in classes(P) if not is_closed(P, c)]


def transient_states(P):
    return sorted(i for c in transient_classes(P) for i in c)


def is_irreducible(P):
    return len(classes(P)) == 1


def period_of(P, c):
    # gcd of the closed walk lengths inside the class, through powers of the boolean matrix up to 2|c| + 1
    A = (P[np.ix_(c, c)] > 0)
    n = len(c)
    # dist/bfs levels: gcd over edges of level(u) + 1 - level(v)
    level = {0: 0}
    queue = [0]
    g = 0
    while queue:
        u = queue.pop(0)
        for v in np.flatnonzero(A[u]):
            v = int(v)
            if v not in level:
                level[v] = level[u] + 1
                queue.append(v)
            else:
                g = math.gcd(g, abs(level[u] + 1 - level[v]))
    return g


def cyclic_classes(P):
    # irreducible chain: states by residue of the walk length from state 0 modulo the period
    n = P.shape[0]
    d = period_of(P, list(range(n)))
    level = {0: 0}
    queue = [0]
    while queue:
        u = queue.pop(0)
        for v in np.flatnonzero(P[u] > 0):
            v = int(v)
            if v not in level:
                level[v] = level[u] + 1
                queue.append(v)
    out = {}
    for s, l in level.items():
        out.setdefault(l % d, []).append(s)
    return d, [sorted(x) for x in out.values()]


# distributions

def stationary_of_class(P, c):
    out = np.zeros(P.shape[0])
    out[c] = precise_stationary(P[np.ix_(c, c)])
    return out


def exact_stationary(Q):
    # rational arithmetic on the off-diagonal entries: accurate in every component, however small
    from fractions import Fraction
    n = Q.shape[0]
    if n == 1:
        return np.ones(1)
    A = [[Fraction(float(Q[i, j])) if i != j else Fraction(0) for j in range(n)] for i in range(n)]
    for i in range(n):
        A[i][i] = -sum(A[i])
    # solve x A = 0, sum x = 1 by elimination
    M = [[A[j][i] for j in range(n)] + [Fraction(0)] for i in range(n - 1)]
    M.append([Fraction(1)] * n + [Fraction(1)])
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        inv = 1 / M[c][c]
        M[c] = [v * inv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return np.array([float(M[i][n]) for i in range(n)])


def state_reduction(Q):
    # elimination of one state after the other without subtractions: accurate in every component
    A = np.array(Q, dtype=np.longdouble)
    n = A.shape[0]
    for k in range(n - 1, 0, -1):
        A[:k, k] /= A[k, :k].sum()
        A[:k, :k] += np.outer(A[:k, k], A[k, :k])
    x = np.zeros(n, dtype=np.longdouble)
    x[0] = 1
    for k in range(1, n):
        x[k] = x[:k] @ A[:k, k]
    return np.asarray(x / x.sum(), dtype=float)


def precise_stationary(Q):
    # of an irreducible matrix
    return exact_stationary(Q) if Q.shape[0] <= 8 else state_reduction(Q)


def stationaries(P):
    return [stationary_of_class(P, c) for c in recurrent_classes(P)]


# absorption, hitting, passage

def hitting(P, targets, exact=False):
    # minimal non-negative solutions of the hitting equations
    def solution(A, b):
        return exact_inverse(A) @ b if exact else np.linalg.solve(A, b)

    n = P.shape[0]
    T = sorted(set(targets))
    R = closure(P)
    can = [i for i in range(n) if R[i, T].any()]
    solve = [i for i in can if i not in T]
    hp = np.zeros(n)
    hp[T] = 1.0
    if solve:
        A = np.eye(len(solve)) - P[np.ix_(solve, solve)]
        hp[solve] = solution(A, P[np.ix_(solve, T)].sum(axis=1))
    # states which can avoid the targets forever
    Q = P.copy()
    Q[T, :] = 0
    Q[T, T] = 1
    RQ = closure(Q)
    lost = [i for i in range(n) if i not in can]
    ht = np.zeros(n)
    fin = []
    for i in range(n):
        if i in T:
            continue
        if any(RQ[i, j] for j in lost):
            ht[i] = np.inf
        else:
            fin.append(i)
    if fin:
        A = np.eye(len(fin)) - P[np.ix_(fin, fin)]
        ht[fin] = solution(A, np.ones(len(fin)))
    return hp, ht


def taboo(P, S):
    # expected visits of every state of S before S is left for the first time, in rational arithmetic; what a row lacks is on the diagonal
    n = P.shape[0]
    S = list(S)
    F = [[Fraction(float(P[i, j])) for j in range(n)] for i in range(n)]
    A = [[-F[i][j] if i != j else sum(F[i][k] for k in range(n) if k != i) for j in S] + [Fraction(int(i == j)) for j in S] for i in S]
    m = len(S)
    for c in range(m):
        r = next(r for r in range(c, m) if A[r][c] != 0)
        A[c], A[r] = A[r], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for r in range(m):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [[A[r][m + c] for c in range(m)] for r in range(m)]


def passages(P, targets):
    # hitting probabilities and times of chains which hardly ever move on
    n = P.shape[0]
    T = sorted(set(targets))
    R = closure(P)
    can = [i for i in range(n) if R[i, T].any()]
    solve = [i for i in can if i not in T]
    hp, ht = np.zeros(n), np.full(n, np.inf)
    hp[T], ht[T] = 1.0, 0.0
    N = taboo(P, solve)
    for a, i in enumerate(solve):
        hp[i] = float(sum(N[a][b] * sum((Fraction(float(P[j, t])) for t in T), Fraction(0)) for b, j in enumerate(solve)))
    Q = P.copy()
    Q[T, :] = 0
    Q[T, T] = 1
    RQ = closure(Q)
    lost = [i for i in range(n) if i not in can]
    sure = [i for i in solve if not any(RQ[i, j] for j in lost)]
    N = taboo(P, sure)
    for a, i in enumerate(sure):
        ht[i] = float(sum(N[a]))
    return hp, ht


def mfpt(P):
    n = P.shape[0]
    M = np.zeros((n, n))
    for t in range(n):
        M[:, t] = hitting(P, [t])[1]
    return M


def return_probability(P, i):
    hp = hitting(P, [i])[0]
    v = float(P[i] @ hp)
    return v


def exact_inverse(A):
    # rational arithmetic
    from fractions import Fraction
    n = A.shape[0]
    M = [[Fraction(float(x)) for x in row] + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(A)]
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        inv = 1 / M[c][c]
        M[c] = [v * inv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return np.array([[float(x) for x in row[n:]] for row in M])


def mean_visits(P, rational=False):
    # expected number of visits after time zero
    n = P.shape[0]
    tr = transient_states(P)
    R = closure(P)
    out = np.zeros((n, n))
    N = np.zeros((0, 0))
    if tr:
        A = np.eye(len(tr)) - P[np.ix_(tr, tr)]
        N = np.array(taboo(P, tr), dtype=float) if rational else exact_inverse(A) if len(tr) <= 8 else np.linalg.inv(A)
    for j in range(n):
        reach = (P > 0) @ R[:, j]
        for i in range(n):
            if not reach[i]:
                out[i, j] = 0.0
            elif j not in tr:
                out[i, j] = np.inf
            else:
                # visits after time zero: one step, then all the visits from there
                out[i, j] = sum(P[i, k] * N[tr.index(k), tr.index(j)] for k in tr) if i in tr else 0.0
    return out


def first_passage(P, start, targets, steps):
    # distribution of the first passage time through the set, by propagation of the taboo distribution
    n = P.shape[0]
    d = np.zeros(n)
    d[start] = 1.0
    out = []
    for _ in range(steps):
        d = d @ P
        out.append(d[targets].sum())
        d = d.copy()
        d[targets] = 0
    return np.array(out)


# transformations

def powers(P, k):
    out = np.eye(P.shape[0])
    for _ in range(k):
        out = out @ P
    return out


def far_power(P, k, bits=400):
    """P**k for orders beyond any loop: repeated squaring in integers, whose rows are brought back to their exact sum."""
    n = len(P)
    one = 1 << bits

    def rows(M):
        out = []
        for row in M:
            total = sum(row)
            out.append([(x * one) // total for x in row])
        return out

    def times(A, B):
        return rows([[sum(A[i][h] * B[h][j] for h in range(n)) >> bits for j in range(n)] for i in range(n)])

    base = rows([[int(Fraction(float(x)) * one) for x in row] for row in P])
    out = None
    while k > 0:
        if k & 1:
            out = base if out is None else times(out, base)
        base = times(base, base)
        k >>= 1
    return np.array([[float(Fraction(x, one)) for x in row] for row in out])


def subchain_states(P, states):
    R = closure(P)
    return sorted({int(j) for s in states for j in np.flatnonzero(R[s])})


def is_lumpable(P, part):
    for block in part:
        for other in part:
            v = P[np.ix_(block, other)].sum(axis=1)
            if not np.allclose(v, v[0], atol=1e-9):
                return False
    return True


def lump(P, part):
    return np.array([[P[np.ix_([b[0]], o)].sum() for o in part] for b in part])


def contiguous_partitions(n):
    for cut in itertools.product([0, 1], repeat=n - 1):
        blocks, cur = [], [0]
        for i, c in enumerate(cut):
            if c:
                blocks.append(cur)
                cur = []
            cur.append(i + 1)
        blocks.append(cur)
        if 2 <= len(blocks) < n:
            yield blocks


# hidden Markov models

def hmm_paths(P, E, init, symbols):
    # every state path with its joint probability: the initial distribution is at time zero, a transition precedes every
    # emission; returns dict path(s_1..s_T) -> probability, marginalised over the state at time zero
    n = P.shape[0]
    first = init @ P
    out = {}
    for path in itertools.product(range(n), repeat=len(symbols)):
        pr = first[path[0]] * E[path[0], symbols[0]]
        for t in range(1, len(symbols)):
            if pr == 0:
                break
            pr *= P[path[t - 1], path[t]] * E[path[t], symbols[t]]
        out[path] = pr
    return out


def hmm_forward(P, E, init, symbols):
    # log-likelihood in the log domain, exact to rounding for any length
    a = np.asarray(init, dtype=float)
    ll = 0.0
    for s in symbols:
        a = (a @ P) * E[:, s]
        z = a.sum()
        if z <= 0:
            return -np.inf
        ll += math.log(z)
        a = a / z
    return ll
