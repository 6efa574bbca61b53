# C14: committor probabilities and sensitivities.
from fractions import Fraction

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1500, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain and two disjoint sets of states; distinct by matrix and sets; trivial when the chain is not ergodic (committors must be None)'
MINIMUM = {'distinct': 300, 'forward': 200, 'backward': 200, 'sensitivity': 300, 'none': 50, 'small': 40, 'slow': 80, 'sensitive': 30, 'hardly-communicating': 40, 'rare': 10}
ASSUMPTIONS = ['backward committors are skipped when a stationary probability is below 1e-290', 'the sensitivity is judged through the derivative of the stationary probability along random directions with null row sums, and through the normalization by which each row is orthogonal to the stationary distribution']


def forward(W, a, b):
    # probability of reaching b before a, when the jumps out of a state are proportional to the weights;
    # elimination in rational arithmetic
    n = len(W)
    W = {i: {j: Fraction(w) for j, w in enumerate(W[i]) if w and j != i} for i in range(n)}
    rest = [i for i in range(n) if i not in a and i not in b]
    for k, i in enumerate(reversed(rest)):
        later = set(rest[:len(rest) - k - 1])
        total = sum(W[i].values())
        for j in later:
            w = W[j].pop(i, 0)
            if w:
                for x, v in W[i].items():
                    if x != j:
                        W[j][x] = W[j].get(x, 0) + w * v / total
    q = [Fraction(int(i in b)) for i in range(n)]
    for i in rest:
        q[i] = sum(w * q[j] for j, w in W[i].items()) / sum(W[i].values())
    return np.array([float(x) for x in q])


def hardly_communicating(rng):
    # two groups of states which hardly communicate
    n = int(rng.integers(3, 9))
    side = rng.permutation(n) < int(rng.integers(1, n))
    P = np.where(side[:, None] == side[None, :], rng.random((n, n)) + 0.05, 0.0)
    P /= P.sum(axis=1, keepdims=True)
    e = 10.0**-rng.uniform(5, 12.5)
    P = (1 - e) * P + e * rng.dirichlet(np.ones(n), size=n)
    return P / P.sum(axis=1, keepdims=True), side


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['ergodic', 'dense', 'reversible', 'birthdeath', 'irreducible', 'ring'])) if rng.random() < 0.8 else None)
    if rng.random() < 0.2:
        kind, P = 'weakly-linked', gen.scales(rng, gen.ergodic(rng, 9, 4), int(rng.choice([20, 32])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    elif rng.random() < 0.15:
        # rates far below the rounding of a comparison with absolute tolerance; the entries stay exact
        P = np.ceil(P * 2**12)
        np.fill_diagonal(P, 0)
        h = 2.0**-int(rng.integers(8, 24))
        P = P * 2.0**-17 * h
        np.fill_diagonal(P, 1 - P.sum(axis=1))
        kind = 'slow'
        mon.event('slow')
    side = None
    if rng.random() < 0.12:
        kind = 'hardly-communicating'
        P, side = hardly_communicating(rng)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('hardly-communicating')
    elif rng.random() < 0.08 and ref.is_irreducible(P):
        kind, P = 'rare', gen.rare(rng, P, top=60)
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    perm = [int(x) for x in rng.permutation(n)]
    k = int(rng.integers(1, n))
    l = int(rng.integers(k + 1, n + 1))
    if kind == 'weakly-linked':
        k, l = 1, 2
    elif side is not None and rng.random() < 0.7 and min(side.sum(), n - side.sum()) > 0 and max(side.sum(), n - side.sum()) > 1:
        # both sets on one side: the other side is hardly left
        perm.sort(key=lambda i: bool(side[i]) == bool(side.sum() * 2 < n))
        k, l = 1, 2
    a, b = sorted(perm[:k]), sorted(perm[k:l])
    s = int(rng.integers(n))
    mon.context(kind=kind, P=P, labels=names, first=a, second=b, state=s)
    irreducible = ref.is_irreducible(P)
    ergodic = irreducible and ref.period_of(P, list(range(n))) == 1
    f = kit.pick2(rng, mc.committor_probabilities, mc.crp)

    for typ in kit.shuffled(rng, ['forward', 'backward']):
        got = kit.take(f(typ, gen.state_refs(rng, names, a) if rng.random() < 0.8 or len(a) > 1 else gen.state_ref(rng, names, a[0]), gen.state_refs(rng, names, b)))
        if not ergodic:
            mon.event('none')
            mon.check(got is None, 'none-when-not-ergodic', got)
            continue
        mon.distinct(P, a, b)
        if typ == 'forward':
            want = forward(P.tolist(), a, b)
        else:
            pi = ref.stationary_of_class(P, list(range(n)))
            if pi.min() < 1e-290:
                mon.skip('underflow')
                continue
            if pi.min() < 1e-10:
                mon.event('rare')
            want = forward([[Fraction(float(pi[j])) * Fraction(float(P[j, i])) for j in range(n)] for i in range(n)], b, a)
        mon.event(typ)
        # values below 1e-8 are reported as null
        mon.close(got, want, typ, rtol=1e-8, atol=3e-8)
        if ((want > 1e-7) & (want < 1e-3)).any():
            mon.event('small')

    S = kit.take(mc.sensitivity(gen.state_ref(rng, names, s)))
    if not irreducible:
        mon.check(S is None, 'no-sensitivity-when-reducible', S)
        return
    Z = np.linalg.cond(np.vstack((P.T - np.eye(n), np.ones(n))))
    if Z > 1e10:
        return mon.skip('ill-conditioned')
    mon.event('sensitivity')
    if Z > 1e8:
        mon.event('sensitive')
    pi = ref.stationary_of_class(P, list(range(n)))
    tol = (1e-10 + 1e-14 * Z) * float(np.abs(S).max())
    mon.close(S @ pi, np.zeros(n), 'normalization', atol=tol)
    for _ in range(2):
        D = rng.normal(size=(n, n))
        D -= D.mean(axis=1, keepdims=True)
        # exact directional derivative: d pi (I - P) = pi D, d pi 1 = 0
        A = np.vstack(((np.eye(n) - P).T, np.ones(n)))
        dpi = np.linalg.lstsq(A, np.append(pi @ D, 0), rcond=None)[0]
        mon.close((S * D).sum(), dpi[s], 'derivative', rtol=1e-8, atol=10 * tol)
