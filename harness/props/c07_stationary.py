# C07: stationary distributions.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1600, 20000)
CAP = (90, 700)
RULE = 'one case = one generated chain (any structure, including nearly decomposable ones with entries down to 1e-12); distinct by matrix; trivial when the stationary distribution is uniform'
MINIMUM = {'distinct': 600, 'several': 180, 'exact': 350, 'tiny': 200, 'limit': 140}
ASSUMPTIONS = []


def weak(rng, P):
    # two parts of a class which are hardly linked: down to 1e-300
    P = P.copy()
    cs = ref.recurrent_classes(P)
    pairs = [c for c in cs if len(c) == 2]
    c = gen.pick(rng, pairs if pairs and rng.random() < 0.5 else cs)
    if c in pairs:
        part, rest = [c[0]], [c[1]]
        for i, j in (c, c[::-1]):
            e = float(10.0**-rng.integers(3, 18)) * float(rng.random() + 0.5)
            P[i, j], P[i, i] = e, 1 - e
        return P
    part = [i for i in c if rng.random() < 0.5]
    rest = [i for i in c if i not in part]
    for a, b in ((part, rest), (rest, part)):
        e = float(10.0**-rng.integers(10, 25 if rng.random() < 0.7 else 140))
        for i in a:
            if P[np.ix_([i], b)].sum() > 0 and P[np.ix_([i], a)].sum() > 0:
                P[i, b] *= e
                P[i, a] /= P[i, a].sum()
    return P


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, sizes=(4, 7, 12, 40), p=(0.4, 0.35, 0.2, 0.05))
    tiny = rng.random() < 0.3
    if tiny:
        r = rng.random()
        P = gen.tiny(rng, P) if r < 0.5 else gen.scales(rng, P) if r < 0.75 else weak(rng, P)
        mon.event('tiny')
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    pi = kit.take(mc.pi)
    again = kit.take(mc.pi)
    rec = ref.recurrent_classes(P)
    if len(rec) > 1:
        mon.event('several')
    mon.check(len(pi) == len(rec) == len(again), 'one-per-recurrent-class', f'{len(pi)} for {rec}')
    for c, x, y in zip(rec, pi, again):
        x = np.asarray(x, dtype=float)
        mon.check(x.shape == (n,), 'shape', x.shape)
        mon.check(np.array_equal(x, y), 'stable', lambda: (x, y))
        mon.check((x >= 0).all(), 'non-negative', x)
        mon.close(x.sum(), 1.0, 'sums-to-one', atol=1e-9)
        out = [i for i in range(n) if i not in c]
        mon.check((x[out] == 0).all(), 'supported-on-its-class', lambda: (c, x))
        mon.check((x[c] > 0).all(), 'positive-on-its-class', lambda: (c, x))
        mon.close(x @ P, x, 'invariant', rtol=1e-9, atol=1e-13)
        if len(c) <= 8:
            mon.event('exact')
            mon.close(x[c], ref.exact_stationary(P[np.ix_(c, c)]), 'componentwise-value', rtol=1e-9, atol=0)
        else:
            mon.close(x, ref.stationary_of_class(P, c), 'value', rtol=1e-7, atol=0)
        if not np.allclose(x[c], 1 / len(c)):
            mon.distinct(P)
    if len(rec) == 1 and not tiny and ref.period_of(P, rec[0]) == 1:
        Q = np.linalg.matrix_power(P / P.sum(axis=1, keepdims=True), 2**14)
        sub = np.sort(np.abs(np.linalg.eigvals(P)))
        if n == 1 or sub[-2] < 0.998:
            mon.event('limit')
            mon.close(Q, np.tile(pi[0], (n, 1)), 'limit-of-the-powers', atol=1e-7)
    for alias in ('stationary_distributions', 'steady_states'):
        got = getattr(mc, alias)
        mon.check(len(got) == len(pi) and all(np.array_equal(a, b) for a, b in zip(got, pi)), 'aliases', alias)
