# C05: accessibility, communication and adjacency.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 30000)
CAP = (90, 700)
RULE = 'one case = one generated chain of 2 to 70 states queried in random order; distinct by matrix and labels; trivial when every entry is positive'
MINIMUM = {'distinct': 300, 'accessible': 300, 'unreachable-pair': 300, 'large': 20, 'unlikely-walk': 20, 'large-classes': 15}
ASSUMPTIONS = []


def case(rng, mon, tier, index):

    big = rng.random() < 0.01
    if big:
        mon.event('big')
    kind, P, lab, names = kit.pick_big(rng) if big else kit.pick_chain(rng, sizes=(4, 7, 12, 70), p=(0.35, 0.35, 0.2, 0.1))
    if not big and rng.random() < 0.05:
        kind, P = 'blocks', gen.blocks(rng, int(rng.choice([8, 24])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('large-classes')
    if rng.random() < 0.15:
        # a long chain of states, where walks as long as the number of states are needed
        n = int(rng.integers(3, 40))
        kind, P = 'path', np.eye(n, k=1)
        P[-1, -1] = 1
        if rng.random() < 0.5:
            P[-1, -1], P[-1, 0] = 0, 1
        perm = rng.permutation(n)
        P = P[np.ix_(perm, perm)]
        lab = gen.labels(rng, n)
        names = kit.names(lab, n)
        if rng.random() < 0.4:
            # a walk along the whole chain is too unlikely for its probability to be a positive number
            e = 2.0**-int(rng.integers(40, 53))
            for i in range(n):
                if P[i, i] == 0:
                    P[i] *= e
                    P[i, i if rng.random() < 0.5 else perm.tolist().index(n - 1)] += 1 - e
            mon.event('unlikely-walk')
    r = rng.random()
    if r < 0.25:
        P = gen.tiny(rng, P) if r < 0.1 else gen.extreme(rng, P)
        mon.event('small-probabilities')
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    R = ref.closure(P)
    C = R & R.T
    A = P > 0
    if not A.all():
        mon.distinct(P, names)
    if n > 30:
        mon.event('large')
    off = A.copy()
    np.fill_diagonal(off, False)

    queries = [
        ('accessibility', lambda: mc.accessibility_matrix, R.astype(int)),
        ('communication', lambda: mc.communication_matrix, C.astype(int)),
        ('adjacency', lambda: mc.adjacency_matrix, A.astype(int)),
        ('graph-edges', lambda: sorted(mc.to_graph().edges), sorted((names[i], names[j]) for i, j in np.argwhere(A))),
    ]
    for _ in range(8):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        if not R[i, j]:
            mon.event('unreachable-pair')
        queries.append(('accessible', lambda i=i, j=j: bool(mc.is_accessible(gen.state_ref(rng, names, j), gen.state_ref(rng, names, i))), bool(R[i, j])))
        queries.append(('communicating', lambda i=i, j=j: bool(mc.are_communicating(gen.state_ref(rng, names, j), gen.state_ref(rng, names, i))), bool(C[i, j])))
        queries.append(('transition-probability', lambda i=i, j=j: float(mc.transition_probability(gen.state_ref(rng, names, j), gen.state_ref(rng, names, i))), float(P[i, j])))
        queries.append(('conditional-probabilities', lambda i=i: mc.conditional_probabilities(gen.state_ref(rng, names, i)), P[i]))

    for rule, query, want in kit.shuffled(rng, queries + queries[:3]):
        mon.equal(kit.take(query()), want, rule)
    mon.close(mc.density, off.sum() / (n * (n - 1)), 'density')
