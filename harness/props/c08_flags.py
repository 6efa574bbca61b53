# C08: regularity, ergodicity, reversibility, symmetry, double stochasticity, monotonicity, and the textual summary.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 30000)
CAP = (90, 700)
RULE = 'one case = one generated chain, half of them built to have the observed feature and then possibly perturbed in one row; distinct by matrix; every case is non-trivial'
MINIMUM = {'distinct': 400, 'reversible:True': 60, 'reversible:False': 100, 'symmetric:True': 40, 'doubly:True': 60, 'monotone:True': 60, 'monotone:False': 100, 'regular:True': 100, 'regular:False': 100, 'summary': 100}
ASSUMPTIONS = ['a flag is judged only when the quantity it compares is either below 1e-10 or above 1e-5 (tolerances of the code lie in between)']


def perturb(rng, P):
    # moves some mass inside one row
    P = P.copy()
    i = int(rng.integers(P.shape[0]))
    sup = np.flatnonzero(P[i] > 0)
    if sup.size > 1:
        a, b = rng.choice(sup, size=2, replace=False)
        m = min(P[i, a] * 0.5, float(rng.choice([0.25, 1 / 64, 0.001]) if rng.random() < 0.5 else 10.0**rng.uniform(-4.5, -2)))
        P[i, a] -= m
        P[i, b] += m
    return P


def skew(rng, P):
    # a doubly stochastic chain which is only nearly symmetric: a circulation through three states
    P = P.copy()
    if P.shape[0] > 2:
        a, b, c = [int(x) for x in rng.choice(P.shape[0], size=3, replace=False)]
        m = min(P[a, a], P[b, b], P[c, c], float(10.0**rng.uniform(-4.5, -1)))
        for x, y in ((a, b), (b, c), (c, a)):
            P[x, x] -= m
            P[x, y] += m
    return P


def dominance(rng, n):
    # a monotone chain, or one where the order fails between one pair of states only, by a little, in one tail
    P = gen.monotone(rng, n) if n < 12 else None
    if P is None:
        base = np.sort(rng.random((n, n - 1)), axis=0)
        base = -np.sort(-base, axis=1)
        T = np.hstack((np.ones((n, 1)), base, np.zeros((n, 1))))
        P = T[:, :-1] - T[:, 1:]
        P /= P.sum(axis=1, keepdims=True)
    if rng.random() < 0.6:
        P = P.copy()
        T = np.cumsum(P[:, ::-1], axis=1)[:, ::-1]
        i = int(rng.integers(n - 1)) if rng.random() < 0.6 else gen.pick(rng, [0, n - 2])
        j = int(rng.integers(1, n)) if rng.random() < 0.6 else gen.pick(rng, [1, n - 1])
        # lower the tail of the row below under that of the row above: mass moves from the states after j to those before
        need = T[i + 1, j] - T[i, j] + float(10.0**rng.uniform(-4.5, -1.5))
        tail = [k for k in range(j, n) if P[i + 1, k] > 0]
        if 0 < need < T[i + 1, j]:
            for k in tail:
                d = min(need, P[i + 1, k])
                P[i + 1, k] -= d
                P[i + 1, j - 1] += d
                need -= d
    return P


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['reversible', 'symmetric', 'doubly', 'monotone', 'birthdeath', 'ergodic', 'irreducible', 'ring'])) if rng.random() < 0.6 else None, sizes=(4, 7, 10, 24), p=(0.35, 0.3, 0.2, 0.15))
    r = rng.random()
    if r < 0.12:
        n = int(gen.pick(rng, [3, 5, 8, 14, 30]))
        kind, P = 'dominance', dominance(rng, n)
        lab = gen.labels(rng, n)
        names = kit.names(lab, n)
    elif r < 0.22 and kind in ('symmetric', 'identity', 'doubly', 'ring'):
        kind, P = kind + '-skew', skew(rng, (P + np.eye(P.shape[0])) / 2)
    elif r < 0.3:
        P = gen.extreme(rng, P)
    elif r < 0.65:
        P = perturb(rng, P)
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mon.distinct(P)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    irreducible = ref.is_irreducible(P)
    primitive = irreducible and ref.period_of(P, list(range(n))) == 1
    rec = ref.recurrent_classes(P)

    def verdict(gap):
        return True if gap < 1e-10 else False if gap > 1.2e-5 else None

    if len(rec) > 1:
        rev = False
    else:
        x = ref.stationary_of_class(P, rec[0])
        F = x[:, None] * P
        rev = verdict(np.abs(F - F.T).max())
    sym = verdict(np.abs(P - P.T).max())
    dbl = verdict(np.abs(P.sum(axis=0) - 1).max())
    T = np.cumsum(P[:, ::-1], axis=1)[:, ::-1]
    drop = (T[:-1] - T[1:]).max()
    mono = True if drop < 1e-12 else False if drop > 1e-5 else None

    for rule, attr, want in kit.shuffled(rng, [('reversible', 'is_reversible', rev), ('symmetric', 'is_symmetric', sym), ('doubly', 'is_doubly_stochastic', dbl), ('monotone', 'is_stochastically_monotone', mono), ('monotone', 'is_monotone', mono), ('regular', 'is_regular', primitive), ('ergodic', 'is_ergodic', primitive)]):
        if want is None:
            mon.skip('near tolerance')
            continue
        mon.event(f'{rule}:{want}')
        mon.equal(bool(getattr(mc, attr)), want, rule)

    if rng.random() < 0.5:
        mon.event('summary')
        text = str(mc)
        got = {line.split(':', 1)[0].strip(' >'): line.split(':', 1)[1].strip() for line in text.splitlines() if ':' in line}

        def yn(b):
            return 'YES' if b else 'NO'

        import re
        want = {'SIZE': str(n), 'CLASSES': str(len(ref.classes(P))), 'RECURRENT': str(len(rec)), 'TRANSIENT': str(len(ref.transient_classes(P))),
                'ERGODIC': yn(primitive), 'IRREDUCIBLE': yn(irreducible), 'REGULAR': yn(primitive), 'RANK': str(int(mc.rank)),
                'APERIODIC': 'YES' if mc.is_aperiodic else f'NO ({mc.period})', 'ABSORBING': yn(mc.is_absorbing),
                'MONOTONE': yn(mc.is_stochastically_monotone), 'REVERSIBLE': yn(mc.is_reversible), 'SYMMETRIC': yn(mc.is_symmetric)}
        for k, v in want.items():
            mon.check(re.sub(r'\s+', ' ', got.get(k, '?')) == v, 'summary-agrees', lambda: f'{k}: {got.get(k)} expected {v}')
