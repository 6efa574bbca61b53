# C10: hitting probabilities and hitting times.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain and several target sets (single states, sets, all states) given in different forms; distinct by matrix and targets; trivial when every state reaches the targets with probability 1'
MINIMUM = {'distinct': 150, 'query': 1800, 'infinite': 400, 'fractional': 120, 'slow': 15, 'hardly-ever-left': 40, 'practically-closed': 40}
ASSUMPTIONS = ['systems with a condition number above 1e9 are skipped']


def slow(rng):
    n = int(rng.integers(20, 90))
    P = np.zeros((n, n))
    w = float(rng.choice([0.5, 0.5, 0.45, 0.55]))
    for i in range(n):
        P[i, max(i - 1, 0)] += 1 - w
        P[i, min(i + 1, n - 1)] += w
    if rng.random() < 0.5:
        P[0] = 0
        P[0, 0] = 1
    if rng.random() < 0.5:
        P[-1] = 0
        P[-1, -1] = 1
    return P


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, sizes=(4, 7, 12, 40), p=(0.35, 0.35, 0.2, 0.1))
    if rng.random() < 0.06:
        mon.event('slow')
        kind, P = 'slow', slow(rng)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    elif rng.random() < 0.1:
        # the sums are exact, and so is the reference
        mon.event('hardly-ever-left')
        kind, P = 'deep', gen.deep_leak(rng, end=str(rng.choice(['absorbing', 'recurrent'])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    elif rng.random() < 0.12:
        # some groups of states are left with a probability which the rounding of one hides
        mon.event('practically-closed')
        kind, P = 'isolated', gen.isolated(rng, end=str(rng.choice(['absorbing', 'recurrent'])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    elif rng.random() < 0.1:
        P = gen.tiny(rng, P)
    elif rng.random() < 0.2:
        P = gen.scales(rng, P)
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)

    for _ in range(3):
        r = rng.random()
        if r < 0.1:
            T, arg = list(range(n)), None
        elif r < 0.5:
            t = int(rng.integers(n))
            T, arg = [t], gen.state_ref(rng, names, t)
        else:
            T = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
            arg = gen.state_refs(rng, names, T)
        mon.context(targets=arg)
        hp, ht = ref.hitting(P, T, exact=kind == 'deep') if kind != 'isolated' else ref.passages(P, T)
        R = ref.closure(P)
        solve = [i for i in range(n) if i not in T and R[i, T].any()]
        cond = kit.condition(np.eye(len(solve)) - P[np.ix_(solve, solve)]) if solve else 1.0
        if cond > 1e9 and kind not in ('deep', 'isolated'):
            mon.skip('ill-conditioned')
            continue
        tol = {'deep': 0.02, 'isolated': 1e-6}.get(kind) or kit.accuracy(cond, len(solve))
        calls = [('p', mc.hitting_probabilities), ('p', mc.hp), ('t', mc.hitting_times), ('t', mc.ht)]
        if np.isinf(ht).any():
            mon.event('infinite')
        if ((hp > 1e-9) & (hp < 1 - 1e-9)).any():
            mon.event('fractional')
        if (hp < 1 - 1e-9).any():
            mon.distinct(P, T)
        for k, f in kit.shuffled(rng, calls):
            mon.event('query')
            v = kit.take(f(arg) if arg is not None or rng.random() < 0.5 else f())
            if k == 'p':
                mon.close(v, hp, 'hitting-probabilities', rtol=tol, atol=1e-13 if kind != 'isolated' else 0)
            else:
                mon.close(v, ht, 'hitting-times', rtol=tol, atol=0)
        h = mc.hitting_probabilities(arg)
        mon.check(((h >= -1e-12) & (h <= 1 + tol)).all(), 'probabilities', h)
