# C11: mean first passage times and mean recurrence times.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain (three quarters ergodic) and several target and origin sets; distinct by matrix; trivial when the chain is not ergodic (then every measure must be None)'
MINIMUM = {'distinct': 300, 'not-ergodic': 60, 'set': 300, 'between': 300, 'rare-origins': 20, 'practically-closed': 30, 'hardly-communicating': 60}
ASSUMPTIONS = ['systems whose condition number leaves less than a third of relative accuracy (about 1e13) are skipped, the others are judged to an accuracy of 5e-15 times the condition number']


def practically_closed(rng, mon):
    # groups of states which are left with a probability which the rounding of one hides
    P = gen.isolated(rng, 'recurrent')
    n = P.shape[0]
    while not ref.is_irreducible(P) or ref.period_of(P, list(range(n))) != 1:
        P = gen.isolated(rng, 'recurrent')
        n = P.shape[0]
    lab = gen.labels(rng, n)
    names = kit.names(lab, n)
    mon.event('practically-closed')
    mon.distinct(P)
    mc = kit.build(rng, pydtmc, P, lab)
    mon.check(mc.is_ergodic, 'ergodic')
    for _ in range(2):
        T = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
        O = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
        mon.context(P=P, labels=names, T=T, O=O)
        h = ref.passages(P, T)[1]
        mon.close(kit.take(mc.mean_first_passage_times_to(gen.state_refs(rng, names, T))), h, 'practically-closed', rtol=1e-6, atol=0)
        pi = ref.exact_stationary(P)
        if pi[O].sum() > 0:
            mon.close(kit.take(mc.mfptb(gen.state_refs(rng, names, O), gen.state_refs(rng, names, T))), float(pi[O] @ h[O] / pi[O].sum()), 'practically-closed', rtol=1e-6, atol=0)
    mon.close(kit.take(mc.mean_recurrence_times()), 1 / pi, 'practically-closed', rtol=1e-6, atol=0)


def case(rng, mon, tier, index):

    if rng.random() < 0.06:
        return practically_closed(rng, mon)
    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['ergodic', 'dense', 'reversible', 'birthdeath'])) if rng.random() < 0.7 else None, sizes=(4, 7, 12, 40), p=(0.35, 0.35, 0.2, 0.1))
    tiny = False
    r = rng.random()
    if r < 0.1:
        tiny = True
        P = gen.tiny(rng, P)
    elif r < 0.35:
        P = gen.rare(rng, P, int(rng.choice([24, 44])))
    elif r < 0.47:
        # two groups of states which hardly communicate
        n = P.shape[0]
        side = rng.permutation(n) < int(rng.integers(1, n))
        P = np.where(side[:, None] == side[None, :], rng.random((n, n)) + 0.05, 0.0)
        P /= P.sum(axis=1, keepdims=True)
        e = 10.0**-rng.uniform(6, 12.5)
        P = (1 - e) * P + e * rng.dirichlet(np.ones(n), size=n)
        P /= P.sum(axis=1, keepdims=True)
        mon.event('hardly-communicating')
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    ergodic = ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1
    t = int(rng.integers(n))
    T = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    O = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
    T2 = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
    mon.context(T=T, O=O, T2=T2, t=t)

    if not ergodic:
        mon.event('not-ergodic')
        for f in (lambda: mc.mean_first_passage_times_to(), lambda: mc.mean_first_passage_times_to(gen.state_refs(rng, names, T)), lambda: mc.mean_recurrence_times(), lambda: mc.mrt(), lambda: mc.mfptb(gen.state_refs(rng, names, O), gen.state_refs(rng, names, T2))):
            mon.check(f() is None, 'none-when-not-ergodic')
        return

    mon.distinct(P)
    pi = ref.precise_stationary(P)
    if rng.random() < 0.4:
        # the origins are the states which are visited least
        O = sorted(int(x) for x in np.argsort(pi)[:int(rng.integers(1, max(2, n // 2)))])
        mon.context(O=O)
        if pi[O].sum() < 1e-4:
            mon.event('rare-origins')

    def times(targets):
        rest = [i for i in range(n) if i not in targets]
        c = kit.condition(np.eye(len(rest)) - P[np.ix_(rest, rest)])
        if kit.accuracy(c, n) > 0.3:
            return None, None
        return ref.hitting(P, targets)[1], kit.accuracy(max(c, worst[0]), n)

    def between(origins, targets):
        h, tol = times(targets)
        return (None, None) if h is None else (float(pi[origins] @ h[origins] / pi[origins].sum()), tol)

    worst = [1.0]
    M = [times([j]) for j in range(n)]
    if any(m is None for m, _ in M):
        return mon.skip('ill-conditioned')
    tol = max(e for _, e in M)
    M = np.array([m for m, _ in M]).T
    # the stationary distribution and the fundamental matrix take part as well
    worst[0] = kit.condition(np.eye(n) - P + pi)
    tol = max(tol, kit.accuracy(worst[0], n))
    if tol > 0.3:
        return mon.skip('ill-conditioned')
    if pi.min() < 1e-6:
        mon.event('rare-state')
    if rng.random() < 0.3:
        kit.poison(mc.mean_first_passage_times_to())
        kit.poison(mc.mean_recurrence_times())

    for f in kit.shuffled(rng, [mc.mean_first_passage_times_to, mc.mfpt_to, mc.mfptt]):
        mon.close(kit.take(f()), M, 'matrix', rtol=tol, atol=0)
    mon.close(kit.take(mc.mean_first_passage_times_to(gen.state_ref(rng, names, t))), M[:, t], 'single', rtol=tol, atol=0)
    want, tol1 = times(T)
    if want is not None:
        mon.event('set')
        mon.close(kit.take(mc.mean_first_passage_times_to(gen.state_refs(rng, names, T))), want, 'set', rtol=tol1, atol=0)
    want, tol1 = between(O, T2)
    if want is not None:
        mon.event('between')
        for f in (mc.mean_first_passage_times_between, mc.mfpt_between, mc.mfptb):
            mon.close(f(gen.state_refs(rng, names, O), gen.state_refs(rng, names, T2)), want, 'between', rtol=tol1, atol=0)
        mon.close(mc.mfptb(gen.state_ref(rng, names, t), gen.state_ref(rng, names, T[0])), M[t, T[0]], 'between-states', rtol=tol, atol=0)
    r = kit.take(mc.mean_recurrence_times())
    mon.close(r, 1 / pi, 'recurrence', rtol=tol, atol=0)
    if not tiny:
        mon.close(r, 1 + np.einsum('ij,ji->i', P, M), 'recurrence-first-step', rtol=tol, atol=0)
    mon.close(mc.mrt(), r, 'recurrence-alias', rtol=0, atol=0)
