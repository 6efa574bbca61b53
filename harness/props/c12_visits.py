# C12: mean number of visits.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1200, 20000)
CAP = (90, 700)
RULE = 'one case = one generated chain; distinct by matrix; trivial when the chain is irreducible (every entry infinite)'
MINIMUM = {'distinct': 250, 'finite': 200, 'zero': 200, 'infinite': 200, 'rarely-left': 20, 'hardly-ever-left': 40, 'practically-closed': 30, 'barely-entered': 40}
ASSUMPTIONS = ['systems with a condition number above 1e9 are skipped, and of those which are nearly singular only the null and infinite entries are judged']


def barely_entered(rng, P):
    # a class is entered by next to impossible jumps only
    cs = ref.classes(P)
    P = P.copy()
    if len(cs) > 1:
        c = cs[int(rng.integers(len(cs)))]
        for i in range(P.shape[0]):
            inside = [j for j in c if P[i, j] > 0]
            rest = [j for j in range(P.shape[0]) if j not in c and P[i, j] > 0]
            if i not in c and inside and rest:
                P[i, inside] *= 2.0**-int(rng.integers(28, 70))
                P[i, rest] *= (1 - P[i, inside].sum()) / P[i, rest].sum()
    return P


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['structured', 'absorbing', 'sparse', 'gambler'])) if rng.random() < 0.7 else None, sizes=(4, 7, 12, 30), p=(0.35, 0.35, 0.2, 0.1))
    if rng.random() < 0.15:
        P = gen.tiny(rng, P)
    elif rng.random() < 0.15:
        P = gen.leaky(rng, P)
    barely = bool(rng.random() < 0.12 and P.shape[0] < 13)
    deep = bool(rng.random() < 0.08)
    if barely:
        P, deep = barely_entered(rng, P), None
        mon.event('barely-entered')
    elif deep:
        P = gen.deep_leak(rng, end=str(rng.choice(['absorbing', 'recurrent'])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('hardly-ever-left')
    elif rng.random() < 0.08:
        P, deep = gen.isolated(rng, end=str(rng.choice(['absorbing', 'recurrent']))), None
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('practically-closed')
    n = P.shape[0]
    tr = ref.transient_states(P)
    mon.context(kind=kind, P=P, labels=names)
    rtol = 1e-9
    if deep:
        # the sums are exact, and so is the reference
        rtol = 0.02
    elif deep is None:
        rtol = 1e-6
    elif tr:
        A = np.eye(len(tr)) - P[np.ix_(tr, tr)]
        cond = kit.condition(A)
        # the visits are obtained from the probabilities of return, whose distance from one loses digits in proportion
        rtol = max(rtol, 1e-14 * cond * float(np.abs(np.diag(np.linalg.inv(A))).max()))
        if cond > 1e9:
            return mon.skip('ill-conditioned')
        if cond > 1e5:
            mon.event('rarely-left')
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    want = ref.mean_visits(P, deep is None)
    if len(ref.classes(P)) > 1:
        mon.distinct(P)
    for name, hit in (('finite', np.isfinite(want) & (want > 0)), ('zero', want == 0), ('infinite', np.isinf(want))):
        if hit.any():
            mon.event(name)
    for f in kit.shuffled(rng, [mc.mean_number_visits, mc.mnv, mc.mean_number_visits]):
        got = kit.take(f())
        mon.check(np.array_equal(got == 0, want == 0), 'null-exactly-when-unreachable', lambda: got)
        mon.check(np.array_equal(np.isinf(got), np.isinf(want)), 'infinite-exactly-when-recurrent', lambda: got)
        if rtol <= 1e-3 or deep:
            mon.close(got, want, 'visits', rtol=rtol, atol=1e-14 if deep is not None else 0)
        else:
            mon.event('pattern-only')
    if tr and rtol <= 1e-3 and deep is False:
        # visits after time zero from the series of the powers
        S, B = np.eye(len(tr)), P[np.ix_(tr, tr)]
        for _ in range(40):
            S, B = S + B @ S, B @ B
        mon.close(got[np.ix_(tr, tr)], S - np.eye(len(tr)), 'series', rtol=rtol, atol=rtol * S.max())
