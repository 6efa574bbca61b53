# C06: periods, aperiodicity and cyclic classes.
import math

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 30000)
CAP = (90, 700)
RULE = 'one case = one generated chain with one to four recurrent classes of prescribed periods (1 to 12) plus transient states; distinct by matrix and labels; trivial when every period is 1 and there is one class'
MINIMUM = {'distinct': 300, 'periodic': 200, 'cyclic': 100, 'reducible': 150, 'mixed-periods': 40, 'long-cycle': 2}
ASSUMPTIONS = ['convention of the package: the period of a transient class is 1; the period of a reducible chain is 1 when the gcd of the periods of its recurrent classes is 1, their least common multiple otherwise']


def make(rng):
    r = rng.random()
    if r < 0.35:
        return 'irreducible', gen.irreducible(rng, int(rng.choice([6, 9, 14])), int(rng.choice([1, 2, 3, 4, 5, 6, 8])))
    if r < 0.45:
        n = int(rng.integers(2, 13))
        perm = rng.permutation(n)
        P = np.zeros((n, n))
        P[perm, np.roll(perm, 1)] = 1
        return 'cycle', P
    if r < 0.9:
        k = int(rng.choice([1, 2, 2, 3, 4]))
        return 'structured', gen.structured(rng, int(rng.choice([8, 14, 20])), recurrent=k, periods=[int(rng.choice([1, 2, 3, 4, 6])) for _ in range(k)])
    if r < 0.95:
        return 'blocks', gen.blocks(rng, int(rng.choice([8, 24])))
    kind, P = gen.chain(rng, 10)
    return kind, P


def long_cycle(rng, mon):
    P, cyc = gen.big_cycle(rng)
    n, d = P.shape[0], len(cyc)
    lab = gen.labels(rng, n)
    names = kit.names(lab, n)
    mon.event('long-cycle')
    mon.context(kind='long cycle', period=d, P=P, labels=names)
    mon.distinct(P, names)
    mc = kit.build(rng, pydtmc, P, lab)
    mon.equal(int(mc.period), d, 'period')
    mon.equal([int(x) for x in mc.periods], [d], 'periods')
    mon.equal(bool(mc.is_aperiodic), False, 'is-aperiodic')
    mon.equal(mc.cyclic_classes, [[names[i] for i in c] for c in cyc], 'cyclic-classes')


def case(rng, mon, tier, index):

    if rng.random() < 0.01:
        return long_cycle(rng, mon)
    kind, P = make(rng)
    r = rng.random()
    if r < 0.2:
        P = gen.extreme(rng, P) if r < 0.15 else gen.scales(rng, P)
        mon.event('small-probabilities')
    n = P.shape[0]
    lab = gen.labels(rng, n)
    names = kit.names(lab, n)
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)

    classes = ref.classes(P)
    rec = ref.recurrent_classes(P)
    periods = [ref.period_of(P, c) if c in rec else 1 for c in classes]
    recp = [ref.period_of(P, c) for c in rec]
    g = 0
    for x in recp:
        g = math.gcd(g, x)
    irreducible = len(classes) == 1
    aperiodic = g == 1
    period = 1 if aperiodic else (recp[0] if irreducible else math.lcm(*recp))
    if not irreducible:
        mon.event('reducible')
        cyc = []
    elif aperiodic:
        cyc = [list(range(n))]
    else:
        cyc = sorted(ref.cyclic_classes(P)[1], key=lambda c: (-len(c), c[0]))
        mon.event('cyclic')
    if max(recp) > 1:
        mon.event('periodic')
    if len(set(recp)) > 1:
        mon.event('mixed-periods')
    if max(recp) > 1 or len(classes) > 1:
        mon.distinct(P, names)

    cycs = sorted(i for c in cyc for i in c)
    queries = [
        ('periods', lambda: [int(x) for x in mc.periods], periods),
        ('period', lambda: int(mc.period), period),
        ('is-aperiodic', lambda: bool(mc.is_aperiodic), aperiodic),
        ('cyclic-classes', lambda: mc.cyclic_classes, [[names[i] for i in c] for c in cyc]),
        ('cyclic-states', lambda: mc.cyclic_states, [names[i] for i in cycs]),
        ('is-ergodic', lambda: bool(mc.is_ergodic), irreducible and aperiodic),
    ]
    for i in rng.permutation(n)[:5]:
        i = int(i)
        queries.append(('is-cyclic-state', lambda i=i: bool(mc.is_cyclic_state(gen.state_ref(rng, names, i))), i in cycs))
    for rule, query, want in kit.shuffled(rng, queries + queries[:4]):
        mon.equal(kit.take(query()), want, rule)

    if irreducible and not aperiodic:
        # the observed classes are moved onto each other by the dynamics: returns happen only at multiples of the period
        got = [[names.index(s) for s in c] for c in mc.cyclic_classes]
        mon.check(len(got) == period, 'as-many-cyclic-classes-as-the-period', got)
        for c in got:
            to = {int(j) for i in c for j in np.flatnonzero(P[i] > 0)}
            mon.check(any(to == set(o) for o in got), 'cyclic-class-maps-onto-another', got)
