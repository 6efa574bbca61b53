# C04: communicating, recurrent, transient and absorbing states and classes.
import pydtmc
from vh import gen, kit, ref

CASES = (900, 30000)
CAP = (90, 700)
RULE = 'one case = one generated chain (17 structural families, 2 to 40 states, ten label styles) queried in random order with hostile consumption of the results; distinct by matrix and labels; trivial when the chain is irreducible with no absorbing state and default labels'
MINIMUM = {'distinct': 300, 'reducible': 150, 'transient': 100, 'absorbing-chain': 40, 'classes': 800, 'query': 3000, 'rarely-left': 60, 'large-classes': 15}
ASSUMPTIONS = []


def case(rng, mon, tier, index):

    big = rng.random() < 0.01
    if big:
        mon.event('big')
    kind, P, lab, names = kit.pick_big(rng) if big else kit.pick_chain(rng, sizes=(4, 7, 12, 40), p=(0.35, 0.35, 0.2, 0.1))
    if not big and rng.random() < 0.1:
        kind, P = 'blocks', gen.blocks(rng, int(rng.choice([8, 32])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('large-classes')
    r = rng.random()
    if r < 0.25:
        P = gen.tiny(rng, P) if r < 0.1 else gen.extreme(rng, P)
        mon.event('small-probabilities')
    elif r < 0.37:
        # groups which are left with probabilities down to 2**-400 (below 2**-53 the entry of staying rounds to one)
        P = gen.deep_leak(rng, 20, int(rng.choice([30, 50, 400])), str(rng.choice(['absorbing', 'recurrent'])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('rarely-left')
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    if not 0.25 <= r < 0.37:
        kit.disturb(rng, mc)

    def lbl(c):
        return [names[i] for i in c]

    classes, rec, tra = ref.classes(P), ref.recurrent_classes(P), ref.transient_classes(P)
    absorbing = [i for i in range(n) if P[i].nonzero()[0].tolist() == [i]]
    R = ref.closure(P)
    recs = sorted(i for c in rec for i in c)
    tras = sorted(i for c in tra for i in c)
    is_abs = bool(absorbing) and all(R[i, absorbing].any() for i in range(n))
    canonical = not recs or not tras or max(tras) < min(recs)

    if len(classes) > 1:
        mon.event('reducible')
    if tras:
        mon.event('transient')
    if is_abs:
        mon.event('absorbing-chain')
    if len(classes) > 1 or absorbing or lab is not None:
        mon.distinct(P, names)

    queries = [
        ('classes', lambda: mc.communicating_classes, [lbl(c) for c in classes]),
        ('recurrent-classes', lambda: mc.recurrent_classes, [lbl(c) for c in rec]),
        ('transient-classes', lambda: mc.transient_classes, [lbl(c) for c in tra]),
        ('recurrent-states', lambda: mc.recurrent_states, lbl(recs)),
        ('transient-states', lambda: mc.transient_states, lbl(tras)),
        ('absorbing-states', lambda: mc.absorbing_states, lbl(absorbing)),
        ('is-irreducible', lambda: bool(mc.is_irreducible), len(classes) == 1),
        ('is-absorbing', lambda: bool(mc.is_absorbing), is_abs),
        ('is-canonical', lambda: bool(mc.is_canonical), canonical),
    ]
    for i in rng.permutation(n)[:6]:
        i = int(i)
        queries.append(('is-recurrent-state', lambda i=i: bool(mc.is_recurrent_state(gen.state_ref(rng, names, i))), i in recs))
        queries.append(('is-transient-state', lambda i=i: bool(mc.is_transient_state(gen.state_ref(rng, names, i))), i in tras))
        queries.append(('is-absorbing-state', lambda i=i: bool(mc.is_absorbing_state(gen.state_ref(rng, names, i))), i in absorbing))

    for rule, query, want in kit.shuffled(rng, queries + queries[:4]):
        mon.event('query')
        mon.equal(kit.take(query()), want, rule)
