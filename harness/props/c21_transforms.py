# C21: transformations of a chain.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1600, 60000)
CAP = (60, 700)
RULE = 'one case = one generated chain and one transformation with its parameters; distinct by all of them; trivial when the result equals the original'
MINIMUM = {'small-probabilities': 200, 'distinct': 500, 'lazy-matrix': 100, 'nth-matrix': 100, 'bounded-matrix': 100, 'canonical-matrix': 100, 'subchain-matrix': 100, 'merge-matrix': 100, 'original-unchanged': 500, 'far-order': 40}
ASSUMPTIONS = ['results are compared within 1e-9, relatively', 'the semi-reflecting condition with value q replaces the first row by (1 - q, q, 0, ...) and mirrors it in the last one']


def slow(P):
    """Whether the powers of the matrix depend on its last digits for a long time."""
    m = np.abs(np.linalg.eigvals(P))
    return bool(np.any((m > 1 - 1e-2) & (m < 1 - 1e-9))) or bool(np.any((P > 0) & (P < 1e-3))) or int((m > 1 - 1e-9).sum()) != sum(ref.period_of(P, c) for c in ref.recurrent_classes(P))


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['structured', 'structured', 'absorbing'])) if rng.random() < 0.5 else None)
    r = rng.random()
    if r < 0.2:
        P = gen.scales(rng, P) if r < 0.1 else gen.tiny(rng, P) if r < 0.15 else gen.extreme(rng, P)
        mon.event('small-probabilities')
    elif r < 0.27:
        P = gen.deep_leak(rng, 30, 50, str(rng.choice(['absorbing', 'recurrent'])))
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('small-probabilities')
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    before = kit.freeze(mc)
    what = str(rng.choice(['lazy', 'nth', 'bounded', 'canonical', 'subchain', 'merge']))
    mon.context(kind=kind, P=P, labels=names, what=what)
    states = names

    if what == 'lazy':
        r = rng.random()
        if r < 0.15:
            w, args = np.full(n, 0.5), []
        elif r < 0.45:
            x = float(gen.pick(rng, [0.0, 1.0, 0.25, 0.9, 0.1]))
            w, args = np.full(n, x), [x]
        else:
            w = np.round(rng.random(n), 3)
            if rng.random() < 0.5:
                w[int(rng.integers(n))] = float(rng.integers(2))
            args = [gen.pick(rng, [w.tolist(), w.copy(), w[None, :].copy()])]
        mon.context(weights=w)
        f = kit.pick2(rng, mc.to_lazy_chain, mc.to_lazy)
        keep = [np.array(a, dtype=float) for a in args]
        out = f(*args)
        mon.check(all(np.array_equal(np.asarray(a, dtype=float), k) for a, k in zip(args, keep)), 'arguments-unchanged')
        want = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                want[i, j] = (1 - w[i]) * P[i, j] + (w[i] if i == j else 0.0)
        mon.distinct(P, w, 'lazy')
    elif what == 'nth':
        order = int(rng.choice([2, 2, 3, 4, 5, 8, 13, 40]))
        far = bool(rng.random() < 0.3 and n <= 7 and not slow(P))
        if far:
            # orders for which the errors of the sums of the rows would add up
            order = int(gen.pick(rng, [10, 2]))**int(rng.integers(3, 70)) + int(rng.integers(12))
            mon.event('far-order')
        mon.context(order=order)
        f = kit.pick2(rng, mc.to_nth_order, mc.to_nth)
        out = f() if order == 2 and rng.random() < 0.5 else f(order)
        want = ref.far_power(P, order) if far else ref.powers(P, order)
        mon.distinct(P, order)
    elif what == 'bounded':
        r = rng.random()
        first, last = np.zeros(n), np.zeros(n)
        if r < 0.3:
            c = 'absorbing'
            first[0] = last[-1] = 1.0
        elif r < 0.55:
            c = 'reflecting'
            first[1] = last[-2] = 1.0
        else:
            c = gen.pick(rng, [0.0, 1.0, 0.25, 0.7, 1, 0, float(np.round(rng.random(), 3)), np.float64(0.125)])
            first[0], first[1] = 1 - c, c
            last[-1], last[-2] = c, 1 - c
        mon.context(condition=c)
        out = kit.pick2(rng, mc.to_bounded_chain, mc.to_bounded)(c)
        want = P.copy()
        want[0], want[-1] = first, last
        mon.distinct(P, c)
    elif what == 'canonical':
        out = kit.pick2(rng, mc.to_canonical_form, mc.to_canonical)()
        tr = ref.transient_states(P)
        order = tr + [i for i in range(n) if i not in tr]
        want = P[np.ix_(order, order)]
        states = [names[i] for i in order]
        if order != list(range(n)):
            mon.distinct(P, 'canonical')
            mon.event('canonical-permuted')
        mon.check(out.is_canonical is True, 'canonical-flag')
    elif what == 'subchain':
        sel = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, min(3, n - 1) + 1)), replace=False))
        keep = ref.subchain_states(P, sel)
        refs = gen.state_refs(rng, names, sel)
        if len(sel) == 1 and rng.random() < 0.4:
            refs = gen.state_ref(rng, names, sel[0])
        mon.context(subchain=refs)
        if isinstance(refs, list):
            copy = list(refs)
        f = kit.pick2(rng, mc.to_subchain, mc.to_sub)
        if len(keep) == 1:
            kit.rejected(mon, pydtmc, 'subchain-of-one-state', f, refs, allow=(ValueError,))
            kit.unchanged(mon, mc, before)
            return
        out = f(refs)
        if isinstance(refs, list):
            mon.equal(refs, copy, 'arguments-unchanged')
        want = P[np.ix_(keep, keep)]
        states = [names[i] for i in keep]
        if len(keep) < n:
            mon.distinct(P, keep)
            mon.event('subchain-proper')
    else:
        _, Q = gen.chain(rng, n)
        while Q.shape[0] != n:
            Q = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
        lab2 = gen.labels(rng, n)
        other = kit.build(rng, pydtmc, Q, lab2)
        before2 = kit.freeze(other)
        g = float(gen.pick(rng, [0.5, 0.25, 0.9, 0.01, 0.999, float(np.round(0.05 + 0.9 * rng.random(), 3))]))
        mon.context(other=Q, gamma=g)
        out = mc.merge_with(other, g)
        kit.unchanged(mon, other, before2)
        want = np.array([[(1 - g) * P[i, j] + g * Q[i, j] for j in range(n)] for i in range(n)])
        states = gen.default_labels(n, 'M')
        mon.distinct(P, Q, g)

    mon.event(what)
    kit.valid_chain(mon, pydtmc, out)
    mon.close(out.p, want, f'{what}-matrix', rtol=1e-9, atol=1e-18)
    if what == 'merge':
        # the names of the merged chain are its own; they only have to be distinct
        mon.check(len(set(out.states)) == n, 'merge-labels')
    else:
        mon.equal(out.states, states, f'{what}-labels')
    mon.check(out is not mc, 'new-object')
    kit.unchanged(mon, mc, before)
    # the result behaves as a chain with that matrix: its structure is its own, not inherited
    mon.equal(sorted(sorted(c) for c in out.communicating_classes), sorted(sorted(states[i] if what != 'merge' else out.states[i] for i in c) for c in ref.classes(out.p)), 'structure-of-the-result')
