# C18: random walks of a chain.
import numpy as np

import pydtmc
from vh import gen, kit

CASES = (240, 6000)
CAP = (110, 800)
CASE_LIMIT = 240
RULE = 'one case = one generated chain with walks under several start, stop and output choices; distinct by chain and choices; trivial when the chain is the identity'
MINIMUM = {'distinct': 120, 'transitions-law': 250, 'walk-length': 200, 'stopped-early': 60, 'initial-law': 20, 'next-law': 40, 'memory-law': 100, 'moves': 100000, 'rare-moves': 15, 'rare-long': 4, 'extreme-draw': 600}
ASSUMPTIONS = ['goodness of fit at a significance of 1e-10: over millions of tests a false alarm is improbable, and the seeds are fixed']


def index_of(names, x):
    return names.index(x) if isinstance(x, str) else int(x)


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 4, 6, 10), p=(.3, .3, .25, .15))
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    before = kit.freeze(mc)
    P = mc.p
    mon.context(kind=kind, P=P, labels=names)
    if kind != 'identity':
        mon.distinct(P, lab)

    def valid(walk, steps, start, final, indices):
        mon.check(isinstance(walk, list) and all((type(x) is int and 0 <= x < n) if indices else (isinstance(x, str) and x in names) for x in walk), 'walk-form', lambda: f'{walk!r}')
        w = [index_of(names, x) for x in walk]
        if start is not None:
            mon.equal(w[0], start, 'walk-start')
        for a, b in zip(w, w[1:]):
            if P[a, b] <= 0:
                mon.fail('walk-support', f'{a} -> {b} has probability zero in {walk}')
        mon.rules['walk-support'] += 1
        mon.event('moves', len(w) - 1)
        if final is None or final not in w[1:]:
            if final is not None and final == w[0] and len(w) == 1:
                return w
            mon.equal(len(w), steps + 1, 'walk-length')
        else:
            mon.equal(w.index(final, 1), len(w) - 1, 'walk-stops-at-the-first-arrival')
            if len(w) < steps + 1:
                mon.event('stopped-early')
        return w

    # one long walk: transitions and absence of memory
    seed = None if rng.random() < 0.4 else int(rng.integers(2**31))
    start = int(rng.integers(n))
    steps = int(gen.pick(rng, [1500, 2500]))
    ind = bool(rng.random() < 0.5)
    w = valid(mc.simulate(steps, gen.state_ref(rng, names, start), None, ind, seed), steps, start, None, ind)
    C = np.zeros((n, n))
    T = np.zeros((n, n, n))
    for a, b in zip(w, w[1:]):
        C[a, b] += 1
    for a, b, c in zip(w, w[1:], w[2:]):
        T[a, b, c] += 1
    for i in range(n):
        if C[i].sum():
            kit.law(mon, 'transitions', C[i], P[i])
    for a in range(n):
        for b in range(n):
            if T[a, b].sum() >= 50:
                kit.law(mon, 'memory', T[a, b], P[b])

    # many rare transitions which are a sizeable part together
    if rng.random() < 0.12:
        big = int(rng.choice([150, 300]))
        w = 10.0**-rng.uniform(3, 5, size=big)
        w[0] = 0
        w *= rng.uniform(0.15, 0.6) / w.sum()
        w[0] = 1 - w.sum()
        Q = np.tile(w, (big, 1))
        Q[1:] = 0
        Q[1:, 0] = 1
        order = rng.permutation(big)
        Q = Q[np.ix_(order, order)]
        hub = int(np.flatnonzero(order == 0)[0])
        many = pydtmc.MarkovChain(Q)
        mon.event('rare-moves')
        mon.context(hub=hub, weights=w)
        walk = many.simulate(3000, hub, output_indices=True, seed=int(rng.integers(2**31)))
        out = np.zeros(big)
        for a, b in zip(walk, walk[1:]):
            if Q[a, b] <= 0:
                mon.fail('walk-support', f'{a} -> {b} has probability zero')
            if a == hub:
                out[b] += 1
        kit.law(mon, 'rare-moves', out, Q[hub])
        kit.law(mon, 'rare-moves', [out[hub], out.sum() - out[hub]], [Q[hub, hub], 1 - Q[hub, hub]])
        mon.context(hub=None, weights=None)

    # draws next to one, rows which fall short of it
    if rng.random() < 0.5:
        Q = gen.loose_rows(rng, *[int(rng.integers(2, 5))] * 2)
        short = pydtmc.MarkovChain(Q)
        mon.context(loose=Q)
        for sd in rng.permutation(gen.EXTREME_SEEDS)[:8]:
            mon.event('extreme-draw')
            a, steps = int(rng.integers(len(Q))), int(rng.integers(2, 9))
            walk = short.simulate(steps, a, output_indices=True, seed=int(sd))
            mon.check(len(walk) == steps + 1 and walk[0] == a and all(type(x) is int and 0 <= x < len(Q) for x in walk) and all(Q[x, y] > 0 for x, y in zip(walk, walk[1:])), 'extreme-draw', lambda: f'seed {sd}, from {a}, {steps} steps: {walk}')
            x = short.next(a, True, int(sd))
            mon.check(type(x) is int and 0 <= x < len(Q) and Q[a, x] > 0, 'extreme-draw', lambda: f'seed {sd}, next of {a}: {x}')
        mon.context(loose=None)

    # one rare transition in a very long walk
    if rng.random() < 0.05:
        eps = float(10.0**-min(rng.uniform(2.5, 4.9), 4.1))
        big = int(rng.choice([2, 3, 5]))
        Q = np.zeros((big, big))
        Q[:, 0] = 1
        Q[0] = rng.dirichlet(np.ones(big))
        Q[0, big - 1] = 0
        Q[0] *= (1 - eps) / Q[0].sum()
        Q[0, big - 1] = eps
        order = rng.permutation(big)
        Q = Q[np.ix_(order, order)]
        a, b = [int(np.flatnonzero(order == x)[0]) for x in (0, big - 1)]
        mon.event('rare-long')
        mon.context(rare=(a, b, eps), Q=Q)
        walk = pydtmc.MarkovChain(Q).simulate(int(45 / eps), a, output_indices=True, seed=int(rng.integers(2**31)))
        walk = np.array(walk)
        here = walk[:-1] == a
        kit.rare(mon, 'rare-long', int((here & (walk[1:] == b)).sum()), int(here.sum()), float(Q[a, b]))
        mon.context(rare=None, Q=None)

    # short walks with a final state
    for _ in range(4):
        start = int(rng.integers(n)) if rng.random() < 0.8 else None
        final = int(rng.integers(n)) if rng.random() < 0.85 else None
        steps = int(rng.choice([2, 3, 7, 40]))
        ind = bool(rng.random() < 0.5)
        seed = None if rng.random() < 0.5 else int(rng.integers(2**31))
        mon.context(start=start, final=final, steps=steps)
        kw = {}
        if start is not None:
            kw['initial_state'] = gen.state_ref(rng, names, start)
        if final is not None:
            kw['final_state'] = gen.state_ref(rng, names, final)
        valid(mc.simulate(steps, output_indices=ind, seed=seed, **kw), steps, start, final, ind)

    # arrival within the steps has the probability of the chain (catches walks cut or prolonged)
    if rng.random() < 0.3:
        counts = np.zeros(n)
        for _ in range(150):
            counts[index_of(names, mc.simulate(2, output_indices=bool(rng.random() < 0.5))[0])] += 1
        kit.law(mon, 'initial', counts, np.full(n, 1 / n))
    if rng.random() < 0.5:
        start = int(rng.integers(n))
        counts = np.zeros(n)
        for k in range(120):
            ind = bool(k % 2)
            x = mc.next(gen.state_ref(rng, names, start), ind, None if k % 3 else int(rng.integers(2**31)))
            mon.check(type(x) is int if ind else isinstance(x, str), 'next-form')
            counts[index_of(names, x)] += 1
        kit.law(mon, 'next', counts, P[start])
    if rng.random() < 0.3:
        kit.rejected(mon, pydtmc, 'invalid-steps', mc.simulate, gen.pick(rng, [0, 1, -3, 2.5, '3', None, True]))
        kit.rejected(mon, pydtmc, 'invalid-state', mc.simulate, 3, gen.pick(rng, [n, -1, 'nowhere', 0.5, [0]]))
        kit.rejected(mon, pydtmc, 'invalid-state', mc.next, gen.pick(rng, [n, -1, 'nowhere', 0.5, None, [0]]))
    kit.unchanged(mon, mc, before)
