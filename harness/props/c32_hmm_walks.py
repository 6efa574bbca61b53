# C32: simulation, restriction and elementary quantities of hidden Markov models.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (320, 8000)
CAP = (110, 800)
CASE_LIMIT = 200
RULE = 'one case = one generated model with walks under several start, stop and output choices, restrictions and single probabilities; distinct by model; trivial when the chain is the identity'
MINIMUM = {'distinct': 220, 'transitions-law': 300, 'emissions-law': 300, 'stop-at-state': 60, 'stop-at-symbol': 60, 'next-law': 40, 'first-symbol-law': 40, 'restrict': 200, 'random-masked': 40, 'ergodic': 30, 'regular': 30, 'moves': 100000, 'rare-moves': 15, 'rare-long': 6, 'restrict-scales': 50, 'extreme-draw': 800}
ASSUMPTIONS = ['a simulated sequence has one symbol per state, the first one included, and stops after the first step which reaches the final state or the final symbol',
               'a model is ergodic when its chain is and every emission is possible, regular when the emission matrix has full column rank', 'goodness of fit at a significance of 1e-10']


def index_of(names, x):
    return names.index(x) if isinstance(x, str) else int(x)


def restricted(P, E, ss, yy):
    def norm(M):
        M = M.copy()
        M[M.sum(axis=1) == 0] = 1.0
        return M / M.sum(axis=1, keepdims=True)
    return norm(P[np.ix_(ss, ss)]), norm(E[np.ix_(ss, yy)])


def case(rng, mon, tier, index):

    kind, P, E = gen.hmm(rng, 6, 6)
    n, k = E.shape
    s, y, names, syms = gen.hmm_labels(rng, n, k)
    m = kit.build_hmm(rng, pydtmc, P, E, s, y)
    frozen = kit.freeze_hmm(m)
    P, E = m.p, m.e
    mon.context(kind=kind, P=P, E=E, states=names, symbols=syms)
    if kind != 'identity':
        mon.distinct(P, E, s, y)

    # structure
    mon.equal((m.n, m.k, m.size), (n, k, (n, k)), 'sizes')
    erg = ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1 and bool((E > 0).all())
    mon.equal(bool(m.is_ergodic), erg, 'ergodic')
    if erg:
        mon.event('ergodic')
    sv = np.linalg.svd(E, compute_uv=False)
    if sv[-1] > 1e-6 or sv[-1] < 1e-15 or k > n:
        reg = k <= n and sv[-1] > 1e-6
        mon.equal(bool(m.is_regular), reg, 'regular')
        if reg:
            mon.event('regular')
    text = str(m)
    mon.check(f'{n:d}' in text and f'{k:d}' in text, 'summary')
    for _ in range(3):
        i, j, b = int(rng.integers(n)), int(rng.integers(n)), int(rng.integers(k))
        mon.equal(float(m.transition_probability(gen.state_ref(rng, names, i), gen.state_ref(rng, names, j))), float(P[j, i]), 'transition-probability')
        mon.equal(float(m.emission_probability(gen.state_ref(rng, syms, b), gen.state_ref(rng, names, i))), float(E[i, b]), 'emission-probability')

    def valid(out, steps, start, fs, fy, indices):
        mon.check(isinstance(out, tuple) and len(out) == 2, 'walk-form')
        for walk, labels in zip(out, (names, syms)):
            mon.check(isinstance(walk, list) and all((type(x) is int and 0 <= x < len(labels)) if indices else (isinstance(x, str) and x in labels) for x in walk), 'walk-form', lambda: f'{walk!r}')
        a, b = [index_of(names, x) for x in out[0]], [index_of(syms, x) for x in out[1]]
        mon.equal(len(a), len(b), 'walk-form')
        if start is not None:
            mon.equal(a[0], start, 'walk-start')
        for u, v in zip(a, a[1:]):
            if P[u, v] <= 0:
                mon.fail('walk-support', f'{u} -> {v} has probability zero')
        for u, v in zip(a, b):
            if E[u, v] <= 0:
                mon.fail('emission-support', f'{v} cannot be emitted by {u}')
        mon.rules['walk-support'] += 1
        mon.event('moves', len(a) - 1)
        # stop at the first time at which a final element is reached
        first = next((t for t in range(1, len(a)) if a[t] == fs or b[t] == fy), None)
        if first is None:
            if not (len(a) == 1 and (a[0] == fs or b[0] == fy)):
                mon.equal(len(a), steps + 1, 'walk-length')
        else:
            mon.equal(len(a), first + 1, 'walk-stops-at-the-first-arrival')
            if first < steps:
                mon.event('stop-at-state' if a[first] == fs else 'stop-at-symbol')
        return a, b

    # one long walk
    start = int(rng.integers(n))
    steps = int(gen.pick(rng, [1000, 2000]))
    ind = bool(rng.random() < 0.5)
    seed = None if rng.random() < 0.4 else int(rng.integers(2**31))
    a, b = valid(m.simulate(steps, gen.state_ref(rng, names, start), output_indices=ind, seed=seed), steps, start, None, None, ind)
    C, D, J = np.zeros((n, n)), np.zeros((n, k)), np.zeros((n, k, n))
    np.add.at(C, (a[:-1], a[1:]), 1)
    np.add.at(D, (a, b), 1)
    np.add.at(J, (a[:-1], b[:-1], a[1:]), 1)
    for i in range(n):
        if C[i].sum():
            kit.law(mon, 'transitions', C[i], P[i])
        if D[i].sum():
            kit.law(mon, 'emissions', D[i], E[i])
        # the next state does not depend on the emitted symbol
        for v in range(k):
            if J[i, v].sum() >= 60:
                kit.law(mon, 'independence', J[i, v], P[i])

    # draws next to one, rows which fall short of it
    if rng.random() < 0.5:
        A, B = gen.loose_rows(rng, *[int(rng.integers(2, 5))] * 2), None
        B = gen.loose_rows(rng, A.shape[0], int(rng.integers(2, 5)))
        short = pydtmc.HiddenMarkovModel(A, B)
        mon.context(loose=(A, B))
        for sd in rng.permutation(gen.EXTREME_SEEDS)[:8]:
            mon.event('extreme-draw')
            i, steps = int(rng.integers(len(A))), int(rng.integers(2, 6))
            u, v = short.simulate(steps, i, output_indices=True, seed=int(sd))
            mon.check(len(u) == len(v) == steps + 1 and u[0] == i and all(type(x) is int and 0 <= x < len(A) for x in u) and all(type(x) is int and 0 <= x < B.shape[1] for x in v)
                      and all(A[x, z] > 0 for x, z in zip(u, u[1:])) and all(B[x, z] > 0 for x, z in zip(u, v)), 'extreme-draw', lambda: f'seed {sd}, from {i}, {steps} steps: {u}, {v}')
            x = short.next(i, 'both', True, int(sd))
            mon.check(A[i, x[0]] > 0 and B[x[0], x[1]] > 0, 'extreme-draw', lambda: f'seed {sd}, next of {i}: {x}')
        mon.context(loose=None)

    # one rare transition and one rare symbol in a very long walk
    if rng.random() < 0.06:
        eps, eta = [float(10.0**-rng.uniform(2.5, 4.3)) for _ in range(2)]
        A, B = np.array([[1 - eps, eps], [1, 0]]), np.array([[1 - eta, eta], [0.5, 0.5]])
        x, y = [rng.permutation(2) for _ in range(2)]
        A, B = A[np.ix_(x, x)], B[np.ix_(x, y)]
        i, j = int(np.flatnonzero(x == 0)[0]), int(np.flatnonzero(y == 1)[0])
        mon.event('rare-long')
        mon.context(rare=(eps, eta), A=A, B=B)
        a, b = pydtmc.HiddenMarkovModel(A, B).simulate(int(60 / min(eps, eta)), i, output_indices=True, seed=int(rng.integers(2**31)))
        a, b = np.array(a), np.array(b)
        here = a[:-1] == i
        kit.rare(mon, 'rare-long', int((here & (a[1:] != i)).sum()), int(here.sum()), eps)
        here = a == i
        kit.rare(mon, 'rare-long', int((here & (b == j)).sum()), int(here.sum()), eta)
        mon.context(rare=None, A=None, B=None)

    # many rare states and symbols which are a sizeable part together
    if rng.random() < 0.1:
        big = int(rng.choice([100, 200]))

        def hub():
            w = 10.0**-rng.uniform(3, 5, size=big)
            w[0] = 0
            w *= rng.uniform(0.15, 0.6) / w.sum()
            w[0] = 1 - w.sum()
            return w
        A, B = np.zeros((big, big)), np.zeros((big, big))
        A[1:, 0] = B[1:, 0] = 1
        A[0], B[0] = hub(), hub()
        ps, pe = rng.permutation(big), rng.permutation(big)
        A, B = A[np.ix_(ps, ps)], B[np.ix_(ps, pe)]
        h = int(np.flatnonzero(ps == 0)[0])
        mon.event('rare-moves')
        mon.context(hub=h, A=A[h], B=B[h])
        a, b = pydtmc.HiddenMarkovModel(A, B).simulate(3000, h, output_indices=True, seed=int(rng.integers(2**31)))
        u, v = np.zeros(big), np.zeros(big)
        for t in range(len(a)):
            if a[t] == h:
                v[b[t]] += 1
                if t + 1 < len(a):
                    u[a[t + 1]] += 1
        for got, want in ((u, A[h]), (v, B[h])):
            j = int(want.argmax())
            kit.law(mon, 'rare-moves', got, want)
            kit.law(mon, 'rare-moves', [got[j], got.sum() - got[j]], [want[j], 1 - want[j]])
        mon.context(hub=None, A=None, B=None)

    # short walks with final elements
    for _ in range(4):
        start = int(rng.integers(n)) if rng.random() < 0.8 else None
        fs = int(rng.integers(n)) if rng.random() < 0.6 else None
        fy = int(rng.integers(k)) if rng.random() < 0.6 else None
        steps = int(rng.choice([2, 3, 7, 40]))
        ind = bool(rng.random() < 0.5)
        mon.context(start=start, final_state=fs, final_symbol=fy, steps=steps)
        kw = {}
        if start is not None:
            kw['initial_state'] = gen.state_ref(rng, names, start)
        if fs is not None:
            kw['final_state'] = gen.state_ref(rng, names, fs)
        if fy is not None:
            kw['final_symbol'] = gen.state_ref(rng, syms, fy)
        valid(m.simulate(steps, output_indices=ind, seed=None if rng.random() < 0.5 else int(rng.integers(2**31)), **kw), steps, start, fs, fy, ind)

    if rng.random() < 0.4:
        start = int(rng.integers(n))
        counts, first = np.zeros((n, k)), np.zeros(k)
        for t in range(150):
            ind = bool(t % 2)
            x = m.next(gen.state_ref(rng, names, start), 'both', ind, None if t % 3 else int(rng.integers(2**31)))
            mon.check(isinstance(x, tuple) and len(x) == 2, 'next-form')
            counts[index_of(names, x[0]), index_of(syms, x[1])] += 1
            first[index_of(syms, m.simulate(2, start, output_indices=bool(t % 2))[1][0])] += 1
        kit.law(mon, 'next', counts.ravel(), (P[start][:, None] * E).ravel())
        kit.law(mon, 'first-symbol', first, E[start])
        sd = int(rng.integers(2**31))
        both = m.next(start, 'both', True, sd)
        mon.equal((m.next(start, 'state', True, sd), m.next(start, 'symbol', True, sd)), both, 'next-targets')
        mon.equal((m.next(start, 'state', seed=sd), m.next(start, 'symbol', False, sd)), (names[both[0]], syms[both[1]]), 'next-targets')
        sim = m.simulate(5, start, None, None, True, sd)
        mon.equal(m.simulate(5, names[start], None, None, False, sd), ([names[i] for i in sim[0]], [syms[i] for i in sim[1]]), 'indices-and-labels-agree')
    if rng.random() < 0.2:
        counts = np.zeros(n)
        for _ in range(150):
            counts[index_of(names, m.simulate(2)[0][0])] += 1
        kit.law(mon, 'initial', counts, np.full(n, 1 / n))

    # restriction: also where hardly anything of a row is left
    if rng.random() < 0.3:
        P, E = gen.scales(rng, P), gen.scales(rng, E)
        if rng.random() < 0.4:
            P, E = gen.tiny(rng, P), gen.tiny(rng, E)
        m = pydtmc.HiddenMarkovModel(P, E, list(names), list(syms))
        frozen = kit.freeze_hmm(m)
        P, E = m.p, m.e
        mon.event('restrict-scales')
        mon.context(P=P, E=E)
    for _ in range(3):
        # strict subsets of at least two elements
        ss, yy = list(range(n)), list(range(k))
        r = rng.random()
        kw = {}
        if r < 0.75 and n > 2:
            ss = sorted(rng.choice(n, size=int(rng.integers(2, n)), replace=False).tolist())
            kw['states'] = gen.state_refs(rng, names, ss)
        if (r < 0.5 or r >= 0.75) and k > 2:
            yy = sorted(rng.choice(k, size=int(rng.integers(2, k)), replace=False).tolist())
            kw['symbols'] = gen.state_refs(rng, syms, yy)
        if not kw:
            kit.rejected(mon, pydtmc, 'invalid-restriction', m.restrict, [0, 1] if n == 2 else None)
            continue
        mon.context(restrict=kw)
        mon.event('restrict')
        sub = m.restrict(**kw)
        kit.valid_hmm(mon, pydtmc, sub)
        A, B = restricted(P, E, ss, yy)
        mon.equal((sub.states, sub.symbols), ([names[i] for i in ss], [syms[i] for i in yy]), 'restricted-labels')
        mon.close(sub.p, A, 'restricted-p', 1e-10, 1e-15)
        mon.close(sub.e, B, 'restricted-e', 1e-10, 1e-15)

    # random models
    for _ in range(3 if rng.random() < 0.45 else 0):
        n, k = int(rng.integers(2, 7)), int(rng.integers(2, 7))
        s, y, names, syms = gen.hmm_labels(rng, n, k)
        zp, ze = int(rng.integers(0, n * (n - 1) + 1)), int(rng.integers(0, n * (k - 1) + 1))
        seed = int(rng.integers(2**31))
        kw = {'states': s, 'symbols': y, 'seed': seed}
        mon.context(random=(n, k, zp, ze, seed), s=s, y=y)
        if rng.random() < 0.5:
            r = pydtmc.HiddenMarkovModel.random(n, k, p_zeros=zp, e_zeros=ze, **kw)
            mon.equal((int((r.p == 0).sum()), int((r.e == 0).sum())), (zp, ze), 'random-zeros')
        else:
            masks, free = [], []
            for cols in (n, k):
                M = np.full((n, cols), np.nan)
                room = 0
                for i in range(n):
                    if rng.random() < 0.3:
                        M[i] = gen.random_row(rng, cols, sorted(rng.choice(cols, size=int(rng.integers(1, cols + 1)), replace=False)), 'dyadic')
                    else:
                        for j in rng.choice(cols, size=int(rng.integers(0, cols)), replace=False):
                            M[i, j] = float(rng.choice([0.0, 0.0, 0.125, 0.0625]))
                        # a fixed part below one, and at least one free entry
                        room += int(np.isnan(M[i]).sum()) - 1
                masks.append(M)
                free.append(room)
            zp, ze = int(rng.integers(0, free[0] + 1)), int(rng.integers(0, free[1] + 1))
            given = [M.copy() for M in masks]
            mon.context(masks=masks, zeros=(zp, ze))
            mon.event('random-masked')
            r = pydtmc.HiddenMarkovModel.random(n, k, p_zeros=zp, p_mask=given[0], e_zeros=ze, e_mask=given[1], **kw)
            for got, M, z, g in ((r.p, masks[0], zp, given[0]), (r.e, masks[1], ze, given[1])):
                mon.check(np.array_equal(M, g, equal_nan=True), 'arguments-unchanged')
                fixed = ~np.isnan(M)
                mon.close(got[fixed], M[fixed], 'random-mask', 1e-10, 1e-12)
                mon.equal(int((got[~fixed] == 0).sum()), z, 'random-zeros')
        kit.valid_hmm(mon, pydtmc, r)
        mon.equal((r.states, r.symbols), (names, syms), 'random-labels')

    # rejections
    if rng.random() < 0.3:
        n, k = m.size
        names, syms = m.states, m.symbols
        no = gen.pick(rng, [n, -1, 'nowhere', 0.5, [0]])
        kit.rejected(mon, pydtmc, 'invalid-steps', m.simulate, gen.pick(rng, [0, 1, -3, 2.5, '3', None, True]))
        kit.rejected(mon, pydtmc, 'invalid-state', m.simulate, 3, no)
        kit.rejected(mon, pydtmc, 'invalid-state', m.simulate, 3, None, no)
        kit.rejected(mon, pydtmc, 'invalid-symbol', m.simulate, 3, None, None, gen.pick(rng, [k, -1, names[0], 0.5]))
        kit.rejected(mon, pydtmc, 'invalid-state', m.next, no)
        kit.rejected(mon, pydtmc, 'invalid-target', m.next, 0, gen.pick(rng, ['States', '', None, 1, 'all']))
        kit.rejected(mon, pydtmc, 'invalid-label', m.emission_probability, gen.pick(rng, [k, -1, names[0], 0.5]), 0)
        kit.rejected(mon, pydtmc, 'invalid-label', m.transition_probability, 0, gen.pick(rng, [n, -1, syms[0], 0.5]))
        kit.rejected(mon, pydtmc, 'invalid-restriction', m.restrict, *gen.pick(rng, [(None, None), ([0],), (None, [0]), ([0, n],), (None, [names[0], names[1]]), ([0, 0],), ('ab', None), ([0, names[1]],)]))
        kit.rejected(mon, pydtmc, 'too-many-zeros', pydtmc.HiddenMarkovModel.random, 3, 4, p_zeros=int(gen.pick(rng, [7, 9])), seed=1)
        kit.rejected(mon, pydtmc, 'too-many-zeros', pydtmc.HiddenMarkovModel.random, 3, 4, e_zeros=int(gen.pick(rng, [10, 12])), seed=1)
    mon.check(kit.freeze_hmm(m) == frozen, 'model-unchanged')
