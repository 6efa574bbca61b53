# C15: finite-horizon evolution: redistributions, expected rewards and transitions, time correlations and relaxations.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain, an initial distribution or state in some form, horizons up to 80 steps (below and above the number of states), rewards, observed sequences and time points; distinct by all of them'
MINIMUM = {'long-redistributions': 60, 'scaled-rewards': 150, 'distinct': 500, 'beyond-size': 300, 'oscillating': 80, 'several-stationary': 60, 'gaps': 200, 'very-long': 40}
ASSUMPTIONS = ['horizons beyond the number of states are judged with the accuracy an eigendecomposition can deliver']


def rdl(P):
    # the decomposition the code under test is known to apply to matrices with non-real eigenvalues: real parts of the factors
    w, v = np.linalg.eig(P)
    o = np.argsort(np.abs(w))[::-1]
    w, v = w[o], v[:, o]
    r, l = v.copy(), np.linalg.solve(v.T, np.eye(P.shape[0]))
    k = l[:, 0].sum()
    if not np.isclose(k, 0):
        r[:, 0] *= k
        l[:, 0] /= k
    return r.real, w.real, l.real.T


def powers_sum(P, k):
    # I + P + ... + P^(k-1)
    if k == 0:
        return np.zeros_like(P)
    if k % 2:
        return np.eye(P.shape[0]) + P @ powers_sum(P, k - 1)
    return (np.eye(P.shape[0]) + P) @ powers_sum(P @ P, k // 2)


def start(rng, names, n):
    r = rng.random()
    if r < 0.2:
        return None, np.full(n, 1 / n)
    if r < 0.4:
        i = int(rng.integers(n))
        d = np.zeros(n)
        d[i] = 1
        return gen.state_ref(rng, names, i), d
    d = gen.distribution(rng, n)
    return vector(rng, d), d


def vector(rng, d):
    import pandas as pd
    return gen.pick(rng, [d.copy(), d.tolist(), d.reshape(1, -1).copy(), pd.Series(d)])


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['irreducible', 'ring', 'permutation'])) if rng.random() < 0.2 else None)
    weak = rng.random() < 0.15
    if weak:
        kind, P = 'weakly-linked', gen.scales(rng, gen.ergodic(rng, 6), 22)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    mon.context(kind=kind, P=P, labels=names)
    w, V = np.linalg.eig(P)
    oscillating = bool(np.iscomplexobj(w) and (w.imag != 0).any())  # possibly through rounding errors only
    if oscillating:
        mon.event('oscillating')
    # what an eigendecomposition can deliver
    cv = min(float(np.linalg.cond(V)), 1e8)
    gap = np.abs(1 - w[np.abs(1 - w) > 1e-12])
    gap = float(gap.min()) if gap.size else 1.0

    # redistributions
    steps = int(rng.choice([1, 2, 5, 30, 200]))
    arg, d0 = start(rng, names, n)
    mon.context(steps=steps, initial=arg)
    mon.distinct(P, steps, d0)
    want = [d0]
    for _ in range(steps):
        want.append(want[-1] @ P)
    got = kit.take(mc.redistribute(steps, arg, output_last=False))
    mon.check(isinstance(got, list) and len(got) == steps + 1, 'one-distribution-per-step', len(got))
    mon.close(np.array(got), np.array(want), 'redistributions', rtol=1e-10, atol=1e-300)
    mon.close(kit.take(mc.redistribute(steps, arg) if rng.random() < 0.5 else mc.redistribute(steps, arg, True)), want[-1], 'last-redistribution', rtol=1e-10, atol=1e-300)

    # many steps with rows which sum to one only nearly
    if rng.random() < 0.12:
        Q = P * (1 + rng.uniform(-4e-6, 4e-6, size=n))[:, None]
        many = int(rng.choice([600, 1500, 4000, 12000]))
        loose = pydtmc.MarkovChain(np.minimum(Q, 1), list(names))
        Q = loose.p
        mon.event('long-redistributions')
        mon.context(Q=Q, many=many)
        v = d0.copy()
        for _ in range(many):
            v = v @ Q
            v /= v.sum()
        mon.close(kit.take(loose.redistribute(many, arg)), v, 'last-redistribution', rtol=1e-9, atol=1e-15)
        at = int(rng.integers(1, many + 1))
        got = kit.take(loose.redistribute(many, arg, output_last=False))
        mon.check(len(got) == many + 1, 'one-distribution-per-step')
        mon.close(np.array(got).sum(axis=1), np.ones(many + 1), 'redistributions-normalized', 1e-12, 0)
        mon.close(got[at] @ Q / (got[at] @ Q).sum(), got[at + 1] if at < many else v, 'redistributions', rtol=1e-9, atol=1e-15)
        mon.context(Q=None, many=None)

    # expected rewards
    rew = rng.choice([-3.0, -1.0, 0.0, 0.5, 2.0, 7.0], size=n)
    if rng.random() < 0.4:
        rew = rew * 10.0**int(rng.integers(-13, 14))
        if rng.random() < 0.4:
            rew[int(rng.integers(n))] = 10.0**int(rng.integers(-13, 14))
        mon.event('scaled-rewards')
    k = int(rng.choice([1, 2, 3, 20, 150]))
    want = rew.copy()
    for _ in range(k):
        want = rew + P @ want
    mon.context(rewards=rew, reward_steps=k)
    mon.close(kit.take(kit.pick2(rng, mc.expected_rewards, mc.er)(k, vector(rng, rew))), want, 'expected-rewards', rtol=1e-10, atol=1e-12 * k * np.abs(rew).max())

    # expected transitions
    k = int(rng.choice([1, 2, n - 1, n, n + 1, n + 2, 2 * n + 3, 80]))
    k = int(rng.choice([1000, 40000, 1000000])) if rng.random() < (0.7 if weak else 0.1) else max(k, 1)
    if k > 80:
        mon.event('very-long')
    d0 = gen.distribution(rng, n)
    arg = vector(rng, d0)
    if rng.random() < 0.2:
        arg, d0 = None, np.full(n, 1 / n)
    mon.context(transition_steps=k, distribution=d0)
    occ = d0 @ powers_sum(P, k)
    if k > n:
        mon.event('beyond-size')
    f = kit.pick2(rng, mc.expected_transitions, mc.et)
    got = kit.take(f(k, arg) if arg is not None else f(k))
    right = occ[:, None] * P
    tol = 1e-10 if k <= n else 1e-9 + 1e-14 * cv * min(k, 1 / gap) + 2e-15 / gap
    if not (k > n and oscillating):
        mon.close(got, right, 'expected-transitions', rtol=tol, atol=1e-300 if k <= n else tol * occ.max())
    elif not kit.close(got, right, atol=1e-7):
        r, ev, l = rdl(P)
        g = np.full(n, float(k))
        g[ev != 1] = (1 - ev[ev != 1]**k) / (1 - ev[ev != 1])
        mon.close(got, (d0 @ (r @ np.diag(g) @ l))[:, None] * P, 'expected-transitions', rtol=1e-5, atol=1e-6)
        mon.known('real-parts-expected-transitions', k)

    # time correlations and relaxations
    seq1 = [int(x) for x in rng.integers(n, size=int(rng.integers(2, 12)))]
    seq2 = [int(x) for x in rng.integers(n, size=int(rng.integers(2, 12)))] if rng.random() < 0.6 else None
    if rng.random() < 0.3:
        tp = int(rng.choice([0, 1, 2, 3, n, n + 1, 25]))
        times = [tp]
    else:
        pool = [int(x) for x in rng.choice(40 if rng.random() < 0.5 else n + 1, size=int(rng.integers(1, min(n + 1, 6))), replace=False)]
        tp = [pool[i] for i in rng.permutation(len(pool))]
        times = sorted(tp)
        if len(times) > 1 and max(np.diff(times)) > 1:
            mon.event('gaps')
    mon.context(seq1=seq1, seq2=seq2, time_points=tp)
    o1 = np.bincount(seq1, minlength=n).astype(float)
    o2 = o1 if seq2 is None else np.bincount(seq2, minlength=n).astype(float)
    rec = ref.recurrent_classes(P)
    f = kit.pick2(rng, mc.time_correlations, mc.tc)
    gotc = f(gen.seq_form(rng, names, seq1), None if seq2 is None else gen.seq_form(rng, names, seq2), tp)
    if rng.random() < 0.7:
        dd = gen.distribution(rng, n)
        darg = vector(rng, dd)
    else:
        darg, dd = None, np.full(n, 1 / n)
    f = kit.pick2(rng, mc.time_relaxations, mc.tr)
    gotr = f(gen.seq_form(rng, names, seq1), darg, tp)
    mon.context(relaxation_distribution=dd)

    if len(rec) > 1:
        mon.event('several-stationary')
        mon.check(gotc is None and gotr is None, 'none-with-several-stationary-distributions', lambda: (gotc, gotr))
        return
    pi = ref.stationary_of_class(P, rec[0])
    mon.check(isinstance(gotc, float) == isinstance(tp, int) and isinstance(gotr, float) == isinstance(tp, int), 'a-number-for-a-single-time-point', lambda: (gotc, gotr))
    gc, gr = np.atleast_1d(gotc), np.atleast_1d(gotr)
    pw = [ref.powers(P, t) for t in times]
    for name, got, right, left in (('correlations', gc, [(o1 * pi) @ m @ o2 for m in pw], (o1 * pi, o2)), ('relaxations', gr, [dd @ m @ o1 for m in pw], (dd, o1))):
        if not (times[-1] > n and oscillating):
            tol = 1e-10 if times[-1] <= n else 1e-9 + 1e-14 * cv * (1 + times[-1])
            mon.close(got, right, name, rtol=tol, atol=(1e-15 if times[-1] <= n else tol) * o1.max() * o2.max())
        elif not kit.close(got, right, atol=1e-6):
            r, ev, l = rdl(P)
            mon.close(got, [left[0] @ (r @ np.diag(ev**t) @ l) @ left[1] for t in times], name, rtol=1e-5, atol=1e-5)
            mon.known('real-parts-' + name, times)


def finish(mon, tier, seed):
    mc = pydtmc.MarkovChain([[0.0, 0.75, 0.25], [0.25, 0.0, 0.75], [0.75, 0.25, 0.0]])
    P = mc.p
    mon.context(witness='three states with non-real eigenvalues')
    occ, d = np.zeros(3), np.array([1.0, 0.0, 0.0])
    for _ in range(8):
        occ, d = occ + d, d @ P
    if not kit.close(mc.expected_transitions(8, [1.0, 0.0, 0.0]), occ[:, None] * P):
        mon.known('real-parts-expected-transitions', 'witness')
    m = ref.powers(P, 7)
    o = np.array([1.0, 1.0, 0.0])
    if not kit.close(mc.time_correlations([0, 1], None, 7), (o / 3) @ m @ o, rtol=1e-9, atol=1e-12):
        mon.known('real-parts-correlations', 'witness')
    if not kit.close(mc.time_relaxations([0, 1], [1.0, 0.0, 0.0], 7), m[0] @ o, rtol=1e-9, atol=1e-12):
        mon.known('real-parts-relaxations', 'witness')
