# C20: prediction of Markov chains and sequence probabilities.
import math

import numpy as np

import pydtmc
from vh import gen, kit

CASES = (1200, 40000)
CAP = (90, 700)
RULE = 'one case = one generated chain, an initial state and a horizon, plus observed sequences (possible and impossible, up to 400 observations); distinct by all of them'
MINIMUM = {'small-probabilities': 40, 'distinct': 600, 'tie': 80, 'path': 200, 'possible': 300, 'impossible': 200, 'long': 100, 'near-tie': 80, 'big': 3}
ASSUMPTIONS = ['a tie is an exact equality of the largest probabilities of a row']


def case(rng, mon, tier, index):

    big = rng.random() < 0.015
    kind, P, lab, names = kit.pick_big(rng) if big else kit.pick_chain(rng, kind='rank1' if rng.random() < 0.05 else 'ring' if rng.random() < 0.1 else None)
    if big:
        mon.event('big')
    elif rng.random() < 0.15:
        P = gen.scales(rng, P)
    elif rng.random() < 0.15:
        # the two largest probabilities of a row differ by very little, or not at all
        kind, P = 'near-ties', P.copy()
        mon.event('near-tie')
        for i in range(P.shape[0]):
            if rng.random() < 0.7:
                a, b = [int(x) for x in rng.choice(P.shape[0], size=2, replace=False)]
                e = float(gen.pick(rng, [2.0**-12, 2.0**-18, 2.0**-24, 2.0**-30, 2.0**-40]))
                P[i] = 0
                P[i, a], P[i, b] = 0.5 + e, 0.5 - e
    if rng.random() < 0.15:
        P = gen.extreme(rng, P)
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    s = int(rng.integers(n))
    steps = int(rng.choice([1, 2, 3, 10, 50]))
    if (P[P > 0] < 1e-4).any():
        mon.event('small-probabilities')
    mon.context(kind=kind, P=P, labels=names, start=s, steps=steps)
    mon.distinct(P, s, steps)

    path, cur = [s], s
    for _ in range(steps):
        top = np.flatnonzero(P[cur] == P[cur].max())
        if top.size > 1:
            path = None
            break
        cur = int(top[0])
        path.append(cur)
    mon.event('tie' if path is None else 'path')
    got = mc.predict(steps, gen.state_ref(rng, names, s), output_indices=True)
    mon.equal(None if got is None else [int(x) for x in kit.take(got)], path, 'prediction')
    got = mc.predict(steps, gen.state_ref(rng, names, s))
    mon.equal(got, None if path is None else [names[i] for i in path], 'prediction-labels')

    for _ in range(3):
        length = int(rng.choice([1, 2, 5, 30, 400], p=[0.3, 0.3, 0.2, 0.1, 0.1]))
        seq = gen.walk(rng, P, length)
        if rng.random() < 0.4:
            seq[int(rng.integers(len(seq)))] = int(rng.integers(n))
        pr = [P[i, j] for i, j in zip(seq[:-1], seq[1:])]
        arg = gen.seq_form(rng, names, seq)
        keep = list(arg)
        got = float(mc.sequence_probability(arg))
        mon.check(arg == keep, 'argument-untouched')
        mon.context(sequence=seq)
        if min(pr) == 0:
            mon.event('impossible')
            mon.equal(got, 0.0, 'impossible-sequence')
        else:
            mon.event('possible')
            if length > 20:
                mon.event('long')
            ll = sum(math.log(x) for x in pr)
            if ll > -650:
                mon.check(abs(math.log(got) - ll) < 1e-9 * (1 + abs(ll)) if got > 0 else False, 'sequence-probability', lambda: f'{got} expected {math.exp(ll)}')
            else:
                mon.check(0 <= got <= 1e-280, 'sequence-probability-underflow', got)
