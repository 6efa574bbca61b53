# C17: mixing times.
import math

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain (four fifths ergodic), an initial distribution, a jump and a cutoff; distinct by all of them; trivial when the mixing time is 1'
MINIMUM = {'distinct': 200, 'ergodic': 300, 'none': 40, 'slow': 30, 'jump': 100, 'tie': 12, 'stalled': 60, 'natural': 200, 'traditional': 200}
ASSUMPTIONS = ['the distance is the sum of the absolute differences, as fixed by the existing tests', 'distances within 1e-9 of the cutoff are skipped, unless they are exact', 'None is the documented result after 100 iterations']


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['ergodic', 'dense', 'birthdeath', 'reversible', 'ring'])) if rng.random() < 0.8 else None)
    stalled = False
    if rng.random() < 0.4:
        # slow it down
        a = float(rng.choice([0.5, 0.9, 0.97, 0.995, 0.9999, 1 - 1e-6, 1 - 1e-8, 1 - 1e-10]))
        stalled = a > 0.999
        P = (1 - a) * P + a * np.eye(P.shape[0])
        P /= P.sum(axis=1, keepdims=True)
    tie = rng.random() < 0.04
    if tie:
        # the distance halves (or more) with every step, exactly: it meets the traditional cutoff
        e = float(rng.choice([0.5, 0.25, 0.125, 0.0625]))
        kind, P = 'tie', np.array([[(1 + e) / 2, (1 - e) / 2], [(1 - e) / 2, (1 + e) / 2]])
        lab = gen.labels(rng, 2)
        names = kit.names(lab, 2)
        mon.event('tie')
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    d = gen.distribution(rng, n)
    arg = gen.pick(rng, [d.copy(), d.tolist()])
    if rng.random() < 0.2:
        arg, d = None, np.full(n, 1 / n)
    if tie:
        d = np.array([[1.0, 0.0], [0.0, 1.0]][int(rng.integers(2))]) if rng.random() < 0.7 else np.array([0.75, 0.25])
        arg = d.tolist()
    jump = int(rng.choice([1, 1, 1, 2, 3, 7]))
    if stalled and not tie:
        mon.event('stalled')
        jump = 1
        if rng.random() < 0.5:
            d = np.eye(n)[int(rng.integers(n))]
            arg = d.tolist()
    cutoff = str(rng.choice(['natural', 'traditional']))
    if tie:
        jump, cutoff = 1, 'traditional'
    mon.context(kind=kind, P=P, labels=names, distribution=d, jump=jump, cutoff=cutoff)
    f = kit.pick2(rng, mc.mixing_time, mc.mt)
    got = f(initial_distribution=arg, jump=jump, cutoff_type=cutoff)

    if not (ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1):
        mon.event('none')
        mon.check(got is None, 'none-when-not-ergodic', got)
        return
    mon.event('ergodic')
    mon.event(cutoff)
    pi = ref.precise_stationary(P)
    limit = 0.25 if cutoff == 'traditional' else 1 / (2 * math.e)
    dist, x = [], d
    for _ in range(101):
        x = x @ P
        dist.append(float(np.abs(x - pi).sum()))
    if not tie and any(abs(v - limit) < 1e-9 for v in dist):
        return mon.skip('close to the cutoff')
    t1 = next((t for t, v in enumerate(dist, 1) if v <= limit), None)
    if t1 is not None and t1 > 1:
        mon.distinct(P, d, cutoff, jump)
        if t1 > 10:
            mon.event('slow')

    if jump == 1:
        mon.equal(got, t1 if t1 is not None and t1 < 100 else None, 'mixing-time')
        return
    mon.event('jump')
    # with a jump of J steps per iteration, the right answer is a multiple of J
    if t1 is None or t1 >= 100:
        ok = got is None
        q = ref.powers(P, jump)
        x = d
        right = None
        for k in range(1, 100):
            x = x @ q
            if np.abs(x - pi).sum() <= limit:
                right = k * jump
                break
        if got == right and not ok:
            return
        mon.check(ok, 'mixing-time-jump', lambda: f'got {got}')
        if right is not None:
            mon.known('jump', 'None')
        return
    right = jump * -(-t1 // jump)
    if got == right:
        mon.check(True, 'mixing-time-jump')
        return
    mon.equal(got, jump * t1, 'mixing-time-jump')
    mon.known('jump', (got, right))


def finish(mon, tier, seed):
    mc = pydtmc.MarkovChain([[0.875, 0.125], [0.125, 0.875]])
    one, five = mc.mixing_time([1.0, 0.0]), mc.mixing_time([1.0, 0.0], jump=5)
    mon.context(witness='lazy two-state chain')
    mon.equal(one, 6, 'mixing-time')
    if five != 10:
        mon.equal(five, 30, 'mixing-time-jump')
        mon.known('jump', five)
