# C13: first passage probabilities and first passage rewards.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain, an initial state, a number of steps (1 to 400), target sets and rewards; distinct by all of them'
MINIMUM = {'small-probabilities': 120, 'distinct': 400, 'all-targets': 200, 'single-target': 300, 'set-of-targets': 100, 'reward': 200, 'many-steps': 60, 'slow': 60}
ASSUMPTIONS = ['first passage rewards sum the rewards of the states visited at times 1..steps before the first passage']


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng)
    r = rng.random()
    if r < 0.25:
        P = gen.scales(rng, P) if r < 0.15 else gen.tiny(rng, P)
        mon.event('small-probabilities')
    elif r < 0.37:
        # moves are rare: passages take hundreds of steps
        keep = 1 - 2.0**-rng.integers(4, 12)
        P = keep * np.eye(P.shape[0]) + (1 - keep) * P
        P = P / P.sum(axis=1, keepdims=True)
        mon.event('slow')
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    steps = int(rng.choice([1, 2, 3, int(rng.integers(4, 15)), int(rng.integers(15, 61)), int(rng.integers(61, 401))], p=[.16, .17, .17, .19, .19, .12]))
    if steps > 60:
        mon.event('many-steps')
    s = int(rng.integers(n))
    T = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    t = int(rng.integers(n))
    mon.context(kind=kind, P=P, labels=names, steps=steps, start=s, targets=T, target=t)
    mon.distinct(P, steps, s, T)

    f = kit.pick2(rng, mc.first_passage_probabilities, mc.fpp)
    got = kit.take(f(steps, gen.state_ref(rng, names, s)))
    want = np.array([ref.first_passage(P, s, [j], steps) for j in range(n)]).T
    mon.event('all-targets')
    mon.close(got, want, 'to-every-state', rtol=1e-10, atol=1e-300)
    mon.event('single-target')
    mon.close(kit.take(f(steps, gen.state_ref(rng, names, s), gen.state_ref(rng, names, t))), want[:, t], 'to-a-state', rtol=1e-10, atol=1e-300)

    got = kit.take(f(steps, gen.state_ref(rng, names, s), gen.state_refs(rng, names, T)))
    right = ref.first_passage(P, s, T, steps)
    if len(T) == 1:
        mon.close(got, right, 'to-a-singleton', rtol=1e-10, atol=1e-300)
    else:
        mon.event('set-of-targets')
        if not kit.close(got, right, rtol=1e-10, atol=1e-300):
            mon.check(kit.close(got, want[:, T].sum(axis=1), rtol=1e-10, atol=1e-300), 'to-a-set', lambda: f'got {got} expected {right}')
            mon.known('set-of-first-passage-states', 'first_passage_probabilities with a set of states')

    rewards = np.array([float(x) for x in rng.choice([-2, -1, 0, 0.5, 1, 3, 10], size=n)])
    if rng.random() < 0.3:
        rewards *= 10.0**rng.integers(-12, 13, size=n)
    rform = gen.pick(rng, [rewards, rewards.tolist(), [rewards.tolist()], np.asmatrix(rewards)])
    if n > 2:
        T = [x for x in T if x != s][:n - 2] or [(s + 1) % n]
        mon.context(rewards=rewards, reward_targets=T)
        mon.event('reward')
        d = np.zeros(n)
        d[s] = 1
        total = size = 0.0
        for _ in range(steps):
            d = d @ P
            d[T] = 0
            total += d @ rewards
            size += d @ np.abs(rewards)
        g = kit.pick2(rng, mc.first_passage_reward, mc.fpr)
        mon.close(g(steps, gen.state_ref(rng, names, s), gen.state_refs(rng, names, T), rform), total, 'reward', rtol=1e-10, atol=1e-12 * size)


def finish(mon, tier, seed):
    mc = pydtmc.MarkovChain([[0.5, 0.25, 0.25], [0.25, 0.5, 0.25], [0.25, 0.25, 0.5]])
    got = mc.first_passage_probabilities(3, 0, [1, 2])
    mon.context(witness='first passage from state 0 to {1, 2}')
    if not kit.close(got, [0.5, 0.25, 0.125]):
        mon.close(got, [0.5, 2 * 0.1875, 2 * 0.140625], 'to-a-set')
        mon.known('set-of-first-passage-states', got)
