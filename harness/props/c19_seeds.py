# C19: seeded results are reproducible and isolated from the global generators.
import random

import numpy as np

import pydtmc
from vh import gen, kit

CASES = (700, 20000)
CAP = (80, 600)
RULE = 'one case = one generated model and one operation accepting a seed, run again under other global generator states, after other operations and on an equal model; distinct by operation, seed and model'
MINIMUM = {'distinct': 300, 'same-result': 1200, 'global-state': 1200, 'agreement': 200, 'unseeded-governed': 60, 'seed-matters': 20}
ASSUMPTIONS = ['operations without a seed draw from the global numpy generator', 'agreement: the same seeded operations run in 8 processes with different hash seeds']


def same(a, b):
    if isinstance(a, (pydtmc.MarkovChain, pydtmc.HiddenMarkovModel)):
        if type(a) is not type(b) or a.p.tobytes() != b.p.tobytes() or a.states != b.states:
            return False
        return not isinstance(a, pydtmc.HiddenMarkovModel) or (a.e.tobytes() == b.e.tobytes() and a.symbols == b.symbols)
    return type(a) is type(b) and a == b


def digest(v):
    if isinstance(v, pydtmc.MarkovChain):
        return repr((v.p.tobytes().hex(), v.states))
    if isinstance(v, pydtmc.HiddenMarkovModel):
        return repr((v.p.tobytes().hex(), v.e.tobytes().hex(), v.states, v.symbols))
    return repr(v)


def operations(rng):
    # name -> function of a seed, built on generated models
    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 8, 10), p=(.3, .3, .2, .2))
    n = P.shape[0]
    start, final, steps = int(rng.integers(n)), int(rng.integers(n)), int(rng.integers(2, 60))
    ind = bool(rng.random() < 0.5)
    build = lambda: pydtmc.MarkovChain(P.copy(), None if lab is None else list(lab))  # noqa: E731
    _, hp, he = gen.hmm(rng)
    hb = lambda: pydtmc.HiddenMarkovModel(hp.copy(), he.copy())  # noqa: E731
    hn, hk = he.shape
    size = int(rng.integers(2, 8))
    zeros = int(rng.integers(0, size * (size - 1) + 1))
    mask = np.full((size, size), np.nan)
    mask[0, 0] = 0.25
    dist, kw = gen.pick(rng, [('uniform', {}), ('normal', {'loc': 1.0}), ('gamma', {'shape': 2.0}), ('poisson', {'lam': 2})])
    d = int(rng.integers(1, size + 1))
    hs = int(rng.integers(hn))
    target = gen.pick(rng, ['both', 'state', 'symbol'])
    MC, HM = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
    ops = {
        'mc.next': lambda m, s: m[0].next(start, ind, s),
        'mc.simulate': lambda m, s: m[0].simulate(steps, start, final, ind, s),
        'mc.simulate-uniform': lambda m, s: m[0].simulate(steps, output_indices=ind, seed=s),
        'hmm.next': lambda m, s: m[1].next(hs, target, ind, s),
        'hmm.simulate': lambda m, s: m[1].simulate(steps, hs, None, None, ind, s),
        'hmm.simulate-uniform': lambda m, s: m[1].simulate(steps, output_indices=ind, seed=s),
        'random': lambda m, s: MC.random(size, zeros=zeros, seed=s),
        'random-mask': lambda m, s: MC.random(size, mask=mask, seed=s),
        'random-distribution': lambda m, s: MC.random_distribution(size, dist, seed=s, **kw),
        'random-distribution-function': lambda m, s: MC.random_distribution(size, getattr(np.random, dist), seed=s, **kw),
        'dirichlet': lambda m, s: MC.dirichlet_process(size, d, diagonal_bias_factor=None if ind else 2.5, shift_concentration=ind, seed=s),
        'hmm.random': lambda m, s: HM.random(size, d + 1, p_zeros=min(zeros, 2), seed=s),
    }
    return ops, (build, hb), (kind, P, lab, hp, he, size, zeros, dist, steps, start, final)


def globals_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate()


def case(rng, mon, tier, index):

    ops, (mc, hm), ident = operations(rng)
    models = (mc(), hm())
    for name in kit.shuffled(rng, sorted(ops))[:5]:
        op = ops[name]
        seed = gen.pick(rng, [0, 1, 42, int(rng.integers(2**31)), 2**32 - 1, np.int64(rng.integers(2**31))])
        mon.context(operation=name, seed=seed, model=ident)
        mon.distinct(name, int(seed), *ident)
        np.random.seed(int(rng.integers(2**32)))
        random.seed(int(rng.integers(2**32)))
        before = globals_state()
        first = op(models, seed)
        mon.check(globals_state() == before, 'global-state', 'a seeded operation changed the state of a global generator')
        # other activity in between: draws, other operations, results spoiled by the caller
        np.random.random(int(rng.integers(0, 50)))
        if rng.random() < 0.5:
            other = gen.pick(rng, sorted(ops))
            kit.poison(ops[other](models, None if rng.random() < 0.5 else 7))
        keep = list(first) if isinstance(first, list) else first
        again = models if rng.random() < 0.5 else (mc(), hm())
        kit.disturb(rng, again[0])
        second = op(again, int(seed) if rng.random() < 0.5 else seed)
        mon.check(same(keep, second), 'same-result', lambda: f'{digest(keep)[:300]} then {digest(second)[:300]}')

    if index % 4 == 0:
        name = gen.pick(rng, sorted(ops))
        mon.context(operation=name)
        np.random.seed(123)
        a = op_list(ops[name], models)
        np.random.seed(123)
        b = op_list(ops[name], models)
        mon.check(all(same(x, y) for x, y in zip(a, b)), 'unseeded-governed')
        # different seeds give different draws, and so do consecutive unseeded operations
        if name in ('random-distribution', 'random-distribution-function', 'dirichlet', 'hmm.random') and ident[7] != 'poisson':
            r = [digest(ops[name](models, int(s))) for s in range(4)]
            mon.check(len(set(r)) == 4, 'seed-matters', 'different seeds give the same result')
            mon.check(len({digest(x) for x in a}) == len(a), 'unseeded-varies')
    if index % 16 == 0:
        for bad in (1.5, 'a', [1], True, np.float64(2.0), -1):
            try:
                ops['mc.simulate'](models, bad)
                mon.fail('invalid-seed', f'the seed {bad!r} was accepted')
            except pydtmc.ValidationError:
                mon.rules['invalid-seed'] += 1


def op_list(op, models):
    return [op(models, None) for _ in range(3)]


def everywhere(mon, tier, seed):
    # the same seeded operations and the same structural queries, in every process
    rng = np.random.default_rng(seed + 17)
    for k in range(12):
        ops, (mc, hm), ident = operations(rng)
        m = (mc(), hm())
        for name in sorted(ops):
            mon.agree(f'{k}:{name}', digest(ops[name](m, 1000 + k)))
        c = m[0]
        for q in ('communicating_classes', 'recurrent_classes', 'transient_classes', 'cyclic_classes', 'recurrent_states', 'transient_states', 'absorbing_states', 'cyclic_states',
                  'period', 'periods', 'lumping_partitions', 'states', 'is_ergodic'):
            mon.agree(f'{k}:{q}', repr(getattr(c, q)))
        mon.agree(f'{k}:pi', repr([x.tolist() for x in c.pi]))
        mon.agree(f'{k}:str', str(c))
        mon.agree(f'{k}:graph', repr((list(c.to_graph().nodes), list(c.to_graph().edges))))
        mon.agree(f'{k}:dictionary', repr(list(c.to_dictionary())))
        mon.agree(f'{k}:hmm', str(m[1]))
