# C25: fitting a chain to an observed sequence.
import numpy as np

import pydtmc
from vh import gen, kit

CASES = (1500, 60000)
CAP = (60, 600)
RULE = 'one case = one observed sequence with its possible states, fitting type and parameter; distinct by all of them; trivial when it has two elements'
MINIMUM = {'distinct': 500, 'mle': 200, 'mle-smoothed': 100, 'map': 150, 'map-hyperparameter': 150, 'unseen': 200, 'map-posterior-mode': 100, 'very-long': 6}
ASSUMPTIONS = ['states which were never left get the uniform distribution', 'the smoothing adds a small constant (1e-3) to every count']


def case(rng, mon, tier, index):

    n = int(rng.integers(2, 9))
    lab = gen.labels(rng, n) or gen.default_labels(n)
    P = gen.chain(rng, n, str(rng.choice(['sparse', 'dense', 'ring', 'absorbing'])))[1]
    if rng.random() < 0.01:
        P = gen.big_chain(rng)[1]
        n = P.shape[0]
        lab = gen.labels(rng, n) or gen.default_labels(n)
        mon.event('big')
    m = P.shape[0]
    length = int(rng.choice([1, 2, 5, 20, 100, 400]))
    idx = gen.walk(rng, P, length)
    if rng.random() < 0.01:
        # long observations: more repetitions of a transition than small counters hold
        a = int(rng.integers(m))
        idx += [a] * int(rng.choice([300, 35000, 70000]))
        idx += gen.walk(rng, P, 5)
        mon.event('very-long')
    if m > n:
        idx = [i % n for i in idx]
    seq = gen.seq_form(rng, lab, idx)
    C = np.zeros((n, n))
    for a, b in zip(idx, idx[1:]):
        C[a, b] += 1
    kind = str(rng.choice(['mle', 'map']))
    states, given = list(lab), list(seq)
    mon.context(kind=kind, states=states, sequence=seq if len(seq) < 60 else seq[:60])
    seen = C.sum(axis=1) > 0
    if not seen.all():
        mon.event('unseen')

    def uniform(M):
        s = M.sum(axis=1, keepdims=True)
        return np.where(s > 0, M / np.where(s > 0, s, 1), 1 / n)

    if kind == 'mle':
        r = rng.random()
        if r < 0.4:
            got = pydtmc.MarkovChain.fit_sequence('mle', states, seq, False)
            mon.event('mle')
            want = uniform(C)
        elif r < 0.8:
            got = pydtmc.MarkovChain.fit_sequence('mle', states, seq, True)
            mon.event('mle-smoothed')
            want = uniform(C + 0.001)
        else:
            got = pydtmc.MarkovChain.fit_sequence('mle', states, seq)
            mon.event('mle')
            want = uniform(C + 0.001)
            if not kit.close(got.p, want, 1e-9, 1e-12):
                want = uniform(C)
                mon.close(got.p, want, 'fit-mle-default', 1e-9, 1e-12)
                mon.known('mle-default-smoothing')
        param = None
    else:
        if rng.random() < 0.4:
            got = pydtmc.MarkovChain.fit_sequence('map', states, seq)
            H = np.ones((n, n))
            mon.event('map')
        else:
            H = 1.0 + np.round(rng.random((n, n)) * gen.pick(rng, [2, 10, 100])) * (rng.random((n, n)) < gen.pick(rng, [0.3, 1.0]))
            arg = gen.as_form(rng, H, str(rng.choice(['array', 'list', 'frame', 'csr'])))[1]
            got = pydtmc.MarkovChain.fit_sequence('map', states, seq, arg)
            mon.event('map-hyperparameter')
            mon.check(np.array_equal(np.asarray(arg.toarray() if hasattr(arg, 'toarray') else arg, dtype=float), H), 'arguments-unchanged')
        param = H
        want = uniform(C + H - 1)
    mon.context(parameter=param)
    if len(idx) > 2:
        mon.distinct(kind, lab, idx, param if param is not None else '')
    kit.valid_chain(mon, pydtmc, got)
    mon.equal(got.states, lab, 'labels')
    mon.close(got.p, want, 'fit-' + kind, rtol=1e-9, atol=1e-14)
    mon.check(states == lab and seq == given, 'arguments-unchanged')

    # optimality, seen from outside: no other matrix makes the observations (and the prior) more probable
    W = C if kind == 'mle' and param is None else C + (H - 1 if kind == 'map' else 0)
    if kind == 'map':
        mon.event('map-posterior-mode')
        for _ in range(3):
            Q = np.array([rng.dirichlet(np.ones(n)) for _ in range(n)])
            Q = 0.9 * got.p + 0.1 * Q
            with np.errstate(divide='ignore', invalid='ignore'):
                a = np.where(W > 0, W * np.log(got.p), 0).sum()
                b = np.where(W > 0, W * np.log(Q), 0).sum()
            mon.check(a >= b - 1e-9 * (1 + abs(b)), 'optimality')

    if rng.random() < 0.1:
        f = pydtmc.MarkovChain.fit_sequence
        bad = gen.pick(rng, [('mle', states, [0]), ('mle', states, [0, n]), ('mle', states, [0, -1]), ('mle', states, [lab[0], '?']), ('mle', states, [lab[0], 0]), ('abc', states, seq),
                             ('map', states, seq, np.ones((n, n + 1))), ('map', states, seq, np.full((n, n), 0.5)), ('map', states, seq, np.full((n, n), np.nan)), ('mle', states, seq, 3),
                             ('mle', [lab[0]] * n, seq), ('mle', 'ab', seq), ('mle', states, None), ('mle', states, 'ab'), ('mle', states, [0.5, 1.5])])
        mon.context(bad=bad)
        kit.rejected(mon, pydtmc, 'invalid-arguments', f, *bad)


def finish(mon, tier, seed):
    got = pydtmc.MarkovChain.fit_sequence('mle', ['a', 'b'], ['a', 'a', 'b', 'a']).p
    if not kit.close(got, np.array([[1.001, 1.001], [1.001, 0.001]]) / [[2.002], [1.002]]):
        mon.close(got, [[0.5, 0.5], [1.0, 0.0]], 'fit-mle-default')
        mon.known('mle-default-smoothing')
