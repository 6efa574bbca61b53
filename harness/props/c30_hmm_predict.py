# C30: prediction of the states of hidden Markov models.
import itertools
import math

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1200, 40000)
CAP = (90, 700)
RULE = 'one case = one generated model, initial status and sequence of symbols, with both types of prediction; distinct by all of them; trivial when the model has a single possible path'
MINIMUM = {'distinct': 400, 'map': 300, 'viterbi': 300, 'enumerated': 200, 'long': 60, 'none': 15, 'path-score': 300, 'far': 20, 'big': 8}
ASSUMPTIONS = ['the score of a path may take the initial distribution at time zero (maximised or summed over) or at the time of the first symbol', 'ties within 1e-9 are all accepted']


def log(x):
    with np.errstate(divide='ignore'):
        return np.log(x)


def start_scores(P, E, init, y0):
    # log scores of the first state under the accepted conventions, and under the listed wrong one
    with np.errstate(divide='ignore'):
        lp, le, li = log(P), log(E), log(init)
        return {
            'time zero, maximised': (li[:, None] + lp).max(axis=0) + le[:, y0],
            'time zero, summed': log(init @ P) + le[:, y0],
            'first symbol': li + le[:, y0],
        }, ((li + le[:, y0])[:, None] + lp).max(axis=0) + le[:, y0]


def best(P, E, first, y):
    lp, le = log(P), log(E)
    w = first
    for s in y[1:]:
        w = (w[:, None] + lp).max(axis=0) + le[:, s]
    return float(w.max())


def score(P, E, first, y, path):
    lp, le = log(P), log(E)
    v = first[path[0]]
    for a, b, s in zip(path, path[1:], y[1:]):
        v = v + lp[a, b] + le[b, s]
    return float(v)


def consistent(P, E, first, y, out, n):
    # (log probability, path) is the best score under the given convention, and the path attains it
    top = best(P, E, first, y)
    if out is None:
        return top == -math.inf
    if top == -math.inf:
        return False
    tol = 1e-8 * (1 + abs(top))
    return abs(out[0] - top) <= tol and abs(score(P, E, first, y, out[1]) - top) <= tol


def case(rng, mon, tier, index):

    big = rng.random() < 0.02
    kind, P, E = gen.big_hmm(rng) if big else gen.hmm(rng)
    if big:
        mon.event('big')
    n, k = E.shape
    far = None
    if rng.random() < 0.06 and not big and P[P > 0].min() > 1e-6 and E[E > 0].min() > 1e-6:
        # a symbol which hardly any of the states ever emits
        kind += '-far'
        far = c = int(rng.integers(k))
        for i in range(n):
            if E[i, c] > 0 and E[i, c] < E[i].sum() and rng.random() < 0.8:
                E[i, c] = 0
                E[i] /= E[i].sum()
                E[i, c] = 10.0**-float(rng.integers(100, 280))
        mon.event('far')
    s, y, names, syms = gen.hmm_labels(rng, n, k)
    m = kit.build_hmm(rng, pydtmc, P, E, s, y)
    frozen = kit.freeze_hmm(m)
    P, E = m.p, m.e
    arg, init = gen.status(rng, names)
    r = rng.random()
    if r < 0.2:
        length = int(rng.integers(2, 6))
        seq = [int(x) for x in rng.integers(k, size=length)]
    else:
        length = int(rng.integers(2, 6)) if r < 0.7 else int(rng.choice([10, 40, 200]))
        seq = gen.emissions(rng, P, E, init, length)[1]
    if far is not None and r < 0.5:
        # once at most: scaled probabilities cannot hold more of it
        seq = [x if x != far else (x + 1) % k for x in seq]
        seq[0 if rng.random() < 0.5 else int(rng.integers(length))] = far
    elif far is not None and seq.count(far) > 1:
        seq = [x if x != far or t == seq.index(far) else (x + 1) % k for t, x in enumerate(seq)]
    given = gen.seq_form(rng, syms, seq)
    ind = bool(rng.random() < 0.5)
    mon.context(kind=kind, P=P, E=E, states=names, symbols=syms, initial=init, sequence=given if length < 30 else given[:30], output_indices=ind)
    mon.distinct(P, E, init, seq)

    def call(t):
        a = (given,) if arg is None else (given, arg)
        out = m.predict(t, *a, output_indices=ind) if ind or rng.random() < 0.5 else m.predict(t, *a)
        if out is None:
            return None
        mon.check(isinstance(out, tuple) and len(out) == 2 and type(out[0]) is float and isinstance(out[1], list) and len(out[1]) == length, 'prediction-form', lambda: f'{out!r}')
        ok = all((isinstance(x, (int, np.integer)) and 0 <= x < n) if ind else x in names and isinstance(x, str) for x in out[1])
        mon.check(ok, 'prediction-form', lambda: f'{out!r}')
        return out[0], [int(x) if ind else names.index(x) for x in out[1]]

    like = ref.hmm_forward(P, E, init, seq)

    got = call('map')
    mon.event('map')
    if like == -math.inf:
        mon.event('none')
        mon.check(got is None, 'map-none', lambda: f'{got!r}')
    else:
        mon.check(got is not None, 'map-none')
        mon.close(got[0], like, 'map-log-probability', 1e-10, 1e-10)
        if length <= 5 and far is None and not big:
            mon.event('enumerated')
            W = np.zeros((length, n))
            for path, pr in ref.hmm_paths(P, E, init, seq).items():
                for t, u in enumerate(path):
                    W[t, u] += pr
            W /= W.sum(axis=1, keepdims=True)
        else:
            W = posterior(P, E, init, seq)
        for t in range(length):
            mon.check(W[t, got[1][t]] >= W[t].max() - 1e-8, 'map-states', lambda: f'time {t}: state {got[1][t]} has posterior {W[t, got[1][t]]}, the best one {W[t].max()}')

    t = str(rng.choice(['mle', 'viterbi']))
    got = call(t)
    mon.event('viterbi')
    if length >= 40:
        mon.event('long')
    right, wrong = start_scores(P, E, init, seq[0])
    mon.rules['path-score'] += 1
    if not any(consistent(P, E, f, seq, got, n) for f in right.values()):
        mon.check(consistent(P, E, wrong, seq, got, n), 'path-score', lambda: f'{got!r} is not the best path: best scores { {c: best(P, E, f, seq) for c, f in right.items()} }')
        mon.known('first-emission-twice')
    mon.check(kit.freeze_hmm(m) == frozen, 'model-unchanged')

    if rng.random() < 0.08:
        bad = gen.pick(rng, [('abc', [0, 1]), (1, [0, 1]), ('map', [0]), ('map', [0, k]), ('mle', [syms[0], '?']), ('map', None), ('viterbi', [0, 1], n), ('map', [0, 1], None, 'yes'), ('mle', [0, 1], np.full(n, 0.9))])
        mon.context(bad=bad)
        kit.rejected(mon, pydtmc, 'invalid-arguments', m.predict, *bad)


def posterior(P, E, init, y):
    a, f = np.asarray(init, dtype=float), []
    for s in y:
        a = (a @ P) * E[:, s]
        a = a / a.sum()
        f.append(a)
    b, out = np.ones(P.shape[0]), [None] * len(y)
    for t in range(len(y) - 1, -1, -1):
        w = f[t] * b
        out[t] = w / w.sum()
        b = P @ (E[:, y[t]] * b)
        b = b / b.max()
    return np.array(out)


def finish(mon, tier, seed):
    P, E, init, y = np.array([[0.5, 0.5], [0.5, 0.5]]), np.array([[0.75, 0.25], [0.25, 0.75]]), np.array([0.5, 0.5]), [0, 0]
    out = pydtmc.HiddenMarkovModel(P, E).predict('viterbi', y, init, True)
    mon.context(witness='two states, two symbols')
    right, wrong = start_scores(P, E, init, y[0])
    if not any(consistent(P, E, f, y, out, 2) for f in right.values()):
        mon.check(consistent(P, E, wrong, y, out, 2), 'path-score', lambda: f'{out!r}')
        mon.known('first-emission-twice')
