# C31: estimation and fitting of hidden Markov models.
import math

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (540, 12000)
CAP = (110, 800)
RULE = 'one case = observed sequences with an initial guess and a fitting type, or labelled sequences for the estimation; distinct by all of them; trivial when the fitting is refused'
MINIMUM = {'distinct': 200, 'estimate': 60, 'baum-welch': 60, 'fixed-point': 60, 'likelihood-increases': 60, 'decoded-fixed-point': 25, 'several-sequences': 20, 'impossible-sequence': 20}
ASSUMPTIONS = ['a fitted model is a fixed point of one step of the algorithm, recomputed independently, within 1e-4', 'the documented ValueError (no convergence, null probabilities) is allowed']
CASE_LIMIT = 90


def em_step(P, E, init, seqs):
    # one expectation-maximisation step, normalised smoothing with pairwise marginals
    n, k = E.shape
    A, B = np.zeros((n, n)), np.zeros((n, k))
    for y in seqs:
        f = [np.asarray(init, dtype=float)]
        for s in y:
            u = (f[-1] @ P) * E[:, s]
            if u.sum() <= 0:
                break
            f.append(u / u.sum())
        if len(f) < len(y) + 1:
            continue
        b = np.ones(n)
        for t in range(len(y) - 1, -1, -1):
            w = f[t][:, None] * P * (E[:, y[t]] * b)[None, :]
            w /= w.sum()
            A += w
            B[:, y[t]] += w.sum(axis=0)
            b = P @ (E[:, y[t]] * b)
            b /= b.max()
    with np.errstate(invalid='ignore', divide='ignore'):
        return A / A.sum(axis=1, keepdims=True), B / B.sum(axis=1, keepdims=True)


def likelihood(P, E, init, seqs):
    return sum(ref.hmm_forward(P, E, init, y) for y in seqs)


def counts(n, k, path, y):
    A, B = np.zeros((n, n)), np.zeros((n, k))
    for a, b in zip(path, path[1:]):
        A[a, b] += 1
    for a, s in zip(path, y):
        B[a, s] += 1
    return A, B


def rows(M):
    s = M.sum(axis=1, keepdims=True)
    return np.where(s > 0, M / np.where(s > 0, s, 1), 0)


def estimate(rng, mon):
    n, k = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    _, _, names, syms = gen.hmm_labels(rng, n, k)
    length = int(rng.choice([2, 3, 8, 50, 200]))
    path = [int(x) for x in rng.integers(n if rng.random() < 0.6 else max(1, n - 1), size=length)]
    y = [int(x) for x in rng.integers(k if rng.random() < 0.6 else max(1, k - 1), size=length)]
    a, b = gen.seq_form(rng, names, path), gen.seq_form(rng, syms, y)
    keep = (list(names), list(syms), list(a), list(b))
    mon.context(what='estimate', states=names, symbols=syms, sequence_states=a, sequence_symbols=b)
    mon.distinct('estimate', names, syms, path, y)
    mon.event('estimate')
    m = pydtmc.HiddenMarkovModel.estimate(names, syms, a, b)
    mon.check((names, syms, a, b) == keep, 'arguments-unchanged')
    kit.valid_hmm(mon, pydtmc, m)
    A, B = counts(n, k, path, y)
    A[A.sum(axis=1) == 0] = 1
    B[B.sum(axis=1) == 0] = 1
    mon.close(m.p, rows(A), 'estimate-transitions', 1e-10, 1e-15)
    mon.close(m.e, rows(B), 'estimate-emissions', 1e-10, 1e-15)
    mon.check(m.states == names and m.symbols == syms, 'labels')
    if rng.random() < 0.2:
        H = pydtmc.HiddenMarkovModel.estimate
        kit.rejected(mon, pydtmc, 'different-lengths', H, names, syms, a, b + [b[0]], allow=(ValueError,))
        bad = gen.pick(rng, [(names, names[:1] + syms[1:], a, b), ([names[0]] * n, syms, a, b), (names, syms, [0], [0]), (names, syms, [n] * length, b), (names, syms, a, [-1] * length), (None, syms, a, b)])
        kit.rejected(mon, pydtmc, 'invalid-arguments', H, *bad)


def fit(rng, mon):
    n, k = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    _, _, names, syms = gen.hmm_labels(rng, n, k)
    P = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
    E = np.array([gen.random_row(rng, k, range(k), 'skewed') for _ in range(n)])
    arg, init = gen.status(rng, names)
    count = int(rng.choice([1, 1, 2, 3, 3]))
    seqs = [gen.emissions(rng, P, E, init, int(rng.integers(5, 40)))[1] for _ in range(count)]
    if count == 1:
        given = gen.seq_form(rng, syms, seqs[0])
        if rng.random() < 0.2:
            seqs = seqs * 2
            given = [list(given), list(given)]
    else:
        mon.event('several-sequences')
        given = [gen.seq_form(rng, syms, q) for q in seqs]
    pg = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
    eg = np.array([gen.random_row(rng, k, range(k), 'float') for _ in range(n)])
    if rng.random() < 0.2 and n > 2:
        pg[0, 1] = 0
        pg[0] /= pg[0].sum()
    if count > 1 and rng.random() < 0.5:
        # a symbol which the guess excludes: the sequences which contain it are ignored
        z = int(rng.integers(k))
        if k > 2:
            eg[:, z] = 0
            eg /= eg.sum(axis=1, keepdims=True)
            others = [s for s in range(k) if s != z]
            ruled = int(rng.integers(count - 1))
            seqs = [[int(rng.choice(others)) if s == z else s for s in q] for q in seqs]
            ok = [q for i, q in enumerate(seqs) if i != ruled]
            seqs[ruled] = list(seqs[ruled])
            seqs[ruled][int(rng.integers(len(seqs[ruled])))] = z
            given = [gen.seq_form(rng, syms, q) for q in seqs]
            seqs = ok
            mon.event('impossible-sequence')
    kind = str(rng.choice(['baum-welch', 'baum-welch', 'map', 'mle', 'viterbi']))
    mon.context(what=kind, given=given, p_guess=pg, e_guess=eg, initial=init, sequences=seqs)
    import copy
    keep = copy.deepcopy(given)
    pa, ea = (pg.copy(), eg.copy()) if rng.random() < 0.6 else (pg.tolist(), eg.tolist())
    args = (kind, list(names), list(syms), pa, ea, given) + (() if arg is None else (arg,))
    try:
        m = pydtmc.HiddenMarkovModel.fit(*args)
    except ValueError as ex:
        mon.skip('refused: ' + kind)
        mon.check(not isinstance(ex, pydtmc.ValidationError), 'valid-arguments', repr(ex))
        mon.event('refused')
        if kind == 'baum-welch':
            wrong = settles(pg, eg, init, seqs)
        else:
            wrong = replay(rng, kind, pg, eg, init, seqs, names, syms) is not None
        mon.check(not wrong, 'refused-without-reason', lambda: f'{kind}: {ex!r}, but the algorithm converges from this guess')
        return
    finally:
        mon.check(given == keep and np.array_equal(np.asarray(pa), pg) and np.array_equal(np.asarray(ea), eg), 'arguments-unchanged')
    mon.distinct(kind, pg, eg, init, seqs)
    kit.valid_hmm(mon, pydtmc, m)
    mon.check(m.states == names and m.symbols == syms, 'labels')

    if kind == 'baum-welch':
        mon.event('baum-welch')
        a, b = likelihood(pg, eg, init, seqs), likelihood(m.p, m.e, init, seqs)
        mon.check(b >= a - 1e-6 * (1 + abs(a)), 'likelihood-increases', lambda: f'{b} after the fitting, {a} for the guess')
        P2, E2 = em_step(m.p, m.e, init, seqs)
        if not np.isfinite(P2).all() or not np.isfinite(E2).all():
            return mon.skip('a state has no posterior weight')
        mon.close(m.p, P2, 'fixed-point', 0, 1e-4)
        mon.close(m.e, E2, 'fixed-point', 0, 1e-4)
        # zero probabilities of the guess stay zero
        mon.check(bool((m.p[pg == 0] < 1e-12).all()), 'zeros-stay')
        # the result lies on the trajectory of the algorithm which starts at the guess, unless the guess is close to a saddle
        ends, path = [], []
        for eps in (0.0, 1e-7):
            A, B = pg * (1 + eps * np.cos(np.arange(n * n).reshape(n, n))), eg.copy()
            A /= A.sum(axis=1, keepdims=True)
            for _ in range(500):
                A2, B2 = em_step(A, B, init, seqs)
                if eps == 0:
                    path.append(max(np.abs(A2 - m.p).max(), np.abs(B2 - m.e).max()) if np.isfinite(A2).all() and np.isfinite(B2).all() else math.inf)
                stop = max(np.abs(A2 - A).max(), np.abs(B2 - B).max()) < 1e-9
                A, B = A2, B2
                if stop or not np.isfinite(A).all() or not np.isfinite(B).all():
                    break
            ends.append(likelihood(A, B, init, seqs) if np.isfinite(A).all() and np.isfinite(B).all() else math.nan)
        if abs(ends[0] - ends[1]) < 1e-4:
            mon.check(min(path) < 1e-3, 'trajectory', lambda: f'{m.p.tolist()} {m.e.tolist()} is not on the trajectory: {min(path)}')
        return

    # a converged fit by prediction reproduces itself
    mon.event('decoded')
    A, B = np.zeros((n, n)), np.zeros((n, k))
    A1, B1 = A.copy(), B.copy()
    for y in seqs:
        out = m.predict(kind, [int(v) for v in y], init.copy(), True)
        if out is None:
            continue
        a, b = counts(n, k, [int(v) for v in out[1]], y)
        A += a
        B += b
        A1 += rows(a)
        B1 += rows(b)
    end = replay(rng, kind, pg, eg, init, seqs, names, syms)
    if end is not None:
        mon.event('replayed')
        mon.close(m.p, end[0], 'decoded-trajectory', 0, 1e-5)
        mon.close(m.e, end[1], 'decoded-trajectory', 0, 1e-5)
    ok = any(kit.close(m.p, rows(u), 0, 1e-5) and kit.close(m.e, rows(v), 0, 1e-5) for u, v in ((A, B), (A1, B1)))
    mon.rules['decoded-fixed-point'] += 1
    if not ok:
        mon.fail('decoded-fixed-point', f'{m.p.tolist()} {m.e.tolist()} while the predicted states give {rows(A1).tolist()} {rows(B1).tolist()}')


def settles(P, E, init, seqs):
    # the expectation-maximisation clearly converges from the guess within the iterations of the library
    last = math.nan
    for _ in range(350):
        ll = likelihood(P, E, init, seqs)
        P2, E2 = em_step(P, E, init, seqs)
        if not (np.isfinite(P2).all() and np.isfinite(E2).all() and math.isfinite(ll)):
            return False
        step = max(np.abs(P2 - P).max(), np.abs(E2 - E).max())
        P, E = P2, E2
        if step < 2e-8 and abs(ll - last) < 1e-8:
            return True
        last = ll
    return False


def replay(rng, kind, pg, eg, init, seqs, names, syms):
    # the fit by decoding, with ties between paths broken at random: the result when all replays agree, or None
    ends = []
    for variant in range(4):
        P, E = pg, eg
        for _ in range(300):
            A, B = np.zeros_like(P), np.zeros_like(E)
            m = pydtmc.HiddenMarkovModel(P, E, list(names), list(syms))
            for y in seqs:
                out = m.predict(kind, [int(v) for v in y], init.copy(), True)
                if out is None:
                    return None
                a, b = counts(len(P), E.shape[1], [int(v) for v in out[1]], y)
                A += rows(a)
                B += rows(b)
            if (A.sum(axis=1) == 0).any() or (B.sum(axis=1) == 0).any():
                return None
            A, B = rows(A), rows(B)
            done = np.abs(A - P).max() < 1e-7 and np.abs(B - E).max() < 1e-7
            if done:
                break
            P, E = A, B
            if variant:
                P, E = rows(A * (1 + 1e-8 * rng.uniform(-1, 1, size=A.shape))), rows(B * (1 + 1e-8 * rng.uniform(-1, 1, size=B.shape)))
        else:
            return None
        ends.append((A, B))
    if any(np.abs(A - ends[0][0]).max() > 1e-6 or np.abs(B - ends[0][1]).max() > 1e-6 for A, B in ends):
        return None
    return ends[0]


def case(rng, mon, tier, index):
    if rng.random() < 0.3:
        return estimate(rng, mon)
    if rng.random() < 0.06:
        H = pydtmc.HiddenMarkovModel.fit
        p, e, y = [[0.5, 0.5], [0.25, 0.75]], [[0.5, 0.5], [0.1, 0.9]], [0, 1, 1, 0]
        bad = gen.pick(rng, [('abc', ['a', 'b'], ['c', 'd'], p, e, y), ('map', ['a', 'b'], ['a', 'd'], p, e, y), ('map', ['a', 'b', 'x'], ['c', 'd'], p, e, y), ('mle', ['a', 'b'], ['c', 'd'], p, e, [0, 2]),
                             ('baum-welch', ['a', 'b'], ['c', 'd'], [[0.5, 0.6], [0.5, 0.5]], e, y), ('baum-welch', ['a', 'b'], ['c', 'd'], p, [[0.5, 0.6], [0.5, 0.5]], y), ('map', ['a', 'b'], ['c', 'd'], p, e, [[0], [1]]),
                             ('map', ['a', 'b'], ['c', 'd'], p, e, []), ('map', ['a', 'b'], ['c', 'd'], p, e, [0, 'c']), ('map', ['a', 'b'], ['c', 'd'], p, e, y, 7), ('map', ['a', 'b'], ['c', 'd'], p, e, y, [0.5, 0.4])])
        mon.context(bad=bad)
        return kit.rejected(mon, pydtmc, 'invalid-arguments', H, *bad) and None
    fit(rng, mon)
