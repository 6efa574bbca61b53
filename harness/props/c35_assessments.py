# C35: statistical assessments of sequences.
import math
from fractions import Fraction

import numpy as np
import scipy.stats as sps

import pydtmc
from vh import gen, kit

CASES = (1200, 20000)
CAP = (100, 700)
RULE = 'one case = one set of generated sequences given to every assessment; distinct by sequences and parameters; trivial when the sequence has one state only'
MINIMUM = {'distinct': 500, 'first-order': 120, 'first-order-undecided': 100, 'homogeneity': 300, 'markov': 300, 'stationarity': 200, 'stationarity-undecided': 40, 'theoretical': 250, 'impossible': 50, 'relabelled': 200, 'rejected-hypothesis': 100, 'long': 30, 'rare-theory': 60}
ASSUMPTIONS = ['the statistics are the ones of the R package markovchain, from which the assessments are taken: Pearson statistic (with the continuity correction for 2x2 tables), log-likelihood ratio statistics, tables of proportions for stationarity',
               'the Markov property is assessed on the largest prefix whose length is a multiple of three; with no degrees of freedom the p-value is zero', 'decisions whose p-value is within 1e-9 of the significance are not judged']


def pearson(T):
    # Pearson statistic of independence, None when an expected count is zero
    T = np.asarray(T, dtype=float)
    total = T.sum()
    if total <= 0:
        return None
    r, c = T.sum(axis=1), T.sum(axis=0)
    if (r == 0).any() or (c == 0).any():
        return None
    dof = (T.shape[0] - 1) * (T.shape[1] - 1)
    if dof == 0:
        return 0.0
    stat = 0.0
    for i in range(T.shape[0]):
        for j in range(T.shape[1]):
            e = r[i] * c[j] / total
            d = abs(T[i, j] - e)
            if dof == 1:
                d -= min(0.5, d)
            stat += d * d / e
    return stat


def first_order(n, s):
    stat = 0.0
    for mid in range(n):
        T = np.zeros((n, n))
        for a, b, c in zip(s, s[1:], s[2:]):
            if b == mid:
                T[a, c] += 1
        x = pearson(T)
        if x is None:
            return None
        stat += x
    return stat, n * (n - 1)**2


def homogeneity(n, seqs):
    Fs = []
    for s in seqs:
        T = np.zeros((n, n))
        np.add.at(T, (s[:-1], s[1:]), 1)
        Fs.append(T)
    pool = sum(Fs)
    total = pool.sum()
    stat = 0.0
    for T in Fs:
        m = T > 0
        stat += 2 * float((T[m] * np.log(T[m] / T.sum() / (pool[m] / total))).sum())
    return stat, n * (n - 1) * (len(seqs) - 1)


def markov_property(n, s):
    import collections
    rows = np.zeros((n, n))
    for a, b in zip(s, s[1:]):
        rows[a, b] += 1
    m = len(s) - len(s) % 3
    t3 = collections.Counter(zip(s[:m - 2], s[1:m - 1], s[2:m]))
    t2 = collections.Counter((a, b) for a, b, _ in zip(s[:m - 2], s[1:m - 1], s[2:m]))
    stat = 0.0
    for (a, b, c), o in t3.items():
        e = t2[a, b] * rows[b, c] / rows[b].sum()
        stat += (o - e)**2 / e
    dof = len(set(zip(s, s[1:], s[2:]))) - len(set(zip(s, s[1:]))) + len(set(s)) - 1
    return stat, dof


def stationarity(n, s, blocks):
    k = len(s)
    stat = 0.0
    for state in range(n):
        T = np.zeros((blocks, n))
        for i in range(k - 1):
            if s[i] == state:
                T[math.ceil(Fraction((i + 1) * blocks, k)) - 1, s[i + 1]] += 1
        T[T.sum(axis=1) == 0] = 1.0
        T /= T.sum(axis=1, keepdims=True)
        if blocks == 1:
            x = float(((T - 1 / n)**2 * n).sum())
        else:
            # columns which are never reached leave the table undecided
            x = pearson(T)
        if x is None:
            return None
        stat += x
    return stat, n * (n - 1) * (blocks - 1)


def theoretical(P, s, columns):
    n = P.shape[0]
    T = np.zeros((n, n))
    np.add.at(T, (s[:-1], s[1:]), 1)
    if (T[P == 0] > 0).any():
        return 'impossible'
    stat = 0.0
    for i in range(n):
        tot = T[:, i].sum() if columns else T[i].sum()
        for j in range(n):
            if T[i, j] > 0:
                stat += 2 * T[i, j] * (math.log(T[i, j] / (tot * P[i, j])) if tot > 0 else math.inf)
    return stat, int((P > 0).sum()) - n


def judge(mon, rule, out, want, alpha):
    mon.check(isinstance(out, tuple) and len(out) == 3 and isinstance(out[2], dict) and set(out[2]) == {'chi2', 'dof'}, rule + '-form', lambda: f'{out!r}')
    rej, pv, st = out
    if want is None:
        mon.check(rej is None and math.isnan(pv) and math.isnan(st['chi2']) and math.isnan(st['dof']), rule + '-undecided', lambda: f'{out!r}')
        return
    stat, dof = want
    mon.check(st['dof'] == dof, rule + '-dof', lambda: f'{out!r} expected {want}')
    mon.close(float(st['chi2']), stat, rule + '-statistic', 1e-9, 1e-10)
    p = 0.0 if dof == 0 else float(sps.chi2.sf(max(stat, 0.0), dof))
    mon.close(float(pv), p, rule + '-p-value', 1e-7, 1e-13)
    if abs(p - alpha) > 1e-8:
        mon.check(rej is not None and bool(rej) == (p < alpha), rule + '-decision', lambda: f'{out!r} with significance {alpha}')
        if p < alpha:
            mon.event('rejected-hypothesis')


def same(a, b):
    return (a[0] is None) == (b[0] is None) and bool(a[0]) == bool(b[0]) and kit.close(a[1], b[1], 1e-7, 1e-8) and kit.close(a[2]['chi2'], b[2]['chi2'], 1e-8, 1e-7) and kit.close(a[2]['dof'], b[2]['dof'])


def witness():
    mc = pydtmc.MarkovChain([[0.5, 0.5], [0.25, 0.75]], ['a', 'b'])
    s = [0, 1, 1, 1, 0, 1]
    return pydtmc.assess_theoretical_compatibility(mc, s), theoretical(mc.p, s, False), theoretical(mc.p, s, True)


def case(rng, mon, tier, index):

    _, P = gen.chain(rng, int(rng.choice([2, 3, 4, 6])))
    n = P.shape[0]
    lab = gen.labels(rng, n)
    names = kit.names(lab, n)
    if rng.random() < 0.5:
        P = P * 0.8 + 0.2 / n
        P /= P.sum(axis=1, keepdims=True)
    length = int(rng.choice([6, 7, 8, 20, 60, 200])) if rng.random() < 0.93 else int(rng.integers(600, 1400))
    if length >= 600:
        mon.event('long')
    s = gen.walk(rng, P, length - 1)
    if rng.random() < 0.2:
        # a second-order or a non-stationary sequence
        s = s[:length // 2] + [int(x) for x in rng.integers(n, size=length - length // 2)]
    kw, alpha = ({}, 0.05) if rng.random() < 0.4 else (lambda a: ({'significance': a}, a))(float(gen.pick(rng, [0.01, 0.2, 0.001, 0.1, 0.15])))
    arg = gen.seq_form(rng, names, s)
    copy, given = list(arg), list(names)
    mon.context(names=names, sequence=s, alpha=alpha)
    if len(set(s)) > 1:
        mon.distinct(names, s, alpha)

    # relabelled: another order of the possible states
    perm = [int(i) for i in rng.permutation(n)]
    names2 = [names[i] for i in perm]
    arg2 = [names[i] for i in s]

    A = pydtmc.assess_first_order
    out, want = A(given, arg, **kw), first_order(n, s)
    judge(mon, 'first-order', out, want, alpha)
    mon.event('first-order' if want else 'first-order-undecided')
    mon.check(same(out, A(names2, arg2, **kw)), 'first-order-labels')

    if length >= 6:
        A = pydtmc.assess_markov_property
        want = markov_property(n, s)
        if want[1] >= 0:
            out = A(given, arg, **kw)
            judge(mon, 'markov', out, want, alpha)
            mon.event('markov')
            mon.check(same(out, A(names2, arg2, **kw)), 'markov-labels')
        else:
            mon.skip('negative degrees of freedom')

    A = pydtmc.assess_stationarity
    blocks = int(rng.choice([1, 2, 3, 5, 7]))
    mon.context(blocks=blocks)
    want = stationarity(n, s, blocks)
    out = A(given, arg, blocks, **kw) if blocks > 1 or rng.random() < 0.5 else A(given, arg, **kw)
    judge(mon, 'stationarity', out, want, alpha)
    mon.event('stationarity' if want else 'stationarity-undecided')
    mon.check(same(out, A(names2, arg2, blocks, **kw)), 'stationarity-labels')
    mon.event('relabelled')

    A = pydtmc.assess_homogeneity
    seqs = [s] + [gen.walk(rng, P if rng.random() < 0.7 else gen.random_row(rng, n, range(n), 'float')[None, :].repeat(n, axis=0), int(rng.choice([1, 4, 20, 80]))) for _ in range(int(rng.integers(1, 4)))]
    mon.context(sequences=seqs)
    args = [gen.seq_form(rng, names, q) for q in seqs]
    frozen = [list(q) for q in args]
    out = A(given, args, **kw)
    sets = [set(q) for q in seqs]
    want = homogeneity(n, seqs) if any(sets[i] & sets[j] for i in range(len(sets)) for j in range(i)) else None
    judge(mon, 'homogeneity', out, want, alpha)
    mon.event('homogeneity')
    mon.equal(args, frozen, 'arguments-unchanged')
    order = kit.shuffled(rng, [[names[i] for i in q] for q in seqs])
    mon.check(same(out, A(names2, order, **kw)), 'homogeneity-labels')

    A = pydtmc.assess_theoretical_compatibility
    Q = P if rng.random() < 0.6 else gen.chain(rng, n, gen.pick(rng, ['dense', 'sparse', 'ergodic']))[1]
    if Q.shape[0] == n:
        rare = rng.random() < 0.15
        if rare:
            # what the sequence does is possible, but nearly impossible according to the given chain
            T = np.zeros((n, n))
            np.add.at(T, (s[:-1], s[1:]), 1)
            Q = np.where(T > 0, np.maximum(Q, 0.01), Q)
            for i in range(n):
                used = np.flatnonzero(T[i] > 0)
                for j in used[rng.random(len(used)) < 0.6]:
                    if (Q[i] > 0).sum() > 1 and Q[i, j] < Q[i].max():
                        Q[i, j] = 2.0**-int(rng.integers(20, 50))
                Q[i] /= Q[i].sum()
            mon.event('rare-theory')
        mc = kit.build(rng, pydtmc, Q, lab)
        Q = mc.p
        mon.context(Q=Q)
        out = A(mc, gen.seq_form(rng, names, s), **kw)
        want = theoretical(Q, s, False)
        if want == 'impossible':
            mon.event('impossible')
            mon.check(out[0] is not None and bool(out[0]) and out[1] == 0.0 and math.isnan(out[2]['chi2']) and math.isnan(out[2]['dof']), 'theoretical-impossible', lambda: f'{out!r}')
        elif want[1] <= 0:
            mon.skip('no degrees of freedom')
        else:
            mon.event('theoretical')
            wrong = theoretical(Q, s, True)
            if not kit.close(float(out[2]['chi2']), want[0], 1e-8, 1e-7) and kit.close(float(out[2]['chi2']), wrong[0], 1e-8, 1e-7):
                mon.known('column-sums', f'statistic {out[2]["chi2"]} instead of {want[0]} for {s[:20]}')
                want = wrong
            judge(mon, 'theoretical', out, want, alpha)
    mon.equal((arg, given), (copy, names), 'arguments-unchanged')

    if rng.random() < 0.15:
        for f in (pydtmc.assess_first_order, pydtmc.assess_markov_property, pydtmc.assess_stationarity):
            a, b = gen.pick(rng, [(names, []), (names, [names[0]]), (names, ['?', names[0]]), (names, [0, n]), (names, [0, -1]), (names, [0, names[1]]), (names, 'ab'), (names, None), (['a'], ['a', 'a']), (['a', 'a'], ['a', 'a']),
                                  (None, [0, 1]), (names, [0.0, 1.0]), (names, [True, False])])
            mon.context(bad=(a, b))
            kit.rejected(mon, pydtmc, 'invalid-arguments', f, a, b)
            kit.rejected(mon, pydtmc, 'invalid-significance', f, names, s, significance=gen.pick(rng, [0.0, -0.1, 0.21, 1.0, '0.05', None, float('nan'), True]))
        kit.rejected(mon, pydtmc, 'invalid-arguments', pydtmc.assess_homogeneity, names, gen.pick(rng, [[s], s, [s, [n, 0]], [s, None], None, [s, [0]]]))
        kit.rejected(mon, pydtmc, 'invalid-arguments', pydtmc.assess_stationarity, names, s, gen.pick(rng, [0, -1, 1.5, '2', None, True]))
        kit.rejected(mon, pydtmc, 'invalid-arguments', pydtmc.assess_theoretical_compatibility, gen.pick(rng, [P, None, 'mc']), s)


def finish(mon, tier, seed):
    out, right, wrong = witness()
    if not kit.close(float(out[2]['chi2']), right[0]):
        mon.check(kit.close(float(out[2]['chi2']), wrong[0]), 'theoretical-witness', lambda: f'{out!r}')
        mon.known('column-sums', f'statistic {out[2]["chi2"]} instead of {right[0]}')
