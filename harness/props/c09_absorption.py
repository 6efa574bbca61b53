# C09: fundamental matrix, absorption probabilities, mean absorption times, Kemeny's constant.
from fractions import Fraction

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain, two thirds absorbing; distinct by matrix; trivial when the chain is not absorbing (then every measure must be None)'
MINIMUM = {'distinct': 250, 'absorbing': 250, 'several-absorbing': 100, 'not-absorbing': 60, 'no-transient': 5, 'hardly-ever-left': 40, 'practically-closed': 40}
ASSUMPTIONS = ['systems with a condition number above 1e7 are skipped']


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng, kind=str(rng.choice(['absorbing', 'absorbing', 'gambler'])) if rng.random() < 0.65 else None, sizes=(4, 7, 12, 40), p=(0.35, 0.35, 0.2, 0.1))
    if rng.random() < 0.15:
        P = gen.tiny(rng, P)
    elif rng.random() < 0.25:
        P = gen.scales(rng, P) if rng.random() < 0.5 else gen.leaky(rng, P, 20)
    elif rng.random() < 0.1:
        # the sums are exact, and so is the reference
        kind, P = 'deep', gen.deep_leak(rng)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('hardly-ever-left')
    elif rng.random() < 0.12:
        # some groups of states are left with a probability which the rounding of one hides
        mon.event('practically-closed')
        kind, P = 'isolated', gen.isolated(rng, 'absorbing')
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    n = P.shape[0]
    mon.context(kind=kind, P=P, labels=names)
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    R = ref.closure(P)
    ab = [i for i in range(n) if P[i, i] == 1 and np.count_nonzero(P[i]) == 1]
    tr = ref.transient_states(P)
    is_abs = bool(ab) and all(R[i, ab].any() for i in range(n))

    calls = [('fm', lambda: mc.fundamental_matrix), ('kc', lambda: mc.kemeny_constant), ('ap', lambda: mc.absorption_probabilities()), ('mat', lambda: mc.mean_absorption_times()), ('mat2', lambda: mc.mat())]
    got = {}
    for k, f in kit.shuffled(rng, calls + calls):
        v = kit.take(f())
        if k in got:
            same = (v is None and got[k] is None) or np.array_equal(v, got[k])
            mon.check(same, 'stable', lambda: (k, v, got[k]))
        got[k] = v

    if not is_abs or not tr:
        mon.event('not-absorbing' if not is_abs else 'no-transient')
        for k, v in got.items():
            mon.check(v is None, 'none-when-undefined', lambda: (k, v))
        return

    mon.event('absorbing')
    mon.distinct(P)
    if len(ab) > 1:
        mon.event('several-absorbing')
    Q = P[np.ix_(tr, tr)]
    A = np.eye(len(tr)) - Q
    if kind == 'deep':
        N = ref.exact_inverse(A)
        mon.close(got['fm'], N, 'expected-visits', rtol=0.02, atol=0)
        mon.close(got['kc'], np.trace(N), 'kemeny', rtol=0.02, atol=0)
        mon.close(got['mat'], N.sum(axis=1), 'mean-absorption-times', rtol=0.02, atol=0)
        mon.close(got['ap'], (N @ P[np.ix_(tr, ab)]).T, 'absorption-probability', rtol=0.02, atol=1e-9)
        return

    if kind == 'isolated':
        T = ref.taboo(P, tr)
        N = np.array(T, dtype=float)
        mon.close(got['fm'], N, 'expected-visits', rtol=1e-6, atol=0)
        mon.close(got['kc'], np.trace(N), 'kemeny', rtol=1e-6, atol=0)
        mon.close(got['mat'], N.sum(axis=1), 'mean-absorption-times', rtol=1e-6, atol=0)
        mon.close(got['ap'], np.array([[float(sum(T[x][y] * Fraction(float(P[j, a])) for y, j in enumerate(tr))) for x in range(len(tr))] for a in ab]), 'absorption-probability', rtol=1e-6, atol=1e-300)
        return

    cond = kit.condition(A)
    if cond > 1e7:
        return mon.skip('ill-conditioned')
    tol = kit.accuracy(cond, len(tr))
    N = np.asarray(got['fm'])
    mon.close(N @ A, np.eye(len(tr)), 'expected-visits-equation', rtol=tol, atol=tol)
    mon.check((N >= -tol * np.abs(N).max()).all(), 'non-negative-visits', N)
    # truncated series of the powers of Q, computed by squaring, agrees
    S, B = np.eye(len(tr)), Q.copy()
    for _ in range(40):
        S = S + B @ S
        B = B @ B
    mon.close(N, S, 'sum-of-the-powers', rtol=tol, atol=tol * S.max())
    mon.close(got['kc'], np.trace(S), 'kemeny', rtol=tol, atol=0)
    mon.close(got['mat'], S.sum(axis=1), 'mean-absorption-times', rtol=tol, atol=tol * S.sum(axis=1).max())
    mon.close(got['mat2'], got['mat'], 'alias', rtol=0, atol=0)
    ap = np.asarray(got['ap'])
    mon.check(ap.shape == (len(ab), len(tr)), 'shape', ap.shape)
    mon.close(ap.sum(axis=0), np.ones(len(tr)), 'absorbed-somewhere', rtol=tol, atol=tol + 2e-15 * n)
    for k, a in enumerate(ab):
        hp = ref.hitting(P, [a])[0]
        mon.close(ap[k], hp[tr], 'absorption-probability', rtol=tol, atol=tol)
