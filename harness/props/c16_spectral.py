# C16: rank, determinant, entropies, spectral gap, mixing and relaxation rates, implied timescales.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = one generated chain, queried in random order; distinct by matrix; every case is non-trivial'
MINIMUM = {'distinct': 400, 'ergodic': 150, 'not-ergodic': 150, 'no-slem': 10, 'entropy': 200, 'several-stationary': 60, 'nearly-singular': 40, 'nearly-deterministic': 15, 'fast-mixing': 15, 'normalized': 100}
ASSUMPTIONS = ['second eigenvalues with modulus between 1e-11 and 1e-4 are judged only for symmetric matrices and above 3e-8 (the code treats values close to 0 as 0)', 'spectral radii shared by several classes are judged with tolerance 2e-3 (defective eigenvalues)']


def radius(A):
    # Perron roots of the classes of a non-negative matrix: (largest, how many classes share it)
    roots = []
    for c in ref.classes(A):
        B = A[np.ix_(c, c)].astype(float)
        roots.append(max(np.abs(np.linalg.eigvals(B))))
    top = max(roots)
    return top, sum(r > top - 1e-9 for r in roots)


def nearly_singular(rng):
    # blocks of two states each whose rows differ by a small power of two: the rank is full, exactly
    n = 2 * int(rng.integers(1, 4))
    P = np.zeros((n, n))
    for b in range(0, n, 2):
        e = 2.0**-int(rng.integers(2, 30))
        P[b, b:b + 2] = 0.5 + e, 0.5 - e
        P[b + 1, b:b + 2] = 0.5 - e, 0.5 + e
    perm = rng.permutation(n)
    return 'nearly-singular', P[np.ix_(perm, perm)]


def case(rng, mon, tier, index):

    kind, P, lab, names = kit.pick_chain(rng)
    if rng.random() < 0.1:
        kind, P = nearly_singular(rng)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    if rng.random() < 0.05:
        # nearly deterministic: an entropy rate between 1e-12 and 1e-6
        kind, P = 'nearly-deterministic', gen.irreducible(rng, 6, style='float')
        e = float(10.0**-rng.integers(3, 14))
        D = np.zeros_like(P)
        D[np.arange(P.shape[0]), P.argmax(axis=1)] = 1
        P = (1 - e) * D + e * P
        P /= P.sum(axis=1, keepdims=True)
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
        mon.event('nearly-deterministic')
    if rng.random() < 0.06:
        # symmetric chains which mix almost at once: their eigenvalues are accurate, however small
        m = int(rng.integers(2, 7))
        kind, P = 'fast-mixing', gen.symmetric(rng, m)
        P = 1 / m + (P - 1 / m) * float(10.0**-rng.uniform(2, 7))
        lab = gen.labels(rng, m)
        names = kit.names(lab, m)
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    mon.context(kind=kind, P=P, labels=names)
    mon.distinct(P)
    rec = ref.recurrent_classes(P)
    ergodic = ref.is_irreducible(P) and ref.period_of(P, list(range(n))) == 1
    ev = np.sort(np.abs(np.linalg.eigvals(P)))[::-1]

    got = {}
    attrs = ['rank', 'determinant', 'mixing_rate', 'relaxation_rate', 'spectral_gap', 'implied_timescales', 'entropy_rate', 'entropy_rate_normalized', 'topological_entropy']
    for a in kit.shuffled(rng, attrs + attrs[2:6]):
        got[a] = kit.take(getattr(mc, a))

    mon.close(got['determinant'], np.linalg.det(P), 'determinant', rtol=1e-9, atol=1e-13)
    if kind == 'nearly-singular':
        mon.event('nearly-singular')
        mon.equal(int(got['rank']), n, 'rank')
    sv = np.linalg.svd(P, compute_uv=False)
    if kind != 'nearly-deterministic' and not ((sv > 1e-14) & (sv < 1e-9)).any():
        mon.equal(int(got['rank']), int((sv > 1e-11).sum()), 'rank')

    if not ergodic:
        mon.event('not-ergodic')
        for a in attrs[2:6]:
            mon.check(got[a] is None, 'none-when-not-ergodic', lambda: (a, got[a]))
    else:
        mon.event('ergodic')
        it = np.asarray(got['implied_timescales'], dtype=float)
        mon.check(it.shape == (n,) and it[0] == np.inf, 'implied-timescales-shape', it)
        with np.errstate(divide='ignore'):
            mon.close(np.exp(-1 / it[1:]), ev[1:], 'implied-timescales', rtol=1e-5, atol=2e-4 if n < 8 else 5e-3)
        if kind == 'fast-mixing' and ev[1] > 3e-8:
            mon.event('fast-mixing')
            for a, x in (('spectral_gap', 1 - ev[1]), ('relaxation_rate', 1 / (1 - ev[1])), ('mixing_rate', -1 / np.log(ev[1]))):
                mon.check(got[a] is not None, 'fast-mixing', lambda: (a, ev))
                mon.close(got[a], x, 'fast-mixing', rtol=1e-6)
        simple = ev[1] > 1e-4 and (n == 2 or ev[1] > 1e-2)
        if ev[1] < 1e-11 or (kind == 'rank1'):
            mon.event('no-slem')
            for a in attrs[2:5]:
                mon.check(got[a] is None, 'none-without-second-eigenvalue', lambda: (a, got[a]))
        elif simple:
            mon.close(got['spectral_gap'], 1 - ev[1], 'spectral-gap', rtol=1e-5, atol=1e-7)
            if ev[1] < 1 - 1e-6:
                mon.close(got['relaxation_rate'], 1 / (1 - ev[1]), 'relaxation-rate', rtol=1e-4)
                mon.close(got['mixing_rate'], -1 / np.log(ev[1]), 'mixing-rate', rtol=1e-4)

    A = P > 0
    top, shared = radius(A)
    tol = 1e-6 if shared == 1 else 2e-3 if shared == 2 else 2e-2
    if shared <= 3:
        mon.close(got['topological_entropy'], np.log(top), 'topological-entropy', rtol=tol, atol=tol)

    if len(rec) > 1:
        mon.event('several-stationary')
        mon.check(got['entropy_rate'] is None and got['entropy_rate_normalized'] is None, 'no-entropy-with-several-stationary-distributions', got)
    else:
        mon.event('entropy')
        pi = ref.stationary_of_class(P, rec[0])
        with np.errstate(divide='ignore', invalid='ignore'):
            h = -float(np.nansum(pi[:, None] * np.where(A, P * np.log(np.where(A, P, 1)), 0)))
        mon.close(got['entropy_rate'], h, 'entropy-rate', rtol=1e-9, atol=1e-15)
        mon.check(got['entropy_rate'] >= 0, 'entropy-rate-range', got['entropy_rate'])
        if abs(h) < 1e-10:
            mon.close(got['entropy_rate_normalized'], 0.0, 'normalized-entropy-rate')
        elif h > 1e-6 and shared <= 3:
            mon.close(got['entropy_rate_normalized'], min(1.0, h / np.log(top)), 'normalized-entropy-rate', rtol=10 * tol, atol=10 * tol)
        if h > 2e-8 and shared == 1 and top > 1.1:
            mon.event('normalized')
            mon.close(got['entropy_rate_normalized'], min(1.0, h / np.log(top)), 'normalized-entropy-rate', rtol=1e-4, atol=0)
            mon.check(0 <= got['entropy_rate_normalized'] <= 1, 'normalized-entropy-range', got)
