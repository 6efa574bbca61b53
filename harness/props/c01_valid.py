# C01: every constructor, generator and transformation yields a valid model or refuses.
import copy
import os
import uuid

import numpy as np

import pydtmc
from vh import catalog, gen, kit, makers

CASES = (900, 30000)
CAP = (110, 800)
RULE = 'one case = one model made by a random constructor, generator, fitting, conversion or file with valid arguments, followed by up to five transformations or conversions; distinct by the resulting models'
MINIMUM = {'distinct': 700, 'made': 800, 'transformed': 1500, 'refusal': 20, 'ways': 150, 'slack': 15, 'names-given': 300, 'chains': 400, 'models': 150, 'draws': 3000}
ASSUMPTIONS = ['rows which the caller gives are accepted when they sum to 1 within 1e-5, and then a model may keep that difference']
CASE_LIMIT = 90

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
WAYS = set()


def stochastic(a, slack):
    return bool(np.isfinite(a).all() and (a >= 0).all() and (a <= 1 + 1e-9).all() and np.abs(a.sum(axis=1) - 1).max() < (slack * 2 + 1e-9))


def labels_ok(s, n):
    return isinstance(s, list) and len(s) == n and all(type(x) is str and x.strip() for x in s) and len(set(s)) == n


def valid(mon, m, slack):
    if isinstance(m, MC):
        p, s, n = m.p, m.states, m.size
        mon.check(isinstance(p, np.ndarray) and p.dtype == np.float64 and p.shape == (n, n) and n >= 2 and m.n == n and isinstance(n, int), 'shape', lambda: f'{getattr(p, "shape", None)} {n}')
        mon.check(stochastic(p, slack), 'stochastic', lambda: repr(p))
        mon.check(labels_ok(s, n), 'labels', lambda: repr(s))
        mon.check(np.array_equal(m.to_matrix(), p), 'accessors-agree')
        d = m.to_dictionary()
        mon.check(len(d) == n * n and all(d[a, b] == p[i, j] for i, a in enumerate(s) for j, b in enumerate(s)), 'accessors-agree')
        g = m.to_graph()
        mon.check(list(g.nodes) == s and {(a, b): w for a, b, w in g.edges(data='weight')} == {(a, b): p[i, j] for i, a in enumerate(s) for j, b in enumerate(s) if p[i, j] != 0}, 'accessors-agree', lambda: f'{list(g.edges(data=True))} for {p!r}')
        return
    p, e, s, y = m.p, m.e, m.states, m.symbols
    n, k = m.size
    mon.check(p.shape == (n, n) and e.shape == (n, k) and n >= 2 and k >= 2 and (m.n, m.k) == (n, k), 'shape', lambda: f'{p.shape} {e.shape} {n} {k}')
    mon.check(p.dtype == np.float64 and e.dtype == np.float64 and stochastic(p, slack) and stochastic(e, slack), 'stochastic', lambda: f'{p!r} {e!r}')
    mon.check(labels_ok(s, n) and labels_ok(y, k) and not set(s) & set(y), 'labels', lambda: f'{s!r} {y!r}')
    a, b = m.to_matrices()
    mon.check(np.array_equal(a, p) and np.array_equal(b, e), 'accessors-agree')
    d = m.to_dictionary()
    mon.check(len(d) == n * n + n * k and all(d['P', u, v] == p[i, j] for i, u in enumerate(s) for j, v in enumerate(s)) and all(d['E', u, v] == e[i, j] for i, u in enumerate(s) for j, v in enumerate(y)), 'accessors-agree')


def to_file_and_back(m, rng):
    path = os.path.join(os.environ['VERIF_SCRATCH'], f'v{uuid.uuid4().hex}{gen.pick(rng, [".json", ".csv", ".xml"])}')
    m.to_file(path)
    try:
        return type(m).from_file(path)
    finally:
        os.unlink(path)


def step(rng, m):
    # (name, call, legitimate refusals, expected labels or None)
    n, s = m.n, m.states
    w = catalog.World(m.p)
    if isinstance(m, H):
        k = m.k
        r = int(rng.integers(6))
        if r == 0 and (n > 2 or k > 2):
            ss = catalog.subset(rng, n, 2, n - 1) if n > 2 else None
            yy = catalog.subset(rng, k, 2, k - 1) if k > 2 and (ss is None or rng.random() < 0.6) else None
            return 'restrict', lambda: m.restrict(ss, yy), (), [s[i] for i in ss] if ss else s
        if r == 1:
            return 'from_dictionary', lambda: H.from_dictionary(m.to_dictionary()), (), s
        if r == 2:
            return 'from_graph', lambda: H.from_graph(m.to_graph()), (), s
        if r == 3:
            return 'from_matrices', lambda: H.from_matrices(*m.to_matrices(), s, m.symbols), (), s
        if r == 4:
            seqs = [m.simulate(int(rng.integers(2, 12)), seed=int(rng.integers(2**31)))[1] for _ in range(int(rng.integers(1, 3)))]
            t = gen.pick(rng, ['baum-welch', 'map', 'viterbi'])
            return 'fit', lambda: H.fit(t, s, m.symbols, m.p, m.e, seqs if len(seqs) > 1 else seqs[0]), (ValueError,), s
        return 'deepcopy', lambda: copy.deepcopy(m), (), s
    r = int(rng.integers(14))
    if r == 0:
        wt = gen.pick(rng, [0.5, 0.0, 1.0 - 2**-20, [float(x) for x in rng.random(n)], np.zeros(n)])
        return 'to_lazy_chain', lambda: m.to_lazy_chain(wt), (), s
    if r == 1:
        o = int(gen.pick(rng, [2, 3, 7, 50, 10**9 + 1, 2**100 - 1]))
        return 'to_nth_order', lambda: m.to_nth_order(o), (), s
    if r == 2 and n > 2:
        ks = catalog.subset(rng, n, 2, n - 1)
        return 'to_subchain', lambda: m.to_subchain([s[i] for i in ks]), (ValueError,), None
    if r == 3:
        return 'to_canonical_form', lambda: m.to_canonical_form(), (), None
    if r == 4:
        b = gen.pick(rng, ['absorbing', 'reflecting', 0.0, 1.0, 0.3])
        return 'to_bounded_chain', lambda: m.to_bounded_chain(b), (), s
    if r == 5:
        o = MC.random(n, seed=int(rng.integers(2**31)))
        g = float(gen.pick(rng, [1e-9, 0.5, 1 - 1e-9]))
        return 'merge_with', lambda: m.merge_with(o, g), (), None
    if r == 6 and 3 <= n <= 9:
        ps = m.lumping_partitions
        if ps:
            q = gen.pick(rng, ps)
            return 'lump', lambda: m.lump(q), (), None
    if r in (7, 8) and m.p[m.p > 0].min() < 1e-9:
        return 'deepcopy', lambda: copy.deepcopy(m), (), s
    if r == 7 and n >= 3:
        k = int(rng.integers(2, n))
        t = gen.pick(rng, ['adaptive', 'spectral-top-down', 'spectral-bottom-up'])
        return 'aggregate', lambda: m.aggregate(k, t), () if m.is_ergodic else (ValueError,), None
    if r == 8 and n <= 6:
        wd = bool(rng.random() < 0.5)
        return 'closest_reversible', lambda: m.closest_reversible(None, wd), (ValueError,), s
    if r == 9:
        return 'from_dictionary', lambda: MC.from_dictionary(m.to_dictionary()), (), s
    if r == 10:
        return 'from_graph', lambda: MC.from_graph(m.to_graph()), (), s
    if r == 11:
        return 'from_matrix', lambda: MC.from_matrix(m.to_matrix(), s), (), s
    if r == 12:
        return 'file', lambda: to_file_and_back(m, rng), (), s
    walk = m.simulate(int(rng.integers(2, 30)), seed=int(rng.integers(2**31)))
    t = gen.pick(rng, ['mle', 'map'])
    return 'fit_sequence', lambda: MC.fit_sequence(t, s, walk), (), s


def draws(rng, mon):
    # many random models with few free entries: their draws may be arbitrarily small
    for _ in range(25):
        n, k = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        seed = int(rng.integers(2**31))
        if rng.random() < 0.75:
            kw = {'p_zeros': int(rng.integers(0, n * (n - 1) + 1)), 'e_zeros': int(rng.integers(0, n * (k - 1) + 1)), 'seed': seed}
            mon.context(draw='hmm', n=n, k=k, arguments=kw)
            m = H.random(n, k, **kw)
            zeros = [(m.p, kw['p_zeros']), (m.e, kw['e_zeros'])]
        else:
            kw = {'zeros': int(rng.integers(0, n * (n - 1) + 1)), 'seed': seed}
            mon.context(draw='chain', n=n, arguments=kw)
            m = MC.random(n, **kw)
            zeros = [(m.p, kw['zeros'])]
        mon.event('draws')
        for a, z in zeros:
            mon.check(stochastic(a, 0.0), 'stochastic', lambda: repr(a))
            mon.check((a == 0).sum() == z, 'zeros-asked', lambda: f'{z} {a!r}')


def case(rng, mon, tier, index):

    if index % 4 == 0:
        draws(rng, mon)
    model = rng.random() < 0.35
    mon.event('models' if model else 'chains')
    f, kw, x = makers.model_maker(rng, H) if model else makers.chain_maker(rng, MC)
    mon.context(maker=x['what'], arguments=kw)
    slack = x.get('slack', 0.0)
    if slack:
        mon.event('slack')
    m, ex = kit.outcome(f, **kw)
    if 'path' in x:
        os.unlink(x['path'])
    if ex is not None:
        mon.event('refusal')
        mon.check(isinstance(ex, x['refusals']) and str(ex), 'valid-arguments-refused', lambda: f'{x["what"]}: {ex!r}')
        return
    mon.event('made')
    mon.check(type(m) is (H if model else MC), 'type', lambda: type(m))
    valid(mon, m, slack)
    mon.equal(m.size, x['size'], 'size')
    if x.get('states') is not None:
        mon.event('names-given')
        mon.equal(m.states, list(x['states']), 'names')
    elif x['what'] not in ('population_genetics_model',):
        mon.check(m.states == gen.default_labels(m.n, 'P' if model else '') or not (kw.get('states') is None), 'default-names', lambda: m.states)
    if model:
        mon.equal(m.symbols, list(x['symbols']), 'names-of-symbols')
        if x['P'] is not None:
            mon.close(m.p, x['P'], 'matrix-given', 1e-9, 1e-12)
            mon.close(m.e, x['E'], 'matrix-given', 1e-9, 1e-12)
    elif x.get('P') is not None:
        mon.close(m.p, x['P'], 'matrix-given', 2 * slack + 1e-9, 1e-12)
    trail = [x['what']]
    for _ in range(int(rng.integers(0, 6))):
        name, call, refusals, expected = step(rng, m)
        mon.context(trail=trail, transformation=name, model=(m.p, m.states))
        r, ex = kit.outcome(call)
        if ex is not None:
            mon.event('refusal')
            mon.check(isinstance(ex, refusals) and not isinstance(ex, (IndexError, KeyError)) and str(ex), 'valid-transformation-refused', lambda: f'{name}: {ex!r}')
            continue
        mon.event('transformed')
        if (trail[-1], name) not in WAYS:
            WAYS.add((trail[-1], name))
            mon.event('ways')
        mon.check(type(r) is type(m), 'type', lambda: type(r))
        valid(mon, r, slack * (2 if name != 'to_nth_order' else 1))
        if expected is not None:
            mon.equal(r.states, expected, 'names-after-transformation')
        if name in ('from_dictionary', 'deepcopy', 'file'):
            mon.check(np.allclose(r.p, m.p, rtol=1e-12, atol=0), 'conversion-preserves', lambda: f'{name}: {r.p!r} instead of {m.p!r}')
        trail.append(name)
        m = r
    mon.distinct(m.p, m.states, trail)
