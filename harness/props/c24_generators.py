# C24: chains generated from parameters match the definitions of their models.
import math

import numpy as np
import scipy.integrate as spi
import scipy.stats as sps

import pydtmc
from vh import gen, kit

CASES = (1700, 55000)
CAP = (90, 700)
RULE = 'one case = one generator with generated parameters and labels; distinct by generator and parameters; trivial when the size is the smallest one'
MINIMUM = {'distinct': 400, 'gamblers-ruin': 60, 'birth-death': 60, 'rare-births-deaths': 20, 'hardly-staying': 10, 'urn': 60, 'moran': 40, 'wright-fisher': 40, 'tauchen': 30, 'rouwenhorst': 30,
           'adda-cooper': 20, 'tauchen-hussey': 30, 'random': 100, 'random-masked': 60, 'random-model': 60, 'mask-decimals': 60, 'mask-nearly-full': 60, 'dirichlet': 40, 'random-distribution': 40, 'identity': 20}
ASSUMPTIONS = ['closed formulas of the models, evaluated independently, within 1e-9 (1e-14 absolutely; 2e-5 for the integrals of Adda and Cooper)', 'for the random generators: fixed entries, number of zeros and validity, not the law of the draws']
CASE_LIMIT = 90


def moran(n, s, u, v, right=True):
    r = 1 - s
    P = np.zeros((n + 1, n + 1))
    P[0, 0] = P[n, n] = 1
    for i in range(1, n):
        total = r * i + (n - i)
        a = r * i / total  # the parent is of the first type
        becomes_other = a * (u if right else v) + (1 - a) * (1 - v)
        becomes_first = a * (1 - u) + (1 - a) * v
        P[i, i - 1] = i / n * becomes_other
        P[i, i + 1] = (n - i) / n * becomes_first
        P[i, i] = 1 - P[i, i - 1] - P[i, i + 1]
    return P


def wright_fisher(n, s, u, v):
    P = np.zeros((n + 1, n + 1))
    P[0, 0] = P[n, n] = 1
    for i in range(1, n):
        x = i / n
        x = x * (1 - u) + (1 - x) * v
        x = min(x * (1 + s) / (1 + s * x), 1.0)
        for j in range(n + 1):
            P[i, j] = math.comb(n, j) * x**j * (1 - x)**(n - j)
    return P / P.sum(axis=1, keepdims=True)


def tauchen(n, sigma, rho, k):
    if abs(rho) == 1:
        # the grid is infinitely wide, so that the process moves to the mirrored node or stays
        return np.eye(n) if rho > 0 else np.eye(n)[::-1]
    sd = sigma / math.sqrt(1 - rho**2)
    x = np.array([-k * sd + 2 * k * sd * i / (n - 1) for i in range(n)])
    cuts = np.concatenate(([-np.inf], (x[:-1] + x[1:]) / 2, [np.inf]))
    P = np.zeros((n, n))
    for i in range(n):
        c = np.array([0.5 * math.erfc(-(b - rho * x[i]) / sigma / math.sqrt(2)) for b in cuts])
        P[i] = np.diff(c)
    return P


def rouwenhorst(n, rho):
    # distribution of the number of 'high' components among n - 1 independent symmetric two-state chains
    q = (1 + rho) / 2
    m = n - 1
    P = np.zeros((n, n))
    for i in range(n):
        a = sps.binom.pmf(np.arange(i + 1), i, q)  # components which stay high
        b = sps.binom.pmf(np.arange(m - i + 1), m - i, 1 - q)  # components which become high
        P[i] = np.convolve(a, b)
    return P


def adda_cooper(n, sigma, rho):
    sd = sigma / math.sqrt(1 - rho**2)
    cuts = sd * sps.norm.ppf(np.arange(n + 1) / n)
    P = np.zeros((n, n))
    for i in range(n):
        # integrate over the quantiles instead of the values: bounded and smooth
        def g(t, j):
            x = sd * sps.norm.ppf(t)
            return sps.norm.cdf((cuts[j + 1] - rho * x) / sigma) - sps.norm.cdf((cuts[j] - rho * x) / sigma)
        t = np.polynomial.legendre.leggauss(200)
        nodes = i / n + (t[0] + 1) / 2 / n
        for j in range(n):
            P[i, j] = n * float(np.sum(t[1] * g(nodes, j))) / 2 / n
    return P


def tauchen_hussey(n, alpha, sigma, rho, k, factor):
    z, w = np.polynomial.hermite.hermgauss(n)
    x = factor * k * z + alpha
    L = np.log(w)[None, :] + sps.norm.logpdf(x[None, :], ((1 - rho) * alpha + rho * x)[:, None], sigma) - sps.norm.logpdf(x, alpha, k)[None, :]
    L -= L.max(axis=1, keepdims=True)
    P = np.exp(L)
    return P / P.sum(axis=1, keepdims=True)


def random_mask(rng, mon, n, k):
    """A mask of n rows, the rows of it which are complete, and how many zeros can still be asked for."""
    mask = np.full((n, k), np.nan)
    full = np.zeros(n, dtype=bool)
    for i in range(n):
        style = rng.random()
        if style < 0.2:
            mask[i] = gen.random_row(rng, k, sorted(rng.choice(k, size=int(rng.integers(1, k + 1)), replace=False)), 'dyadic')
            full[i] = True
        elif style < 0.3:
            # decimals, whose sum is 1 up to the rounding only
            m = int(rng.integers(1, k + 1))
            mask[i, rng.choice(k, size=m, replace=False)] = [int(c) / 100 for c in rng.multinomial(100 - m, np.ones(m) / m) + 1]
            mask[i, np.isnan(mask[i])] = 0
            full[i] = True
            mon.event('mask-decimals')
        elif style < 0.45:
            # all but a little is fixed
            m = int(rng.integers(1, k))
            cols = rng.choice(k, size=m, replace=False)
            mask[i, cols] = (1 - 10.0**-float(rng.uniform(1, 4.6))) * rng.dirichlet(np.ones(m))
            mon.event('mask-nearly-full')
        else:
            m = int(rng.integers(0, k))
            cols = rng.choice(k, size=m, replace=False)
            mask[i, cols] = np.floor(rng.dirichlet(np.ones(m + 1))[:m] * 60) / 64 if m else []
        if full[i] and rng.random() < 0.4:
            # a row which is complete although some of its entries are left undefined
            mask[i, mask[i] == 0] = np.nan
    return mask, full, int(sum(np.isnan(mask[i]).sum() - 1 for i in range(n) if not full[i]))


def masked(mon, P, mask, full, zeros):
    """The fixed entries are kept, complete rows have nothing else, and the undefined entries of the other rows share what is left of them."""
    fixed = ~np.isnan(mask)
    mon.close(P[fixed], mask[fixed], 'random-mask-values', 1e-9, 1e-12)
    undefined = ~fixed & ~full[:, None]
    mon.equal(int((P[undefined] == 0).sum()), zeros, 'random-mask-zeros')
    rest = ~fixed & full[:, None]
    mon.check(bool((np.abs(P[rest]) <= 1e-12).all()), 'random-mask-complete-rows', lambda: f'{P} {mask}')
    for i in np.flatnonzero(~full):
        mon.close(P[i, ~fixed[i]].sum(), 1 - mask[i, fixed[i]].sum(), 'random-mask-rest', 1e-9, 1e-12)


def states_for(rng, n):
    lab = gen.labels(rng, n)
    return (None, gen.default_labels(n)) if lab is None or rng.random() < 0.3 else (list(lab), lab)


def verify(mon, mc, want, names, rule, atol, rtol=1e-9):
    kit.valid_chain(mon, pydtmc, mc)
    mon.event(rule)
    mon.equal(mc.states, names, 'labels')
    mon.close(mc.p, want, rule, rtol=rtol, atol=atol)


def case(rng, mon, tier, index):

    what = str(rng.choice(['gambler', 'birthdeath', 'urn', 'population', 'approximation', 'approximation', 'random', 'random', 'random-model', 'dirichlet', 'distribution', 'identity'],
                          p=[.09, .1, .09, .12, .12, .11, .1, .08, .07, .05, .05, .02]))
    MC = pydtmc.MarkovChain

    if what == 'gambler':
        n = int(rng.integers(3, 14)) if rng.random() < 0.85 else int(rng.integers(14, 45))
        w = float(gen.pick(rng, [0.5, 0.01, 0.99, 1e-10, 1e-17, 10.0**-float(rng.integers(3, 60)), 0.5 + 10.0**-float(rng.integers(3, 13)), 0.5 - 10.0**-float(rng.integers(3, 13)), 1 - 2.0**-30, float(rng.uniform(0.01, 0.99))]))
        lab, names = states_for(rng, n)
        mon.context(what=what, n=n, w=w, labels=lab)
        want = np.eye(n)
        for i in range(1, n - 1):
            want[i] = 0
            want[i, i + 1] = w
            want[i, i - 1] = 1 - w
        verify(mon, MC.gamblers_ruin(n, w, lab), want, names, 'gamblers-ruin', 0)
        if n > 3:
            mon.distinct(what, n, w)

    elif what == 'birthdeath':
        n = int(rng.integers(2, 12)) if rng.random() < 0.85 else int(rng.integers(12, 40))
        p, q = np.zeros(n), np.zeros(n)
        for i in range(n):
            a = rng.dirichlet(np.ones(3))
            if rng.random() < 0.2:
                a[int(rng.integers(3))] = 0
                a /= a.sum()
            a = np.floor(a * 1000) / 1000
            p[i], q[i] = a[0], a[1]
        if rng.random() < 0.3:
            # rare births and deaths
            mon.event('rare-births-deaths')
            for v in (p, q):
                k = rng.random(n) < 0.4
                v[k & (v > 0)] = 10.0**-float(rng.integers(4, 15))
        tiny = {}
        if rng.random() < 0.25:
            # hardly any probability of staying, exactly representable
            mon.event('hardly-staying')
            for i in range(n):
                if rng.random() < 0.5:
                    e = 2.0**-int(rng.integers(14, 45))
                    k = int(rng.integers(1, 16)) / 16 if 0 < i < n - 1 else float(i == 0)
                    p[i], q[i] = (k - e, 1 - k) if k > 0.5 else (k, 1 - k - e)
                    tiny[i] = e
        p[-1] = 0
        q[0] = 0
        lab, names = states_for(rng, n)
        mon.context(what=what, p=p, q=q, labels=lab)
        want = np.zeros((n, n))
        for i in range(n):
            if i + 1 < n:
                want[i, i + 1] = p[i]
            if i > 0:
                want[i, i - 1] = q[i]
            want[i, i] = 1 - p[i] - q[i]
        pa, qa = (p.copy(), q.copy()) if rng.random() < 0.5 else (p.tolist(), q.tolist())
        got = MC.birth_death(pa, qa, lab)
        verify(mon, got, want, names, 'birth-death', 1e-13)
        for i, e in tiny.items():
            mon.close(got.p[i, i], e, 'birth-death', 1e-3, 0)
        off = ~np.eye(n, dtype=bool)
        mon.close(got.p[off], want[off], 'birth-death', 1e-9, 0)
        mon.check(np.array_equal(pa, p) and np.array_equal(qa, q), 'arguments-unchanged')
        if n > 2:
            mon.distinct(what, p, q)

    elif what == 'urn':
        n = int(rng.integers(1, 9)) if rng.random() < 0.85 else int(rng.integers(9, 24))
        model = str(rng.choice(['ehrenfest', 'bernoulli-laplace']))
        m = 2 * n
        lab, names = states_for(rng, m + 1)
        mon.context(what=what, model=model, n=n, labels=lab)
        want = np.zeros((m + 1, m + 1))
        for i in range(m + 1):
            f = i / m
            if model == 'ehrenfest':
                if i:
                    want[i, i - 1] = f
                if i < m:
                    want[i, i + 1] = 1 - f
            else:
                if i:
                    want[i, i - 1] = f * f
                if i < m:
                    want[i, i + 1] = (1 - f)**2
                want[i, i] = 2 * f * (1 - f)
        verify(mon, MC.urn_model(model, n, lab), want, names, 'urn', 1e-12)
        if n > 1:
            mon.distinct(what, model, n)

    elif what == 'population':
        model = str(rng.choice(['moran', 'wright-fisher']))
        n = int(rng.integers(2, 13)) if rng.random() < 0.8 else int(rng.integers(13, 60))
        s = float(gen.pick(rng, [0.0, 0.5, -0.5, -1.0, 1.0, float(np.round(rng.uniform(-1, 1), 3)), float(rng.uniform(-1, 1)), float(rng.choice([-1, 1]) * 10.0**-rng.integers(2, 12))]))
        top = 1 / (4 * n) if model == 'wright-fisher' else 1.0
        u, v = [float(gen.pick(rng, [0.0, 1e-9, top / 2, float(rng.uniform(0, top)), top * 10.0**-float(rng.integers(2, 15))])) for _ in range(2)]
        lab, names = states_for(rng, n + 1)
        mon.context(what=what, model=model, n=n, s=s, u=u, v=v, labels=lab)
        kw = {} if rng.random() < 0.2 else {'s': s, 'u': u, 'v': v}
        if not kw:
            s, u, v = 0.0, 1e-9, 1e-9
        mc = MC.population_genetics_model(model, n, states=lab, **kw)
        mon.distinct(what, model, n, s, u, v)
        if model == 'wright-fisher':
            verify(mon, mc, wright_fisher(n, s, u, v), names, 'wright-fisher', 1e-14)
        else:
            right, wrong = moran(n, s, u, v), moran(n, s, u, v, False)
            wrong /= wrong.sum(axis=1, keepdims=True)
            kit.valid_chain(mon, pydtmc, mc)
            mon.event('moran')
            mon.equal(mc.states, names, 'labels')
            if not kit.close(mc.p, right, 1e-9, 1e-14):
                mon.close(mc.p, wrong, 'moran', rtol=1e-9, atol=1e-14)
                mon.known('moran-backward-mutation', (n, s, u, v))

    elif what == 'approximation':
        kind = str(rng.choice(['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'], p=[.15, .25, .3, .3]))
        n = int(rng.integers(2, 9))
        if kind != 'adda-cooper' and rng.random() < 0.3:
            n = int(rng.integers(9, 14)) if rng.random() < 0.6 else int(rng.integers(14, 33))
        alpha = float(np.round(rng.uniform(-3, 3), 3))
        sigma = float(gen.pick(rng, [1.0, 0.1, 5.0, 1e-4, float(rng.uniform(0.05, 4))]))
        rho = float(gen.pick(rng, [0.0, 0.5, -0.5, 0.9, -0.9, float(np.round(rng.uniform(-0.97, 0.97), 3))]))
        if rng.random() < 0.15:
            rho = float(gen.pick(rng, [1.0, -1.0, 0.999, -0.999, 0.999999, -0.999999])) if kind in ('tauchen', 'rouwenhorst') else float(gen.pick(rng, [0.99, -0.99]))
            mon.event('persistent')
        lab, names = states_for(rng, n)
        k = None
        if kind == 'tauchen' and rng.random() < 0.6:
            k = float(gen.pick(rng, [1.0, 2.0, 3.0, 4.5, float(rng.uniform(1, 5))]))
        if kind == 'tauchen-hussey' and rng.random() < 0.5:
            k = float(sigma * rng.uniform(0.6, 1.8))
        mon.context(what=what, kind=kind, n=n, alpha=alpha, sigma=sigma, rho=rho, k=k, labels=lab)
        mon.distinct(kind, n, alpha, sigma, rho, k)
        kw = {} if k is None else {'k': k}
        if kind == 'adda-cooper' or (kind == 'tauchen-hussey' and k is None):
            if rng.random() < 0.1:
                kit.rejected(mon, pydtmc, 'unit-root', MC.approximation, n, kind, alpha, sigma, gen.pick(rng, [1.0, -1.0]), lab, **kw)
        elif rng.random() < 0.1:
            kit.rejected(mon, pydtmc, 'outside', MC.approximation, n, kind, alpha, sigma, gen.pick(rng, [1.001, -1.5]), lab, **kw)
        mc = MC.approximation(n, kind, alpha, sigma, rho, lab, **kw)
        if kind == 'tauchen':
            verify(mon, mc, tauchen(n, sigma, rho, 3.0 if k is None else k), names, kind, 1e-14)
        elif kind == 'rouwenhorst':
            verify(mon, mc, rouwenhorst(n, rho), names, kind, 1e-14)
        elif kind == 'adda-cooper':
            verify(mon, mc, adda_cooper(n, sigma, rho), names, kind, 2e-5)
        else:
            if k is None:
                w = 0.5 + rho / 4
                k = w * sigma + (1 - w) * sigma / math.sqrt(1 - rho**2)
            kit.valid_chain(mon, pydtmc, mc)
            mon.event(kind)
            mon.equal(mc.states, names, 'labels')
            if not kit.close(mc.p, tauchen_hussey(n, alpha, sigma, rho, k, math.sqrt(2)), 1e-9, 1e-13):
                mon.close(mc.p, tauchen_hussey(n, alpha, sigma, rho, k, 2.0), kind, rtol=1e-9, atol=1e-13)
                mon.known('tauchen-hussey-nodes', (n, alpha, sigma, rho, k))

    elif what == 'random':
        n = int(rng.integers(2, 9)) if rng.random() < 0.9 else int(rng.integers(9, 25))
        lab, names = states_for(rng, n)
        seed = int(rng.integers(2**31))
        if rng.random() < 0.45:
            z = int(rng.integers(0, n * (n - 1) + 1))
            mon.context(what=what, n=n, zeros=z, seed=seed)
            mc = MC.random(n, lab, zeros=z, seed=seed)
            kit.valid_chain(mon, pydtmc, mc)
            mon.equal(mc.states, names, 'labels')
            mon.equal(int((mc.p == 0).sum()), z, 'random')
            mon.distinct(what, n, z, seed)
            kit.rejected(mon, pydtmc, 'too-many-zeros', MC.random, n, lab, n * (n - 1) + 1 + int(rng.integers(3)), seed=seed)
            return
        mask, full, free = random_mask(rng, mon, n, n)
        z = int(rng.integers(0, free + 1))
        arg = mask.copy() if rng.random() < 0.6 else mask.tolist()
        mon.context(what=what, mask=mask, zeros=z, seed=seed)
        mc = MC.random(n, lab, zeros=z, mask=arg, seed=seed)
        kit.valid_chain(mon, pydtmc, mc)
        mon.event('random-masked')
        mon.check(np.array_equal(np.asarray(arg, dtype=float), mask, equal_nan=True), 'arguments-unchanged')
        masked(mon, mc.p, mask, full, z)
        mon.distinct(what, mask, z, seed)
        kit.rejected(mon, pydtmc, 'too-many-zeros', MC.random, n, lab, free + 1, mask.copy(), seed=seed)

    elif what == 'random-model':
        n, k = int(rng.integers(2, 7)), int(rng.integers(2, 8))
        seed = int(rng.integers(2**31))
        pm = em = None
        if rng.random() < 0.8:
            pm, pf, p_free = random_mask(rng, mon, n, n)
        else:
            pf, p_free = np.zeros(n, dtype=bool), n * (n - 1)
        if rng.random() < 0.8:
            em, ef, e_free = random_mask(rng, mon, n, k)
        else:
            ef, e_free = np.zeros(n, dtype=bool), n * (k - 1)
        pz, ez = int(rng.integers(0, p_free + 1)), int(rng.integers(0, e_free + 1))
        lab, names = states_for(rng, n)
        symbols = None if rng.random() < 0.6 else [f'seen {i}' for i in range(k)]
        args = [None if x is None else (x.copy() if rng.random() < 0.6 else x.tolist()) for x in (pm, em)]
        mon.context(what=what, n=n, k=k, p_mask=pm, e_mask=em, p_zeros=pz, e_zeros=ez, seed=seed, labels=lab)
        hm = pydtmc.HiddenMarkovModel.random(n, k, states=lab, p_zeros=pz, p_mask=args[0], symbols=symbols, e_zeros=ez, e_mask=args[1], seed=seed)
        mon.event('random-model')
        mon.check(all(x is None or np.array_equal(np.asarray(x, dtype=float), y, equal_nan=True) for x, y in zip(args, (pm, em))), 'arguments-unchanged')
        mon.equal((list(hm.states), list(hm.symbols)), (names if lab is not None else [f'P{i}' for i in range(1, n + 1)], symbols or [f'E{i}' for i in range(1, k + 1)]), 'labels')
        for got, mask, full, zeros, m in ((hm.p, pm, pf, pz, n), (hm.e, em, ef, ez, k)):
            mon.equal(got.shape, (n, m), 'random-model')
            mon.check(bool(np.all(got >= -1e-15) and np.allclose(got.sum(axis=1), 1, atol=2e-5)), 'random-model', lambda: f'{got}')
            masked(mon, got, np.full((n, m), np.nan) if mask is None else mask, full, zeros)
        mon.distinct(what, n, k, pm, em, pz, ez)
        which = int(rng.integers(2))
        kw = {'p_zeros': p_free + 1 + int(rng.integers(3)) if which == 0 else pz, 'e_zeros': e_free + 1 + int(rng.integers(3)) if which == 1 else ez}
        kit.rejected(mon, pydtmc, 'too-many-zeros', pydtmc.HiddenMarkovModel.random, n, k, p_mask=pm, e_mask=em, seed=seed, **kw)

    elif what == 'dirichlet':
        n = int(rng.integers(2, 10))
        d = int(rng.integers(1, n + 1))
        lab, names = states_for(rng, n)
        bias = None if rng.random() < 0.5 else float(rng.uniform(0.1, 10))
        shift = bool(rng.random() < 0.5)
        seed = int(rng.integers(2**31))
        mon.context(what=what, n=n, diffusion=d, bias=bias, shift=shift, seed=seed)
        mc = MC.dirichlet_process(n, d, lab, bias, shift, seed)
        kit.valid_chain(mon, pydtmc, mc)
        mon.event('dirichlet')
        mon.equal(mc.states, names, 'labels')
        # the breaks of a stick are positive almost surely, and the last piece takes what is left
        mon.check(bool((mc.p > 0).all()), 'dirichlet-positive', lambda: f'{mc.p}')
        if bias is None:
            other = MC.dirichlet_process(n, d, lab, bias, not shift, seed)
            mon.close(other.p, mc.p[:, ::-1], 'dirichlet-shift', 1e-9, 1e-12)
        else:
            # the bias only adds weight to the diagonal: elsewhere the proportions are the ones without it
            plain = MC.dirichlet_process(n, d, lab, None, shift, seed).p
            for i in range(n):
                off = [j for j in range(n) if j != i]
                mon.check(bool(mc.p[i, i] >= plain[i, i] - 1e-12), 'dirichlet-bias')
            if bias >= 0.5:
                # a draw of Beta(b, 1) below 1e-6 has a probability below 1e-3 for each state, and there are at least two of them
                mon.check(bool(np.any(np.diag(mc.p) > np.diag(plain) + 1e-9) or np.all(np.diag(plain) > 1 - 1e-6)), 'dirichlet-bias-present', lambda: f'{np.diag(mc.p)} {np.diag(plain)}')
                mon.close(mc.p[i, off] * plain[i, off].sum(), plain[i, off] * mc.p[i, off].sum(), 'dirichlet-bias-proportions', 1e-6, 1e-12)
        if rng.random() < 0.3:
            # the pieces are broken off what the previous ones left: on average the k-th one is a geometric part of the stick
            a, m = int(rng.integers(1, 4)), int(rng.integers(36, 44))
            x = MC.dirichlet_process(m, a, seed=seed).p
            got = x[:, :3].mean(axis=0)
            want = [(1 / (1 + a)) * (a / (1 + a))**k for k in range(3)]
            second = [(2 / ((1 + a) * (2 + a))) * (a / (2 + a))**k for k in range(3)]
            sd = np.sqrt((np.array(second) - np.array(want)**2) / m)
            mon.event('dirichlet-stick')
            mon.check(bool(np.all(np.abs(got - want) <= 7.5 * sd + 1e-3)), 'dirichlet-stick', lambda: f'{got} {want} {sd}')
        mon.distinct(what, n, d, bias, shift, seed)

    elif what == 'distribution':
        n = int(rng.integers(2, 8))
        lab, names = states_for(rng, n)
        seed = int(rng.integers(2**31))
        name, kw, law = [('uniform', {'low': 0.0, 'high': 3.0}, lambda r: r.uniform(0, 3, (n, n))), ('normal', {'loc': -0.5}, lambda r: r.normal(-0.5, 1, (n, n))),
                         ('exponential', {}, lambda r: r.exponential(size=(n, n))), ('poisson', {'lam': 0.6}, lambda r: r.poisson(0.6, (n, n))),
                         ('binomial', {'n': 3, 'p': 0.2}, lambda r: r.binomial(3, 0.2, (n, n))), ('gamma', {'shape': 0.3}, lambda r: r.gamma(0.3, size=(n, n)))][int(rng.integers(6))]
        mon.context(what=what, name=name, n=n, seed=seed)
        f = name if rng.random() < 0.6 else getattr(np.random, name)
        mc = MC.random_distribution(n, f, lab, seed, **kw)
        kit.valid_chain(mon, pydtmc, mc)
        mon.equal(mc.states, names, 'labels')
        draws = np.clip(np.asarray(law(np.random.RandomState(seed)), dtype=float), 0, None)
        draws[draws.sum(axis=1) == 0] = 1
        mon.event('random-distribution')
        # the draws follow the named distribution and the parameters, row by row normalised
        if type(f) is str or True:
            mon.close(mc.p, draws / draws.sum(axis=1, keepdims=True), 'random-distribution', 1e-9, 1e-12)
        mon.distinct(what, name, n, seed)

    else:
        n = int(rng.integers(2, 12))
        lab, names = states_for(rng, n)
        mon.context(what=what, n=n)
        verify(mon, MC.identity(n, lab), np.eye(n), names, 'identity', 0)
        if n > 2:
            mon.distinct(what, n, lab)


def finish(mon, tier, seed):
    MC = pydtmc.MarkovChain
    got = MC.population_genetics_model('moran', 3, 0.0, 0.25, 0.5).p
    if not kit.close(got, moran(3, 0.0, 0.25, 0.5)):
        mon.close(got, moran(3, 0.0, 0.25, 0.5, False), 'moran')
        mon.known('moran-backward-mutation', 'witness')
    got = MC.approximation(3, 'tauchen-hussey', 0.0, 1.0, 0.5, k=1.0).p
    if not kit.close(got, tauchen_hussey(3, 0.0, 1.0, 0.5, 1.0, math.sqrt(2))):
        mon.close(got, tauchen_hussey(3, 0.0, 1.0, 0.5, 1.0, 2.0), 'tauchen-hussey')
        mon.known('tauchen-hussey-nodes', 'witness')
