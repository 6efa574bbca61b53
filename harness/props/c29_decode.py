# C29: decoding of hidden Markov models.
import math

import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (1200, 30000)
CAP = (90, 700)
RULE = 'one case = one generated model with initial statuses and sequences of symbols (possible and impossible); distinct by model, status and sequence; trivial when the model is the identity'
MINIMUM = {'distinct': 600, 'enumerated': 500, 'smoothed': 200, 'impossible': 25, 'unscaled': 300, 'long': 60, 'rare': 12, 'underflow': 60, 'underflow-unscaled': 30, 'big': 4}
ASSUMPTIONS = ['the initial distribution is at time zero and a transition precedes every emission', 'sequences of up to 5 symbols are decided by enumeration of the paths, longer ones by an independent filter and smoother',
               'likelihood factors between 0 and 1e-200 are skipped']


def smoother(P, E, init, y):
    # filter and Rauch smoother in normalised form
    filt, pred, c = [np.asarray(init, dtype=float)], [None], []
    for s in y:
        q = P.T @ filt[-1]
        u = q * E[:, s]
        z = u.sum()
        if z <= 0:
            return None
        pred.append(q)
        c.append(z)
        filt.append(u / z)
    post = [filt[-1]]
    for t in range(len(y) - 1, -1, -1):
        r = np.divide(post[0], pred[t + 1], out=np.zeros_like(post[0]), where=pred[t + 1] > 0)
        post.insert(0, filt[t] * (P @ r))
    return np.array(filt).T, np.array(post).T, np.array(c)


def suffixes(P, E, y):
    # probability of the symbols after time t from every state, unscaled and in the exact order of the definition
    n = P.shape[0]
    b = [np.ones(n)]
    for s in reversed(y):
        b.insert(0, P @ (E[:, s] * b[0]))
    return np.array(b).T


def case(rng, mon, tier, index):

    big = rng.random() < 0.02
    kind, P, E = gen.big_hmm(rng) if big else gen.hmm(rng)
    if big:
        mon.event('big')
    n, k = E.shape
    unlikely = rng.random() < 0.1
    if unlikely:
        # one symbol is rare in all states
        z = int(rng.integers(k))
        E = E + 0.05
        E[:, z] = 0
        E /= E.sum(axis=1, keepdims=True)
        w = 10.0**-rng.uniform(2.5, 6, size=n)
        E *= (1 - w)[:, None]
        E[:, z] = w
    s, y, names, syms = gen.hmm_labels(rng, n, k)
    m = kit.build_hmm(rng, pydtmc, P, E, s, y)
    frozen = kit.freeze_hmm(m)
    P, E = m.p, m.e

    for _ in range(3):
        arg, init = gen.status(rng, names)
        r = rng.random()
        if r < 0.2:
            length = int(rng.integers(2, 6))
            seq = [int(x) for x in rng.integers(k, size=length)]
        else:
            length = int(rng.integers(2, 6)) if r < 0.7 else int(rng.choice([8, 20, 60, 300]))
            seq = gen.emissions(rng, P, E, init, length)[1]
        scaling = bool(rng.random() < 0.6)
        if unlikely and rng.random() < 0.6:
            # the probability of the whole sequence is far below the smallest number
            mon.event('underflow')
            scaling, length = bool(rng.random() < 0.5), int(rng.integers(110, 320))
            seq = [z if rng.random() < 0.95 else int(rng.integers(k)) for _ in range(length)]
        given = gen.seq_form(rng, syms, seq)
        mon.context(kind=kind, P=P, E=E, states=names, symbols=syms, initial=init, sequence=given if length < 30 else given[:30], scaling=scaling)
        copy = list(given)
        kw = {} if scaling and rng.random() < 0.5 else {'use_scaling': scaling}
        out = m.decode(given, **kw) if arg is None and rng.random() < 0.5 else m.decode(given, arg, **kw)
        mon.equal(given, copy, 'arguments-unchanged')
        if kind != 'identity':
            mon.distinct(P, E, init, seq, scaling)
        sm = smoother(P, E, init, seq)

        if sm is None:
            mon.event('impossible')
            mon.check(out is None, 'none-when-impossible', lambda: f'{out!r}')
            continue
        filt, post, c = sm
        if c.min() < 1e-200:
            mon.skip('nearly impossible')
            continue
        mon.check(isinstance(out, tuple) and len(out) == 5, 'decoding-form')
        lp, posterior, backward, forward, factors = out
        mon.check(type(lp) is float, 'decoding-form')

        if c.min() < 1e-5:
            mon.event('rare')
        if length <= 5 and not big:
            mon.event('enumerated')
            paths = ref.hmm_paths(P, E, init, seq)
            like = sum(paths.values())
            mon.close(lp, math.log(like), 'log-probability', 1e-10, 1e-11)
            W = np.zeros((n, length))
            for path, pr in paths.items():
                for t, u in enumerate(path):
                    W[u, t] += pr / like
            mon.close(posterior, W, 'posterior', 1e-9, 1e-13)
        else:
            mon.event('smoothed')
            if length >= 60:
                mon.event('long')
            mon.close(lp, float(np.log(c).sum()), 'log-probability', 1e-10, 1e-11)
            mon.close(posterior, post[:, 1:], 'posterior', 1e-9, 1e-13)
        mon.close(posterior.sum(axis=0), np.ones(length), 'posterior-sums', 1e-9, 0)

        if scaling:
            mon.close(factors, np.concatenate(([1.0], c)), 'factors', 1e-9, 0)
            mon.close(forward, filt, 'forward', 1e-9, 1e-14)
            # backward: probability of the later symbols over their predicted probability
            if length <= 20:
                b = suffixes(P, E, seq)
                tail = np.concatenate((np.cumprod(c[::-1])[::-1], [1.0]))
                mon.close(backward, b / tail, 'backward', 1e-9, 1e-14)
            mon.close((forward * backward).sum(axis=0), np.ones(length + 1), 'forward-backward', 1e-9, 0)
        else:
            mon.event('unscaled')
            mon.check(factors is None, 'factors')
            scale = np.concatenate(([1.0], np.cumprod(c)))
            b = suffixes(P, E, seq)
            ok = scale > 1e-250
            mon.close((forward / np.where(ok, scale, 1))[:, ok], filt[:, ok], 'forward', 1e-9, 1e-14)
            # where the product of the later factors is representable
            ok = np.concatenate((np.cumprod(c[::-1])[::-1], [1.0])) > 1e-250
            top = np.maximum(b.max(axis=0), 1e-250)
            mon.close((backward / top)[:, ok], (b / top)[:, ok], 'backward', 1e-9, 1e-14)
            if not ok.all():
                mon.event('underflow-unscaled')
        kit.poison(out)

    mon.check(kit.freeze_hmm(m) == frozen, 'model-unchanged')
    if rng.random() < 0.1:
        bad = gen.pick(rng, [([0],), ([0, k],), ([0, -1],), ([syms[0], '?'],), ([syms[0], 0],), ([names[0], names[0]],), (None,), ('ab',), ([0, 1], [0.5] * n if n != 2 else [0.5, 0.6]), ([0, 1], n),
                             ([0, 1], 'nowhere'), ([0, 1], np.full(n + 1, 1 / (n + 1))), ([0, 1], None, 'yes'), ([0, 1], np.full(n, np.nan))])
        mon.context(bad=bad)
        kit.rejected(mon, pydtmc, 'invalid-arguments', m.decode, *bad)
