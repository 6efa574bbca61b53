# C33: equality, hashing, copies and pickles.
import copy
import pickle

import numpy as np

import pydtmc
from vh import gen, kit

CASES = (900, 25000)
CAP = (90, 700)
RULE = 'one case = a family of generated models (the same one built through several routes, and others which differ in one probability, one label or the order) compared pairwise; distinct by model'
MINIMUM = {'distinct': 400, 'equal-pair': 5000, 'different-pair': 5000, 'nearly-equal-pair': 300, 'signed-zero': 150, 'foreign': 3000, 'pickle': 300, 'copy': 300, 'chains': 300, 'models': 200, 'unequal-after-write': 100}
ASSUMPTIONS = ['models are equal when all probabilities are exactly equal numbers and all labels are equal texts in the same order']

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel


class Anything:
    # equal to everything when it is asked
    def __eq__(self, other):
        return True

    __hash__ = None


FOREIGN = [None, 0, 1.5, '', 'MarkovChain', [], (), {}, object(), np.zeros((2, 2)), np.eye(3), [[0.5, 0.5], [0.5, 0.5]], float('nan'), MC, H, Ellipsis, b'x', {1}, NotImplemented, lambda: 0]


def signed(P, rng):
    # negative zeros in the place of some of the zeros
    Q = P.copy()
    z = np.argwhere(Q == 0)
    if not len(z):
        return None
    for i, j in z[rng.random(len(z)) < 0.6]:
        Q[i, j] = -0.0
    return Q


def nudge(P, rng):
    # the smallest change of one entry which keeps the matrix acceptable
    Q = P.copy()
    z = np.argwhere(Q > 0)
    i, j = z[int(rng.integers(len(z)))]
    Q[i, j] = np.nextafter(Q[i, j], 0.0)
    return Q


def moved(P, rng):
    # one row exchanged within itself
    Q = P.copy()
    for i in rng.permutation(P.shape[0]):
        r = rng.permutation(P.shape[1])
        if not np.array_equal(P[i][r], P[i]):
            Q[i] = P[i][r]
            return Q
    return None


def relabelled(names, rng):
    k = int(rng.integers(4))
    out = list(names)
    if k == 0:
        i, j = rng.choice(len(out), size=2, replace=False)
        out[i], out[j] = out[j], out[i]
    elif k == 1:
        i = int(rng.integers(len(out)))
        out[i] = out[i] + gen.pick(rng, ['x', "'", ' .', '_', '0'])
    elif k == 2:
        i = int(rng.integers(len(out)))
        out[i] = out[i].swapcase()
    else:
        out = out[1:] + out[:1]
    return out if len(set(out)) == len(out) and out != list(names) else None


QUERIES = ['pi', 'periods', 'communicating_classes', 'fundamental_matrix', 'accessibility_matrix', 'is_ergodic', 'rank', 'entropy_rate', 'states', 'p', 'is_regular', 'spectral_gap']


def chains(rng, mon):
    kind, P, lab, names = kit.pick_big(rng) if rng.random() < 0.006 else kit.pick_chain(rng, sizes=(3, 5, 8), p=(.4, .4, .2))
    mon.event('chains')
    mon.context(kind=kind, P=P, labels=names)
    mon.distinct('c', P, names)
    n = len(names)
    key = lambda Q, s: ('c', (Q + 0.0).tobytes(), tuple(s))
    out = [(key(P, names), kit.build(rng, pydtmc, P, names)) for _ in range(3)]
    out.append((key(P, names), MC(P, names)))
    if list(names) == gen.default_labels(n):
        out.append((key(P, names), MC(P)))
    for Q, s in ((signed(P, rng), names), (nudge(P, rng), names), (moved(P, rng), names), (P, relabelled(names, rng))):
        if Q is None or s is None:
            continue
        if Q.tobytes() != P.tobytes() and np.array_equal(Q, P):
            mon.event('signed-zero')
        out.append((key(Q, s), MC(Q, s)))
    perm = rng.permutation(n)
    out.append((key(P[np.ix_(perm, perm)], [names[i] for i in perm]), MC(P[np.ix_(perm, perm)], [names[i] for i in perm])))
    Q = gen.chain(rng, 5)[1]
    out.append((key(Q, gen.default_labels(len(Q))), MC(Q)))
    return out


def models(rng, mon):
    kind, P, E = gen.hmm(rng, 4, 4)
    n, k = E.shape
    s, y, names, symbols = gen.hmm_labels(rng, n, k)
    mon.event('models')
    mon.context(kind=kind, P=P, E=E, states=names, symbols=symbols)
    mon.distinct('h', P, E, names, symbols)
    key = lambda A, B, a, b: ('h', A.shape, (A + 0.0).tobytes(), (B + 0.0).tobytes(), tuple(a), tuple(b))
    out = [(key(P, E, names, symbols), kit.build_hmm(rng, pydtmc, P, E, names, symbols)) for _ in range(3)]
    for A, B, a, b in ((signed(P, rng), E, names, symbols), (P, signed(E, rng), names, symbols), (nudge(P, rng), E, names, symbols), (P, nudge(E, rng), names, symbols), (moved(P, rng), E, names, symbols), (P, moved(E, rng), names, symbols),
                       (P, E, relabelled(names, rng), symbols), (P, E, names, relabelled(symbols, rng))):
        if A is None or B is None or a is None or b is None or set(a) & set(b):
            continue
        if (A.tobytes(), B.tobytes()) != (P.tobytes(), E.tobytes()) and np.array_equal(A, P) and np.array_equal(B, E):
            mon.event('signed-zero')
        out.append((key(A, B, a, b), H(A, B, a, b)))
    if n == k and not np.array_equal(P, E):
        out.append((key(E, P, names, symbols), H(E, P, names, symbols)))
    out.append((('c', (P + 0.0).tobytes(), tuple(names)), MC(P, names)))
    return out


def case(rng, mon, tier, index):

    out = chains(rng, mon) if rng.random() < 0.6 else models(rng, mon)
    extra = []
    for key, m in out:
        if rng.random() < 0.4 and type(m) is MC:
            for q in rng.choice(QUERIES, size=3, replace=False):
                kit.poison(getattr(m, str(q)))
        r = rng.random()
        if r < 0.25:
            mon.event('pickle')
            c = pickle.loads(pickle.dumps(m, protocol=int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))))
        elif r < 0.5:
            mon.event('copy')
            c = copy.deepcopy(m) if rng.random() < 0.6 else copy.copy(m)
        else:
            continue
        mon.check(type(c) is type(m), 'copy-type', type(c))
        extra.append((key, c))
    out = kit.shuffled(rng, out + extra)[:14]

    # pairwise
    for i, (ka, a) in enumerate(out):
        ha = hash(a)
        mon.check(isinstance(ha, int) and hash(a) == ha, 'hash-stable')
        for j, (kb, b) in enumerate(out):
            want = ka == kb
            mon.event('equal-pair' if want else 'different-pair')
            if not want and ka[0] == kb[0] and ka[1:] != kb[1:]:
                if a.p.shape == b.p.shape and np.allclose(a.p, b.p, rtol=0, atol=1e-12):
                    mon.event('nearly-equal-pair')
            got, ne = a == b, a != b
            mon.check(type(got) is bool or isinstance(got, np.bool_), 'equality-is-a-truth-value', lambda: repr(got))
            mon.check(bool(got) == want and bool(ne) == (not want), 'equality', lambda: f'{a.p!r} {a.states} and {b.p!r} {b.states}: == {got} != {ne}, expected equal: {want}')
            if want:
                mon.check(hash(b) == ha, 'equal-models-have-equal-hashes', lambda: f'{a.p!r} {b.p!r}')

    # sets and dictionaries
    keys = {k for k, _ in out}
    mon.equal(len({m for _, m in out}), len(keys), 'set-of-models')
    d = {}
    for k, m in out:
        d[m] = k
    mon.equal(len(d), len(keys), 'dictionary-of-models')
    for k, m in out:
        mon.equal(d[m], k, 'dictionary-lookup')
        mon.check(m in [x for _, x in out], 'list-membership')
        mon.equal([x for _, x in out].count(m), sum(q == k for q, _ in out), 'list-count')

    # other objects
    m = out[0][1]
    for f in FOREIGN:
        mon.event('foreign')
        mon.check((m == f) is False and (m != f) is True, 'different-from-other-objects', lambda: repr(f))
    mon.check(m != str(m) and m != m.to_dictionary() and m != m.states, 'different-from-its-parts')

    # a copy is independent: writing into what a deep copy returns does not reach the original
    k0, m = gen.pick(rng, out)
    c = copy.deepcopy(m) if rng.random() < 0.5 else pickle.loads(pickle.dumps(m))
    for attr in ('p', 'states', 'e', 'symbols'):
        if hasattr(c, attr):
            v = getattr(c, attr)
            try:
                kit.poison(v)
            except ValueError:
                pass
    mon.event('unequal-after-write')
    again = (('c', (m.p + 0.0).tobytes(), tuple(m.states)) if type(m) is MC else ('h', m.p.shape, (m.p + 0.0).tobytes(), (m.e + 0.0).tobytes(), tuple(m.states), tuple(m.symbols)))
    mon.equal(again, k0, 'copies-are-independent')
