# C22: ordinary lumpability.
import numpy as np

import pydtmc
from vh import gen, kit, ref

CASES = (900, 30000)
CAP = (60, 700)
RULE = 'one case = one generated chain (half of them lumpable by construction) with one or more partitions; distinct by chain and partition; trivial when the partition is refused for its form'
MINIMUM = {'distinct': 300, 'lump-matrix': 200, 'lump-refused': 200, 'partitions-sound': 300, 'partitions-complete': 200, 'lump-distribution': 150, 'nearly-lumpable': 60}
ASSUMPTIONS = ['the partitions follow the order of the states, as the documented error requires', 'block sums which differ by 1e-9 to 1e-4 are skipped']


def deviation(P, part):
    return max(float(np.ptp(P[np.ix_(b, o)].sum(axis=1))) for b in part for o in part)


def exact(P, part):
    # every operation of the averaging is exact in binary: sizes are powers of two and the entries are multiples of 2^-24
    return all(len(b) in (1, 2, 4, 8) for b in part) and np.array_equal(P * 2**24, np.round(P * 2**24))


def form(rng, names, part, by_name=None):
    by_name = rng.random() < 0.6 if by_name is None else by_name
    return [[names[i] if by_name else int(i) for i in b] for b in part]


def check_lump(rng, mon, mc, P, names, part):
    n = P.shape[0]
    arg = form(rng, names, part)
    copy = [list(b) for b in arg]
    dev = deviation(P, part)
    before = kit.freeze(mc)
    if 1e-9 < dev < 1e-4:
        return mon.skip('nearly lumpable')
    mon.context(partition=part)
    if dev >= 1e-4:
        kit.rejected(mon, pydtmc, 'lump-refused', mc.lump, arg, allow=(ValueError,))
        mon.distinct(P, part)
        return
    out = mc.lump(arg)
    mon.distinct(P, part)
    mon.equal(arg, copy, 'arguments-unchanged')
    kit.valid_chain(mon, pydtmc, out)
    mon.close(out.p, ref.lump(P, part), 'lump-matrix', rtol=1e-9, atol=dev + 1e-17)
    mon.equal(out.states, [','.join(names[i] for i in b) for b in part], 'lump-labels')
    kit.unchanged(mon, mc, before)
    # the law of the lumped process is the one of the original process, seen through the partition
    d = gen.distribution(rng, n)
    steps = int(rng.integers(1, 12))
    x = mc.redistribute(steps, d.copy())
    y = out.redistribute(steps, np.array([min(d[b].sum(), 1.0) for b in part]))
    mon.close(y, [x[b].sum() for b in part], 'lump-distribution', rtol=1e-9, atol=steps * (dev * n + 1e-17))


def case(rng, mon, tier, index):

    if rng.random() < 0.55:
        P, part, _ = gen.lumpable(rng, int(rng.integers(3, 9)))
        if rng.random() < 0.3:
            # the same chain, with entries which are not exact in binary
            a = float(rng.uniform(0.1, 0.9)) if rng.random() < 0.5 else float(10.0**-rng.integers(2, 12))
            P = a * P + (1 - a) * np.eye(P.shape[0])
        if rng.random() < 0.25:
            # nearly lumpable, and yet not lumpable
            mon.event('nearly-lumpable')
            b = part[int(np.argmax([len(x) for x in part]))]
            i = b[int(rng.integers(len(b)))]
            src = int(P[i].argmax())
            dst = [j for q in part if src not in q for j in q]
            e = float(gen.pick(rng, [2e-4, 3e-4, 1e-3, 5e-3, 2e-2]))
            P[i, dst[int(rng.integers(len(dst)))]] += e
            P[i, src] -= e
        lab = gen.labels(rng, P.shape[0])
        names = kit.names(lab, P.shape[0])
    else:
        _, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 7, 8), p=(.25, .25, .25, .25))
        part = None
    n = P.shape[0]
    mc = kit.build(rng, pydtmc, P, lab)
    kit.disturb(rng, mc)
    mon.context(P=P, labels=names)

    if n == 2:
        got = mc.lumping_partitions
        mon.equal(got, [], 'partitions-sound')
        kit.rejected(mon, pydtmc, 'lump-form', mc.lump, [[0], [1]], allow=(ValueError,))
        return

    parts = list(ref.contiguous_partitions(n))
    chosen = [part] if part is not None else []
    chosen += [parts[int(i)] for i in rng.integers(len(parts), size=2)]
    for q in kit.shuffled(rng, chosen):
        if 2 <= len(q) < n:
            check_lump(rng, mon, mc, P, names, q)

    # malformed partitions
    bad = gen.pick(rng, [[[0]], form(rng, names, [[i] for i in range(n)]), form(rng, names, [list(range(n))]), [[0], list(range(2, n))], [[0, 0], list(range(1, n))],
                         [[0], list(range(1, n)) + [n]], [], 'ab', [[names[0]], [1] + list(range(2, n))], [['?'], names[1:]], None, [0, list(range(1, n))]])
    kit.rejected(mon, pydtmc, 'lump-form', mc.lump, bad, allow=(ValueError,))

    # enumeration
    got = kit.take(mc.lumping_partitions)
    mon.context(lumping_partitions=got)
    norm = []
    for q in got:
        mon.check(isinstance(q, list) and all(isinstance(b, list) and b for b in q), 'partitions-form')
        idx = [[x if isinstance(x, int) else names.index(x) for x in b] for b in q]
        mon.equal(sorted(i for b in idx for i in b), list(range(n)), 'partitions-form')
        mon.check(2 <= len(idx) < n and deviation(P, idx) < 1e-4, 'partitions-sound', lambda: f'{q} is not lumpable')
        norm.append(frozenset(frozenset(b) for b in idx))
    mon.rules['partitions-sound'] += not got
    mon.equal(len(set(norm)), len(norm), 'partitions-distinct')
    for q in parts:
        if deviation(P, q) > 1e-12:
            continue
        mon.rules['partitions-complete'] += 1
        if frozenset(frozenset(b) for b in q) in norm:
            continue
        mon.context(missing=q)
        mon.check(not exact(P, q), 'partitions-complete', lambda: f'{q} is missing')
        mon.known('exact-equality', q)
    if n <= 5 and rng.random() < 0.3:
        for q in set_partitions(n):
            if 2 <= len(q) < n and deviation(P, q) < 1e-12 and frozenset(frozenset(b) for b in q) not in norm:
                mon.check(q not in parts or not exact(P, q), 'partitions-complete', q)
                if q not in parts:
                    mon.known('contiguous-only', q)
                    break


def set_partitions(n):
    def rec(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def finish(mon, tier, seed):
    # states 0 and 2 can be merged
    P = np.array([[0.25, 0.5, 0.25], [0.25, 0.25, 0.5], [0.5, 0.5, 0.0]])
    got = pydtmc.MarkovChain(P).lumping_partitions
    mon.context(witness=P, lumping_partitions=got)
    mon.check(all(len(b) < 3 for q in got for b in q), 'partitions-sound')
    if not any(sorted(map(len, q)) == [1, 2] and ['1', '3'] in [sorted(str(x + 1) if isinstance(x, int) else x for x in b) for b in q] for q in got):
        mon.equal(got, [], 'partitions-sound')
        mon.known('contiguous-only', got)
    # a block of three states with the same rows
    P = np.array([[0.1, 0.2, 0.3, 0.4], [0.3, 0.2, 0.1, 0.4], [0.2, 0.3, 0.1, 0.4], [0.7, 0.1, 0.1, 0.1]])
    got = pydtmc.MarkovChain(P).lumping_partitions
    mon.context(witness=P, lumping_partitions=got)
    if not any(len(q) == 2 and len(q[0]) == 3 for q in got):
        mon.equal(got, [], 'partitions-sound')
        mon.known('exact-equality', got)
