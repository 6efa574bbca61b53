# C36: results do not depend on the order and the names of the states.
import numpy as np

import pydtmc
from vh import catalog, deep, gen, kit

CASES = (1200, 25000)
CAP = (110, 800)
RULE = 'one case = one model, two copies of it (renamed; renamed and permuted) and about ten queries put to the three, read back in terms of the original states; distinct by model and permutation'
MINIMUM = {'distinct': 600, 'renamed': 5500, 'permuted': 4500, 'moved': 3500, 'chains': 450, 'models': 220, 'refused-alike': 50, 'numeric-looking-names': 100, 'fit': 250, 'strange-names': 1500,
           'query:__repr__': 15, 'query:__str__': 15, 'query:absorbing_states': 15, 'query:absorption_probabilities': 15, 'query:accessibility_matrix': 15, 'query:adjacency_matrix':
           15, 'query:aggregate': 15, 'query:are_communicating': 15, 'query:closest_reversible': 15, 'query:committor_probabilities': 15, 'query:communicating_classes': 15,
           'query:communication_matrix': 15, 'query:conditional_probabilities': 15, 'query:cyclic_classes': 15, 'query:cyclic_states': 15, 'query:decode': 15, 'query:density': 15,
           'query:determinant': 15, 'query:e': 15, 'query:emission_probability': 15, 'query:entropy_rate': 15, 'query:entropy_rate_normalized': 15, 'query:expected_rewards': 15,
           'query:expected_transitions': 15, 'query:first_passage_probabilities': 15, 'query:first_passage_reward': 15, 'query:fundamental_matrix': 15,
           'query:hitting_probabilities': 15, 'query:hitting_times': 15, 'query:implied_timescales': 15, 'query:incidence_matrix': 15, 'query:is_absorbing': 15,
           'query:is_absorbing_state': 15, 'query:is_accessible': 15, 'query:is_aperiodic': 15, 'query:is_canonical': 15, 'query:is_cyclic_state': 15, 'query:is_doubly_stochastic':
           15, 'query:is_ergodic': 15, 'query:is_irreducible': 15, 'query:is_recurrent_state': 15, 'query:is_regular': 15, 'query:is_reversible': 15,
           'query:is_stochastically_monotone': 15, 'query:is_symmetric': 15, 'query:is_transient_state': 15, 'query:k': 15, 'query:kemeny_constant': 15, 'query:lump': 15,
           'query:lumping_partitions': 15, 'query:mean_absorption_times': 15, 'query:mean_first_passage_times_between': 15, 'query:mean_first_passage_times_to': 15,
           'query:mean_number_visits': 15, 'query:mean_recurrence_times': 15, 'query:merge_with': 15, 'query:mixing_rate': 15, 'query:mixing_time': 15, 'query:n': 15, 'query:next':
           15, 'query:p': 15, 'query:period': 15, 'query:periods': 15, 'query:pi': 15, 'query:predict': 15, 'query:rank': 15, 'query:recurrent_classes': 15,
           'query:recurrent_states': 15, 'query:redistribute': 15, 'query:relaxation_rate': 15, 'query:restrict': 15, 'query:sensitivity': 15, 'query:sequence_probability': 15,
           'query:simulate': 15, 'query:size': 15, 'query:spectral_gap': 15, 'query:states': 15, 'query:symbols': 15, 'query:time_correlations': 15, 'query:time_relaxations': 15,
           'query:to_bounded_chain': 15, 'query:to_canonical_form': 15, 'query:to_dictionary': 15, 'query:to_graph': 15, 'query:to_lazy_chain': 15, 'query:to_matrices': 15,
           'query:to_matrix': 15, 'query:to_nth_order': 15, 'query:to_subchain': 15, 'query:topological_entropy': 15, 'query:transient_classes': 15, 'query:transient_states': 15,
           'query:transition_probability': 15}
ASSUMPTIONS = ['numbers are not compared under permutations when an entry is below 1e-3, and quantities which jump (mixing times) are not compared where a tie decides them',
               'queries whose definition refers to the order of the states (canonical form flag, monotonicity, sequential partitions, band structure, random draws) are compared under renaming only']
CASE_LIMIT = 90

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel


def ask(m, q, a, view, rng, members, how=None):
    try:
        v = q.ask(m, a, view, rng, how=how)
    except Exception as ex:
        return ex
    try:
        return view.read(q.reads, v, members)
    except catalog.Confused as ex:
        return ('unreadable', str(ex), repr(v))


def alike(a, b, tol):
    if isinstance(a, Exception) or isinstance(b, Exception):
        return type(a) is type(b)
    return deep.same(norm(a), norm(b), tol)


def floating(v):
    if isinstance(v, (tuple, list)):
        return any(floating(x) for x in v)
    if isinstance(v, dict):
        return any(floating(x) for x in v.values())
    return isinstance(v, (float, np.floating)) or isinstance(v, np.ndarray) and v.dtype.kind == 'f'


def norm(v):
    # integers and floats of equal value, and lists and tuples, are one thing here
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(v[k]) for k in sorted(v)}
    if isinstance(v, np.ndarray) and v.dtype.kind in 'f':
        return v + 0.0
    return v


def case(rng, mon, tier, index):

    model = rng.random() < 0.33
    mon.event('models' if model else 'chains')
    if model:
        kind, P, E = gen.hmm(rng, 5, 5)
        s, y, names, symbols = gen.hmm_labels(rng, *E.shape)
        n, k = E.shape
        cls, queries, world = H, catalog.MODEL, catalog.World(P, E)
        base = catalog.View(names, None, symbols)
        make = lambda view: H(P[np.ix_(view.perm, view.perm)], E[np.ix_(view.perm, view.sperm)], view.names, view.symbols)
    else:
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 8, 12), p=(.3, .35, .25, .1))
        n = P.shape[0]
        cls, queries, world = MC, catalog.CHAIN, catalog.World(P)
        base = catalog.View(names)
        make = lambda view: MC(P[np.ix_(view.perm, view.perm)], view.names)

    strained = bool(P[P > 0].min() < 1e-3)
    styles = ['letters', 'shuffled', 'numeric', 'words', 'unicode', 'overlap', 'spaced', 'case', 'index', 'blanks']
    style = str(rng.choice(styles))
    if style in ('numeric', 'index'):
        mon.event('numeric-looking-names')
    other = gen.labels(rng, n, style)
    ren_s = gen.labels(rng, k, style, 'o') if model else None
    perm, sperm = rng.permutation(n), (rng.permutation(k) if model else None)
    new = gen.labels(rng, n, str(rng.choice(styles)))
    new_s = gen.labels(rng, k, str(rng.choice(styles)), 'o') if model else None
    if model:
        if set(new) & set(new_s) or set(other) & set(ren_s):
            new_s, ren_s = [f'sym:{x}' for x in new_s], [f'sym:{x}' for x in ren_s]
    renamed = catalog.View(other, None, ren_s)
    moved = catalog.View(new, perm, new_s, sperm)
    mon.context(kind=kind, P=P, names=names, renamed=other, permuted=(new, perm.tolist()), **({'E': E, 'sperm': sperm.tolist()} if model else {}))
    mon.distinct(P, perm.tolist())
    A, B, C = make(base), make(renamed), make(moved)

    members = None
    if not model:
        t, ab = A.transient_states, A.absorbing_states
        members = [[names.index(x) for x in t], [names.index(x) for x in ab]]

    for _ in range(10):
        q = gen.pick(rng, queries)
        a = q.arguments(rng, world)
        if any(v is None and k == 'partition' for _, k, v in a):
            continue
        mon.context(query=q.name, arguments=a)
        hows = [str(rng.choice(['name', 'index', 'numpy'])) for _ in range(3)]
        va = ask(A, q, a, base, rng, members, hows[0])
        vb = ask(B, q, a, renamed, rng, members, hows[1])
        mon.event(f'query:{q.name}')
        if isinstance(va, Exception):
            mon.event('refused-alike')
        if isinstance(va, tuple) and va and isinstance(va[0], str) and va[0] == 'unreadable':
            mon.check(False, 'readable', lambda: f'{q.name}: {va}')
        if q.name not in ('__str__', 'symbols'):
            mon.event('renamed')
            mon.check(alike(va, vb, 1e-10), 'renaming', lambda: f'{q.name} ({hows[:2]}): {vb!r} instead of {va!r}')
        if q.name == 'implied_timescales':
            # compared as moduli of eigenvalues, which are only accurate to a root of the precision when they coincide
            vc = ask(C, q, a, moved, rng, members, hows[2])
            same = (va is None and vc is None) if va is None or vc is None else len(va) == len(vc) and np.abs(np.exp(-1 / np.maximum(va, 1e-9)) - np.exp(-1 / np.maximum(vc, 1e-9))).max() < 5e-3
            mon.check(bool(same), 'permutation', lambda: f'implied_timescales: {vc!r} instead of {va!r}')
        elif q.order:
            vc = ask(C, q, a, moved, rng, members, hows[2])
            mon.event('permuted')
            if not np.array_equal(perm, np.arange(n)):
                mon.event('moved')
            tol = 1e-4 if q.name in ('mixing_rate', 'relaxation_rate', 'spectral_gap') else 1e-7
            if strained and (floating(va) or floating(vc)):
                mon.skip('rounding errors of rare transitions')
                continue
            mon.check(alike(va, vc, tol), 'permutation', lambda: f'{q.name} ({hows[0]}, {hows[2]}): {vc!r} instead of {va!r}')
        elif q.name == 'periods':
            vc = ask(C, q, a, moved, rng, members, hows[2])
            mon.check(sorted(va) == sorted(vc), 'permutation', lambda: f'periods: {vc!r} instead of {va!r}')
        elif q.name == 'predict' and model:
            vc = ask(C, q, a, moved, rng, members, hows[2])
            mon.check((va is None) == (vc is None) and (va is None or isinstance(va, Exception) or alike(va[0], vc[0], 1e-7)), 'permutation', lambda: f'predict: {vc!r} instead of {va!r}')

    # the names of one copy mean nothing to the other ones, whatever they look like
    for _ in range(2):
        view, m = gen.pick(rng, [(base, A), (renamed, B), (moved, C)])
        strange = [x for v in (base, renamed, moved) for x in v.names if x not in view.names] + [x for x in (str(int(rng.integers(n))), str(n - 1), f'{int(rng.integers(n))}.0', '-1') if x not in view.names]
        x = gen.pick(rng, strange)
        mon.context(strange=x, known=view.names)
        mon.event('strange-names')
        f = gen.pick(rng, [lambda: m.simulate(3, x), lambda: m.next(x), lambda: m.transition_probability(x, view.names[0]), lambda: m.predict(2, x) if not model else m.decode([0, 1], x),
                           lambda: m.restrict([x, view.names[0]]) if model else m.hitting_times(x), lambda: m.to_subchain([x, view.names[0]]) if not model else m.next(x), lambda: m.is_recurrent_state(x) if not model else m.next(x)])
        kit.rejected(mon, pydtmc, 'strange-names', f)

    if rng.random() < 0.5:
        fits(rng, mon, model, world, base, renamed, moved)


def fits(rng, mon, model, w, base, renamed, moved):
    # models fitted from the same observations under other names, and in another order of the states
    mon.event('fit')
    views = [base, renamed, moved]
    if model:
        kind = gen.pick(rng, ['estimate', 'baum-welch'])
        seqs = [gen.emissions(rng, w.P, w.E, np.full(w.n, 1 / w.n), int(rng.integers(3, 15))) for _ in range(1 if kind == 'estimate' else int(rng.integers(1, 3)))]
        status = catalog.status(rng, w) if rng.random() < 0.5 else None

        def run(v):
            ys = [v.render(rng, 'emissions', y, 'name') for _, y in seqs]
            if kind == 'estimate':
                m = H.estimate(list(v.names), list(v.symbols), v.render(rng, 'walk', seqs[0][0], 'name'), ys[0])
            else:
                m = H.fit('baum-welch', list(v.names), list(v.symbols), w.P[np.ix_(v.perm, v.perm)], w.E[np.ix_(v.perm, v.sperm)], ys[0] if len(ys) == 1 else ys, v.render(rng, 'status', status))
            return v.read('model', m)
    else:
        kind = gen.pick(rng, ['mle', 'map'])
        seq = catalog.wild(rng, w) + catalog.wild(rng, w)
        flag = bool(rng.random() < 0.5)
        hyper = rng.integers(1, 6, size=(w.n, w.n))

        def run(v):
            param = flag if kind == 'mle' else hyper[np.ix_(v.perm, v.perm)]
            return v.read('chain', MC.fit_sequence(kind, list(v.names), v.render(rng, 'walk', seq), param))
    mon.context(fit=kind)
    out = [kit.outcome(run, v) for v in views]
    a, b, c = [x if ex is None else ex for x, ex in out]
    mon.check(alike(a, b, 1e-10), 'renaming', lambda: f'{kind}: {b!r} instead of {a!r}')
    mon.check(alike(a, c, 1e-6), 'permutation', lambda: f'{kind}: {c!r} instead of {a!r}')
