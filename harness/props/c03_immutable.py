# C03: models are immutable and share nothing with the caller.
import copy
import os
import uuid

import numpy as np

import pydtmc
from vh import catalog, deep, gen, kit, makers

CASES = (900, 30000)
CAP = (110, 800)
RULE = 'one case = one model which lives through a history of 12 to 30 calls with every argument and every result overwritten in place; distinct by model; trivial when the model is the identity'
MINIMUM = {"distinct": 540, "call": 10500, "refused-call": 180, "arguments-overwritten": 4500, "twice": 1500, "maker": 750, "other-operation": 600, "chains": 360, "models": 180, "different-queries": 250}
ASSUMPTIONS = ['read-only arrays are made writable before they are overwritten, as any caller can do with arrays which own their data']
CASE_LIMIT = 90

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
SEEN = set()


def outcome(fn):
    try:
        return fn()
    except Exception as ex:
        return ex


def frozen(m):
    return [m.p.copy(), list(m.states)] + ([m.e.copy(), list(m.symbols)] if isinstance(m, H) else [])


def digest(m):
    # everything cheap that can be asked of a model
    names = ['p', 'states', 'size', 'n', 'is_ergodic', 'is_regular']
    if isinstance(m, MC):
        names += ['pi', 'communicating_classes', 'periods', 'transient_states', 'absorbing_states', 'adjacency_matrix', 'accessibility_matrix', 'fundamental_matrix', 'cyclic_classes', 'entropy_rate', 'spectral_gap', 'rank', 'implied_timescales', 'communication_matrix']
        calls = ['mean_number_visits', 'mean_recurrence_times', 'absorption_probabilities', 'mean_absorption_times', 'hitting_times', 'to_dictionary', 'to_graph', 'to_matrix', 'to_canonical_form', '__hash__', '__str__', 'mean_first_passage_times_to', 'hitting_probabilities']
    else:
        names += ['e', 'symbols', 'k']
        calls = ['to_dictionary', 'to_graph', 'to_matrices', '__hash__', '__str__']
    return [(a, deep.snapshot(outcome(lambda: getattr(m, a)))) for a in names] + [(a, deep.snapshot(outcome(getattr(m, a)))) for a in calls]


def other_operation(rng, mon, m):
    # operations which are given the model, or which copy or write it
    what = gen.pick(rng, ['file', 'deepcopy', 'equality', 'plot', 'unseeded', 'refused', 'refused'])
    mon.event('other-operation')
    if what == 'file':
        path = os.path.join(os.environ['VERIF_SCRATCH'], f'i{uuid.uuid4().hex}.json')
        outcome(lambda: m.to_file(path))
        if os.path.exists(path):
            deep.poison(type(m).from_file(path))
            os.unlink(path)
    elif what == 'deepcopy':
        deep.poison(copy.deepcopy(m))
        deep.poison(copy.copy(m).states)
    elif what == 'equality':
        _ = m == copy.deepcopy(m), hash(m), m != None, str(m), repr(m)  # noqa: E711
    elif what == 'plot':
        import matplotlib.pyplot as plt
        if rng.random() < 0.3:
            f = gen.pick(rng, [lambda: pydtmc.plot_eigenvalues(m), lambda: pydtmc.plot_sequence(m, 5, seed=3), lambda: pydtmc.plot_redistributions(m, 3) if isinstance(m, MC) else pydtmc.plot_trellis(m, 3, seed=1), lambda: pydtmc.plot_comparison([m, m])])
            with plt.ioff():
                outcome(f)
            plt.close('all')
    elif what == 'unseeded':
        deep.poison(outcome(lambda: m.simulate(5)))
    else:
        mon.event('refused-call')
        name = gen.pick(rng, ['simulate', 'next', 'predict', 'decode', 'restrict', 'redistribute', 'to_subchain', 'lump', 'hitting_times', 'to_lazy_chain', 'transition_probability'])
        if hasattr(m, name):
            bad = gen.pick(rng, [None, -1, 'nobody', [], [[1]], np.full(3, np.nan), {}, 1.5])
            outcome(lambda: getattr(m, name)(bad))
            outcome(lambda: getattr(m, name)(bad, bad))


def case(rng, mon, tier, index):

    model = rng.random() < 0.35
    mon.event('models' if model else 'chains')
    if model:
        kind, P, E = gen.hmm(rng, 4, 4)
        _, _, names, symbols = gen.hmm_labels(rng, *E.shape)
        args = [P.copy(), E.copy(), list(names), list(symbols)]
        if rng.random() < 0.4:
            args[0], args[1] = gen.as_form(rng, P)[1], gen.as_form(rng, E)[1]
        make = lambda: H(P.copy(), E.copy(), list(names), list(symbols))
        view, world, queries, cls = catalog.View(names, None, symbols), catalog.World(P, E), catalog.MODEL, H
        mon.context(kind=kind, P=P, E=E, states=names, symbols=symbols)
        mon.distinct('h', P, E)
    else:
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 8), p=(.4, .4, .2))
        args = [P.copy() if rng.random() < 0.6 else gen.as_form(rng, P)[1], list(names)]
        make = lambda: MC(P.copy(), list(names))
        view, world, queries, cls = catalog.View(names), catalog.World(P), catalog.CHAIN, MC
        mon.context(kind=kind, P=P, labels=names)
        mon.distinct('c', P)
    before = deep.snapshot(args)
    m = cls(*args)
    mon.check(deep.same(args, before), 'constructor-arguments-untouched', lambda: repr(args))
    deep.poison(args)
    start = frozen(make())
    mon.check(deep.same(frozen(m), start), 'constructor-arguments-not-shared', lambda: repr(frozen(m)))

    history = []
    for _ in range(int(rng.integers(12, 31))):
        if rng.random() < 0.07:
            other_operation(rng, mon, m)
            continue
        q = gen.pick(rng, queries)
        a = q.arguments(rng, world)
        if any(v is None and k == 'partition' for _, k, v in a):
            continue
        name = gen.pick(rng, [q.name] * 2 + list(q.aliases))
        kw = {} if q.prop else {p: view.render(rng, k, v) for p, k, v in a}
        history.append((name, {k: v for k, v in kw.items() if k != 'other'}))
        mon.context(history=[h[0] for h in history], call=name, arguments=kw)
        mon.event('call')
        if (cls, q.name) not in SEEN:
            SEEN.add((cls, q.name))
            mon.event('different-queries')
        keep = {k: deep.snapshot(v) for k, v in kw.items()}
        call = lambda x, kws: outcome(lambda: getattr(x, q.name) if q.prop else getattr(x, name)(**kws)) if not (q.prop and name != q.name) else outcome(lambda: getattr(x, name))
        want = call(make(), {k: deep.snapshot(v) for k, v in kw.items()})
        got = call(m, kw)
        if isinstance(got, Exception):
            mon.event('refused-call')
        mon.check(deep.same(kw, keep), 'arguments-untouched', lambda: f'{name}({keep!r}) left {kw!r}')
        mon.check(deep.same(got, want, 1e-10), 'result-independent-of-history', lambda: f'{name}: {got!r} instead of {want!r}')
        if rng.random() < 0.25:
            mon.event('twice')
            again = call(m, {k: deep.snapshot(v) for k, v in kw.items()})
            mon.check(deep.same(again, want, 1e-10), 'second-result', lambda: f'{name}: {again!r} instead of {want!r}')
            deep.poison(again)
            mon.check(deep.same(got, want, 1e-10), 'results-independent-of-one-another', lambda: f'{name}: {got!r} instead of {want!r}')
        deep.poison(got)
        if kw:
            mon.event('arguments-overwritten')
            deep.poison({k: v for k, v in kw.items() if k != 'other'})
        mon.check(deep.same(frozen(m), start), 'model-unchanged', lambda: f'after {name}: {frozen(m)!r}')

    x, y = digest(m), digest(make())
    for (a, got), (_, want) in zip(x, y):
        mon.check(deep.same(got, want, 1e-10), 'final-state', lambda: f'{a}: {got!r} instead of {want!r}')

    # functions which make models: arguments untouched and not shared
    for _ in range(2):
        f, kw, info = makers.model_maker(rng, H) if rng.random() < 0.4 else makers.chain_maker(rng, MC)
        keep = {k: deep.snapshot(v) for k, v in kw.items()}
        mon.context(maker=info['what'], maker_arguments=keep)
        mon.event('maker')
        got = outcome(lambda: f(**kw))
        mon.check(deep.same(kw, keep), 'maker-arguments-untouched', lambda: f'{info["what"]}: {keep!r} became {kw!r}')
        if not isinstance(got, Exception):
            first = frozen(got)
            kept = digest(got) if rng.random() < 0.5 else None
            deep.poison(kw)
            mon.check(deep.same(frozen(got), first), 'maker-arguments-not-shared', lambda: f'{info["what"]}: {frozen(got)!r} instead of {first!r}')
            if kept is not None:
                for (a, b), (_, c) in zip(digest(got), kept):
                    mon.check(deep.same(b, c, 1e-10), 'maker-arguments-not-shared', lambda: f'{info["what"]}: {a}')
        if 'path' in info and os.path.exists(info['path']):
            os.unlink(info['path'])
