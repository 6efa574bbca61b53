# C34: alias names agree with originals, and properties are computed once under threads.
import faulthandler
import os
import sys
import threading
import time

import numpy as np

import pydtmc
from vh import catalog, deep, gen, kit, makers

CASES = (1440, 26000)
CAP = (130, 800)
RULE = 'one case = one model queried through aliases and originals, or one or two models queried by two to eight threads at the same time; distinct by model and by the observed order of the computations'
MINIMUM = {'distinct': 450, 'alias': 1500, 'alias-property': 60, 'alias-refused': 60, 'threaded': 300, 'threads': 1200, 'thread-results': 4000, 'body-started': 2500, 'overlapping': 120, 'waited': 300, 'repeated-query': 1000, 'two-models': 60, 'in-threads-maker': 150, 'contended': 140, 'contended-calls': 2500}
ASSUMPTIONS = ['the threads are those of the standard interpreter; interleavings come from delays injected where the body of a property starts and a short switch interval']
CASE_LIMIT = 120

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
TOOL = 4
BODIES = {}      # code of the body of a cached property -> name
LOG = []         # (what, thread, name, identity of the model)
DELAYS = {}
PLAN = {'delay': 0.0, 'rng': None}


def observe():
    # the interpreter reports every start of the body of a cached property
    if BODIES:
        return
    for cls, queries in ((MC, catalog.CHAIN), (H, catalog.MODEL)):
        for q in queries:
            f = getattr(cls.__dict__.get(q.name), 'fget', None)
            if q.prop and q.cached and f is not None and hasattr(f, '__code__'):
                BODIES[f.__code__] = q.name
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'verif')

    def start(code, offset):
        name = BODIES.get(code)
        if name is None:
            return
        frame = sys._getframe(1)
        LOG.append(('start', threading.get_ident(), name, id(frame.f_locals.get('self'))))
        d = PLAN['delay']
        if d:
            time.sleep(d * (hash((name, len(LOG))) % 7) / 3)

    def end(code, offset, value):
        name = BODIES.get(code)
        if name is not None:
            frame = sys._getframe(1)
            LOG.append(('end', threading.get_ident(), name, id(frame.f_locals.get('self'))))

    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.register_callback(TOOL, mon.events.PY_RETURN, end)
    for code in BODIES:
        mon.set_local_events(TOOL, code, mon.events.PY_START | mon.events.PY_RETURN)


def make_model(rng, mon, model):
    if model:
        kind, P, E = gen.hmm(rng, 5, 5)
        _, _, names, symbols = gen.hmm_labels(rng, *E.shape)
        return (lambda: H(P.copy(), E.copy(), list(names), list(symbols))), catalog.View(names, None, symbols), catalog.World(P, E), catalog.MODEL, (P, E)
    kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 8, 11), p=(.3, .35, .25, .1))
    return (lambda: MC(P.copy(), list(names))), catalog.View(names), catalog.World(P), catalog.CHAIN, (P,)


def outcome(fn):
    try:
        return fn()
    except Exception as ex:
        return ex


def call_of(q, a, view, rng, name=None):
    if q.prop:
        return lambda m: getattr(m, name or q.name)
    kw = {p: view.render(rng, k, v) for p, k, v in a}
    return lambda m: getattr(m, name or q.name)(**{k: deep.snapshot(v) for k, v in kw.items()})


def aliases(rng, mon):
    make, view, world, queries, data = make_model(rng, mon, False)
    mon.distinct('alias', *data)
    queries = [q for q in queries if q.aliases]
    shared = make()
    for _ in range(8):
        q = gen.pick(rng, queries)
        alias = gen.pick(rng, q.aliases)
        a = q.arguments(rng, world)
        if any(v is None and k == 'partition' for _, k, v in a):
            continue
        if q.prop:
            mon.event('alias-property')
            one, two = (lambda m: getattr(m, q.name)), (lambda m: getattr(m, alias))
            args = None
        else:
            kw = {p: view.render(rng, k, v) for p, k, v in a}
            if rng.random() < 0.12 and kw:
                # a wrong argument is refused under both names
                p = gen.pick(rng, sorted(kw))
                kw[p] = gen.pick(rng, [-3, 'nobody', [], None, np.full(2, np.nan), {'a': 1}])
            elif rng.random() < 0.05:
                kw['unknown_argument'] = 1
            args = kw
            pos = bool(rng.random() < 0.3)

            def run(m, name):
                vs = {k: deep.snapshot(v) for k, v in kw.items()}
                return getattr(m, name)(*vs.values()) if pos else getattr(m, name)(**vs)
            if pos and 'unknown_argument' in kw:
                continue
            one, two = (lambda m: run(m, q.name)), (lambda m: run(m, alias))
        mon.context(query=q.name, alias=alias, arguments=args, P=data[0])
        m = shared if rng.random() < 0.5 else make()
        first, second = (one, two) if rng.random() < 0.5 else (two, one)
        x = outcome(lambda: first(m))
        keep = deep.snapshot(x) if not isinstance(x, Exception) else x
        deep.poison(x)
        y = outcome(lambda: second(m))
        mon.event('alias')
        if isinstance(keep, Exception):
            mon.event('alias-refused')
        if isinstance(keep, TypeError) and isinstance(y, TypeError):
            mon.check(True, 'alias')  # the message names the function
        else:
            mon.check(deep.same(keep, y, 1e-10), 'alias', lambda: f'{q.name} and {alias} of {args!r}: {keep!r} and {y!r}')
        mon.check(type(getattr(MC, alias, None)) is type(getattr(MC, q.name)) or q.prop, 'alias-kind', lambda: alias)


def run_threads(mon, jobs, limit=60):
    # jobs: one list of calls per thread; returns their results
    out = [[None] * len(j) for j in jobs]
    barrier = threading.Barrier(len(jobs))

    def body(k):
        barrier.wait()
        for i, (fn, poison) in enumerate(jobs[k]):
            v = outcome(fn)
            out[k][i] = deep.snapshot(v) if not isinstance(v, Exception) else v
            if poison:
                deep.poison(v)
    threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
    for t in threads:
        t.start()
    deadline = time.monotonic() + limit
    for t in threads:
        t.join(max(0.0, deadline - time.monotonic()))
    if any(t.is_alive() for t in threads):
        with open(os.path.join(os.environ['VERIF_SCRATCH'], 'stacks.txt'), 'w+') as f:
            faulthandler.dump_traceback(f, all_threads=True)
            f.seek(0)
            text = f.read()
        mon.check(False, 'threads-finish', lambda: 'still running after 60 s:\n' + text[-3000:])
        return None
    mon.check(True, 'threads-finish')
    return out


def threaded(rng, mon, model):
    observe()
    pairs = [make_model(rng, mon, model)]
    if rng.random() < 0.3:
        mon.event('two-models')
        pairs.append(make_model(rng, mon, model if rng.random() < 0.7 else not model))
    count = int(gen.pick(rng, [2, 2, 3, 4, 8]))
    mon.event('threaded')
    mon.event('threads', count)
    subjects = []
    for make, view, world, queries, data in pairs:
        props = [q for q in queries if q.prop and q.cached]
        focus = [gen.pick(rng, props) for _ in range(int(rng.integers(1, 4)))] if len(props) > 1 else props
        subjects.append((make(), make, view, world, queries, props, focus))
    jobs, wants, names = [], [], []
    script = []
    for k in range(count):
        job, want, name = [], [], []
        for _ in range(int(rng.integers(2, 9))):
            m, make, view, world, queries, props, focus = subjects[int(rng.integers(len(subjects)))]
            r = rng.random()
            if r < 0.55:
                q = gen.pick(rng, focus)
            elif r < 0.75:
                q = gen.pick(rng, props)
            else:
                q = gen.pick(rng, queries)
            if r > 0.95:
                f, kw, info = makers.model_maker(rng, H) if rng.random() < 0.4 else makers.chain_maker(rng, MC)
                if 'path' in info:
                    os.unlink(info['path'])
                    continue
                mon.event('in-threads-maker')
                fn = lambda f=f, kw=kw: f(**kw)
                job.append((fn, False))
                want.append(fn)
                name.append(info['what'])
                continue
            a = q.arguments(rng, world)
            if any(v is None and kd == 'partition' for _, kd, v in a):
                continue
            c = call_of(q, a, view, rng)
            job.append((lambda c=c, m=m: c(m), bool(rng.random() < 0.5)))
            want.append(lambda c=c, make=make: c(make()))
            name.append(q.name)
        jobs.append(job)
        wants.append(want)
        names.append(name)
    mon.context(data=[p[4] for p in pairs], script=names)
    PLAN['delay'] = float(gen.pick(rng, [0.0, 0.0005, 0.002, 0.004]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(gen.pick(rng, [1e-6, 1e-4, 5e-3])))
    LOG.clear()
    try:
        results = run_threads(mon, jobs)
    finally:
        sys.setswitchinterval(old)
        PLAN['delay'] = 0.0
    if results is None:
        return
    log = list(LOG)
    mine = {id(s[0]) for s in subjects}
    # what the log says: no body of a property of the shared models was executed twice
    starts, waiting, overlap, inside = {}, 0, 0, set()
    order = []
    for what, thread, name, who in log:
        if who not in mine:
            continue
        if what == 'start':
            starts[name, who] = starts.get((name, who), 0) + 1
            mon.event('body-started')
            if any(t != thread for t, _ in inside):
                overlap += 1
            inside.add((thread, name))
        else:
            inside.discard((thread, name))
        order.append((what, thread, name))
    ids = {}
    mon.distinct('threads', [(w, ids.setdefault(t, len(ids)), n) for w, t, n in order], [p[4] for p in pairs])
    mon.event('overlapping', 1 if overlap else 0)
    asked = {}
    for job in names:
        for n in set(job):
            asked[n] = asked.get(n, 0) + 1
    mon.event('waited', sum(1 for n, c in asked.items() if c > 1))
    for (name, who), c in starts.items():
        mon.check(c == 1, 'computed-once', lambda: f'{name} was computed {c} times by {count} threads')
    # and every thread got what a single thread gets
    for job, res, want in zip(names, results, wants):
        for n, got, w in zip(job, res, want):
            mon.event('thread-results')
            exp = outcome(w)
            mon.check(deep.same(got, exp, 1e-10), 'thread-result', lambda: f'{n}: {got!r} instead of {exp!r}')
    # afterwards, nothing is computed again and nothing has been damaged
    for m, make, view, world, queries, props, focus in subjects:
        fresh = make()
        for q in props[:] if rng.random() < 0.2 else focus:
            deep.poison(outcome(lambda: getattr(m, q.name)))
            LOG.clear()
            got = outcome(lambda: getattr(m, q.name))
            again = [x for x in LOG if x[3] == id(m)]
            mon.event('repeated-query')
            if not isinstance(got, Exception):
                mon.check(not again, 'not-computed-again', lambda: f'{q.name}: {again!r}')
            exp = outcome(lambda: getattr(fresh, q.name))
            mon.check(deep.same(got, exp, 1e-10), 'result-after-threads', lambda: f'{q.name}: {got!r} instead of {exp!r}')


def alike(rng, q, base, world):
    # other arguments of the same shape: the same counts and options, sequences of the same length
    a = q.arguments(rng, world)
    if [x[:2] for x in a] != [x[:2] for x in base]:
        a = base
    out = []
    for (p, k, v), (_, _, b) in zip(a, base):
        if k == 'raw' and p != 'seed':
            v = b
        elif isinstance(v, list) and isinstance(b, list) and k in ('walk', 'list', 'emission', 'sequence') or p.startswith('sequence') or p == 'symbols' and isinstance(v, list):
            v = (v * len(b))[:len(b)] if v else b
        out.append((p, k, v))
    return out


def builders(rng, n, k):
    # calls of one generator or assessment, with arguments of the same shape
    names, syms = gen.default_labels(n, 's'), [f'y{i}' for i in range(k)]
    length = int(rng.integers(20, 60))
    sub = int(rng.integers(2, 6))

    def rows(r, c):
        return np.array([gen.random_row(rng, c, range(c), 'float') for _ in range(r)])

    def seq(z):
        return [int(x) for x in rng.integers(z, size=length)]

    zeros = int(rng.integers(0, n))
    interval = (0.0, 1.0)
    which = gen.pick(rng, ['random', 'hmm-random', 'fit', 'map', 'em', 'viterbi', 'estimate', 'tauchen', 'hussey', 'adda', 'rouwenhorst', 'normalise', 'normalise-hmm', 'birth', 'moran', 'wright', 'first', 'stationarity', 'markov', 'homogeneity', 'compatibility', 'function', 'dirichlet', 'dictionary'])

    def one():
        if which == 'random':
            z = int(rng.integers(2**31))
            return lambda: MC.random(n, zeros=zeros, seed=z)
        if which == 'hmm-random':
            z = int(rng.integers(2**31))
            return lambda: H.random(n, k, p_zeros=zeros, seed=z)
        if which in ('fit', 'map'):
            x = seq(n)
            return lambda: MC.fit_sequence('mle' if which == 'fit' else 'map', names, list(x))
        if which in ('em', 'viterbi'):
            p, e, x = rows(n, n), rows(n, k), seq(k)
            return lambda: H.fit('baum-welch' if which == 'em' else 'viterbi', names, syms, p, e, list(x), 0)
        if which == 'estimate':
            x, y = seq(n), seq(k)
            return lambda: H.estimate(names, syms, list(x), list(y))
        if which in ('tauchen', 'hussey', 'adda', 'rouwenhorst'):
            rho, sigma = float(rng.uniform(-0.8, 0.8)), float(rng.uniform(0.5, 2))
            return lambda: MC.approximation(sub + 2, {'tauchen': 'tauchen', 'hussey': 'tauchen-hussey', 'adda': 'adda-cooper', 'rouwenhorst': 'rouwenhorst'}[which], 0.0, sigma, rho)
        if which == 'normalise':
            w = 7 * rng.random((n, n))
            return lambda: MC.from_matrix(w)
        if which == 'normalise-hmm':
            w, v = 7 * rng.random((n, n)), 5 * rng.random((n, k))
            return lambda: H.from_matrices(w, v)
        if which == 'birth':
            p, q = 0.5 * rng.random(n), 0.5 * rng.random(n)
            p[-1] = q[0] = 0.0
            return lambda: MC.birth_death(p, q)
        if which in ('moran', 'wright'):
            u, v = (float(x) for x in rng.random(2) / 100)
            return lambda: MC.population_genetics_model('moran' if which == 'moran' else 'wright-fisher', 6, 0.25, u, v)
        if which in ('first', 'stationarity', 'markov'):
            x = seq(n)
            f = {'first': pydtmc.assess_first_order, 'stationarity': pydtmc.assess_stationarity, 'markov': pydtmc.assess_markov_property}[which]
            return lambda: f(names, list(x))
        if which == 'homogeneity':
            xs = [seq(n) for _ in range(3)]
            return lambda: pydtmc.assess_homogeneity(names, [list(x) for x in xs])
        if which == 'compatibility':
            m, x = MC(rows(n, n), names), seq(n)
            return lambda: pydtmc.assess_theoretical_compatibility(m, list(x))
        if which == 'function':
            c = float(rng.uniform(0.5, 2))
            return lambda: MC.fit_function('gauss-legendre', names, lambda x_index, x_value, y_index, y_value: c + x_value * y_value, interval)
        if which == 'dirichlet':
            z = int(rng.integers(2**31))
            return lambda: MC.dirichlet_process(n, sub, seed=z)
        d = {(names[i], names[j]): v for i, r in enumerate(rows(n, n)) for j, v in enumerate(r)}
        return lambda: MC.from_dictionary(dict(d))
    return which, one


def contention(rng, mon, slot):
    # the same operation, on arguments of the same shape, by all threads at once and again and again
    count = int(gen.pick(rng, [2, 2, 3, 4]))
    n, k = int(rng.integers(2, 7)), int(rng.integers(2, 5))
    # every operation has its turn
    mode = ['chain', 'chain', 'model', 'build', 'chain'][slot % 5]
    turn = slot // 5 if mode != 'chain' else slot // 5 * 3 + slot % 5 % 3
    calls = []
    if mode == 'build':
        name, one = builders(rng, n, k)
        for _ in range(count):
            f = one()
            calls.append((f, f))
    else:
        mats = []
        for _ in range(2):
            P = np.array([gen.random_row(rng, n, range(n), 'float') for _ in range(n)])
            if rng.random() < 0.2:
                P[0] = 0.0
                P[0, 0] = 1.0
            mats.append((P, np.array([gen.random_row(rng, k, range(k), 'float') for _ in range(n)])))
        names, syms = gen.default_labels(n, 's'), [f'y{i}' for i in range(k)]
        queries = catalog.MODEL if mode == 'model' else catalog.CHAIN
        methods = [q for q in queries if not q.prop]
        q = gen.pick(rng, [q for q in queries if q.prop]) if rng.random() < 0.15 else methods[turn % len(methods)]
        name = q.name
        view = catalog.View(names, None, syms if mode == 'model' else None)
        base = q.arguments(rng, catalog.World(*mats[0]) if mode == 'model' else catalog.World(mats[0][0]))
        if any(v is None and kd == 'partition' for _, kd, v in base):
            return threaded(rng, mon, False)
        for i in range(count):
            P, E = mats[int(rng.integers(2))]
            make = (lambda P=P, E=E: H(P, E, names, syms)) if mode == 'model' else (lambda P=P: MC(P, names))
            c = call_of(q, alike(rng, q, base, catalog.World(P, E) if mode == 'model' else catalog.World(P)), view, rng)
            m = make()
            calls.append(((lambda c=c, make=make: c(make())) if q.prop else (lambda c=c, m=m: c(m)), (lambda c=c, make=make: c(make()))))
    mon.context(contention=name, mode=mode, threads=count)
    t = time.monotonic()
    wants = [outcome(w) for _, w in calls]
    t = max((time.monotonic() - t) / count, 1e-5)
    reps = int(np.clip(0.12 / t / count, 3, 60))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        results = run_threads(mon, [[(f, False)] * reps for f, _ in calls])
    finally:
        sys.setswitchinterval(old)
    if results is None:
        return
    mon.event('contended')
    mon.event('contended-calls', reps * count)
    mon.distinct('contention', mode, name, count, repr(wants)[:2000])
    for res, want in zip(results, wants):
        for got in res:
            mon.check(deep.same(got, want, 1e-10), 'result-under-contention', lambda: f'{name}: {got!r} instead of {want!r}')


def case(rng, mon, tier, index):

    if index % 6 == 5:
        contention(rng, mon, index // 6)
    elif index % 6 < 2:
        aliases(rng, mon)
    else:
        threaded(rng, mon, rng.random() < 0.12)
