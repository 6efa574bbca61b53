# Every query of the two model types, with arguments written in terms of the original states, so that the same query can be put to
# a model whose states are renamed or permuted, and its answer read back in terms of the original states.
import numpy as np

from . import gen


class Confused(Exception):
    # the answer cannot be read back: unknown state, wrong length
    pass


class View:
    # position k of the model holds the original state perm[k], called names[k]; the same for the symbols

    def __init__(self, names, perm=None, symbols=None, sperm=None):
        self.names = list(names)
        self.perm = np.arange(len(names)) if perm is None else np.asarray(perm)
        self.inv = np.argsort(self.perm)
        self.symbols = None if symbols is None else list(symbols)
        if symbols is not None:
            self.sperm = np.arange(len(symbols)) if sperm is None else np.asarray(sperm)
            self.sinv = np.argsort(self.sperm)

    # arguments

    def render(self, rng, kind, v, how=None):
        how = how or str(rng.choice(['name', 'index', 'numpy']))
        if v is None or kind == 'raw':
            return v
        if kind == 'list':
            return list(v)
        if kind in ('state', 'symbol'):
            names, inv = (self.names, self.inv) if kind == 'state' else (self.symbols, self.sinv)
            k = int(inv[v])
            return names[k] if how == 'name' else k if how == 'index' else np.int64(k)
        if kind in ('states', 'symbols', 'walk', 'emissions'):
            names, inv = (self.names, self.inv) if kind in ('states', 'walk') else (self.symbols, self.sinv)
            ks = [int(inv[i]) for i in v]
            if kind in ('states', 'symbols'):
                ks = [ks[i] for i in rng.permutation(len(ks))]
                if len(ks) == 1 and rng.random() < 0.5:
                    return names[ks[0]] if how == 'name' else ks[0]
            return [names[k] for k in ks] if how == 'name' else ks if how == 'index' else [np.int64(k) for k in ks]
        if kind == 'vector':
            out = np.asarray(v, dtype=float)[self.perm]
            return out.tolist() if rng.random() < 0.5 else out
        if kind == 'status':
            if np.ndim(v) == 0:
                return self.render(rng, 'state', v, how)
            return self.render(rng, 'vector', v, how)
        if kind == 'partition':
            return [[self.names[self.inv[i]] if how == 'name' else int(self.inv[i]) for i in b] for b in v]
        if kind == 'chain':
            import pydtmc
            P, names = v
            return pydtmc.MarkovChain(P[np.ix_(self.perm, self.perm)], [names[i] for i in self.perm])
        raise KeyError(kind)

    # answers

    def orig(self, s):
        if isinstance(s, str):
            if s not in self.names:
                raise Confused(f'unknown state {s!r}')
            return int(self.perm[self.names.index(s)])
        if isinstance(s, (bool, np.bool_)) or not isinstance(s, (int, np.integer)) or not 0 <= s < len(self.names):
            raise Confused(f'unknown state {s!r}')
        return int(self.perm[s])

    def osym(self, s):
        if isinstance(s, str):
            if s not in self.symbols:
                raise Confused(f'unknown symbol {s!r}')
            return int(self.sperm[self.symbols.index(s)])
        if isinstance(s, (bool, np.bool_)) or not isinstance(s, (int, np.integer)) or not 0 <= s < len(self.symbols):
            raise Confused(f'unknown symbol {s!r}')
        return int(self.sperm[s])

    def vec(self, v):
        v = np.asarray(v)
        if v.shape != (len(self.names),):
            raise Confused(f'shape {v.shape}')
        return v[self.inv]

    def mat(self, m, rows=True, cols=True):
        m = np.asarray(m)
        if m.ndim != 2 or (rows and m.shape[0] != len(self.names)) or (cols and m.shape[1] != len(self.names)):
            raise Confused(f'shape {m.shape}')
        if rows:
            m = m[self.inv]
        return m[:, self.inv] if cols else m

    def part(self, members):
        # positions in increasing order, and the permutation which puts a vector over them in the order of the original states
        pos = sorted(int(self.inv[i]) for i in members)
        return np.argsort([int(self.perm[k]) for k in pos])

    def read(self, kind, v, members=None):
        # members: (transient, absorbing) original states
        if v is None or kind == 'raw':
            return v
        if kind == 'vec':
            return self.vec(v)
        if kind == 'mat':
            return self.mat(v)
        if kind == 'cols':
            return self.mat(v, rows=False)
        if kind == 'vecs':
            return [self.vec(x) for x in v]
        if kind == 'vecset':
            return sorted([self.vec(x) for x in v], key=lambda x: int(np.flatnonzero(x > 0)[0]))
        if kind == 'states':
            ks = [self.names.index(s) if s in self.names else -1 for s in v]
            if -1 in ks or ks != sorted(set(ks)):
                raise Confused(f'states {v!r}')
            return sorted(int(self.perm[k]) for k in ks)
        if kind == 'classes':
            out = []
            for c in v:
                out.append(tuple(self.read('states', c)))
            firsts = [(-len(c), self.names.index(c[0])) for c in v]
            if firsts != sorted(firsts):
                raise Confused(f'order of {v!r}')
            return sorted(out)
        if kind == 'trtr':
            o = self.part(members[0])
            if np.shape(v) != (len(o), len(o)):
                raise Confused(f'shape {np.shape(v)}')
            return np.asarray(v)[np.ix_(o, o)]
        if kind == 'tr':
            o = self.part(members[0])
            if np.shape(v) != (len(o),):
                raise Confused(f'shape {np.shape(v)}')
            return np.asarray(v)[o]
        if kind == 'abtr':
            t, a = self.part(members[0]), self.part(members[1])
            if np.shape(v) != (len(a), len(t)):
                raise Confused(f'shape {np.shape(v)}')
            return np.asarray(v)[np.ix_(a, t)]
        if kind == 'path':
            return [self.orig(s) for s in v]
        if kind == 'state':
            return self.orig(v)
        if kind == 'chain':
            ks = [self.orig(s) for s in v.states]
            o = np.argsort(ks)
            return [sorted(ks), v.p[np.ix_(o, o)]]
        if kind == 'fresh':  # a chain over the same states with names of its own
            return [v.states, self.mat(v.p)]
        if kind == 'other':  # a chain over other states
            return [v.states, v.p]
        if kind == 'lumped':  # blocks are named after their members
            return [[sorted(self.orig(x) for x in b.split(',')) for b in v.states], v.p]
        if kind == 'dict':
            return {(self.orig(a), self.orig(b)): x for (a, b), x in v.items()}
        if kind == 'graph':
            return sorted((self.orig(a), self.orig(b), float(d['weight'])) for a, b, d in v.edges(data=True)), sorted(self.orig(a) for a in v.nodes)
        if kind == 'partitions':
            return sorted([tuple(tuple(self.orig(s) for s in b) for b in part) for part in v])
        # hidden Markov models
        if kind == 'emat':
            m = np.asarray(v)
            if m.shape != (len(self.names), len(self.symbols)):
                raise Confused(f'shape {m.shape}')
            return m[self.inv][:, self.sinv]
        if kind == 'decoding':
            a, p, b, f, s = v
            return [a, self.mat(p, cols=False), self.mat(b, cols=False), self.mat(f, cols=False), s]
        if kind == 'prediction':
            return None if v[1] is None else [v[0], [self.orig(s) for s in v[1]]]
        if kind == 'both-walks':
            return [[self.orig(s) for s in v[0]], [self.osym(s) for s in v[1]]]
        if kind == 'both':
            return [self.orig(v[0]), self.osym(v[1])]
        if kind == 'symbol':
            return self.osym(v)
        if kind == 'model':
            ks, ys = [self.orig(s) for s in v.states], [self.osym(s) for s in v.symbols]
            o, q = np.argsort(ks), np.argsort(ys)
            return [sorted(ks), sorted(ys), v.p[np.ix_(o, o)], v.e[np.ix_(o, q)]]
        if kind == 'hdict':
            return {(k[0], self.orig(k[1]), self.orig(k[2]) if k[0] == 'P' else self.osym(k[2])): x for k, x in v.items()}
        if kind == 'hgraph':
            return sorted(('P', self.orig(a), self.orig(b), float(d['weight'])) if d['type'] == 'P' else ('E', self.orig(a), self.osym(b), float(d['weight'])) for a, b, d in v.edges(data=True))
        raise KeyError(kind)


class Query:

    def __init__(self, name, reads='raw', draw=None, aliases=(), prop=False, order=True, seeded=False, cached=False):
        self.name, self.reads, self.draw, self.aliases, self.prop = name, reads, draw, tuple(aliases), prop
        self.order = order      # False: the answer may depend on the order of the states by definition
        self.seeded = seeded
        self.cached = cached

    def arguments(self, rng, world):
        # [(parameter, kind, value)]
        return [] if self.draw is None else self.draw(rng, world)

    def ask(self, model, args, view, rng, name=None, how=None):
        f = getattr(model, name or self.name)
        if self.prop:
            return f
        kw = {p: view.render(rng, k, v, how) for p, k, v in args}
        return f(**kw)


class World:
    # what the arguments are drawn from
    def __init__(self, P, E=None):
        self.P, self.E = P, E
        self.n = P.shape[0]
        self.k = None if E is None else E.shape[1]


def subset(rng, n, low=1, high=None):
    high = n if high is None else high
    return sorted(int(x) for x in rng.choice(n, size=int(rng.integers(low, high + 1)), replace=False))


def vector(rng, n):
    return [float(x) for x in rng.choice([-3.0, -1.0, 0.0, 0.5, 2.0, 7.0], size=n)]


def maybe(rng, p, kind, v, chance=0.75):
    return [(p, kind, v)] if rng.random() < chance else []


def state(rng, w):
    return int(rng.integers(w.n))


def seed(rng):
    return ('seed', 'raw', int(rng.integers(2**31)))


def pair_of_sets(rng, w):
    perm = [int(x) for x in rng.permutation(w.n)]
    a = int(rng.integers(1, w.n))
    b = int(rng.integers(a + 1, w.n + 1))
    return sorted(perm[:a]), sorted(perm[a:b])


def partition(rng, w):
    if w.n < 3:
        return None
    cuts = subset(rng, w.n - 1, 1, w.n - 2)
    edges = [0] + [c + 1 for c in cuts] + [w.n]
    return [list(range(a, b)) for a, b in zip(edges, edges[1:])]


def times(rng, w):
    pool = subset(rng, min(w.n + 1, 5), 1)
    return int(pool[-1]) if rng.random() < 0.4 else [pool[i] for i in rng.permutation(len(pool))]


def committor(rng, w):
    a, b = pair_of_sets(rng, w)
    return [('committor_type', 'raw', gen.pick(rng, ['forward', 'backward'])), ('states1', 'states', a), ('states2', 'states', b)]


def reward(rng, w):
    i = state(rng, w)
    rest = [j for j in range(w.n) if j != i]
    T = sorted(rest[k] for k in subset(rng, len(rest), 1, max(1, len(rest) - 1)))
    return [('steps', 'raw', int(rng.integers(1, 8))), ('initial_state', 'state', i), ('first_passage_states', 'states', T), ('rewards', 'vector', vector(rng, w.n))]


def status(rng, w):
    return state(rng, w) if rng.random() < 0.4 else gen.distribution(rng, w.n).tolist()


def other(rng, w):
    return gen_chain_like(rng, w.n), [f'z{i}' for i in range(w.n)]


def gen_chain_like(rng, n):
    P = rng.random((n, n)) + 0.05
    return P / P.sum(axis=1, keepdims=True)


def boundary(rng, w):
    return gen.pick(rng, ['absorbing', 'reflecting', 0.25])


def walk(rng, w, low=2, high=12):
    return gen.walk(rng, w.P, int(rng.integers(low - 1, high)))


def wild(rng, w):
    return [int(x) for x in rng.integers(w.n, size=int(rng.integers(2, 12)))]


def subchain(rng, w):
    return [('states', 'states', subset(rng, w.n, min(2, w.n - 1), w.n - 1))]


def p(name, reads='raw', **kw):
    return Query(name, reads, prop=True, cached=kw.pop('cached', True), **kw)


CHAIN = [
    p('absorbing_states', 'states'), p('accessibility_matrix', 'mat'), p('adjacency_matrix', 'mat'), p('communicating_classes', 'classes'), p('communication_matrix', 'mat'),
    p('cyclic_classes', 'classes'), p('cyclic_states', 'states'), p('density'), p('determinant'), p('entropy_rate'), p('entropy_rate_normalized'), p('fundamental_matrix', 'trtr'),
    p('implied_timescales'), p('incidence_matrix', order=False), p('is_absorbing'), p('is_aperiodic'), p('is_canonical', order=False), p('is_doubly_stochastic'), p('is_ergodic'), p('is_irreducible'),
    p('is_regular'), p('is_reversible'), p('is_stochastically_monotone', order=False, aliases=['is_monotone']), p('is_symmetric'), p('kemeny_constant'), p('lumping_partitions', 'partitions', order=False),
    p('mixing_rate'), p('n', cached=False), p('p', 'mat', cached=False), p('period'), p('periods', order=False), p('pi', 'vecset', aliases=['stationary_distributions', 'steady_states']), p('rank'), p('recurrent_classes', 'classes'),
    p('recurrent_states', 'states'), p('relaxation_rate'), p('size', cached=False), p('spectral_gap'), p('states', 'states', cached=False), p('topological_entropy'), p('transient_classes', 'classes'), p('transient_states', 'states'),
    Query('absorption_probabilities', 'abtr'),
    Query('aggregate', 'other', lambda r, w: [('s', 'raw', int(r.integers(2, max(w.n, 3))))] + maybe(r, 'method', 'raw', gen.pick(r, ['adaptive', 'spectral-bottom-up', 'spectral-top-down'])), order=False),
    Query('are_communicating', 'raw', lambda r, w: [('state1', 'state', state(r, w)), ('state2', 'state', state(r, w))]),
    Query('closest_reversible', 'chain', lambda r, w: maybe(r, 'initial_distribution', 'vector', gen.distribution(r, w.n, 'dense').tolist()) + maybe(r, 'weighted', 'raw', bool(r.random() < 0.5)), order=False),
    Query('committor_probabilities', 'vec', committor, aliases=['crp']),
    Query('conditional_probabilities', 'vec', lambda r, w: [('state', 'state', state(r, w))], aliases=['conditional_distribution', 'cd', 'cp']),
    Query('expected_rewards', 'vec', lambda r, w: [('steps', 'raw', int(r.integers(1, 9))), ('rewards', 'vector', vector(r, w.n))], aliases=['er']),
    Query('expected_transitions', 'mat', lambda r, w: [('steps', 'raw', int(r.integers(1, w.n + 1)))] + maybe(r, 'initial_distribution', 'vector', gen.distribution(r, w.n).tolist()), aliases=['et']),
    Query('first_passage_probabilities', 'cols', lambda r, w: [('steps', 'raw', int(r.integers(1, 9))), ('initial_state', 'state', state(r, w))], aliases=['fpp']),
    Query('first_passage_probabilities', 'raw', lambda r, w: [('steps', 'raw', int(r.integers(1, 9))), ('initial_state', 'state', state(r, w)), ('first_passage_states', 'states', subset(r, w.n))], aliases=['fpp']),
    Query('first_passage_reward', 'raw', reward, aliases=['fpr']),
    Query('hitting_probabilities', 'vec', lambda r, w: maybe(r, 'targets', 'states', subset(r, w.n)), aliases=['hp']),
    Query('hitting_times', 'vec', lambda r, w: maybe(r, 'targets', 'states', subset(r, w.n)), aliases=['ht']),
    Query('is_absorbing_state', 'raw', lambda r, w: [('state', 'state', state(r, w))]),
    Query('is_accessible', 'raw', lambda r, w: [('state_target', 'state', state(r, w)), ('state_origin', 'state', state(r, w))]),
    Query('is_cyclic_state', 'raw', lambda r, w: [('state', 'state', state(r, w))]),
    Query('is_recurrent_state', 'raw', lambda r, w: [('state', 'state', state(r, w))]),
    Query('is_transient_state', 'raw', lambda r, w: [('state', 'state', state(r, w))]),
    Query('lump', 'lumped', lambda r, w: [('partitions', 'partition', partition(r, w))], order=False),
    Query('mean_absorption_times', 'tr', aliases=['mat']),
    Query('mean_first_passage_times_between', 'raw', lambda r, w: [('origins', 'states', subset(r, w.n, 1, w.n - 1)), ('targets', 'states', subset(r, w.n, 1, w.n - 1))], aliases=['mfpt_between', 'mfptb']),
    Query('mean_first_passage_times_to', 'mat', aliases=['mfpt_to', 'mfptt']),
    Query('mean_first_passage_times_to', 'vec', lambda r, w: [('targets', 'states', subset(r, w.n))], aliases=['mfpt_to', 'mfptt']),
    Query('mean_number_visits', 'mat', aliases=['mnv']),
    Query('mean_recurrence_times', 'vec', aliases=['mrt']),
    Query('merge_with', 'fresh', lambda r, w: [('other', 'chain', other(r, w)), ('gamma', 'raw', float(r.choice([0.125, 0.5, 0.9])))]),
    Query('mixing_time', 'raw', lambda r, w: maybe(r, 'initial_distribution', 'vector', gen.distribution(r, w.n).tolist()) + maybe(r, 'jump', 'raw', int(r.integers(1, 4))) + maybe(r, 'cutoff_type', 'raw', gen.pick(r, ['natural', 'traditional'])), aliases=['mt']),
    Query('next', 'state', lambda r, w: [('initial_state', 'state', state(r, w)), ('output_index', 'raw', bool(r.random() < 0.5)), seed(r)], order=False, seeded=True),
    Query('predict', 'path', lambda r, w: [('steps', 'raw', int(r.integers(1, 9))), ('initial_state', 'state', state(r, w)), ('output_indices', 'raw', bool(r.random() < 0.5))]),
    Query('redistribute', 'vecs', lambda r, w: [('steps', 'raw', int(r.integers(1, 9))), ('output_last', 'raw', False)] + maybe(r, 'initial_status', 'status', status(r, w))),
    Query('redistribute', 'vec', lambda r, w: [('steps', 'raw', int(r.integers(1, 9)))] + maybe(r, 'initial_status', 'status', status(r, w))),
    Query('sensitivity', 'mat', lambda r, w: [('state', 'state', state(r, w))]),
    Query('sequence_probability', 'raw', lambda r, w: [('sequence', 'walk', walk(r, w) if r.random() < 0.7 else wild(r, w))]),
    Query('simulate', 'path', lambda r, w: [('steps', 'raw', int(r.integers(2, 20))), ('output_indices', 'raw', bool(r.random() < 0.5)), seed(r)] + maybe(r, 'initial_state', 'state', state(r, w)) + maybe(r, 'final_state', 'state', state(r, w), 0.4), order=False, seeded=True),
    Query('time_correlations', 'raw', lambda r, w: [('sequence1', 'walk', wild(r, w)), ('time_points', 'raw', times(r, w))] + maybe(r, 'sequence2', 'walk', wild(r, w), 0.5), aliases=['tc']),
    Query('time_relaxations', 'raw', lambda r, w: [('sequence', 'walk', wild(r, w)), ('time_points', 'raw', times(r, w))] + maybe(r, 'initial_distribution', 'vector', gen.distribution(r, w.n).tolist()), aliases=['tr']),
    Query('to_bounded_chain', 'chain', lambda r, w: [('boundary_condition', 'raw', boundary(r, w))], aliases=['to_bounded'], order=False),
    Query('to_canonical_form', 'chain', aliases=['to_canonical']),
    Query('to_dictionary', 'dict'),
    Query('to_graph', 'graph'),
    Query('to_lazy_chain', 'chain', lambda r, w: [('inertial_weights', 'vector', [float(x) for x in r.choice([0.0, 0.25, 0.5, 0.9], size=w.n)])] if r.random() < 0.6 else maybe(r, 'inertial_weights', 'raw', 0.25), aliases=['to_lazy']),
    Query('to_matrix', 'mat'),
    Query('to_nth_order', 'chain', lambda r, w: maybe(r, 'order', 'raw', int(r.integers(2, 5))), aliases=['to_nth']),
    Query('to_subchain', 'chain', subchain, aliases=['to_sub']),
    Query('transition_probability', 'raw', lambda r, w: [('state_target', 'state', state(r, w)), ('state_origin', 'state', state(r, w))]),
    Query('__str__', 'raw', order=False), Query('__repr__', 'raw'),
]


def symbols(rng, w, low=2, high=9):
    y = gen.emissions(rng, w.P, w.E, np.full(w.n, 1 / w.n), int(rng.integers(low, high)))[1]
    if rng.random() < 0.25:
        y[int(rng.integers(len(y)))] = int(rng.integers(w.k))
    return y


def symbol(rng, w):
    return int(rng.integers(w.k))


def restriction(rng, w):
    out = []
    if w.n > 2 and rng.random() < 0.7:
        out.append(('states', 'states', subset(rng, w.n, 2, w.n - 1)))
    if w.k > 2 and rng.random() < 0.7:
        out.append(('symbols', 'symbols', subset(rng, w.k, 2, w.k - 1)))
    return out


def target(kind):
    return lambda r, w: [('initial_state', 'state', state(r, w)), ('target', 'raw', kind), ('output_index', 'raw', bool(r.random() < 0.5)), seed(r)]


MODEL = [
    p('is_ergodic'), p('is_regular'), p('n', cached=False), p('k', cached=False), p('size', cached=False), p('p', 'mat', cached=False), p('e', 'emat', cached=False), p('states', 'states', cached=False), p('symbols', 'raw', cached=False, order=False),
    Query('decode', 'decoding', lambda r, w: [('symbols', 'emissions', symbols(r, w))] + maybe(r, 'initial_status', 'status', status(r, w), 0.6) + maybe(r, 'use_scaling', 'raw', bool(r.random() < 0.5), 0.5)),
    Query('emission_probability', 'raw', lambda r, w: [('symbol', 'symbol', symbol(r, w)), ('state', 'state', state(r, w))]),
    Query('next', 'both', target('both'), order=False, seeded=True), Query('next', 'state', target('state'), order=False, seeded=True), Query('next', 'symbol', target('symbol'), order=False, seeded=True),
    Query('predict', 'prediction', lambda r, w: [('prediction_type', 'raw', gen.pick(r, ['map', 'viterbi', 'mle'])), ('symbols', 'emissions', symbols(r, w)), ('output_indices', 'raw', bool(r.random() < 0.5))] + maybe(r, 'initial_status', 'status', status(r, w), 0.6), order=False),
    Query('restrict', 'model', restriction),
    Query('simulate', 'both-walks', lambda r, w: [('steps', 'raw', int(r.integers(2, 20))), ('output_indices', 'raw', bool(r.random() < 0.5)), seed(r)] + maybe(r, 'initial_state', 'state', state(r, w)) + maybe(r, 'final_state', 'state', state(r, w), 0.3) + maybe(r, 'final_symbol', 'symbol', symbol(r, w), 0.3), order=False, seeded=True),
    Query('to_dictionary', 'hdict'), Query('to_graph', 'hgraph'), Query('to_matrices', 'raw', order=False),
    Query('transition_probability', 'raw', lambda r, w: [('state_target', 'state', state(r, w)), ('state_origin', 'state', state(r, w))]),
    Query('__str__', 'raw', order=False), Query('__repr__', 'raw'),
]
