# C26: fitting a chain to a transition function through a quadrature.
import math

import numpy as np

import pydtmc
from vh import gen, kit

CASES = (1000, 40000)
CAP = (60, 600)
RULE = 'one case = one transition function, quadrature, interval and set of states; distinct by all of them; trivial when the function is constant'
MINIMUM = {'distinct': 400, 'gauss-chebyshev': 80, 'gauss-legendre': 80, 'niederreiter': 80, 'newton-cotes': 80, 'simpson-rule': 60, 'trapezoid-rule': 80, 'null-rows': 40, 'calls': 5000}
ASSUMPTIONS = ['every quadrature is recomputed by another method (moment equations, numpy nodes, closed formulas); comparison within 1e-7',
               'Newton-Cotes is the composite midpoint rule, the Niederreiter sequence the fractional parts of the multiples of the square root of two']
QUADS = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']


def rule(kind, n, a, b):
    if kind == 'gauss-legendre':
        x, w = np.polynomial.legendre.leggauss(n)
    elif kind == 'gauss-chebyshev':
        # nodes of the Chebyshev polynomial; weights from the moment equations in the Legendre basis
        x = np.array([-math.cos(math.pi * (2 * i + 1) / (2 * n)) for i in range(n)])
        V = np.polynomial.legendre.legvander(x, n - 1)
        m = np.zeros(n)
        m[0] = 2
        w = np.linalg.solve(V.T, m)
    elif kind == 'niederreiter':
        f = np.array([math.fmod(i * math.sqrt(2), 1) for i in range(1, n + 1)])
        x, w = 2 * f - 1, np.full(n, 2 / n)
    elif kind == 'newton-cotes':
        x, w = np.array([-1 + (2 * i + 1) / n for i in range(n)]), np.full(n, 2 / n)
    elif kind == 'simpson-rule':
        h = 2 / (n - 1)
        x = np.array([-1 + i * h for i in range(n)])
        w = np.array([h / 3 * (1 if i in (0, n - 1) else 4 if i % 2 else 2) for i in range(n)])
    else:
        h = 2 / (n - 1)
        x = np.array([-1 + i * h for i in range(n)])
        w = np.array([h / 2 if i in (0, n - 1) else h for i in range(n)])
    return (a + b) / 2 + (b - a) / 2 * x, w * (b - a) / 2


def function(rng, n, a, b):
    # returns (name, pure function of the four arguments)
    k = int(rng.integers(6))
    c = float(np.round(rng.uniform(0.2, 2), 2))
    s = float(np.round(rng.uniform(0.2, 1.5), 2)) * max(b - a, 0.1)
    if k == 0:
        return 'normal', lambda i, x, j, y: math.exp(-(y - c * x)**2 / (2 * s * s))
    if k == 1:
        return 'asymmetric', lambda i, x, j, y: (x - a + 0.1)**2 + 3 * (y - a + 0.05)
    if k == 2:
        return 'indices', lambda i, x, j, y: 1.0 + 2 * i + 5 * j + i * j
    if k == 3:
        return 'mixed', lambda i, x, j, y: abs(y - a) * (i + 1) + abs(x - b) / (j + 1) + 0.1
    if k == 4:
        z = int(rng.integers(n))
        return 'null-row', lambda i, x, j, y: 0.0 if i == z else 1.0 + abs(y)
    return 'integer', lambda i, x, j, y: int(1 + (i * 7 + j * 3) % 5)


def case(rng, mon, tier, index):

    kind = QUADS[index % 6]
    n = int(rng.integers(2, 13)) if rng.random() < 0.9 else int(rng.integers(13, 41))
    if kind == 'simpson-rule':
        n = int(gen.pick(rng, [3, 5, 7, 9, 11]))
    lab = gen.labels(rng, n) or gen.default_labels(n)
    if rng.random() < 0.3:
        args, (a, b) = [], (0.0, 1.0)
    else:
        a = float(np.round(rng.uniform(0, 8) * (rng.random() < 0.8), 2))
        b = a + float(gen.pick(rng, [0.01, 0.5, 1.0, 3.0, 20.0]))
        args = [(a, b)]
    name, f = function(rng, n, a, b)
    mon.context(kind=kind, n=n, interval=(a, b), function=name, labels=lab)
    if name != 'integer' and n > 2:
        mon.distinct(kind, n, a, b, name, float(f(0, a, 1, b)), float(f(1, b, 0, a)))
    calls = []

    def probe(x_index, x_value, y_index, y_value):
        v = f(x_index, x_value, y_index, y_value)
        calls.append((x_index, x_value, y_index, y_value))
        return v

    states = list(lab)
    mc = pydtmc.MarkovChain.fit_function(kind, states, probe, *args)
    mon.event(kind)
    mon.equal(states, lab, 'arguments-unchanged')
    kit.valid_chain(mon, pydtmc, mc)
    mon.equal(mc.states, lab, 'labels')
    x, w = rule(kind, n, a, b)
    F = np.array([[float(f(i, x[i], j, x[j])) for j in range(n)] for i in range(n)]) * w
    F[F.sum(axis=1) == 0] = 1
    if name == 'null-row':
        mon.event('null-rows')
    mon.close(mc.p, F / F.sum(axis=1, keepdims=True), 'fit', *((1e-6, 1e-8) if kind == 'gauss-legendre' else (1e-9, 1e-13)))
    # the function was evaluated on the nodes of the quadrature, each pair of nodes at least once
    seen = {(int(i), int(j)): (float(u), float(v)) for i, u, j, v in calls[1:]}
    mon.event('calls', len(calls))
    mon.equal(len(seen), n * n, 'nodes')
    scale = 1e-9 * max(1, abs(a), abs(b))
    for (i, j), (u, v) in seen.items():
        if abs(u - x[i]) > scale * 10 or abs(v - x[j]) > scale * 10:
            mon.fail('nodes', f'node {i}, {j}: the function received {u}, {v} instead of {x[i]}, {x[j]}')
    mon.rules['nodes'] += n * n

    if rng.random() < 0.12:
        ff = pydtmc.MarkovChain.fit_function
        def negative(x_index, x_value, y_index, y_value):
            return -1.0 if y_index == 0 and x_index == 0 else 1.0
        def infinite(x_index, x_value, y_index, y_value):
            return float('inf') if y_index == 1 and x_index == 0 else 1.0
        def undefined(x_index, x_value, y_index, y_value):
            return float('nan') if y_index == 0 and x_index == 1 else 1.0
        def text(x_index, x_value, y_index, y_value):
            return 'abc' if y_index == 0 and x_index == 0 else 1.0
        def raising(x_index, x_value, y_index, y_value):
            if y_index == 0 and x_index == 0:
                raise KeyError('boom')
            return 1.0
        for g in (negative, infinite, undefined, text, raising):
            kit.rejected(mon, pydtmc, 'invalid-values', ff, kind, states, g, *args, allow=(ValueError,))
        bad = gen.pick(rng, [(kind, states, None), (kind, states, lambda x_index, x_value: 1.0), (kind, states, lambda p, q, r, s: 1.0), ('abc', states, probe), (kind, [lab[0]] * n, probe),
                             (kind, states, probe, (1.0, 0.0)), (kind, states, probe, (1.0, 1.0)), (kind, states, probe, (0.0, float('inf'))), (kind, states, probe, 3), (kind, states, probe, ('a', 'b')),
                             ('simpson-rule', gen.default_labels(4), probe), (kind, states, int)])
        mon.context(bad=bad)
        kit.rejected(mon, pydtmc, 'invalid-arguments', ff, *bad)
