# The monitor: it receives every observation made on the real code, applies the oracle of the property and keeps the
# measured counts that end up in the evidence file.
import collections
import hashlib
import math
import traceback

import numpy as np


class Violation(Exception):
    pass


def short(value, limit=600):
    try:
        if isinstance(value, np.ndarray):
            text = repr(value.tolist())
        else:
            text = repr(value)
    except Exception as ex:  # a broken repr is an observation as well
        text = f'<unprintable {type(value).__name__}: {ex!r}>'
    return text if len(text) <= limit else text[:limit] + '...'


class Monitor:

    def __init__(self, prop, known):
        self.prop = prop
        self.known_keys = known
        self.rules = collections.Counter()
        self.events = collections.Counter()
        self.cases = 0
        self.nontrivial = set()
        self.trivial = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.skipped = collections.Counter()
        self.agreed = {}
        self._case = None
        self._context = None
        self._failed = 0

    # case life cycle

    def begin(self, index):
        self.cases += 1
        self._case = index
        self._context = {}
        self._failed = 0

    def context(self, **kwargs):
        for k, v in kwargs.items():
            self._context[k] = v

    def distinct(self, *parts):
        # registers the case as distinct and non-trivial: the digest covers the generated inputs
        h = hashlib.blake2b(digest_size=12)
        for part in parts:
            if isinstance(part, np.ndarray):
                h.update(repr(part.shape).encode())
                h.update(np.ascontiguousarray(part).tobytes())
            else:
                h.update(repr(part).encode('utf-8', 'surrogatepass'))
            h.update(b'|')
        self.nontrivial.add(h.hexdigest())

    def end(self):
        if len(self.samples) < 3 and self._context:
            self.samples.append({k: short(v, 300) for k, v in self._context.items()})

    def event(self, name, count=1):
        self.events[name] += count

    def skip(self, reason):
        self.skipped[reason] += 1

    # oracles

    def fail(self, rule, detail=''):
        self._failed += 1
        if len(self.violations) < 8:
            self.violations.append({
                'rule': rule,
                'case': self._case,
                'detail': short(detail, 1500) if not isinstance(detail, str) else detail[:1500],
                'context': {k: short(v, 2000) for k, v in (self._context or {}).items()}
            })
        raise Violation(rule)

    def check(self, condition, rule, detail=''):
        self.rules[rule] += 1
        if not condition:
            self.fail(rule, detail() if callable(detail) else detail)

    def equal(self, got, want, rule):
        self.rules[rule] += 1
        if type(got) is float and type(want) is float and math.isnan(got) and math.isnan(want):
            return
        ok = got == want
        if isinstance(ok, np.ndarray):
            ok = bool(np.all(ok)) and np.shape(got) == np.shape(want)
        if not ok:
            self.fail(rule, f'got {short(got)} expected {short(want)}')

    def close(self, got, want, rule, rtol=1e-6, atol=1e-8):
        self.rules[rule] += 1
        if not is_close(got, want, rtol, atol):
            self.fail(rule, f'got {short(got)} expected {short(want)}')

    def known(self, key, detail=''):
        # a listed finding, observed again; an unlisted one is a violation
        if key in self.known_keys:
            self.known_hits.setdefault(key, detail)
        else:
            self.fail('unlisted:' + key, detail)

    def agree(self, key, value):
        # an observation which has to be the same in every process; the orchestrator compares them
        if not isinstance(value, str):
            value = repr(value.tolist() if isinstance(value, np.ndarray) else value)
        self.rules['agreement'] += 1
        self.agreed[str(key)] = value if len(value) < 300 else value[:200] + '...' + hashlib.blake2b(value.encode('utf-8', 'surrogatepass'), digest_size=12).hexdigest()

    def report(self):
        return {
            'agreed': self.agreed,
            'rules': dict(self.rules), 'events': dict(self.events), 'cases': self.cases,
            'nontrivial': sorted(self.nontrivial), 'samples': self.samples, 'violations': self.violations,
            'known_hits': self.known_hits, 'skipped': dict(self.skipped)
        }

    def crash(self, ex):
        self.violations.append({
            'rule': 'unexpected-exception',
            'case': self._case,
            'detail': ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-2500:],
            'context': {k: short(v, 2000) for k, v in (self._context or {}).items()}
        })


def is_close(got, want, rtol=1e-6, atol=1e-8):
    if got is None or want is None:
        return got is None and want is None
    try:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return False
    if g.shape != w.shape:
        return False
    if g.size == 0:
        return True
    inf = np.isinf(w)
    if not np.array_equal(np.isinf(g), inf) or not np.array_equal(g[inf], w[inf]):
        return False
    nan = np.isnan(w)
    if not np.array_equal(np.isnan(g), nan):
        return False
    ok = ~(inf | nan)
    return bool(np.all(np.abs(g[ok] - w[ok]) <= atol + rtol * np.abs(w[ok])))
