# C28: files: csv, json, txt and xml, written, read back, truncated and damaged.
import csv
import io
import json
import os
import pathlib
import xml.sax.saxutils as xs

import numpy as np

import pydtmc
from vh import gen, kit

CASES = (1000, 20000)
CAP = (110, 800)
RULE = 'one case = one generated model written in one format, read back, read from truncated and damaged copies and from an independently written file; distinct by model and format'
MINIMUM = {'foreign': 700, 'distinct': 350, 'round-trip': 350, 'csv': 60, 'json': 60, 'txt': 60, 'xml': 60, 'prefix': 2500, 'damaged': 1500, 'damaged-refused': 600, 'hand-written': 200, 'hard-labels': 60, 'overwritten': 60, 'refused-path': 60}
ASSUMPTIONS = ['files are read and written in the encoding of the process (UTF-8)', 'labels that a format cannot carry (whitespace in txt, control characters in xml) have to be refused when writing or reading',
               'a truncated file may be accepted when what is left still defines the same model up to the tolerance of the row sums']

MC, H = pydtmc.MarkovChain, pydtmc.HiddenMarkovModel
HARD = ['a,b', '"q"', "it's", 'x"y', '<Item', '?>', '" />', '&amp;', '</MarkovChain>', '<MarkovChain>', 'P_a', 'E_b', ' lead', 'trail ', 'two words', 'tab\there', 'new\nline', 'cr\rhere', '1.0', '0', 'nan', 'None', '[]', '{}', '\\n', 'a;b', "'", '""', '#',
        'é', '日本', '\U0001d4b3', 'a\u2028b', 'a\u00a0b', '\ufeffb', '%s', 'state_from', 'probability', '--', '<!--', ']]>', ',', ' , ', '\u0001', 'e\u0301', 'x' * 300, ' b', '  c', '\td', ' e,f', ' "g"', 'h  ', ' 1', 'A />x', '?>y']


def make(rng, tag):
    if rng.random() < 0.55:
        kind, P, lab, names = kit.pick_chain(rng, sizes=(3, 5, 8), p=(.4, .4, .2))
        if rng.random() < 0.4:
            names = [HARD[int(i)] for i in rng.choice(len(HARD), size=P.shape[0], replace=False)]
            tag.append('hard-labels')
        if rng.random() < 0.3:
            P = gen.pick(rng, [gen.tiny, gen.extreme])(rng, P)
        m = MC(P, list(names))
        if rng.random() < 0.2:
            m = m.to_nth_order(int(rng.integers(2, 5)))
        return m
    kind, P, E = gen.hmm(rng, 4, 4)
    n, k = E.shape
    _, _, names, syms = gen.hmm_labels(rng, n, k)
    if rng.random() < 0.4:
        both = [HARD[int(i)] for i in rng.choice(len(HARD), size=n + k, replace=False)]
        names, syms = both[:n], both[n:]
        tag.append('hard-labels')
    if rng.random() < 0.3:
        P = gen.pick(rng, [gen.tiny, gen.extreme])(rng, P)
    return H(P, E, list(names), list(syms))


def rows(m):
    if isinstance(m, MC):
        return [(a, b, m.p[i, j]) for i, a in enumerate(m.states) for j, b in enumerate(m.states)]
    out = [('P', a, b, m.p[i, j]) for i, a in enumerate(m.states) for j, b in enumerate(m.states)]
    return out + [('E', a, b, m.e[i, j]) for i, a in enumerate(m.states) for j, b in enumerate(m.symbols)]


KEYS = {True: ('state_from', 'state_to', 'probability'), False: ('reference', 'element_from', 'element_to', 'probability')}


def number(rng, x):
    x = float(x)
    if x == int(x) and rng.random() < 0.5:
        return str(int(x))
    return gen.pick(rng, [repr(x), f'{x:.17g}', f'{x:.17e}'])


def write(rng, m, ext):
    # a file in the documented format, written independently
    mc = isinstance(m, MC)
    r = rows(m)
    if ext == 'csv':
        buf = io.StringIO()
        w = csv.writer(buf, quoting=gen.pick(rng, [csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=gen.pick(rng, ['\n', '\r\n']))
        if mc:
            w.writerow(m.states)
            for i in range(m.size):
                w.writerow([number(rng, x) for x in m.p[i]])
        else:
            cols = [('P', j) for j in range(m.n)] + [('E', j) for j in range(m.k)]
            if rng.random() < 0.3:
                cols = cols[m.n:] + cols[:m.n]
            w.writerow([f'P_{m.states[j]}' if t == 'P' else f'E_{m.symbols[j]}' for t, j in cols])
            for i in range(m.n):
                w.writerow([number(rng, (m.p if t == 'P' else m.e)[i, j]) for t, j in cols])
        return buf.getvalue()
    keys = KEYS[mc]
    if ext == 'json':
        items = []
        for row in r:
            v = float(row[-1])
            item = list(zip(keys, row[:-1])) + [('probability', int(v) if v == int(v) and rng.random() < 0.5 else v)]
            items.append(dict(kit.shuffled(rng, item)))
        return json.dumps(items, indent=gen.pick(rng, [None, 2]), ensure_ascii=bool(rng.random() < 0.5))
    if ext == 'txt':
        sep = gen.pick(rng, [' ', '\t', '   '])
        return ''.join(sep.join([*row[:-1], number(rng, row[-1])]) + gen.pick(rng, ['\n', ' \n']) for row in r)
    tag = 'MarkovChain' if mc else 'HiddenMarkovModel'
    esc = {'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}
    body = ''
    for row in r:
        att = list(zip(keys, [*(xs.quoteattr(x, esc) for x in row[:-1]), f'"{number(rng, row[-1])}"']))
        body += '<Item ' + ' '.join(f'{k}={v}' for k, v in kit.shuffled(rng, att)) + gen.pick(rng, ['/>', '></Item>', ' />\n'])
    return gen.pick(rng, ['<?xml version="1.0" encoding="utf-8"?>\n', '']) + f'<{tag}>{body}</{tag}>'


def equal(a, b, tol=0.0):
    if a.states != b.states:
        return False
    pairs = [(a.p, b.p)]
    if isinstance(a, H):
        if a.symbols != b.symbols:
            return False
        pairs.append((a.e, b.e))
    return all(x.shape == y.shape and np.abs(x - y).max() <= tol for x, y in pairs)


def valid(mon, m):
    if isinstance(m, MC):
        p, s = m.p, m.states
        ok = bool(np.isfinite(p).all() and (p >= 0).all() and (p <= 1).all() and np.abs(p.sum(axis=1) - 1).max() < 3e-5)
        return ok and p.shape == (len(s), len(s)) and len(s) >= 2 and len(set(s)) == len(s) and all(isinstance(x, str) and x.strip() for x in s)
    p, e, s, y = m.p, m.e, m.states, m.symbols
    ok = all(bool(np.isfinite(a).all() and (a >= 0).all() and (a <= 1).all() and np.abs(a.sum(axis=1) - 1).max() < 3e-5) for a in (p, e))
    both = s + y
    return ok and p.shape == (len(s), len(s)) and e.shape == (len(s), len(y)) and len(s) >= 2 and len(y) >= 2 and len(set(both)) == len(both) and all(isinstance(x, str) and x.strip() for x in both)


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def load(mon, cls, path, rule):
    # a model, or None when the file was refused with a documented error
    mon.rules[rule] += 1
    try:
        m = cls.from_file(str(path))
    except (pydtmc.ValidationError, ValueError, OSError):
        return None
    except Exception as ex:
        mon.fail(rule, f'{type(ex).__name__}: {ex} for {get(path)[:800]!r}')
    mon.check(type(m) is cls and valid(mon, m), rule, lambda: f'an invalid model {m.p!r} {m.states!r} was read from {get(path)[:800]!r}')
    return m


def damage(rng, data):
    text = data.decode('utf-8', 'replace')
    k = int(rng.integers(9))
    if k == 0:
        # another number somewhere
        import re
        hits = list(re.finditer(r'(?<![\w.])\d+(\.\d+)?(e-?\d+)?', text))
        if hits:
            h = hits[int(rng.integers(len(hits)))]
            new = gen.pick(rng, ['-0.5', '1.5', 'nan', 'inf', '-inf', '', 'x', '1e400', '2', '-0.0', '0x1', '1,0', 'NaN', 'Infinity', 'true', 'null', '"0.5"', '-1e-3', '1e-320'])
            text = text[:h.start()] + new + text[h.end():]
    elif k == 1:
        lines = text.splitlines(True)
        i = int(rng.integers(len(lines)))
        lines = lines[:i] + lines[i + 1:]
        text = ''.join(lines)
    elif k == 2:
        lines = text.splitlines(True)
        i = int(rng.integers(len(lines)))
        lines.insert(i, gen.pick(rng, lines + ['\n', ' \n', 'x\n', ',\n']))
        text = ''.join(lines)
    elif k == 3:
        i = int(rng.integers(len(text) + 1))
        j = min(len(text), i + int(rng.integers(1, 6)))
        text = text[:i] + text[j:]
    elif k == 4:
        i = int(rng.integers(len(text) + 1))
        text = text[:i] + gen.pick(rng, [',', '"', ' ', '\n', '<', '>', '&', '-', '0', '9', '.', 'P_', '\x00', '{', ']', '\ufeff', 'é', '\t']) + text[i:]
    elif k == 5:
        # a negative value compensated by another one: the sums still hold
        import re
        hits = [h for h in re.finditer(r'(?<![\w.-])(\d+\.\d+)', text)]
        if len(hits) > 1:
            i = int(rng.integers(len(hits) - 1))
            a, b = hits[i], hits[i + 1]
            c = float(a.group()) + 0.5 + float(rng.random())
            text = text[:a.start()] + repr(float(a.group()) - c) + text[a.end():b.start()] + repr(float(b.group()) + c) + text[b.end():]
    elif k == 6:
        # a label blanked or duplicated
        import re
        hits = list(re.finditer(r'[A-Za-z]\w*', text))
        if hits:
            h = hits[int(rng.integers(len(hits)))]
            word = h.group()
            new = gen.pick(rng, ['', ' ', hits[int(rng.integers(len(hits)))].group(), '1'])
            text = text.replace(word, new) if rng.random() < 0.5 else text[:h.start()] + new + text[h.end():]
    elif k == 7:
        text = text.swapcase() if rng.random() < 0.3 else text * 2
    else:
        return bytes(rng.integers(0, 256, size=int(rng.integers(1, 60)), dtype=np.uint8)) if rng.random() < 0.3 else data[:int(rng.integers(len(data)))] + bytes([int(rng.integers(128, 256))]) + data[int(rng.integers(len(data))):]
    return text.encode('utf-8', 'replace')


def foreign(rng, m, ext):
    # a file in the documented format except for one thing which does not belong there: (what, text)
    mc = isinstance(m, MC)
    keys = KEYS[mc]
    r = [[str(x) for x in row[:-1]] + [repr(float(row[-1]))] for row in rows(m)]
    i = int(rng.integers(len(r)))
    j = int(rng.integers(len(keys) - 1))
    if ext == 'json':
        items = [dict(zip(keys, [*row[:-1], float(row[-1])])) for row in r]
        what = gen.pick(rng, ['extra-key', 'missing-key', 'other-key', 'text-number', 'null-number', 'list-number', 'number-label', 'null-label', 'list-label', 'blank-label', 'list-item', 'text-item', 'object-root', 'wrapped-root', 'number-root'] + ([] if mc else ['reference', 'number-reference']))
        it = items[i]
        if what == 'extra-key':
            it[gen.pick(rng, ['comment', 'Probability', 'p', '', ' probability'])] = gen.pick(rng, ['x', 1, None, 0.5])
        elif what == 'missing-key':
            del it[gen.pick(rng, keys)]
        elif what == 'other-key':
            k = gen.pick(rng, keys)
            it[gen.pick(rng, [k.upper(), k + ' ', k[:-1], k + 's'])] = it.pop(k)
        elif what.endswith('number'):
            it['probability'] = {'text-number': r[i][-1], 'null-number': None, 'list-number': [float(r[i][-1])]}[what]
        elif what.endswith('label'):
            it[keys[j]] = {'number-label': 1, 'null-label': None, 'list-label': [it[keys[j]]], 'blank-label': gen.pick(rng, ['', ' ', '\t'])}[what]
        elif what == 'reference':
            it['reference'] = gen.pick(rng, ['X', 'p', 'e', 'PE', '1', 'P '])
        elif what == 'number-reference':
            it['reference'] = gen.pick(rng, [0, 1, None, True])
        elif what == 'list-item':
            items[i] = list(it.values())
        elif what == 'text-item':
            items[i] = json.dumps(it)
        if what == 'object-root':
            return what, json.dumps({str(a): b for a, b in enumerate(items)})
        if what == 'wrapped-root':
            return what, json.dumps(gen.pick(rng, [[items], {'items': items}, {'MarkovChain': items}]))
        return what, gen.pick(rng, ['3', '"x"', 'null', 'true']) if what == 'number-root' else json.dumps(items)
    if ext == 'txt':
        what = gen.pick(rng, ['extra-field', 'missing-field', 'not-a-number', 'blank-line', 'comment'] + ([] if mc else ['reference']))
        if what == 'extra-field':
            r[i].insert(int(rng.integers(len(r[i]) + 1)), gen.pick(rng, ['x', '0.5', '#']))
        elif what == 'missing-field':
            del r[i][int(rng.integers(len(r[i])))]
        elif what == 'not-a-number':
            r[i][-1] = gen.pick(rng, ['half', '0,5', '1/2', '50%', '--', '0.5.', '0x1p-1'])
        elif what == 'blank-line':
            r.insert(i, [' '])
        elif what == 'comment':
            r.insert(i, ['# a comment which is not part of the format'])
        else:
            r[i][0] = gen.pick(rng, ['X', 'p', 'e', 'PE', '1'])
        return what, ''.join(' '.join(row) + '\n' for row in r)
    if ext == 'xml':
        tag = 'MarkovChain' if mc else 'HiddenMarkovModel'
        what = gen.pick(rng, ['nested', 'nested-item', 'stranger', 'other-tag', 'extra-attribute', 'missing-attribute', 'other-attribute', 'blank-attribute', 'no-attributes', 'not-a-number', 'other-root', 'two-roots', 'wrapped'] + ([] if mc else ['reference']))
        body = []
        for a, row in enumerate(r):
            att = dict(zip(keys, row))
            name, inside = 'Item', ''
            if a == i:
                if what == 'nested':
                    inside = '<Note text="x"/>'
                elif what == 'nested-item':
                    inside = '<Item/>'
                elif what == 'other-tag':
                    name = gen.pick(rng, ['item', 'Element', 'ITEM', 'Items'])
                elif what == 'extra-attribute':
                    att[gen.pick(rng, ['note', 'Probability', 'weight'])] = '1'
                elif what == 'missing-attribute':
                    del att[gen.pick(rng, keys)]
                elif what == 'other-attribute':
                    k = gen.pick(rng, keys)
                    att[gen.pick(rng, [k.upper(), k[:-1], k + 's'])] = att.pop(k)
                elif what == 'blank-attribute':
                    att[gen.pick(rng, keys)] = gen.pick(rng, ['', ' '])
                elif what == 'no-attributes':
                    att = {}
                elif what == 'not-a-number':
                    att['probability'] = gen.pick(rng, ['half', '0,5', '1/2', '50%'])
                elif what == 'reference':
                    att['reference'] = gen.pick(rng, ['X', 'p', 'e', '1'])
                elif what == 'stranger':
                    body.append('<Note text="x"/>')
            body.append(f'<{name} ' + ' '.join(f'{k}={xs.quoteattr(v)}' for k, v in att.items()) + f'>{inside}</{name}>')
        root = {'other-root': gen.pick(rng, [tag.lower(), 'Model', 'Item', 'HiddenMarkovModel' if mc else 'MarkovChain'])}.get(what, tag)
        text = f'<{root}>' + ''.join(body) + f'</{root}>'
        if what == 'two-roots':
            text += text
        return what, f'<Models>{text}</Models>' if what == 'wrapped' else text
    what = gen.pick(rng, ['extra-column', 'missing-column', 'extra-row', 'missing-row', 'not-a-number', 'blank-number', 'blank-label', 'repeated-label', 'row-names', 'no-header', 'semicolons', 'empty-line'] + ([] if mc else ['prefix']))
    if mc:
        head, data = list(m.states), [[repr(float(x)) for x in row] for row in m.p]
    else:
        head, data = [f'P_{x}' for x in m.states] + [f'E_{x}' for x in m.symbols], [[repr(float(x)) for x in row] for row in np.hstack((m.p, m.e))]
    i, j = int(rng.integers(len(data))), int(rng.integers(len(head)))
    if what == 'extra-column':
        data[i].append('0.0')
    elif what == 'missing-column':
        del data[i][j]
    elif what == 'extra-row':
        data.append(list(data[i]))
    elif what == 'missing-row':
        del data[i]
    elif what == 'not-a-number':
        data[i][j] = gen.pick(rng, ['half', '0,5', '1/2', '50%'])
    elif what == 'blank-number':
        data[i][j] = gen.pick(rng, ['', ' '])
    elif what == 'blank-label':
        head[j] = gen.pick(rng, ['', ' ']) if mc else head[j][:2] + gen.pick(rng, ['', ' '])
    elif what == 'repeated-label':
        group = range(len(head)) if mc else [a for a in range(len(head)) if head[a][0] == head[j][0]]
        head[j] = head[[a for a in group if a != j][0]]
    elif what == 'row-names':
        head, data = [''] + head, [[a.replace('P_', '')] + row for a, row in zip(m.states, data)]
    elif what == 'no-header':
        head = None
    elif what == 'prefix':
        head[j] = gen.pick(rng, [head[j][2:], head[j][:1] + head[j][2:], head[j].lower().replace('p_', 'q_').replace('e_', 'x_'), 'X_' + head[j][2:]])
        if head[j][:2] in ('P_', 'E_'):
            what, head = 'no-header', None
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=';' if what == 'semicolons' else ',', lineterminator='\n')
    if head is not None:
        w.writerow(head)
    for a, row in enumerate(data):
        if what == 'empty-line' and a == i:
            buf.write('\n')
        w.writerow(row)
    return what, buf.getvalue()


def case(rng, mon, tier, index):

    scratch = pathlib.Path(os.environ['VERIF_SCRATCH']) / f'c28-{os.getpid()}'
    scratch.mkdir(exist_ok=True)
    tag = []
    m = make(rng, tag)
    cls = type(m)
    mc = cls is MC
    ext = str(rng.choice(['csv', 'json', 'txt', 'xml']))
    labels = m.states if mc else m.states + m.symbols
    mon.context(P=m.p, states=m.states, E=None if mc else m.e, symbols=None if mc else m.symbols, ext=ext)
    mon.distinct(repr(rows(m)), ext)
    for t in tag:
        mon.event(t)
    frozen = repr(rows(m))

    name = gen.pick(rng, ['model', 'my.model', 'a b', 'ünï', 'model.csv', 'model.tar']) + '.' + (ext if rng.random() < 0.8 else gen.pick(rng, [ext.upper(), ext.capitalize()]))
    path = scratch / name
    if rng.random() < 0.3:
        # the file exists already, and is longer
        put(path, b'Z' * 20000)
        mon.event('overwritten')
    elif path.exists():
        path.unlink()
    target = path if rng.random() < 0.5 else str(path)
    _, ex = kit.outcome(m.to_file, target)
    mon.check(repr(rows(m)) == frozen, 'model-unchanged')

    plain = all(x == x.strip() and x.isprintable() for x in labels)
    spaced = any(x.split() != [x] for x in labels)
    if ex is not None:
        mon.check(ext == 'txt' and spaced and isinstance(ex, (ValueError, pydtmc.ValidationError)), 'written', lambda: f'{ex!r}')
        mon.event('refused-labels')
        path.unlink(missing_ok=True)
    else:
        back, ex = kit.outcome(cls.from_file, gen.pick(rng, [path, str(path)]))
        if ex is not None:
            # only labels which the format cannot carry may be refused
            control = any(ord(c) < 32 and c not in '\t\n\r' for x in labels for c in x)
            mon.check(isinstance(ex, (ValueError, OSError)) and ((ext == 'txt' and spaced) or (ext == 'xml' and control)), 'read-back', lambda: f'{ex!r} for {get(path)[:800]!r}')
            mon.event('refused-labels')
        else:
            mon.event('round-trip')
            mon.event(ext)
            mon.check(type(back) is cls and equal(back, m) and back == m and hash(back) == hash(m), 'round-trip', lambda: f'{back.p!r} {back.states!r} {getattr(back, "symbols", "")!r} from {get(path)[:1200]!r}')
            data = get(path)

            # every prefix of the file: refused, or the same model
            other = scratch / f'prefix.{ext}'
            for _ in range(10):
                cut = int(rng.integers(len(data))) if rng.random() < 0.5 else max(0, len(data) - int(rng.integers(1, 60)))
                put(other, data[:cut])
                mon.context(cut=cut)
                r = load(mon, cls, other, 'prefix')
                mon.event('prefix')
                if r is not None and min(float(v[v > 0].min()) for v in ([m.p] if cls is pydtmc.MarkovChain else [m.p, m.e])) < 1e-4:
                    # what is missing may be worth nothing, and a cut exponent turns 1e-9 into 1
                    mon.skip('prefix of a model with rare events')
                elif r is not None:
                    # probabilities cut in the middle pass only within the tolerance of the row sums
                    mon.check(equal(r, m, 3e-5), 'prefix', lambda: f'{data[:cut]!r} was read as {r.p!r} {r.states!r}')
            # damaged files: refused, or a valid model
            for _ in range(6):
                put(other, damage(rng, data))
                mon.event('damaged')
                if load(mon, cls, other, 'damaged') is None:
                    mon.event('damaged-refused')
            # the other kind of model
            if rng.random() < 0.3:
                load(mon, H if mc else MC, path, 'other-kind')
            other.unlink(missing_ok=True)
        path.unlink(missing_ok=True)

    # a file in the documented format, written by someone else
    if plain and not (ext == 'txt' and spaced) and '\ufeff' not in ''.join(labels):
        mon.event('hand-written')
        path = scratch / f'hand.{ext}'
        put(path, write(rng, m, ext))
        back, ex = kit.outcome(cls.from_file, str(path))
        mon.check(ex is None, 'hand-written', lambda: f'{ex!r} for {get(path)[:1500]!r}')
        mon.check(equal(back, m), 'hand-written', lambda: f'{back.p!r} {back.states!r} {getattr(back, "symbols", "")!r} from {get(path)[:1500]!r}')
        path.unlink()
        for _ in range(2):
            what, text = foreign(rng, m, ext)
            mon.context(foreign=(ext, what))
            mon.event('foreign')
            put(path, text)
            _, ex = kit.outcome(cls.from_file, str(path))
            mon.check(isinstance(ex, (ValueError, OSError, pydtmc.ValidationError)), 'foreign-refused', lambda: f'{ext}/{what}: {ex!r} for {text[:1500]!r}')
            path.unlink()

    if rng.random() < 0.25:
        mon.event('refused-path')
        what = gen.pick(rng, ['extension', 'none', 'missing', 'directory', 'empty', 'parent', 'number', 'blank', 'noextension'])
        mon.context(bad=what)
        good = scratch / 'x.json'
        if what in ('extension', 'noextension'):
            p = scratch / ('x' if what == 'noextension' else gen.pick(rng, ['x.doc', 'x.json.bak', 'x.', 'json', 'x.jsonx']))
            kit.rejected(mon, pydtmc, 'refused-path', m.to_file, gen.pick(rng, [p, str(p)]), allow=(OSError,))
            mon.check(not p.exists(), 'refused-path')
            put(p, b'[]')
            kit.rejected(mon, pydtmc, 'refused-path', cls.from_file, str(p), allow=(OSError,))
            p.unlink()
        elif what in ('none', 'number', 'blank'):
            bad = {'none': None, 'number': 5, 'blank': '  '}[what]
            kit.rejected(mon, pydtmc, 'refused-path', m.to_file, bad, allow=(OSError,))
            kit.rejected(mon, pydtmc, 'refused-path', cls.from_file, bad, allow=(OSError,))
        elif what == 'missing':
            kit.rejected(mon, pydtmc, 'refused-path', cls.from_file, scratch / 'absent.csv', allow=(OSError,))
        elif what == 'directory':
            d = scratch / 'dir.csv'
            d.mkdir(exist_ok=True)
            kit.rejected(mon, pydtmc, 'refused-path', cls.from_file, d, allow=(OSError,))
            kit.rejected(mon, pydtmc, 'refused-path', m.to_file, str(d), allow=(OSError,))
            d.rmdir()
        elif what == 'empty':
            for e in ('csv', 'json', 'txt', 'xml'):
                p = scratch / f'empty.{e}'
                put(p, b'')
                kit.rejected(mon, pydtmc, 'refused-path', cls.from_file, p, allow=(OSError, ValueError))
                p.unlink()
        else:
            kit.rejected(mon, pydtmc, 'refused-path', m.to_file, str(scratch / 'nowhere' / 'x.csv'), allow=(OSError,))
            mon.check(not (scratch / 'nowhere').exists(), 'refused-path')
