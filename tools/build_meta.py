# Writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md (from DESIGN.head.md and DESIGN.tail.md) out of table.py.
import ast
import json
import pathlib

from table import ROWS

V = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
files = {p.stem[:3].upper(): p for p in (V / 'harness/props').glob('c*.py')}
known = json.loads((V / 'known_findings.json').read_text())


def constants(p):
    out = {}
    for node in ast.parse(p.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


props, checks, na, design = [], [], [], []
for pid, title, statement, over, text, why, anchors, oracle, load in ROWS:
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (pid, statement)
    props.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text[0].upper() + text[1:] + '.'}, 'why_tests_cant': why,
                  'anchors': {'files': list(anchors), 'mechanism': [{'name': n, 'where': f} for f, ns in anchors.items() for n in ns], 'hook_needed': None}})
    if pid not in files:
        na.append({'property': pid, 'reason': 'its monitor is not written yet'})
        continue
    c = constants(files[pid])
    quick, thorough = c['CASES']
    checks.append({'property': pid, 'quick_cmd': f'{PY} harness/run.py {pid} quick', 'thorough_cmd': f'{PY} harness/run.py {pid} thorough',
                   'technique': 'runtime monitoring: ' + oracle, 'level': 'exploration',
                   'level_note': f'The real code is executed on generated workloads ({quick} cases, {thorough} in the thorough tier) and every observation is judged by an oracle which shares no code with it; only what is executed is judged.' + (' Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '.' if c.get('ASSUMPTIONS') else '')})
    design.append(f'### {pid} {title}\n\n{statement}\n\n- Monitor: {oracle}.\n- Workload: {load}; {text}. {quick} cases (quick), {thorough} (thorough); {c["RULE"]}.\n- Must be observed in every quick run: ' + ', '.join(f'{k} ≥ {v}' for k, v in c['MINIMUM'].items()) +
                  '.\n- Beyond the tests: ' + why + '\n' + ''.join(f'- Assumption: {a}.\n' for a in c.get('ASSUMPTIONS', [])) +
                  ''.join(f'- Known finding `{k["key"]}`: {k["what"]}.\n' for k in known if k['property'] == pid and k['status'] == 'known') +
                  ''.join(f'- Fixed in {k["commit"]}: {k["what"]}.\n' for k in known if k['property'] == pid and k['status'] == 'fixed'))

(V / 'properties.jsonl').write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
(V / 'MANIFEST.json').write_text(json.dumps({'version': 1, 'setup_cmd': f'{PY} harness/setup.py', 'checks': checks, 'not_applicable': na,
                                             'notes': 'No hooks were added to the repository; see DESIGN.md.'}, indent=1, ensure_ascii=False) + '\n')
seeded = {}
for f in sorted((V / 'seeded').glob('*/meta.json')):
    m = json.loads(f.read_text())
    seeded.setdefault(m['property'], []).append(f'- `{f.parent.name}`: {m["what_it_breaks"]}; needs {m["needs"]}')
table = ''.join(f'\n### Caught by {k}\n\n' + '\n'.join(v) + '\n' for k, v in sorted(seeded.items()))
(V / 'DESIGN.md').write_text((V / 'tools/DESIGN.head.md').read_text() + '\n' + '\n'.join(design) + '\n' + (V / 'tools/DESIGN.tail.md').read_text() + table)
print(len(props), 'properties,', len(checks), 'checks')
