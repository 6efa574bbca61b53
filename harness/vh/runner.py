# Runs one check: spawns workers (each one with its own hash seed), merges what their monitors observed, writes the
# evidence and reports. Exit 0: held; 1: VIOLATION; 2: inconclusive (the monitors observed too little) or broken.
import argparse
import collections
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = pathlib.Path(__file__).resolve().parent.parent
VERIF = HERE.parent
WORKERS = 8


class CaseTimeout(BaseException):
    pass


def load_known(prop):
    path = VERIF / 'known_findings.json'
    data = json.loads(path.read_text()) if path.exists() else []
    return {x['key']: x for x in data if x.get('property') == prop and x.get('status') == 'known'}


def load_prop(prop):
    sys.path.insert(0, str(HERE))
    for f in sorted((HERE / 'props').glob('*.py')):
        if f.name.lower().startswith(prop.lower() + '_'):
            return importlib.import_module('props.' + f.stem)
    raise SystemExit(f'no check for {prop}')


def case_rng(prop, seed, index):
    import numpy as np
    return np.random.default_rng([zlib.crc32(prop.encode()), int(seed) & 0xffffffff, int(index)])


def run_case(mod, mon, rng, index, tier, limit):

    from . import monitor

    def on_alarm(*_):
        raise CaseTimeout()

    import numpy as np
    mon.begin(index)
    np.random.seed(int(rng.integers(2**32)))
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)

    try:
        mod.case(rng, mon, tier, index)
    except monitor.Violation:
        pass
    except CaseTimeout as ex:
        mon.crash(ex)
        mon.violations[-1]['rule'] = 'no-termination'
        mon.violations[-1]['detail'] = f'the case did not terminate within {limit} s; ' + mon.violations[-1]['detail'][-600:]
    except Exception as ex:
        mon.crash(ex)
    finally:
        signal.alarm(0)

    mon.end()


def worker(args):

    from . import env
    env.load()

    from .monitor import Monitor

    mod = load_prop(args.property)
    mon = Monitor(args.property, set(load_known(args.property)))
    limit = getattr(mod, 'CASE_LIMIT', 60)
    started = time.time()
    indices = [int(x) for x in args.cases.split(',')] if args.cases else range(args.worker, args.total, args.stride)
    done = 0

    for index in indices:
        if args.cap and time.time() - started > args.cap:
            break
        run_case(mod, mon, case_rng(args.property, args.seed, index), index, args.tier, limit)
        done += 1
        if len(mon.violations) >= 6:
            break

    # 'everywhere' runs in every process, 'finish' in one of them
    for name in ('everywhere', 'finish'):
        if not hasattr(mod, name) or (name == 'finish' and args.worker != 0):
            continue
        mon.begin(-1)
        signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(CaseTimeout()))
        signal.alarm(240)
        try:
            getattr(mod, name)(mon, args.tier, int(args.seed))
        except CaseTimeout as ex:
            mon.crash(ex)
            mon.violations[-1]['rule'] = 'no-termination'
        except Exception as ex:
            if type(ex).__name__ != 'Violation':
                mon.crash(ex)
        finally:
            signal.alarm(0)

    rep = mon.report()
    rep['done'] = done
    pathlib.Path(args.out).write_text(json.dumps(rep))
    return 0


def main(argv):

    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    parser.add_argument('--worker', type=int)
    parser.add_argument('--stride', type=int, default=WORKERS)
    parser.add_argument('--total', type=int, default=0)
    parser.add_argument('--cap', type=float, default=0)
    parser.add_argument('--cases', default='')
    parser.add_argument('--out', default='')
    parser.add_argument('--scale', type=float, default=1.0)
    args = parser.parse_args(argv)
    args.seed = str(abs(int(args.seed)) if str(args.seed).lstrip('-').isdigit() else zlib.crc32(str(args.seed).encode()))

    if args.worker is not None:
        return worker(args)

    if os.path.exists(args.property):  # a replay file
        rep = json.loads(pathlib.Path(args.property).read_text())
        if any(v['rule'] == 'agreement' for v in rep['violations']):
            return orchestrate(args, rep['property'], rep['tier'], str(rep['seed']))
        return orchestrate(args, rep['property'], rep['tier'], str(rep['seed']), cases=[v['case'] for v in rep['violations']], hashseed=rep['violations'][0].get('hashseed'))

    return orchestrate(args, args.property, args.tier, args.seed)


def orchestrate(args, prop, tier, seed, cases=None, hashseed=None):

    from . import env

    started = time.time()
    mod_path = [f for f in sorted((HERE / 'props').glob('*.py')) if f.name.lower().startswith(prop.lower() + '_')]
    if not mod_path:
        print(f'no check for {prop}')
        return 2
    meta = read_meta(mod_path[0])
    total = max(8, int(meta['CASES'][0 if tier == 'quick' else 1] * args.scale))
    cap = meta['CAP'][0 if tier == 'quick' else 1]
    known = load_known(prop)

    scratch = tempfile.mkdtemp(prefix=f'vh_{prop}_')
    base_env = env.prepare_environment(dict(os.environ), scratch)
    base_env['PYTHONPATH'] = str(HERE)
    procs = []
    replaying = cases is not None

    try:
        count = 1 if replaying else WORKERS
        for w in range(count):
            e = dict(base_env)
            hs = hashseed if hashseed is not None else (0 if w == 0 else (int(seed) * 977 + w * 131) % 4294967295)
            e['PYTHONHASHSEED'] = str(hs)
            wd = os.path.join(scratch, f'w{w}')
            os.makedirs(wd)
            e['TMPDIR'] = wd
            e['VERIF_SCRATCH'] = wd
            e['MPLCONFIGDIR'] = os.path.join(wd, 'mpl')
            os.makedirs(e['MPLCONFIGDIR'])
            out = os.path.join(scratch, f'out{w}.json')
            cmd = [sys.executable, str(HERE / 'run.py'), prop, tier, '--seed', seed, '--worker', str(w), '--stride', str(count), '--total', str(total), '--cap', str(cap), '--out', out]
            if replaying:
                cmd += ['--cases', ','.join(str(c) for c in sorted(set(cases)) if c is not None and c >= 0) or '0']
            log = open(os.path.join(scratch, f'log{w}'), 'wb')
            procs.append((subprocess.Popen(cmd, env=e, cwd=wd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), out, log, hs))

        deadline = started + cap + 300
        reports, broken = [], []
        for w, (p, out, log, hs) in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = 'timeout'
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            log.close()
            if os.path.exists(out):
                r = json.loads(pathlib.Path(out).read_text())
                for v in r['violations']:
                    v['hashseed'] = hs
                reports.append(r)
            else:
                tail = pathlib.Path(os.path.join(scratch, f'log{w}')).read_bytes()[-1500:].decode('utf-8', 'replace')
                broken.append((rc, tail))
    finally:
        for p, _, log, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    rules, events, skipped = collections.Counter(), collections.Counter(), collections.Counter()
    nontrivial, samples, violations, hits, evaluated = set(), [], [], {}, 0
    agreed = {}
    for r in reports:
        rules.update(r['rules'])
        events.update(r['events'])
        skipped.update(r['skipped'])
        nontrivial.update(r['nontrivial'])
        samples += r['samples'][:1]
        violations += r['violations']
        hits.update(r['known_hits'])
        evaluated += r['cases']
        for key, value in r['agreed'].items():
            first = agreed.setdefault(key, value)
            if first != value:
                violations.append({'rule': 'agreement', 'case': -1, 'detail': f'{key}: one process observed {first}, another one {value}', 'context': {}, 'hashseed': 0})

    wall = time.time() - started
    minimum = meta['MINIMUM']
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': evaluated, 'distinct_nontrivial': len(nontrivial), 'rule': meta['RULE'],
            'oracle_evaluations': int(sum(rules.values())), 'oracle_evaluations_by_rule': dict(sorted(rules.items())),
            'observed_events': dict(sorted(events.items())), 'skipped': dict(sorted(skipped.items())),
            'samples': samples[:6] or ['none'], 'workers': len(reports), 'known_findings_observed': sorted(hits)
        },
        'assumptions': meta['ASSUMPTIONS'], 'wall_s': round(wall, 2), 'violations': len(violations)
    }
    if not replaying:
        edir = VERIF / 'evidence'
        edir.mkdir(exist_ok=True)
        (edir / f'{prop}.json').write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + '\n')

    for key in sorted(hits):
        print(f'KNOWN-FINDING: property={prop} {known[key]["what"]}')

    if broken and not violations:
        # a worker which dies without a report is an observation only when the code under test cannot even be loaded
        print(f'BROKEN: {len(broken)} worker(s) ended without a report: {broken[0][0]}\n{broken[0][1]}')

    if violations:
        rdir = VERIF / 'evidence' / 'replay'
        rdir.mkdir(parents=True, exist_ok=True)
        rpath = rdir / f'{prop}_{tier}_{seed}.json'
        if not replaying:
            rpath.write_text(json.dumps({'property': prop, 'tier': tier, 'seed': int(seed), 'violations': violations[:20]}, indent=1) + '\n')
        seen = collections.Counter(v['rule'] for v in violations)
        for v in violations[:3]:
            print(f'  rule {v["rule"]} case {v["case"]}: {v["detail"][-900:]}')
            for k, x in list(v['context'].items())[:8]:
                print(f'    {k} = {x[:400]}')
        print(f'  violated rules: {dict(seen)}')
        print(f'VIOLATION property={prop} replay={rpath}')
        return 1

    if broken:
        return 2

    if not replaying:
        lacking = {}
        for name, least in minimum.items():
            got = evaluated if name == 'cases' else len(nontrivial) if name == 'distinct' else max(rules.get(name, 0), events.get(name, 0))
            if got < least:
                lacking[name] = (got, least)
        if lacking:
            print(f'INCONCLUSIVE property={prop}: the monitors observed too little: {lacking}')
            return 2

    print(f'OK property={prop} tier={tier} seed={seed} cases={evaluated} distinct={len(nontrivial)} oracle={sum(rules.values())} wall={wall:.1f}s')
    return 0


def read_meta(path):
    # the metadata is read without importing the check, so that the orchestrating process never loads the code under test
    import ast
    values = {'CASES': (200, 2000), 'CAP': (60, 600), 'MINIMUM': {}, 'RULE': '', 'ASSUMPTIONS': []}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], 'id', None) in values:
            values[node.targets[0].id] = ast.literal_eval(node.value)
    return values
