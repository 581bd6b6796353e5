"""
Entry point: run.py ID [--tier quick|thorough] [--replay FILE] [--scale X]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself went wrong.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import core  # noqa: E402

# the cases of a quick run, as a multiple of those a test names
QUICK = 2
FINDINGS = os.path.join(core.VERIF, 'known_findings.txt')


def known_findings(prop):
    """[(key, what)] of the lines 'known: property=ID key=KEY what...'."""
    out = []
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS, encoding='utf-8'):
        parts = line.strip().split(None, 3)
        if len(parts) == 4 and parts[0] == 'known:' \
                and parts[1] == f'property={prop}':
            out.append((parts[2].partition('=')[2], parts[3]))
    return out


def jobs_of(mod, tier, seed, scale):
    for test in mod.TESTS:
        if test.pinned:
            yield test, 0, -1
        total = int((test.quick * QUICK if tier == 'quick'
                     else test.thorough) * scale)
        total = max(total, 1)
        procs = min(test.procs if tier == 'quick' else 8, total)
        share = -(-total // procs)
        for i in range(procs):
            h = hashlib.sha256(f'{seed}/{mod.ID}/{test.name}/{i}'.encode())
            yield test, int.from_bytes(h.digest()[:8], 'big'), share


def spawn(test, seed, n, known, path):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        core.run_chunk(test, seed, n, known, path)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def run_all(mod, tier, seed, scale, known, budget):
    results = []
    pending = list(jobs_of(mod, tier, seed, scale))
    running = {}
    stop_at = time.time() + budget
    failed = False
    with tempfile.TemporaryDirectory(prefix='pbt-run-',
                                     dir=core.scratch_root()) as tmp:
        count = 0
        while pending or running:
            while pending and len(running) < (os.cpu_count() or 4) \
                    and not failed:
                test, s, n = pending.pop(0)
                path = os.path.join(tmp, f'{count}.pkl')
                count += 1
                running[spawn(test, s, n, known, path)] = (test, path)
            if not running:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid and pid in running:
                test, path = running.pop(pid)
                results.append(collect(test, path, status))
                if results[-1]['failure'] or results[-1]['harness']:
                    failed = True
                continue
            if time.time() > stop_at:
                for p in list(running):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    test, path = running.pop(p)
                    r = collect(test, path, 1)
                    if r['harness'] and not r['failure']:
                        r['harness'] = 'time budget exceeded'
                    results.append(r)
                pending = []
                break
            time.sleep(0.01)
    return results


def collect(test, path, status):
    if os.path.exists(path):
        with open(path, 'rb') as f:
            r = pickle.load(f)
        if r['failure'] is None and status != 0 and not r['harness']:
            r['harness'] = f'worker ended with status {status}'
    else:
        r = {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [],
             'known_hit': set(), 'failure': None,
             'harness': f'worker ended with status {status} and no result'}
    r['test'] = test
    return r


def replay_file(mod, failure, seed):
    test, f = failure
    folder = os.path.join(core.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    name = f'{mod.ID}-{test.name.replace(" ", "_")}-{core.digest(f["case"]).hex()}.json'
    path = os.path.join(folder, name)
    with open(path, 'w', encoding='utf-8') as out:
        json.dump({'property': mod.ID, 'test': test.name, 'case': f['case'],
                   'message': f['message'], 'seed': seed}, out, indent=1)
    return path


def raised_by_repo(error):
    """Whether importing the code under test failed in that code (and not in a
    name which the harness asked of it)."""
    frames = traceback.extract_tb(error.__traceback__)
    inside = [f for f in frames
              if os.path.realpath(f.filename).startswith(
                  os.path.realpath(core.REPO) + os.sep)]
    return bool(inside) and isinstance(error, Exception)


def broken_import(a, error, seed):
    """The code under test cannot even be loaded: nothing it promises holds."""
    folder = os.path.join(core.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{a.id}-import.json')
    what = f'{type(error).__name__}: {error}'
    with open(path, 'w', encoding='utf-8') as out:
        json.dump({'property': a.id, 'test': None, 'case': 'import',
                   'message': what, 'seed': seed}, out, indent=1)
    print(f'the code of this property cannot be imported: {what}')
    print(f'VIOLATION property={a.id} replay={path}')
    return 1


def evidence(mod, tier, seed, results, wall, violations):
    hashes, samples, labels, rules = set(), [], {}, []
    per = {}
    for r in results:
        t = r['test'].name
        p = per.setdefault(t, {'evaluations': 0, 'distinct': set(),
                               'labels': {}})
        p['evaluations'] += r['evaluations']
        p['distinct'] |= r['hashes']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        hashes |= {(t, h) for h in r['hashes']}
    for test in mod.TESTS:
        rules.append(f'{test.name}: {test.rule}')
        mine = [s for r in results if r['test'] is test for s in r['samples']]
        mine.sort(key=lambda s: len(core.canon(s)))
        # a small, a middling and a larger one
        for i in sorted({0, len(mine) // 2, (4 * len(mine)) // 5}):
            if i < len(mine):
                text = core.canon(mine[i])
                samples.append({'test': test.name,
                                'case': mine[i] if len(text) < 4000
                                else text[:4000] + '...'})
    doc = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(hashes),
            'rule': ' | '.join(rules),
            'samples': samples,
            'tests': {t: {'evaluations': p['evaluations'],
                          'distinct_nontrivial': len(p['distinct']),
                          'classes': dict(sorted(p['labels'].items()))}
                      for t, p in per.items()},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    folder = os.path.join(core.VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{mod.ID}.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(doc, f, indent=1, default=repr)
    os.replace(path + '.tmp', path)
    return doc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    try:
        mod = importlib.import_module(f'props.{a.id.lower()}')
        known = known_findings(mod.ID)
        keys = [k for k, _ in known]
    except BaseException as e:
        traceback.print_exc()
        if raised_by_repo(e):
            return broken_import(a, e, seed)
        return 2

    if a.replay:
        doc = json.load(open(a.replay, encoding='utf-8'))
        if doc['test'] is None:
            print('held: it can be imported')
            return 0
        test = {t.name: t for t in mod.TESTS}[doc['test']]
        try:
            core.run_case(test, doc['case'], keys)
        except (core.Violation, core.CaseHang) as e:
            print(e)
            print(f'VIOLATION property={mod.ID} replay={a.replay}')
            return 1
        print('held')
        return 0

    budget = a.budget or (700 if tier == 'quick' else 6 * 3600)
    results = run_all(mod, tier, seed, a.scale, keys, budget)
    wall = time.time() - start
    failures = [(r['test'], r['failure']) for r in results if r['failure']]
    harness = [(r['test'], r['harness']) for r in results if r['harness']]
    doc = evidence(mod, tier, seed, results, wall, len(failures))
    cov = doc['coverage']
    hit = set().union(*[r['known_hit'] for r in results]) if results else set()
    for key, what in known:
        if key in hit:
            print(f'KNOWN-FINDING: property={mod.ID} {what} [{key}]')
    if a.v:
        print(json.dumps(cov['tests'], indent=1))
    print(f'{mod.ID} {tier}: {cov["evaluations"]} cases, '
          f'{cov["distinct_nontrivial"]} distinct non-trivial, '
          f'{wall:.1f} s')
    if failures:
        test, f = min(failures, key=lambda tf: len(core.canon(tf[1]['case'])))
        path = replay_file(mod, (test, f), seed)
        print(f'{test.name}: {f["message"]}')
        print(f'case: {core.canon(f["case"])[:3000]}')
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    if harness:
        for test, text in harness[:2]:
            print(f'HARNESS ERROR in {test.name}:\n{text}', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
