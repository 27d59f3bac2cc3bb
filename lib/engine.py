"""The engine: runs the generated-input search of one property over parallel worker processes.

    engine.py check <ID> [quick|thorough]
    engine.py replay <file>
    engine.py setup

A check module (checks/<ID>.py) defines  SUBS = [Sub(...), ...].  A Sub has a Hypothesis strategy of
JSON-able cases and a function `prop(case)`, which raises `Violation` when the oracle disagrees and returns
a dict of facts about the case: {'nontrivial': bool, 'labels': [...], 'excluded': bool}.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from lib import boot  # noqa: E402
from lib.core import Violation, HarnessError, Sub, canon, load_known  # noqa: E402


CHUNK = 30


def case_hash(sub, case):
    return hashlib.sha1((sub + canon(case)).encode()).hexdigest()[:16]


def classify(exc):
    """'violation' if the exception arose in the code under test (or in a library it called), else 'harness'."""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt)):
        return 'harness'
    tb = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(tb):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(os.path.realpath(boot.REPO) + os.sep):
            return 'violation'
        if fn.startswith(os.path.realpath(ROOT) + os.sep):
            # the harness tripped over what the code under test returned (a wrong shape, a missing entry, ..);
            # a missing name or argument is a mismatch of the harness with the code
            if isinstance(exc, (IndexError, KeyError, ValueError, ZeroDivisionError, OverflowError,
                                AssertionError)) or 'LinAlgError' in type(exc).__name__:
                return 'violation'
            if isinstance(exc, TypeError) and 'argument' not in str(exc):
                return 'violation'
            return 'harness'
    return 'harness'


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(os.path.realpath(boot.REPO) + os.sep):
            where = f' at {os.path.relpath(fn, os.path.realpath(boot.REPO))}:{fr.lineno} in {fr.name}'
            break
    return f'unexpected {type(exc).__name__} on a valid input{where}: {str(exc)[:400]}'


def run_case(sub, case):
    """Returns (status, info): status in ok / violation / harness."""
    try:
        facts = sub.prop(json.loads(json.dumps(case))) or {}
        return 'ok', facts
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        kind = classify(e)
        return kind, {'what': describe(e), 'key': getattr(e, 'key', None),
                      'trace': traceback.format_exc()[-3000:]}


def load_check(pid):
    return importlib.import_module('checks.' + pid)


def make_body(sub, st, fails, state, log, known, res, deadline):
    def body(case):
        now = time.time()
        if state['stop'] or now > deadline:
            state['stop'] = True
            return
        if state['first_fail'] is not None and now - state['first_fail'] > sub.shrink_s:
            return
        status, info = run_case(sub, case)
        log.append(case)
        if state['first_fail'] is None:
            st['evaluations'] += 1
        if status == 'ok':
            if state['first_fail'] is None:
                if info.get('excluded'):
                    st['excluded'] += 1
                if info.get('nontrivial', True):
                    h = case_hash(sub.name, case)
                    if h not in st['nontrivial']:
                        st['nontrivial'][h] = 1
                        if len(st['samples']) < 2 and len(st['nontrivial']) in (1, 3):
                            st['samples'].append({'sub': sub.name, 'case': case,
                                                  'facts': info.get('labels', [])})
                for lb in info.get('labels', []):
                    st['labels'][lb] = st['labels'].get(lb, 0) + 1
            return
        if status == 'violation':
            for k in known:
                if k['sub'] == sub.name and k.get('key') is not None and k['key'] == info.get('key'):
                    st['known'] += 1
                    return
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            fails.append({'sub': sub.name, 'case': case, 'what': info['what'], 'key': info.get('key'),
                          'trace': info['trace'], 'nlog': len(log)})
            raise Violation(info['what'])
        # harness error
        res['harness'].append({'sub': sub.name, 'case': case, 'what': info['what'], 'trace': info['trace']})
        state['stop'] = True
    return body


# ---------------------------------------------------------------------------------------------- worker
def worker(pid, tier, seed, idx, nw, out, deadline):
    boot.add_hypothesis()
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    mod = load_check(pid)
    known = load_known(pid)
    t_start = time.time()
    boot.phyem()
    res = {'subs': {}, 'fails': [], 'harness': [], 'truncated': []}
    for sub in mod.SUBS:
        total = sub.quick if tier == 'quick' else sub.thorough
        shards = min(nw, sub.shards or nw, max(1, total))
        if idx >= shards:
            continue
        n = total // shards + (1 if idx < total % shards else 0)
        if n == 0:
            continue
        st = {'evaluations': 0, 'nontrivial': {}, 'labels': {}, 'samples': [], 'known': 0, 'excluded': 0,
              'wall': 0.0}
        res['subs'][sub.name] = st
        fails = []
        log = []       # the cases run so far in this process for this sub
        state = {'first_fail': None, 'stop': False}
        t0 = time.time()

        body = make_body(sub, st, fails, state, log, known, res, deadline)
        phases = [Phase.generate] + ([Phase.shrink] if sub.shrink_s > 0 else [])
        done, chunk = 0, 0
        while done < n and not fails and not state['stop']:
            # many short runs of Hypothesis, each with its own seed, spread wider than one long run
            m = min(CHUNK, n - done)
            sub_seed = int(hashlib.sha1(f'{seed}/{pid}/{sub.name}/{idx}/{chunk}'.encode()).hexdigest()[:12], 16)
            test = settings(max_examples=m, database=None, deadline=None, derandomize=False, print_blob=False,
                            suppress_health_check=list(HealthCheck), phases=phases,
                            report_multiple_bugs=False)(hypothesis.seed(sub_seed)(given(sub.strategy())(body)))
            try:
                test()
            except Violation:
                pass
            except BaseException as e:  # noqa  (Hypothesis' own Flaky etc. after the shrink budget)
                if not fails:
                    res['harness'].append({'sub': sub.name, 'case': None, 'what': repr(e)[:500],
                                           'trace': traceback.format_exc()[-3000:]})
                    break
            done += m
            chunk += 1
        if state['stop'] and time.time() > deadline:
            res['truncated'].append(sub.name)
        st['nontrivial'] = sorted(st['nontrivial'])
        st['wall'] = time.time() - t0
        if fails:
            best = min(fails, key=lambda f: (len(canon(f['case'])), canon(f['case'])))
            first = fails[0]
            best['history'] = log[:first['nlog'] - 1]
            best['first_case'] = first['case']
            best['first_what'] = first['what']
            res['fails'].append(best)
    res['wall'] = time.time() - t_start
    with open(out, 'w') as f:
        json.dump(res, f)


# ---------------------------------------------------------------------------------------------- master
def check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    mod_known = load_known(pid)
    nw = int(os.environ.get('VP_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('VP_BUDGET', '0')) or (600. if tier == 'quick' else 3.0 * 3600)
    d = boot.scratch()
    env = dict(os.environ)
    env['VP_SCRATCH'] = d
    procs = []
    deadline = t0 + budget
    for i in range(nw):
        out = os.path.join(d, f'w{i}.json')
        err = open(os.path.join(d, f'w{i}.err'), 'w')
        p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__), '_worker', pid, tier, str(seed),
                              str(i), str(nw), out, str(deadline)], env=env, stdout=err, stderr=err,
                             cwd=ROOT)
        procs.append((p, out, err.name))
    results, broken = [], []
    for i, (p, out, err) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1., deadline + 200 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = 'timeout'
        if rc == 0 and os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            broken.append((i, rc, open(err).read()[-2000:]))
    # the known findings are reproduced one by one (deterministic, cheap)
    # merge
    subs, fails, harness, truncated = {}, [], [], []
    for r in results:
        for name, st in r['subs'].items():
            m = subs.setdefault(name, {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [],
                                       'known': 0, 'excluded': 0, 'wall': 0.})
            m['evaluations'] += st['evaluations']
            m['nontrivial'].update(st['nontrivial'])
            for k, v in st['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
            m['samples'] += st['samples']
            m['known'] += st['known']
            m['excluded'] += st['excluded']
            m['wall'] = max(m['wall'], st['wall'])
        fails += r['fails']
        harness += r['harness']
        truncated += r['truncated']
    by_sub = {}
    for f in fails:
        by_sub.setdefault(f['sub'], []).append(f)
    lines = []
    for name, fs in sorted(by_sub.items()):
        f = min(fs, key=lambda f: (len(canon(f['case'])), canon(f['case'])))
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{name}-{case_hash(name, f['case'])}.json")
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'sub': name, 'case': f['case'], 'what': f['what'], 'trace': f['trace'],
                       'history': f.get('history', [])[-200:], 'first_case': f.get('first_case'),
                       'seed': seed, 'tier': tier}, fh, indent=1)
        lines.append((name, f, path))
    mod = load_check(pid)
    cov = {
        'evaluations': sum(m['evaluations'] for m in subs.values()),
        'distinct_nontrivial': sum(len(m['nontrivial']) for m in subs.values()),
        'rule': ' | '.join(f'{s.name}: {s.rule}' for s in mod.SUBS),
        'samples': [s for m in subs.values() for s in m['samples'][:2]],
        'per_subcheck': {n: {'evaluations': m['evaluations'], 'distinct_nontrivial': len(m['nontrivial']),
                             'labels': dict(sorted(m['labels'].items())), 'known_finding_hits': m['known'],
                             'excluded': m['excluded'],
                             'max_worker_wall_s': round(m['wall'], 2)} for n, m in subs.items()},
        'truncated_by_time_budget': sorted(set(truncated)),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(lines)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k in mod_known:
        if 'replay_case' in k:
            sub = [s for s in mod.SUBS if s.name == k['sub']][0]
            boot.phyem()
            status, info = run_case(sub, k['replay_case'])
            if status == 'violation':
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
            else:
                print(f"note: known finding no longer reproduces: {k['what']}")
    for name, f, path in lines:
        print(f"-- {name}: {f['what']}\n   minimal case: {canon(f['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{len(lines)} violations, {ev['wall_s']} s")
    if lines:
        return 1
    if harness or broken:
        for h in harness[:5]:
            print('HARNESS ERROR', h['sub'], canon(h['case'])[:800], h['what'], '\n', h['trace'])
        for b in broken[:3]:
            print('WORKER DIED', b[0], b[1], b[2])
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    mod = load_check(r['property'])
    sub = [s for s in mod.SUBS if s.name == r['sub']][0]
    boot.phyem()
    status, info = run_case(sub, r['case'])
    if status != 'violation' and r.get('history'):
        print('the minimal case alone passes; replaying it after the history of its process')
        for c in r['history']:
            run_case(sub, c)
        status, info = run_case(sub, r.get('first_case') or r['case'])
    print(status, json.dumps(info, default=str)[:3000] if status == 'ok' else info['what'] + '\n' + info['trace'])
    if status == 'violation':
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if status == 'ok' else 2


def setup():
    """Nothing is compiled; confirm that everything needed is there."""
    boot.add_hypothesis()
    import hypothesis
    ph = boot.phyem()
    print('hypothesis', hypothesis.__version__, '; phyem from', os.path.realpath(ph.__path__[0]))
    return 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == '_worker':
        worker(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), sys.argv[7],
               float(sys.argv[8]))
        rc = 0
    elif cmd == 'check':
        rc = check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick'))
    elif cmd == 'replay':
        rc = replay(os.path.abspath(sys.argv[2]))
    elif cmd == 'setup':
        rc = setup()
    else:
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
