#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough]     decide one property on /repo's current tree
   check.py --replay FILE                   run a recorded failing input again

Exit 0: every obligation discharged (and no failing input found); 1: VIOLATION.  See DESIGN.md.
"""
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('GCSV_PYTHON') or '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable
if os.environ.get('GCSV_CHILD') != '1':
    os.environ['GCSV_CHILD'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
T0 = time.time()


# ------------------------------------------------------------------ proofs

def proof_job(a):
    cname, label, tier, factor = a
    from gcsv import registry
    from gcsv.contracts import base
    cls = {c.__name__: c for c in registry.load()}[cname]
    scale = (1 if tier == 'quick' else 4) * factor
    t = time.time()
    R = base.verify(cls, only=label, timeout=(cls.timeout or 6000) * scale, budget=cls.budget * scale)
    obs = [(o.name, o.status, round(o.time, 3), o.func, o.detail, o.line) for o in R.obligations]
    return dict(contract=cname, target=cls.target, case=label, error=R.error, obligations=obs, paths=R.paths,
                inlined=sorted(R.inlined), used=sorted(R.used), assumptions=sorted(R.assumptions),
                wall=round(time.time() - t, 2), solver=R.solver)


def case_labels(cls):
    from gcsv.engine import Engine
    c = cls()
    try:
        return [l for l, _ in c.cases(Engine())]
    except Exception as e:
        return [None]


# ------------------------------------------------------------------ concrete side

def oracle_job(a):
    """Search for a failing input on the real code: exhaustive small cases, then generated ones."""
    pid, seed, part, parts, seconds, consts = a
    from gcsv import oracle as O
    try:
        O.load()
    except Exception as e:
        return dict(n=0, fail=(None, f'the code cannot be imported: {type(e).__name__}: {e}'), samples=[])
    P = O.PROPS[pid]
    t = time.time()
    n, samples, distinct = 0, [], set()
    bad = None

    def one(c):
        nonlocal n, bad
        n += 1
        key = json.dumps(c, sort_keys=True, default=str)
        if len(distinct) < 200000:
            distinct.add(hash(key))
        if n % 997 == 1 and len(samples) < 4:
            samples.append(c)
        m = O.run_case(pid, c)
        if m:
            bad = (c, m)
        return m
    for i, c in enumerate(P.small()):
        if i % parts == part:
            if one(c) or time.time() - t > seconds * 2 + 20:
                break
    if bad is None:
        g = O.Gen(random.Random(seed * 1000 + part), consts)
        while time.time() - t < seconds:
            if one(P.gen(g)):
                break
    return dict(n=n, fail=bad, samples=samples, distinct=len(distinct))


def mined_constants(repo):
    """Integer literals of the current source (generators use them as sizes and bounds)."""
    import ast
    out = set()
    for f in ('gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py'):
        try:
            for n in ast.walk(ast.parse(open(os.path.join(repo, f)).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                    if 2 <= abs(n.value) <= 10 ** 6:
                        out.add(abs(n.value))
        except Exception:
            pass
    return sorted(out)


def shrink_note(pid, case, msg):
    return {'property': pid, 'kind': 'input', 'case': case, 'message': msg,
            'rerun': 'python3 /verif/check.py --replay <this file>'}


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            l = l.strip()
            if l.startswith('finding:') and f'property={pid} ' in l + ' ':
                out.append(l[len('finding:'):].strip())
    except OSError:
        pass
    return out


def run(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('GCSV_REPO', '/repo')
    nproc = max(2, min(8, os.cpu_count() or 4))
    from gcsv import registry
    classes = registry.contracts_for(pid)
    from gcsv.contracts import base
    base.TIER = tier
    jobs = []
    for c in classes:
        labels = case_labels(c)
        for l in labels:
            jobs.append((c.__name__, l, tier, 1))
    consts = mined_constants(repo)
    ctx = mp.get_context('fork')
    quick_s = 8 if tier == 'quick' else 240
    parts = 2 if jobs else nproc
    ojobs = [(pid, seed, i, parts, quick_s, consts) for i in range(parts)]
    results, orc = [], []
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        oa = pool.map_async(oracle_job, ojobs, chunksize=1)
        ra = [(j, pool.apply_async(proof_job, (j,))) for j in jobs]
        limit = 660 if tier == 'quick' else 3000
        for j, r in ra:
            if limit > 420 and tier == 'quick' and any(not good(x) and not no_answer(x) for x in results):
                limit = 420      # an obligation is refuted or out of reach: the rest cannot change the verdict
            if limit > 150 and tier == 'quick' and oa.ready() and oa.successful() and any(o['fail'] for o in oa.get()):
                limit = 150      # nor can it when the real code fails on an input
            left = max(0.1, limit - (time.time() - T0))
            try:
                results.append(dict(r.get(left), job=j))
            except mp.TimeoutError:
                results.append(dict(contract=j[0], job=j, target='', case=j[1], error='time limit', obligations=[], paths=0,
                                    inlined=[], used=[], assumptions=[], wall=0, solver={}))
            except Exception as e:
                results.append(dict(contract=j[0], job=j, target='', case=j[1], error=f'crash: {e}', obligations=[], paths=0,
                                    inlined=[], used=[], assumptions=[], wall=0, solver={}))
        try:
            orc = oa.get(max(30.0, 120 if tier == 'quick' else 900))
        except mp.TimeoutError:
            orc = []
        pool.terminate()

    def count(results):
        failed, total, ok, stime = [], 0, 0, 0.0
        bounded_total = bounded_ok = 0
        targets, inlined, assumptions, bounds = {}, set(), set(), set()
        bycls = {c.__name__: c for c in classes}
        for r in results:
            cls = bycls[r['contract']]
            inlined |= set(r['inlined'])
            assumptions |= set(r['assumptions'])
            stime += r['solver'].get('time', 0.0)
            b = cls.bounded
            if b:
                bounds.add(f'{r["contract"]} ({cls.target}): {b}')
            t = targets.setdefault(f'{cls.target} [{r["contract"]}]', {'obligations': 0, 'discharged': 0, 'bounded': b or ''})
            for o in r['obligations']:
                t['obligations'] += 1
                if b:
                    bounded_total += 1
                else:
                    total += 1
                if o[1] == 'ok':
                    t['discharged'] += 1
                    if b:
                        bounded_ok += 1
                    else:
                        ok += 1
                else:
                    failed.append(dict(contract=r['contract'], function=o[3], obligation=o[0], answer=o[1], line=o[5],
                                       verifier_output=o[4]))
            if r['error']:
                failed.append(dict(contract=r['contract'], function=cls.target, obligation=f'[{r["case"]}] the function is within '
                                   'reach of the verifier', answer=r['error'], line=None, verifier_output=r['error']))
            elif not r['obligations']:
                failed.append(dict(contract=r['contract'], function=cls.target, obligation='at least one obligation is generated',
                                   answer='none', line=None, verifier_output=''))
        return failed, total, ok, stime, bounded_total, bounded_ok, targets, inlined, assumptions, bounds

    failed = count(results)[0]
    fail = next((o['fail'] for o in orc if o['fail']), None)
    searched = sum(o['n'] for o in orc)
    if failed and fail is None:
        # search harder for a concrete failing input; beside it, the proofs that gave no answer run again with more time
        secs = (60 if time.time() - T0 < 560 else 30) if tier == 'quick' else 240
        again = [r for r in results if no_answer(r)]
        again = again if len(again) <= 6 and len(again) == len([r for r in results if not good(r)]) else []
        with ctx.Pool(nproc + len(again), maxtasksperchild=1) as pool:
            more = [(r, pool.apply_async(proof_job, (r['job'][:3] + (3,),))) for r in again]
            ores = pool.map_async(oracle_job, [(pid, seed + 77, i, nproc, secs, consts) for i in range(nproc)], chunksize=1)
            try:
                o2 = ores.get(secs * 2 + 60)
            except mp.TimeoutError:
                o2 = []
            searched += sum(o['n'] for o in o2)
            fail = next((o['fail'] for o in o2 if o['fail']), None)
            if fail is None:
                for r, a in more:
                    try:
                        r2 = dict(a.get(max(1.0, limit + 180 - (time.time() - T0))), job=r['job'])
                    except Exception:
                        continue
                    if good(r2):
                        results[results.index(r)] = r2
            pool.terminate()
    failed, total, ok, stime, bounded_total, bounded_ok, targets, inlined, assumptions, bounds = count(results)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = known_findings(pid)
    code = 0
    lines = []
    replay = os.path.join(HERE, 'evidence', f'{pid}.replay.json')
    if os.path.exists(replay):
        os.remove(replay)
    if fail is not None:
        json.dump(dict(shrink_note(pid, *fail), failed_obligations=failed[:20]), open(replay, 'w'), indent=1, default=str)
        lines.append(f'VIOLATION property={pid} replay={replay}')
        lines.insert(0, f'failing input: {str(fail[0])[:400]}: {str(fail[1])[:400]}')
        code = 1
    elif failed:
        json.dump({'property': pid, 'kind': 'obligation', 'failed_obligations': failed[:40],
                   'searched_inputs': searched}, open(replay, 'w'), indent=1, default=str)
        lines.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
        code = 1
    for f in failed[:8]:
        lines.insert(0, f'failed obligation: {f["contract"]} {f["function"]} line {f["line"]}: {f["obligation"]} -> {str(f["answer"])[:300]}')
    for k in known:
        lines.append(f'KNOWN-FINDING: {k}')

    level = registry.LEVEL.get(pid, ('proof', ''))[0]
    trusted = ['gcsv: the symbolic executor of the Python subset, its loop rules (closed forms of counters, sums, maps, '
               'filters and stores) and its reading of builtins (len, range, zip, map, sum, isinstance, itertools.product, ...)',
               'the instantiated schemata of sums, products and integer division (gcsv/terms.py)',
               'z3 ' + z3_version(), 'CPython executes the source as the language reference says; integers are unbounded']
    cov = {'evaluations': searched, 'distinct_nontrivial': sum(o.get('distinct', 0) for o in orc),
           'rule': 'concrete cross-check on CPython: all small cases plus generated ones (seeded); distinct by JSON text',
           'samples': [s for o in orc for s in o['samples']][:6] or [None],
           'functions_under_contract': targets, 'inlined_functions': sorted(inlined),
           'solver_time_s': round(stime, 2),
           'slowest_cases': [[r['contract'], r['case'], r['wall']] for r in sorted(results, key=lambda r: -r['wall'])[:12]],
           'paths': sum(r['paths'] for r in results), 'bounded_stand_ins': sorted(bounds),
           'bounded_obligations': bounded_total, 'bounded_discharged': bounded_ok,
           'failed_obligations': failed[:20],
           'obligations': total, 'discharged': ok,
           'checker_cmd': f'python3 /verif/check.py {pid} --tier {tier}', 'trusted_base': trusted,
           'explanation': registry.LEVEL.get(pid, ('', ''))[1] or 'deductive verification of the current source'}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if code else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid}: {ok}/{total} obligations discharged' + (f', bounded stand-ins {bounded_ok}/{bounded_total}' if bounded_total else '')
          + f', {len(targets)} contracts, {searched} concrete cases, {time.time() - T0:.1f} s')
    for l in lines:
        print(l)
    return code


def good(r):
    return not r['error'] and r['obligations'] and all(o[1] == 'ok' for o in r['obligations'])


def no_answer(r):
    """the solver gave no answer, or time ran out (nothing was refuted, nothing was out of reach)"""
    if good(r):
        return False
    if r['error']:
        return 'time' in r['error'] and 'unsupported' not in r['error'] or 'time budget' in r['error']
    return all(o[1] in ('ok', 'unknown') for o in r['obligations']) and bool(r['obligations'])


def z3_version():
    import z3
    return z3.get_version_string()


def replay(path):
    d = json.load(open(path))
    if d.get('kind') != 'input':
        print('no concrete input in this file; failed obligations:')
        for f in d['failed_obligations']:
            print(' ', f['contract'], f['obligation'], f['answer'])
        return 1
    from gcsv import oracle as O
    O.load()
    m = O.run_case(d['property'], d['case'])
    print('case:', json.dumps(d['case']))
    print('result:', m or 'the property holds on this input')
    return 1 if m else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    pid = a[0]
    try:
        return run(pid, tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        replay_f = os.path.join(HERE, 'evidence', f'{pid}.replay.json')
        json.dump({'property': pid, 'kind': 'obligation', 'failed_obligations': [
            dict(contract='check', function='', obligation='the check runs', answer=str(e), line=None, verifier_output=traceback.format_exc())]},
            open(replay_f, 'w'))
        print(f'VIOLATION property={pid} replay={replay_f} no-failing-input-found')
        return 1


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
