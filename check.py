#!/usr/bin/env python3
"""check.py PID: verifies every contract of property PID against /repo's current source (run with python3-vt)."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = '/opt/venv/bin/python'
RUN = os.path.join(HERE, 'bounded', 'run.py')


def bounded_start(pid, seed, tier, seconds):
    return subprocess.Popen([VENV, RUN, pid, '--seed', str(seed), '--tier', tier, '--seconds', str(seconds)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd='/tmp')


def bounded_result(p, timeout):
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return {'violation': None, 'explored': 0, 'distinct': 0, 'samples': [], 'error': 'timeout', 'rule': ''}
    for line in o.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'violation': None, 'explored': 0, 'distinct': 0, 'samples': [], 'error': (e or o)[-1500:], 'rule': ''}


def try_cases(pid, cases):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        p = subprocess.run([VENV, RUN, pid, '--cases', f.name], capture_output=True, text=True, timeout=120, cwd='/tmp')
        for line in p.stdout.splitlines():
            if line.startswith('RESULT '):
                return json.loads(line[7:])['violation']
    except Exception:
        pass
    finally:
        os.unlink(f.name)
    return None


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = tier == 'thorough'
    have_bounded = os.path.exists(os.path.join(HERE, 'bounded', pid + '.py'))
    secs = 300 if thorough else 25
    bp = bounded_start(pid, seed, tier, secs) if have_bounded else None

    from pyvc import loader
    loader.install()
    from pyvc import vc
    load_error = None
    mod = None
    try:
        mod = importlib.import_module('contracts.' + pid)
        goals = vc.GOALS.get(pid, [])
    except Exception as e:  # the contracts no longer fit the code (a function under contract is gone)
        import traceback
        load_error = f'{type(e).__name__}: {e}'
        traceback.print_exc()
        goals = []
    if thorough:
        for g in goals:
            g.limit_s *= 2
            g.bound += 1
    results = vc.run_goals(goals, workers=8, wall=1500 if thorough else 420) if goals else []
    b = bounded_result(bp, secs + 90) if bp else {'violation': None, 'explored': 0, 'distinct': 0, 'samples': [],
                                                  'rule': 'none'}

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f'{pid}.json')
    if os.path.exists(replay):
        os.unlink(replay)

    refuted = [r for r in results if r['verdict'] in ('refuted', 'refuted-unbounded-only')]
    suspects = [r for r in results if r['verdict'] == 'suspect']
    undecided = [r for r in results if r['verdict'] in ('suspect', 'undecided', 'unsupported', 'unknown', 'vacuous', 'error')]
    boundedv = [r for r in results if r['verdict'] == 'bounded']
    proved = [r for r in results if r['verdict'] == 'proved']

    violation, no_input = None, False
    if b.get('violation'):
        violation = {'property': pid, 'source': 'bounded run of the real code', **b['violation']}
    elif refuted or undecided:
        # the code has left what the verifier accepts: look for a failing input; first replay the verifier's counterexamples on the real code
        cases = []
        conv = getattr(mod, 'to_cases', None)
        if conv:
            for r in refuted + suspects:
                for src in (r.get('bounded_run') or {}, r):
                    for o in src.get('obligations', []):
                        if o['status'] != 'discharged' and o['inputs']:
                            try:
                                cases += conv(r['goal'], o['inputs'])
                            except Exception as e:  # noqa
                                print(f'note: counterexample of {r["goal"]} not convertible: {type(e).__name__}: {e}')
        hit = try_cases(pid, cases) if cases and have_bounded else None
        src = 'verifier counterexample replayed on the real code'
        if not hit and have_bounded:
            src = 'search on the real code after a failed obligation'
            hit = bounded_result(bounded_start(pid, seed + 7919, 'thorough', 100), 160).get('violation')
        if hit:
            violation = {'property': pid, 'source': src, **hit}
        elif refuted:
            violation, no_input = {'property': pid, 'source': 'failed obligation'}, True
        if violation:
            violation['failed_obligations'] = [
                {'goal': r['goal'], 'functions': r['functions'], 'detail': r['detail'],
                 'obligations': [o for o in r['obligations'] if o['status'] != 'discharged']}
                for r in refuted + suspects]

    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'finding']
    for k in known:
        hit = try_cases(pid + '_known', [k['case']]) if k.get('use_known_module') else try_cases(pid, [k['case']])
        if hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    obligations = sum(len(r['obligations']) for r in results)
    discharged = sum(1 for r in results for o in r['obligations'] if o['status'] == 'discharged')
    funcs = sorted({f for r in proved for f in r['functions']})
    all_proved = bool(results) and len(proved) == len(results)
    backends = {}
    for r in results:
        for o in r['obligations']:
            if o['status'] == 'discharged':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'proof' if obligations and proved else 'exploration',
        'coverage': {
            'obligations': sum(len(r['obligations']) for r in proved) if not all_proved else obligations,
            'discharged': sum(1 for r in (results if all_proved else proved) for o in r['obligations']
                              if o['status'] == 'discharged'),
            'checker_cmd': f'python3-vt check.py {pid}',
            'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
            'functions_under_contract': funcs,
            'goals': [{k: r.get(k) for k in ('goal', 'verdict', 'detail', 'paths', 'time', 'solver_time', 'functions',
                                             'lemma', 'covers')} | {'obligations': len(r['obligations'])}
                      for r in results],
            'discharged_by': backends,
            'solver_time_s': round(sum(r['solver_time'] for r in results), 2),
            'bounded_goals': [{'goal': r['goal'], 'why': r['detail'], 'bound': (r.get('bounded_run') or r)['bounded']}
                              for r in boundedv],
            'undecided_goals': [{'goal': r['goal'], 'why': r['detail']} for r in undecided],
            'evaluations': b.get('explored', 0), 'distinct_nontrivial': b.get('distinct', 0),
            'rule': 'bounded cross-check of the un-instrumented code against an independent oracle (never counted as '
                    'proved): ' + (b.get('rule') or '').strip(),
            'samples': b.get('samples', [])[:6],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + list(getattr(mod, 'BOUNDED', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
    }
    if load_error:
        ev['coverage']['contracts_not_loaded'] = load_error
    if b.get('error'):
        ev['coverage']['bounded_error'] = b['error']
    if ev['level'] == 'exploration' and not ev['coverage']['samples']:
        ev['coverage']['samples'] = ['none']
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print(f'{pid}: goals {len(results)} proved {len(proved)} bounded {len(boundedv)} undecided {len(undecided)} refuted '
          f'{len(refuted)}; obligations {obligations} discharged {discharged}; bounded cases {b.get("explored")} '
          f'({"error: " + b["error"][-300:] if b.get("error") else "ok"}); {ev["wall_s"]}s')
    for r in undecided + boundedv + refuted:
        print(f'  {r["verdict"]}: {r["goal"]}: {r["detail"][:300]}')
    if violation:
        with open(replay, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        if violation.get('message'):
            print('  ' + violation['message'][:500])
        print(f'VIOLATION property={pid} replay={os.path.relpath(replay, HERE)}' +
              (' no-failing-input-found' if no_input else ''))
        sys.exit(1)
    if not goals and not b.get('explored'):
        print('nothing could be checked')
        sys.exit(3)
    sys.exit(0)


TRUSTED = [
    'PyVC itself (/verif/pyvc): AST rewriter, path exploration, loop/comprehension rules; CPython executes the code',
    'z3 4.x (python3-vt z3-solver) and cvc5 1.1.2',
    'python int is mathematical; native (C level) functions behave as the stand-ins in pyvc/runtime.py state',
]

if __name__ == '__main__':
    main()
