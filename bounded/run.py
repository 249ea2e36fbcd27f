"""bounded cross-check of one property on the un-instrumented real code (run with /opt/venv/bin/python).

usage: run.py PID --seed N --tier quick|thorough --seconds S   -> one JSON line {"explored":..,"distinct":..,"samples":..,
                                                                 "violation": null | {"case":..,"message":..}}
       run.py PID --case FILE                                  -> replays one case, exit 1 if the property is broken
"""
import argparse
import contextlib
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, os.path.dirname(HERE))
sys.path[:0] = [os.path.join(REPO, 'pkm/src')]


class HarnessGap(Exception):
    """the harness does not fit the code (a private name it leans on is gone): the case says nothing"""


def run_case(mod, case):
    from bounded import gap
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return mod.check(case)
    except gap.Gap:
        return None
    except RecursionError as e:
        return f'raised RecursionError: {str(e)[:100]}'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ''
        msg = ''.join(traceback.format_exception_only(type(e), e)).strip()[:400]
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
        in_code = any(f.filename.startswith(REPO + '/') for f in tb)
        if not in_code and os.path.dirname(inner).startswith(HERE):
            return None  # the harness itself tripped; not evidence about the code
        return f'raised {msg} at {where}'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seconds', type=float, default=30)
    ap.add_argument('--case')
    ap.add_argument('--cases')  # a JSON list of candidate cases: report the first that fails
    a = ap.parse_args()
    os.environ.setdefault('PKM_HOME', '/nonexistent/pkm-home')
    mod = importlib.import_module('bounded.' + a.pid)
    if getattr(mod, 'UNPRIV', False):
        from bounded import fsbox
        if hasattr(mod, 'preload'):
            mod.preload()
        fsbox.drop_privileges()
    if a.case:
        case = json.load(open(a.case))
        case = case.get('case', case)
        msg = run_case(mod, case)
        print(json.dumps(case))
        print('property broken: ' + msg if msg else 'property holds on this case')
        sys.exit(1 if msg else 0)
    if a.cases:
        hit = None
        for c in json.load(open(a.cases)):
            m = run_case(mod, c)
            if m:
                hit = {'case': c, 'message': m}
                break
        print('RESULT ' + json.dumps({'violation': hit}))
        return
    rng = random.Random(a.seed)
    t0 = time.time()
    n, viol, samples, seen = 0, None, [], set()
    exhausted = True
    for case in mod.cases(rng, a.tier):
        if time.time() - t0 > a.seconds:
            exhausted = False
            break
        n += 1
        k = json.dumps(case, sort_keys=True, default=str)
        if len(seen) < 500000:
            seen.add(hash(k))
        if n in (1, 7, 101, 1003) or n % 20011 == 0 and len(samples) < 8:
            samples.append(case)
        msg = run_case(mod, case)
        if msg:
            viol = {'case': case, 'message': msg}
            break
    print('RESULT ' + json.dumps({'explored': n, 'distinct': len(seen), 'samples': samples, 'violation': viol,
                                  'rule': getattr(mod, 'RULE', mod.__doc__ or ''), 'exhausted': exhausted,
                                  'seconds': round(time.time() - t0, 2)}))


if __name__ == '__main__':
    main()
