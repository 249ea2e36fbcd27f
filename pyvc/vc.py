"""Goals (contracts to be verified), their runner and the result records."""
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import sym

GOALS = {}  # property id -> [Goal]


class Goal:
    def __init__(self, prop, name, fn, functions, bound, timeout_ms, limit_s, lemma, setup, unbounded, feas_ms, paths):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.bound, self.timeout_ms, self.limit_s, self.lemma = bound, timeout_ms, limit_s, lemma
        self.setup = setup
        self.unbounded = unbounded
        self.feas_ms = feas_ms
        self.paths = paths


def goal(prop, name=None, functions=(), bound=2, timeout_ms=15000, limit_s=240, lemma=False, setup=None,
         unbounded=True, feas_ms=250, paths=6000):
    """register a contract.  `functions` are the /repo functions put under contract by it."""

    def deco(fn):
        GOALS.setdefault(prop, []).append(
            Goal(prop, name or fn.__name__, fn, list(functions), bound, timeout_ms, limit_s, lemma, setup, unbounded,
                 feas_ms, paths))
        return fn

    return deco


def run_session(g, bounded, limit_s):
    import z3
    s = sym.Session(g.name, timeout_ms=g.timeout_ms, feas_ms=g.feas_ms, max_paths=g.paths,
                    deadline=time.time() + limit_s)
    s.bounded = bounded
    sym.S = s
    t0 = time.time()
    status, detail = 'ok', ''
    try:
        ctx = g.setup() if g.setup else None
        if ctx is not None:
            ctx.__enter__()
        try:
            paths = sym.explore(g.fn)
            for p in paths:
                if p.kind == 'exc' and isinstance(p.value, (MemoryError, RecursionError)):
                    raise sym.Unsupported(f'verifier: {type(p.value).__name__}')
                if p.kind == 'exc':
                    # an exception nobody expected: the path must be impossible
                    sym.CUR = sym.Ctx([])
                    for k, e in p.items:
                        sym.CUR.add(k, e)
                    import z3 as _z
                    tb = traceback.extract_tb(p.value.__traceback__)
                    where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:])
                    try:
                        sym.prove(f'{g.name}: no {type(p.value).__name__}', _z.BoolVal(False),
                                  f'{type(p.value).__name__}: {str(p.value)[:200]} at {where}')
                    finally:
                        sym.CUR = None
        finally:
            if ctx is not None:
                ctx.__exit__(None, None, None)
    except sym.Refuted as e:
        status = e.ob.status
        detail = e.ob.name + ' | ' + e.ob.detail
    except sym.Unsupported as e:
        status, detail = 'unsupported', str(e)[:400]
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except z3.Z3Exception as e:
        status, detail = 'unsupported', 'z3: ' + str(e)[:300]
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        status, detail = 'unsupported', f'engine: {type(e).__name__}: {e}'[:400]
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    if status == 'ok' and not s.obligations:
        status, detail = 'vacuous', 'no obligation generated'
    return {
        'goal': g.name, 'status': status, 'detail': detail, 'bounded': bounded, 'used_bound': s.used_bound,
        'paths': s.paths, 'time': round(time.time() - t0, 3), 'solver_time': round(s.solver_time, 3),
        'functions': g.functions, 'notes': s.notes, 'covers': sorted(s.covers), 'lemma': g.lemma,
        'obligations': [
            {'name': o.name, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3), 'inputs': o.inputs,
             'detail': o.detail} for o in s.obligations],
    }


def run_goal(g):
    """unbounded first; if that is undecided, unsupported or refuted the same contract is run on sequences up to the
    goal's bound, which either yields a concrete counterexample or a bounded verdict"""
    res = run_session(g, None if g.unbounded else g.bound, g.limit_s)
    if res['status'] in ('ok',):
        res['verdict'] = 'proved' if g.unbounded and not res['used_bound'] else 'bounded'
        return res
    if not g.unbounded:
        res['verdict'] = res['status']
        return res
    if g.lemma:
        res['verdict'] = res['status']
        return res
    b = run_session(g, g.bound, g.limit_s)
    res['bounded_run'] = b
    if b['status'] == 'refuted':
        # where the unbounded run did not get to a counterexample of its own, one of the stand-in has to be replayed
        res['verdict'] = 'refuted' if res['status'] == 'refuted' else 'suspect'
    elif b['status'] == 'ok':
        # e.g. refuted only by an over-approximation in the unbounded rules
        res['verdict'] = 'bounded' if res['status'] in ('unsupported', 'unknown') else 'refuted-unbounded-only'
    else:
        res['verdict'] = res['status'] if res['status'] == 'refuted' else 'undecided'
    return res


def _child(g, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(5000)
    try:
        r = run_goal(g)
    except BaseException as e:  # noqa
        traceback.print_exc()
        r = {'goal': g.name, 'status': 'error', 'verdict': 'undecided', 'detail': f'{type(e).__name__}: {e}',
             'functions': g.functions, 'obligations': [], 'paths': 0, 'time': 0, 'solver_time': 0, 'notes': [],
             'covers': [], 'lemma': g.lemma, 'bounded': None, 'used_bound': False}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'goal': g.name, 'status': 'error', 'verdict': 'undecided', 'detail': f'send: {e}',
                   'functions': g.functions, 'obligations': [], 'paths': 0, 'time': 0, 'solver_time': 0, 'notes': [],
                   'covers': [], 'lemma': g.lemma, 'bounded': None, 'used_bound': False})
    conn.close()
    os._exit(0)


def run_goals(goals, workers=8, wall=700):
    """each goal in its own forked process"""
    t_end = time.time() + wall
    todo = list(goals)
    running = []
    out = {}
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < workers:
            g = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(g, b))
            p.start()
            b.close()
            running.append((g, p, a, time.time() + g.limit_s * 2.2 + 30))
        nxt = []
        for g, p, a, dl in running:
            if a.poll(0):
                try:
                    out[g.name] = a.recv()
                except EOFError:
                    out[g.name] = _dead(g, 'verifier process died')
                p.join(5)
            elif not p.is_alive():
                if a.poll(0.2):
                    nxt.append((g, p, a, dl))
                else:
                    out[g.name] = _dead(g, 'verifier process died')
            elif time.time() > min(dl, t_end):
                p.kill()
                out[g.name] = _dead(g, 'verifier process timed out')
            else:
                nxt.append((g, p, a, dl))
        running = nxt
        time.sleep(0.01)
    return [out[g.name] for g in goals]


def _dead(g, why):
    return {'goal': g.name, 'status': 'error', 'verdict': 'undecided', 'detail': why, 'functions': g.functions,
            'obligations': [], 'paths': 0, 'time': 0, 'solver_time': 0, 'notes': [], 'covers': [], 'lemma': g.lemma,
            'bounded': None, 'used_bound': False}
