"""finite package universes solved by the real Solver and by exhaustive search: chains, diamonds, cycles and random dependency
graphs over up to six packages with up to five final versions each, in any order of preference, constraints of every operator;
the trail of assignments compared with a replayed one after random sequences of decisions, derivations and backtracks"""
import contextlib
import io
import itertools
import signal

RULE = __doc__


def rcons(rng, vs):
    v, w = rng.choice(vs), rng.choice(vs)
    return rng.choice(['*', '*', f'=={v}', f'!={v}', f'>={v}', f'<={v}', f'>{v}', f'<{v}', f'>={min(v, w, key=num)},<={max(v, w, key=num)}'])


def num(v):
    return [int(x) for x in v.split('.')]


def universe(rng, npk, nv, density, any_=False):
    vs = ['0.5', '1', '1.5', '2', '2.1', '3', '10', '4'][:nv]
    names = ['b', 'a', 'd', 'c', 'f', 'e', 'g'][:npk]
    u = {'root': {'1': {}}}
    for n in names:
        k = rng.randint(1 if rng.random() < .95 else 0, nv)
        own = rng.sample(vs, k)
        if rng.random() < .7:
            own.sort(key=num, reverse=True)
        u[n] = {v: {} for v in own}
    for n in u:
        base = None
        for v in u[n]:
            if base is not None and rng.random() < .5:
                u[n][v] = dict(base)   # neighbours often have the same requirements
                if u[n][v] and rng.random() < .4:
                    u[n][v].pop(rng.choice(sorted(u[n][v])))
                continue
            for m in names:
                if m != n and rng.random() < (density if n != 'root' else .5):
                    u[n][v][m] = rcons(rng, vs)
            base = u[n][v]
    if not u['root']['1']:
        u['root']['1'] = {names[0]: '*'}
    return u


def trail(rng):
    ops = []
    for _ in range(rng.randint(3, 14)):
        c = rng.random()
        ops.append(['decide', rng.choice('abcde'), rng.choice(['1', '2', '3'])] if c < .4 else
                   ['derive', rng.choice('abcde'), rng.choice(['>=1', '<3', '!=2', '>0.5'])] if c < .65 else
                   ['require', rng.sample('abcdef', rng.randint(1, 2))] if c < .85 else ['back', rng.randint(0, 5)])
    return ops


def cases(rng, tier):
    while True:
        r = rng.random()
        if r < .15:
            yield {'trail': trail(rng)}
        else:
            yield {'universe': universe(rng, rng.randint(2, 6), rng.randint(1, 5), rng.choice([.1, .25, .4, .6]))}


class Timeout(BaseException):
    pass


_specs = {}


def spec(s):
    from pkm.api.versions.version_specifiers import VersionSpecifier
    if s not in _specs:
        _specs[s] = VersionSpecifier.parse(s)
    return _specs[s]


def admits(s, v):
    """oracle: final versions against simple clauses"""
    if s == '*':
        return True
    x = num(v)
    for c in s.split(','):
        op = c[:2] if c[1] == '=' else c[0]
        y = num(c[len(op):])
        n = max(len(x), len(y))
        a, b = x + [0] * (n - len(x)), y + [0] * (n - len(y))
        if not {'==': a == b, '!=': a != b, '>=': a >= b, '<=': a <= b, '>': a > b, '<': a < b}[op]:
            return False
    return True


def valid(u, sel):
    if 'root' not in sel:
        return 'the root is not selected'
    for n, v in sel.items():
        if v not in u.get(n, {}):
            return f'{n} {v} does not exist'
        for m, c in u[n][v].items():
            if m not in sel:
                return f'{n} {v} needs {m} {c}, nothing of it is selected'
            if not admits(c, sel[m]):
                return f'{n} {v} needs {m} {c}, {sel[m]} is selected'
    return None


def solvable(u):
    """exhaustive search, required packages first"""
    def go(sel, todo):
        while todo and todo[0][0] in sel:
            m, c = todo[0]
            if not admits(c, sel[m]):
                return None
            todo = todo[1:]
        if not todo:
            return sel
        m, _ = todo[0]
        for v in u.get(m, {}):
            if all(admits(c, v) for k, c in todo if k == m):
                r = go({**sel, m: v}, todo + list(u[m][v].items()))
                if r is not None:
                    return r
        return None
    for v in u['root']:
        r = go({'root': v}, list(u['root'][v].items()))
        if r is not None:
            return r
    return None


def check(case):
    if 'trail' in case:
        return check_trail(case['trail'])
    from pkm.api.versions.version import StandardVersion
    from pkm.resolution.pubgrub import Problem, Solver, Term, UnsolvableProblemException
    u = case['universe']

    class P(Problem):
        def get_dependencies(self, package, version):
            return [Term(m, spec(c)) for m, c in u[package][str(version)].items()]

        def get_versions(self, package):
            return [StandardVersion.parse(v) for v in u.get(package, {})]

        def has_version(self, package, version):
            return str(version) in u.get(package, {})

    old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
    signal.setitimer(signal.ITIMER_REAL, 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sel = {k: str(v) for k, v in Solver(P(), 'root').solve().items()}
    except UnsolvableProblemException:
        s = solvable(u)
        return f'{u}: reported unsolvable, but {s} is a solution' if s is not None else None
    except Timeout:
        return f'{u}: no answer in 10 s'
    except Exception as e:
        return f'{u}: {type(e).__name__}: {e}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    r = valid(u, sel)
    return f'{u}: selected {sel}, {r}' if r else None


def check_trail(ops):
    from pkm.resolution.pubgrub import PartialSolution, Term, Incompatibility
    cause = Incompatibility((Term('x', spec('*')),), None, 'why')

    def fresh():
        s = PartialSolution('root')
        s.assign(Term('root', spec('==1')), None)
        return s

    def state(s):
        a = s._assignments_by_order
        idx = {id(x): i for i, x in enumerate(a)}
        return ([(str(x.term), x.decision_level, x.is_decision(), str(x.accumulated)) for x in a],
                {p: [idx[id(x)] for x in l] for p, l in s.assignments_by_package.items() if l},
                dict(s._required_packages), {p: idx[id(x)] for p, x in s._decisions.items()})

    s = fresh()
    after = []   # snapshots: state when the level was left for the next one
    log = []     # (level recorded, state after)
    for o in ops:
        if o[0] == 'decide':
            if o[1] in s._decisions:
                continue
            log.append((s._decision_level, state(s)))
            s.assign(Term(o[1], spec('==' + o[2])), None)
        elif o[0] == 'derive':
            s.assign(Term(o[1], spec(o[2])), cause)
        elif o[0] == 'require':
            s.require(o[1])
        else:
            lv = o[1]
            if lv >= s._decision_level:
                want = state(s)
            else:
                want = next(st for l, st in log if l == lv)
            s.backtrack(lv)
            if state(s) != want:
                return f'{ops}: after going back to level {lv} the state is {state(s)}, it was {want}'
            log = [(l, st) for l, st in log if l < s._decision_level]
    return None
