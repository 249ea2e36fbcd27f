"""Symbolic values, path contexts and exploration (the VC generator core of PyVC).

A function of /repo is executed by CPython itself on symbolic values.  Whenever the run needs the truth value of a
symbolic condition the path forks; `explore` re-executes the thunk once per feasible decision sequence, so a finished
exploration covers every path of the function for every value of the symbols.  `prove` turns a postcondition at the end
of a path into the verification condition  path condition => postcondition  and has it discharged by z3 (cvc5 second).
"""
import itertools
import os
import re
import sys
import time
import types

import z3

from . import instrument


class Unsupported(BaseException):
    """the construct is outside the verifier's reach: the obligation falls back to a bounded stand-in"""


class Infeasible(BaseException):
    """the current path condition is contradictory"""


class Stop(BaseException):
    """path ends here on purpose (the obligation of the path has been recorded already)"""


class Budget(Unsupported):
    pass


# ---------------------------------------------------------------------------------------------------------------
# statistics / obligations
# ---------------------------------------------------------------------------------------------------------------

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'size', 'model', 'inputs', 'detail')

    def __init__(self, name, status, backend, t, size, model=None, inputs=None, detail=''):
        self.name, self.status, self.backend, self.time, self.size = name, status, backend, t, size
        self.model, self.inputs, self.detail = model, inputs, detail


class Session:
    """collects everything one goal produced"""

    def __init__(self, name, timeout_ms=10000, feas_ms=300, max_paths=20000, deadline=None):
        self.memo = {}
        self.name = name
        self.obligations = []
        self.paths = 0
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_time = 0.0
        self.counter = 0
        self.seen = {}
        self.inputs = {}
        self.bounded = None  # None: unbounded rules only; int K: symbolic sequences are unrolled up to length K
        self.used_bound = False
        self.axioms = []
        self.covers = set()
        self.stop_at_refuted = True
        self.notes = []

    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'


S = None  # current session
CUR = None  # current context


def session():
    return S


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside an exploration')
    return CUR


def active():
    return CUR is not None


# ---------------------------------------------------------------------------------------------------------------
# contexts
# ---------------------------------------------------------------------------------------------------------------

def _has_quant(e, _cache={}):
    k = e.get_id()
    if k in _cache:
        return _cache[k][1]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    if len(_cache) > 50000:
        _cache.clear()
    _cache[k] = (e, r)
    return r


_adequate = None


def adequate():
    global _adequate
    if _adequate is None:
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loops.txt')) as f:
                _adequate = {line.split()[0] for line in f if line.strip() and line[0] != '#'}
        except OSError:
            _adequate = set()
    return _adequate


class Ctx:
    def __init__(self, prefix, parent=None, binders=(), assume=()):
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.items = []  # ('br'|'as', expr)
        self.binders = (parent.binders if parent else ()) + tuple(binders)
        self.qf = z3.Solver()
        self.qf.set('timeout', S.feas_ms)
        self.quant = list(parent.quant) if parent else []
        self.base = (parent.base + [x for _, x in parent.items]) if parent else list(S.axioms)
        for x in self.base:
            self._feed(x, register=parent is None)
        for a in assume:
            self.items.append(('rg', a))
            self._feed(a)
        self.enums = []  # enumerations of filtered sequences
        self.effects = []  # effects on objects that outlive a nested exploration
        self.reads = set()
        self.local_ids = {}
        self.capture = None
        # facts after a loop whose invariant was inferred may be too weak: a counterexample on such a path is none
        self.weak = parent.weak if parent else False

    def weaken(self, site):
        """the inferred invariants of this loop may say too little, unless they are known to do for a loop of this text"""
        h = instrument.LOOPS.get(site)
        if os.environ.get('PYVC_LOOPS'):
            with open(os.environ['PYVC_LOOPS'], 'a') as f:
                f.write(f'{h} {site.rsplit(":", 1)[0]}\n')
        if h in adequate():
            return
        c = self
        while c is not None:
            c.weak = True
            c = c.parent

    def _feed(self, e, register=True):
        if _has_quant(e):
            if register:
                self.quant.append(e)
        else:
            self.qf.add(e)

    def add(self, kind, e):
        self.items.append((kind, e))
        self._feed(e)

    def facts(self):
        return self.base + [x for _, x in self.items]

    def feasible(self, e):
        t0 = time.time()
        self.qf.push()
        self.qf.add(e)
        r = self.qf.check()
        self.qf.pop()
        if r != z3.unsat and self.quant and S.feas_ms:
            s = z3.Solver()
            s.set('timeout', S.feas_ms)
            s.add(self.facts())
            s.add(e)
            r = s.check()
        S.solver_time += time.time() - t0
        return r != z3.unsat

    def excluded(self, e):
        """contradicts the quantifier-free facts"""
        t0 = time.time()
        self.qf.push()
        self.qf.add(e)
        r = self.qf.check()
        self.qf.pop()
        S.solver_time += time.time() - t0
        return r == z3.unsat

    def decide(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if S.deadline and time.time() > S.deadline:
                raise Budget('time budget of the goal used up')
            ne = z3.Not(e)
            if self.excluded(e):
                t, f = False, not self.excluded(ne)
            elif self.excluded(ne):
                t, f = True, False
            else:
                t = self.feasible(e)
                f = self.feasible(ne) if t else True
                if not t:
                    f = self.feasible(ne)
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.pending.append(self.trace + [False])
            d = t
        self.pos += 1
        self.trace.append(d)
        self.add('br', e if d else z3.Not(e))
        return d

    def choose(self, n):
        """n-ary nondeterministic choice (demonic): 0..n-1"""
        for i in range(n - 1):
            if self.nondet():
                return i
        return n - 1

    def nondet(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.pending.append(self.trace + [False])
            d = True
        self.pos += 1
        self.trace.append(d)
        return d


def remembered(key, f):
    """the result of an analysis at this point of this path (re-executions of a path repeat its analyses)"""
    c, k = CUR, [key]
    while c is not None:
        k.append(tuple(c.trace))
        c = c.parent
    k = tuple(k)
    m = S.memo
    if k not in m:
        m[k] = f()
    return m[k]


class Path:
    __slots__ = ('items', 'kind', 'value', 'effects', 'reads', 'final')

    def cond(self):
        """conjunction of the branch conditions (assumptions excluded)"""
        return z3.And([e for k, e in self.items if k == 'br'] or [z3.BoolVal(True)])


_model_names = {}


def _foreign_type_error(e):
    """an operation on one of the verifier's or the contracts' own abstract values that these do not offer"""
    s = str(e)
    if 'Sym' in s or 'Abs' in s:
        return True
    for m, mod in list(sys.modules.items()):
        if m not in _model_names and m.split('.')[0] in ('pyvc', 'contracts', 'z3') and mod is not None:
            _model_names[m] = {n for n, c in list(vars(mod).items()) if isinstance(c, type) and c.__module__ == m}
    named = re.findall(r"'([A-Za-z_][\w.]*)'", s) + re.findall(r'([A-Za-z_]\w*)\(\)', s)
    return any(n.split('.')[-1] in ns for n in named for ns in _model_names.values())


def explore(thunk, parent=None, binders=(), assume=(), finalise=None):
    global CUR
    out = []
    todo = [[]]
    outer = CUR
    c0 = S.counter
    cmax = c0
    try:
        while todo:
            prefix = todo.pop()
            S.counter = c0
            S.paths += 1
            if S.paths > S.max_paths:
                raise Budget('path budget used up')
            if S.deadline and time.time() > S.deadline:
                raise Budget('time budget of the goal used up')
            c = Ctx(prefix, parent, binders, assume)
            CUR = c
            p = Path()
            try:
                p.value = thunk()
                p.kind = 'ret'
            except Infeasible:
                todo.extend(c.pending)
                cmax = max(cmax, S.counter)
                continue
            except Stop:
                todo.extend(c.pending)
                cmax = max(cmax, S.counter)
                continue
            except RecursionError:
                raise Unsupported('recursion too deep for symbolic execution')
            except Exception as e:  # the code under verification raised
                if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and _foreign_type_error(e):
                    raise Unsupported(f'{type(e).__name__}: {e}') from e
                p.value = e
                p.kind = 'exc'
            if finalise:
                p.final = finalise(p)
            todo.extend(c.pending)
            cmax = max(cmax, S.counter)
            p.items = c.items
            p.effects = c.effects
            p.reads = c.reads
            out.append(p)
    finally:
        CUR = outer
        S.counter = cmax
    return out


def assume(e):
    e = form(e)
    if z3.is_true(z3.simplify(e)):
        return
    cur().add('as', e)


def assume_feasible(e):
    """assume and drop the path if that is contradictory"""
    e = form(e)
    s = z3.simplify(e)
    if z3.is_true(s):
        return
    if z3.is_false(s) or not cur().feasible(e):
        raise Infeasible()
    cur().add('as', e)


def fresh(name, sort):
    n = S.fresh_name(name)
    b = cur().binders
    if not b:
        return z3.Const(n, sort)
    return z3.Function(n, *[x.sort() for x in b], sort)(*b)


def fresh_fun(name, *sorts):
    """a fresh function; depends on the bound variables in scope"""
    n = S.fresh_name(name)
    b = cur().binders
    f = z3.Function(n, *[x.sort() for x in b], *sorts)
    if not b:
        return f
    return lambda *a: f(*b, *a)


# ---------------------------------------------------------------------------------------------------------------
# proving
# ---------------------------------------------------------------------------------------------------------------

def _cvc5(facts, goal, tmo):
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(facts)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', f'--tlimit={tmo}', f.name], capture_output=True, text=True,
                           timeout=tmo / 1000 + 10)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def split_goal(g):
    g2 = g
    if z3.is_and(g2):
        r = []
        for c in g2.children():
            r += split_goal(c)
        return r
    return [g2]


def check_valid(facts, goal, timeout_ms):
    """-> (status, backend, model)"""
    t0 = time.time()
    try:
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'discharged', 'simplifier', None
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        s.add(facts)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'discharged', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        # second configurations
        for seed in (7, 23):
            s = z3.SolverFor('ALL') if seed == 23 else z3.Solver()
            s.set('timeout', timeout_ms)
            try:
                s.set('smt.random_seed', seed)
                if seed == 7:
                    s.set('smt.mbqi', False)
            except z3.Z3Exception:
                pass
            s.add(facts)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'discharged', 'z3', None
        rr = _cvc5(facts, goal, timeout_ms)
        if rr == 'unsat':
            return 'discharged', 'cvc5', None
        return 'unknown', 'z3+cvc5', None
    finally:
        S.solver_time += time.time() - t0


class Refuted(BaseException):
    def __init__(self, ob):
        self.ob = ob


def prove(name, goal, detail=''):
    """verification condition: (path condition) => goal"""
    goal = form(goal)
    c = cur()
    facts = c.facts()
    for g in split_goal(goal):
        key = (name, tuple(sorted({x.get_id() for x in facts})), g.get_id())
        if key in S.seen:
            continue
        t0 = time.time()
        if c.quant and not _has_quant(g) and c.excluded(z3.Not(g)):
            st, be, model = 'discharged', 'z3', None
        else:
            st, be, model = check_valid(facts, g, S.timeout_ms)
        S.seen[key] = (st, list(facts), g)  # keep the terms alive: ids are only unique among live terms
        size = len(facts)
        ob = Obligation(name, st, be, time.time() - t0, size, model, None, detail)
        if model is not None:
            ob.inputs = snapshot_inputs(model)
            ob.detail = (detail + ' ' if detail else '') + str(g)[:600]
            if c.weak and S.bounded is None:
                ob.status = 'unknown'
                ob.detail = 'not shown with the inferred loop invariant: ' + ob.detail
        elif st != 'discharged':
            ob.detail = (detail + ' ' if detail else '') + str(g)[:600]
            if S.bounded is None or True:
                # a candidate counterexample may still be obtained without the quantified facts
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add([x for x in facts if not _has_quant(x)])
                if not _has_quant(g):
                    s.add(z3.Not(g))
                if s.check() == z3.sat:
                    ob.inputs = snapshot_inputs(s.model())
        S.obligations.append(ob)
        if st != 'discharged' and S.stop_at_refuted:
            raise Refuted(ob)


def cover(name):
    """vacuity guard: this point is reachable"""
    if name not in S.covers:
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(cur().facts())
        r = s.check()
        if r == z3.sat or (r == z3.unknown and cur().feasible(z3.BoolVal(True))):
            S.covers.add(name)


def register_input(name, value, conc=None):
    S.inputs[name] = (value, conc)


def snapshot_inputs(model):
    out = {}
    for n, (v, conc) in S.inputs.items():
        try:
            out[n] = (conc or concretise)(v, model) if conc is None else conc(v, model)
        except Exception as e:  # noqa
            out[n] = f'<no concretisation: {type(e).__name__}: {e}>'
    return out


# ---------------------------------------------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------------------------------------------

class Sym:
    __slots__ = ()

    def __hash__(self):
        return 7919

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{type(self).__name__}.{n}')


def form(x):
    """z3 Bool of a boolean-like value (no fork for SymBool)"""
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if x is None:
        return z3.BoolVal(False)
    if isinstance(x, SymOpt):
        return z3.And(z3.Not(x.none), form(truth(x.val)))
    return form(truth(x))


def truth(x):
    """truth value of x without forking if possible: SymBool or bool"""
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, SymInt):
        return SymBool(x.e != 0)
    if isinstance(x, SymOpt):
        return SymBool(form(x))
    if isinstance(x, SymSeq):
        return SymBool(x.n > 0)
    if isinstance(x, SymStr):
        return SymBool(x.e != str_lit(''))
    return bool(x)


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e if isinstance(e, z3.BoolRef) else z3.BoolVal(bool(e))

    def __bool__(self):
        return cur().decide(self.e)

    def __eq__(self, o):
        return SymBool(eqf(self, o))

    def __ne__(self, o):
        return SymBool(z3.Not(eqf(self, o)))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return SymBool(z3.And(self.e, form(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, form(o)))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, form(o)))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __repr__(self):
        return f'SymBool({self.e})'

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o


def _ie(o):
    if isinstance(o, SymInt):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, SymOpt):
        return _ie(o.force())
    return None


def str_repeat_hook(s, n):
    raise Unsupported('repetition of a string a symbolic number of times')


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e

    def _bin(self, o, f, name):
        x = _ie(o)
        if x is None:
            if o is None or isinstance(o, (str, tuple, list, dict, SymStr, SymSeq)):
                raise TypeError(f"unsupported operand type(s) for {name}: 'int' and '{_tn(o)}'")
            return NotImplemented
        return f(self.e, x)

    def _wrap(self, r):
        return r if r is NotImplemented else SymInt(r)

    def _wrapb(self, r):
        return r if r is NotImplemented else SymBool(r)

    def __add__(self, o):
        return self._wrap(self._bin(o, lambda a, b: a + b, '+'))

    def __radd__(self, o):
        return self._wrap(self._bin(o, lambda a, b: b + a, '+'))

    def __sub__(self, o):
        return self._wrap(self._bin(o, lambda a, b: a - b, '-'))

    def __rsub__(self, o):
        return self._wrap(self._bin(o, lambda a, b: b - a, '-'))

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return seq_repeat(o, self)
        if isinstance(o, str):
            return str_repeat_hook(o, self)
        return self._wrap(self._bin(o, lambda a, b: a * b, '*'))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        x = _ie(o)
        if x is None:
            return NotImplemented
        if cur().decide(x == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # z3 div: remainder non-negative; python floors
        q = z3.If(x > 0, self.e / x, -((-self.e) / (-x)) if False else (-self.e) / (-x))
        return SymInt(q)

    def __mod__(self, o):
        x = _ie(o)
        if x is None:
            return NotImplemented
        if cur().decide(x == 0):
            raise ZeroDivisionError('integer modulo by zero')
        if not cur().decide(x > 0):
            raise Unsupported('modulo by a negative number')
        return SymInt(self.e % x)

    def __truediv__(self, o):
        return quotient(self, o)

    def __rtruediv__(self, o):
        return quotient(o, self)

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return self._wrapb(self._bin(o, lambda a, b: a < b, '<'))

    def __le__(self, o):
        return self._wrapb(self._bin(o, lambda a, b: a <= b, '<='))

    def __gt__(self, o):
        return self._wrapb(self._bin(o, lambda a, b: a > b, '>'))

    def __ge__(self, o):
        return self._wrapb(self._bin(o, lambda a, b: a >= b, '>='))

    def __eq__(self, o):
        return SymBool(eqf(self, o))

    def __ne__(self, o):
        return SymBool(z3.Not(eqf(self, o)))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic int needed concretely')

    __int__ = __index__

    def __repr__(self):
        return f'SymInt({self.e})'


def quotient(a, b):
    x, y = _ie(a), _ie(b)
    if x is None or y is None:
        return NotImplemented
    if cur().decide(y == 0):
        raise ZeroDivisionError('division by zero')
    return SymReal(z3.ToReal(x) / z3.ToReal(y))


class SymReal(Sym):
    """a quotient, without the rounding of floating point numbers: it can be passed on, not computed with"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __vc_eq__(self, o):
        raise Unsupported('comparison of a quotient')

    __hash__ = Sym.__hash__

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __vc_eq__

    def __bool__(self):
        raise Unsupported('comparison of a quotient')


def _tn(o):
    if o is None:
        return 'NoneType'
    return {'SymStr': 'str', 'SymSeq': 'tuple', 'SymInt': 'int', 'SymBool': 'bool'}.get(type(o).__name__,
                                                                                        type(o).__name__)


# -- strings: opaque, embedded order-preservingly into the reals ------------------------------------------------

_LIT = {}
_BASE = 0x110002


def str_lit(s):
    """the real number of a literal: order-preserving injective embedding (base-B fraction of the code points + 1)"""
    if s not in _LIT:
        num, den = 0, 1
        for ch in s:
            num = num * _BASE + ord(ch) + 1
            den *= _BASE
        _LIT[s] = z3.RealVal(f'{num}/{den}') if s else z3.RealVal(0)
    return _LIT[s]


def se(o):
    if isinstance(o, SymStr):
        return o.e
    if isinstance(o, str):
        return str_lit(o)
    if isinstance(o, SymOpt):
        return se(o.force())
    return None


def uf(name, *sorts):
    return z3.Function(name, *sorts)


R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


class SymStr(Sym):
    """an arbitrary string: only equality, order and uninterpreted methods are known about it"""
    __slots__ = ('e',)
    hooks = {}  # method name -> callable(self, *args) giving a contract for it

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return SymBool(eqf(self, o))

    def __ne__(self, o):
        return SymBool(z3.Not(eqf(self, o)))

    __hash__ = Sym.__hash__

    def _cmp(self, o, f):
        x = se(o)
        if x is None:
            raise TypeError(f"'<' not supported between instances of 'str' and '{_tn(o)}'")
        return SymBool(f(self.e, x))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().decide(self.e != str_lit(''))

    def __add__(self, o):
        x = se(o)
        if x is None:
            raise TypeError(f'can only concatenate str (not "{_tn(o)}") to str')
        return str_concat(self.e, x)

    def __radd__(self, o):
        x = se(o)
        if x is None:
            raise TypeError(f'can only concatenate str (not "{_tn(o)}") to str')
        return str_concat(x, self.e)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        h = SymStr.hooks.get(n)
        if h is not None:
            return types.MethodType(h, self)
        if n in ('isnumeric', 'isdigit', 'isalnum', 'isspace', 'isalpha', 'isdecimal', 'isidentifier', 'isupper',
                 'islower'):
            return lambda: SymBool(uf('str.' + n, R, B)(self.e))
        if n in ('startswith', 'endswith'):
            def f(p):
                x = se(p)
                if x is None:
                    raise Unsupported('str.startswith of a non string')
                return SymBool(uf('str.' + n, R, R, B)(self.e, x))

            return f
        if n in ('lower', 'upper', 'strip', 'casefold', 'title', 'lstrip', 'rstrip', 'replace', 'removeprefix',
                 'removesuffix', 'encode', 'translate'):
            def g(*a):
                xs = [se(p) for p in a]
                if any(x is None for x in xs):
                    raise Unsupported('str.' + n)
                return SymStr(uf(f'str.{n}.{len(a)}', *([R] * (len(a) + 1)), R)(self.e, *xs))

            return g
        raise Unsupported('str.' + n)

    def __repr__(self):
        return f'SymStr({self.e})'

    def __str__(self):
        raise Unsupported('str() of a symbolic string outside instrumented code')

    def __len__(self):
        raise Unsupported('len of a symbolic string')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __contains__(self, x):
        a = se(x)
        if a is None:
            raise TypeError("'in <string>' requires string as left operand")
        return cur().decide(uf('str.contains', R, R, B)(self.e, a))


_CONCAT = z3.Function('str.concat', R, R, R)


def lit_of(e):
    for s, l in _LIT.items():
        if z3.eq(l, e):
            return s
    return None


def _is_concat(e):
    return z3.is_app(e) and e.decl().eq(_CONCAT)


def str_concat(a, b):
    """concatenation in left-associated normal form, adjacent literals merged"""
    if z3.eq(a, str_lit('')):
        return SymStr(b)
    if z3.eq(b, str_lit('')):
        return SymStr(a)
    if _is_concat(b):
        return str_concat(str_concat(a, b.arg(0)).e, b.arg(1))
    lb = lit_of(b)
    if lb is not None:
        la = lit_of(a)
        if la is not None:
            return SymStr(str_lit(la + lb))
        if _is_concat(a):
            lx = lit_of(a.arg(1))
            if lx is not None:
                return SymStr(_CONCAT(a.arg(0), str_lit(lx + lb)))
    return SymStr(_CONCAT(a, b))


class SymOpt(Sym):
    """None or a value"""
    __slots__ = ('none', 'val')

    def __init__(self, none, val):
        self.none, self.val = none, val

    def force(self):
        if cur().decide(self.none):
            return None
        return self.val

    def __bool__(self):
        v = self.force()
        return bool(v)

    def __eq__(self, o):
        return SymBool(eqf(self, o))

    def __ne__(self, o):
        return SymBool(z3.Not(eqf(self, o)))

    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        v = self.force()
        return v[k]

    def __len__(self):
        return len(self.force())

    def __contains__(self, x):
        return x in self.force()

    def __repr__(self):
        return f'SymOpt({self.none}, {self.val!r})'

    def __call__(self, *a, **k):
        return self.force()(*a, **k)


def _fwd(name):
    import operator
    op = getattr(operator, name)

    def f(self, o):
        v = self.force()
        if isinstance(o, SymOpt):
            o = o.force()
        return op(v, o)

    def r(self, o):
        return op(o, self.force())

    return f, r


for _n in ('lt', 'le', 'gt', 'ge'):
    setattr(SymOpt, f'__{_n}__', _fwd(_n)[0])
for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv'):
    _f, _r = _fwd(_n)
    setattr(SymOpt, f'__{_n}__', _f)
    setattr(SymOpt, f'__r{_n}__', _r)


# -- equality as a formula ----------------------------------------------------------------------------------------

def eqf(a, b):
    """z3 formula for a == b (forks only inside user-defined __eq__)"""
    if a is b and not isinstance(a, float):
        return z3.BoolVal(True)
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        an, av = (a.none, a.val) if isinstance(a, SymOpt) else (z3.BoolVal(a is None), a)
        bn, bv = (b.none, b.val) if isinstance(b, SymOpt) else (z3.BoolVal(b is None), b)
        if b is None:
            return an
        if a is None:
            return bn
        return z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), eqf(av, bv)))
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        if isinstance(a, SymBool) and isinstance(b, (SymBool, bool)):
            return a.e == form(b)
        if isinstance(b, SymBool) and isinstance(a, bool):
            return b.e == form(a)
        x, y = _ie(a), _ie(b)
        if x is None or y is None:
            return z3.BoolVal(False)
        return x == y
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        x, y = se(a), se(b)
        if x is None or y is None:
            return z3.BoolVal(False)
        return x == y
    if isinstance(a, (SymSeq, VList)) or isinstance(b, (SymSeq, VList)):
        sa, sb = as_seq(a), as_seq(b)
        if sa is None or sb is None:
            return z3.BoolVal(False)
        return seq_eq(sa, sb)
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([eqf(x, y) for x, y in zip(a, b)] or [z3.BoolVal(True)])
    h = getattr(type(a), '__vc_eq__', None) or getattr(type(b), '__vc_eq__', None)
    if h:
        return form(h(a, b) if hasattr(type(a), '__vc_eq__') else h(b, a))
    r = a == b
    if isinstance(r, SymBool):
        return r.e
    return z3.BoolVal(bool(r))


# -- sequences -----------------------------------------------------------------------------------------------------

class SymSeq(Sym):
    """an immutable sequence of symbolic length n; at(i) builds the element at the z3 integer term i.

    `filt` (optional): element j of the base takes part only if filt(j); such a sequence is a *filtered* one, its own
    length/indices are only available through skolem functions."""
    __slots__ = ('n', 'at', 'kind', 'filt', 'tag', '_ix', 'uid', 'wit', 'cat')
    _uid = itertools.count()

    def __init__(self, n, at, kind='tuple', filt=None, tag=None):
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.at, self.kind, self.filt, self.tag = at, kind, filt, tag
        self._ix = None
        self.wit = None
        self.cat = None  # the parts of a concatenation
        self.uid = next(SymSeq._uid)

    def __len__(self):
        n = z3.simplify(self.dense().n)
        if z3.is_int_value(n):
            return n.as_long()
        return len(concretise_len(self.dense()))

    def length(self):
        return SymInt(self.dense().n)

    def __bool__(self):
        if self.filt is not None:
            return bool(exists_at(self, lambda x: True))
        return cur().decide(self.n > 0)

    def dense(self):
        """index form of a filtered sequence: strictly increasing enumeration of the selected base positions"""
        if self.filt is None:
            return self
        if self._ix is None:
            f = self.filt
            j0 = z3.Int('j!canon')
            f0 = z3.simplify(f(j0))
            plain = not cur().binders
            known = []
            c = cur()
            while c is not None and plain:
                known += c.enums
                c = c.parent
            for n1, f1, g1, (m, ix, inv) in known:
                if z3.eq(f1, f0) and z3.eq(n1, self.n):
                    self._ix = SymSeq(m, lambda i: self.at(ix(i)), self.kind)
                    self._ix.tag = ('dense', ix, inv)
                    return self._ix
            m = fresh('flen', I)
            ix = fresh_fun('fix', I, I)
            inv = fresh_fun('finv', I, I)
            i, j, k = z3.Ints('i!d j!d k!d')
            if plain:
                # cardinalities of two selections of one base: a part is not larger, and equally large only if it is all
                for n1, f1, g1, (m1, _, _) in known + [(self.n, None, lambda j: z3.BoolVal(True), (self.n, None, None))]:
                    if z3.eq(n1, self.n):
                        rng = z3.And(0 <= j, j < self.n)
                        for a, b, x, y in ((f, g1, m, m1), (g1, f, m1, m)):
                            sub = z3.ForAll([j], z3.Implies(z3.And(rng, a(j)), b(j)))
                            assume(z3.Implies(sub, z3.And(x <= y, z3.Implies(
                                x == y, z3.ForAll([j], z3.Implies(z3.And(rng, b(j)), a(j)))))))
                cur().enums.append((self.n, f0, f, (m, ix, inv)))
            assume(z3.And(m >= 0, m <= self.n))
            assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= ix(i), ix(i) < self.n, f(ix(i)),
                                                                          inv(ix(i)) == i)), patterns=[ix(i)]))
            assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < m), ix(i) < ix(k)),
                             patterns=[z3.MultiPattern(ix(i), ix(k))]))
            assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n, f(j)),
                                             z3.And(0 <= inv(j), inv(j) < m, ix(inv(j)) == j)),
                             patterns=[inv(j)]))
            self._ix = SymSeq(m, lambda i: self.at(ix(i)), self.kind)
            self._ix.tag = ('dense', ix, inv)
        return self._ix

    def __getitem__(self, k):
        s = self.dense()
        if isinstance(k, slice):
            return seq_slice(s, k)
        i = _ie(k)
        if i is None:
            raise TypeError('tuple indices must be integers or slices')
        neg = z3.simplify(i < 0)
        if z3.is_true(neg) or (not z3.is_false(neg) and cur().decide(i < 0)):
            i = s.n + i
        if not cur().decide(z3.And(i >= 0, i < s.n)):
            raise IndexError(f'{self.kind} index out of range')
        return s.at(i)

    def __iter__(self):
        return iter(concretise_len(self.dense()))

    def __eq__(self, o):
        return SymBool(eqf(self, o))

    def __ne__(self, o):
        return SymBool(z3.Not(eqf(self, o)))

    __hash__ = Sym.__hash__

    def __add__(self, o):
        x = as_seq(o)
        if x is None:
            raise TypeError(f'can only concatenate {self.kind} (not "{_tn(o)}") to {self.kind}')
        return seq_concat(self, x)

    def __radd__(self, o):
        x = as_seq(o)
        if x is None:
            raise TypeError('can only concatenate')
        return seq_concat(x, self, self.kind)

    def __contains__(self, v):
        return bool(exists_at(self, lambda x: SymBool(eqf(x, v))))

    def __lt__(self, o):
        raise Unsupported('order of symbolic sequences')

    __gt__ = __le__ = __ge__ = __lt__

    def index(self, v):
        raise Unsupported('index on a symbolic sequence')

    def copy(self):
        return self

    def __repr__(self):
        return f'SymSeq(n={self.n})'


class VList(list):
    """a list created by instrumented code during an exploration; becomes symbolic when a summarised loop appends"""
    __slots__ = ('sym', '__weakref__')

    def __init__(self, *a):
        super().__init__(*a)
        self.sym = None

    def symbolic(self):
        return getattr(self, 'sym', None) is not None

    def _c(self):
        if self.symbolic():
            raise Unsupported('operation on a symbolic list')

    def __iter__(self):
        if self.symbolic():
            return iter(self.sym)
        return super().__iter__()

    def __len__(self):
        if self.symbolic():
            return len(self.sym)
        return super().__len__()

    def __bool__(self):
        if self.symbolic():
            return bool(self.sym)
        return super().__len__() > 0

    def __getitem__(self, k):
        if self.symbolic():
            return self.sym[k]
        if isinstance(k, (SymInt, SymOpt)):
            return as_seq(self)[k]
        if isinstance(k, slice):
            if any(isinstance(x, (SymInt, SymOpt)) for x in (k.start, k.stop, k.step)):
                return as_seq(self)[k]
            return VList(super().__getitem__(k))
        return super().__getitem__(k)

    def __contains__(self, v):
        if self.symbolic():
            return v in self.sym
        return super().__contains__(v)

    def __eq__(self, o):
        if self.symbolic() or isinstance(o, VList) and o.symbolic() or isinstance(o, SymSeq):
            return SymBool(eqf(self, o))
        return super().__eq__(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.e))
        return not r

    __hash__ = None

    def __add__(self, o):
        if self.symbolic() or isinstance(o, SymSeq) or isinstance(o, VList) and o.symbolic():
            return seq_concat(as_seq(self), as_seq(o), 'list')
        return VList(super().__add__(o))

    def __mul__(self, k):
        if isinstance(k, SymInt):
            return seq_repeat(self, k)
        return VList(super().__mul__(k))

    def __iadd__(self, o):
        self.extend(o)
        return self

    # mutators
    def append(self, x):
        if self.symbolic():
            self.sym = seq_concat(self.sym, as_seq([x]), 'list')
        else:
            super().append(x)

    def extend(self, xs):
        if self.symbolic() or isinstance(xs, SymSeq) or isinstance(xs, VList) and xs.symbolic():
            base = as_seq(self)
            x = as_seq(xs)
            if x is None:
                x = as_seq(list(xs))
            if not self.symbolic() and super().__len__() == 0:
                r = SymSeq(x.n, x.at, 'list', x.filt, x.tag)
                r.wit = x.wit
            else:
                r = seq_concat(base, x, 'list')
            super().clear()
            self.sym = r
        else:
            super().extend(xs)

    def copy(self):
        v = VList(list.__iter__(self))
        v.sym = self.sym
        return v

    def clear(self):
        self.sym = None
        super().clear()

    def pop(self, *a):
        if self.symbolic():
            s = self.sym.dense()
            i = _ie(a[0]) if a else s.n - 1
            if not a or z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() in (0, -1):
                if not cur().decide(s.n > 0):
                    raise IndexError('pop from empty list')
                if a and z3.simplify(i).as_long() == 0:
                    v = s.at(z3.IntVal(0))
                    self.sym = SymSeq(s.n - 1, lambda k: s.at(k + 1), 'list')
                else:
                    v = s.at(s.n - 1)
                    self.sym = SymSeq(s.n - 1, s.at, 'list')
                return v
            return seq_pop(self, i)
        return super().pop(*a)

    def sort(self, *, key=None, reverse=False):
        if self.symbolic():
            from . import runtime
            self.sym = runtime.sorted_hook(self.sym, key, reverse).sym
            return
        super().sort(key=key, reverse=reverse)

    def __delitem__(self, k):
        if self.symbolic():
            i = _ie(k)
            if i is None:
                raise Unsupported('slice deletion on a symbolic list')
            seq_pop(self, i)
            return
        super().__delitem__(k)

    def __setitem__(self, k, v):
        self._c()
        super().__setitem__(k, v)

    def insert(self, k, v):
        if self.symbolic() and isinstance(k, int) and k == 0:
            self.sym = seq_concat(as_seq([v]), self.sym, 'list')
            return
        self._c()
        super().insert(k, v)

    def remove(self, v):
        self._c()
        super().remove(v)

    def reverse(self):
        self._c()
        super().reverse()


def seq_pop(vl, i):
    s = vl.sym.dense()
    if cur().decide(i < 0):
        i = s.n + i
    if not cur().decide(z3.And(i >= 0, i < s.n)):
        raise IndexError('pop index out of range')
    v = s.at(i)
    vl.sym = SymSeq(s.n - 1, lambda k: select_at(k < i, lambda: s.at(k), lambda: s.at(k + 1)), 'list')
    return v


def select_at(c, a, b):
    """fork on c and build the matching value"""
    return a() if cur().decide(c) else b()


def lift(xs, kind='list'):
    xs = list(xs)

    def at(i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return xs[i.as_long()]
        if all(isinstance(x, (SymInt, int)) and not isinstance(x, bool) for x in xs) and xs:
            e = _ie(xs[-1])
            for k in range(len(xs) - 2, -1, -1):
                e = z3.If(i == k, _ie(xs[k]), e)
            return SymInt(e)
        for k in range(len(xs) - 1):
            if cur().decide(i == k):
                return xs[k]
        return xs[-1]

    s = SymSeq(len(xs), at, kind)
    s.tag = ('lifted', xs)
    return s


def as_seq(x):
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, VList):
        return x.sym if x.symbolic() else lift(list.__iter__(x), 'list')
    if isinstance(x, tuple):
        return lift(x, 'tuple')
    if isinstance(x, list):
        return lift(x, 'list')
    h = getattr(x, '__vc_seq__', None)
    if h:
        return h()
    return None


def ite_val(c, a, b):
    """value-level if-then-else without forking where the representation allows it; else None"""
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return SymInt(z3.If(c, _ie(a), _ie(b)))
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return SymStr(z3.If(c, se(a), se(b)))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(c, form(a), form(b)))
    return None


def witnesses(s):
    """where in s an element standing at position i of something s was built from may be"""
    return getattr(s, 'wit', None) or [lambda i: i]


def seq_concat(a, b, kind=None):
    def at(i):
        c = z3.simplify(i < a.n)
        if z3.is_true(c):
            return a.at(i)
        if z3.is_false(c):
            return b.at(i - a.n)
        if pure_ints(a) and pure_ints(b):
            return SymInt(z3.If(c, _ie(a.at(i)), _ie(b.at(i - a.n))))
        return a.at(i) if cur().decide(c) else b.at(i - a.n)

    s = SymSeq(z3.simplify(a.n + b.n), at, kind or a.kind)
    s.tag = ('ints',) if pure_ints(a) and pure_ints(b) else ('concat', a, b)
    fa, fb = a.filt or (lambda i: z3.BoolVal(True)), b.filt or (lambda i: z3.BoolVal(True))
    if a.filt is not None or b.filt is not None:
        s.filt = lambda i: z3.If(i < a.n, fa(i), fb(i - a.n))
        s.tag = None
    s.wit = witnesses(a) + [lambda i, w=w: a.n + w(i) for w in witnesses(b)]
    s.cat = (a, b)
    return s


def pure_ints(s):
    if s.tag and s.tag[0] == 'ints':
        return True
    if s.tag and s.tag[0] == 'lifted':
        return all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in s.tag[1])
    return False


def seq_slice(s, k):
    if k.step is not None and k.step != 1:
        if k.start is None and k.stop is None and k.step == -1:
            r = SymSeq(s.n, lambda i: s.at(s.n - 1 - i), s.kind)
            r.tag = ('ints',) if pure_ints(s) else None
            return r
        raise Unsupported('slice step')

    def norm(v, default):
        if v is None:
            return default
        v = _ie(v)
        v = z3.If(v < 0, z3.If(s.n + v < 0, z3.IntVal(0), s.n + v), z3.If(v > s.n, s.n, v))
        return z3.simplify(v)

    lo, hi = norm(k.start, z3.IntVal(0)), norm(k.stop, s.n)
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    r = SymSeq(n, lambda i: s.at(z3.simplify(lo + i)), s.kind)
    r.tag = ('ints',) if pure_ints(s) else None
    return r


def seq_repeat(xs, k):
    xs = list(xs)
    if len(xs) != 1:
        raise Unsupported('symbolic repetition of a longer tuple')
    n = _ie(k)
    r = SymSeq(z3.If(n > 0, n, z3.IntVal(0)), lambda i: xs[0], 'tuple')
    if isinstance(xs[0], (int, SymInt)):
        r.tag = ('ints',)
    return r


def concretise_len(s):
    """bounded mode only: fork on the length and return a python list of elements"""
    s = s.dense()
    n = z3.simplify(s.n)
    if z3.is_int_value(n):
        return [s.at(z3.IntVal(i)) for i in range(n.as_long())]
    if S.bounded is None:
        raise Unsupported('iteration over a symbolic sequence outside a summarisable loop')
    S.used_bound = True
    k = 0
    while k < S.bounded:
        if cur().decide(n <= k):
            break
        k += 1
    else:
        assume_feasible(n <= S.bounded)
    return [s.at(z3.IntVal(i)) for i in range(k)]


def bvar(name='j'):
    return z3.Int(S.fresh_name('b' + name))


def summarise_bool(thunk, binders, rng):
    """formula equal to bool(thunk()) for all values of the bound variables; facts assumed on the way are generalised.
    -> (formula true, formula exception)"""
    paths = explore(lambda: truth(thunk()), parent=cur(), binders=binders, assume=[rng])
    tr, ex = [], []
    gen = []
    for p in paths:
        _no_effects(p)
        br = []
        for k, e in p.items:
            if k == 'br':
                br.append(e)
            elif k == 'as':
                gen.append(z3.Implies(z3.And([rng] + br), e))
        c = z3.And(br) if br else z3.BoolVal(True)
        if p.kind == 'exc':
            ex.append((c, p.value))
        else:
            tr.append(z3.And(c, form(p.value)))
    for g in gen:
        assume(forall(binders, g))
    return z3.simplify(z3.Or(tr)) if tr else z3.BoolVal(False), ex


def _no_effects(p):
    c = cur()
    for e in p.effects:
        # looking into a dictionary is none, unless an enclosing summarised iteration may change it
        if e[0] != 'dget' or c.depth and id(e[1]) not in c.local_ids:
            raise Unsupported('side effect inside a summarised expression')


def forall(vs, body):
    body = z3.simplify(body)
    if z3.is_true(body):
        return body
    vs = [v for v in vs if occurs(v, body)]
    if not vs:
        return body
    return z3.ForAll(list(vs), body)


def exists(vs, body):
    body = z3.simplify(body)
    if z3.is_false(body) or z3.is_true(body):
        return body
    return z3.Exists(list(vs), body)


def occurs(v, e):
    todo, seen = [e], set()
    vid = v.get_id()
    while todo:
        x = todo.pop()
        if x.get_id() == vid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def in_range(s, j):
    r = z3.And(j >= 0, j < s.n)
    if s.filt is not None:
        r = z3.And(r, s.filt(j))
    return r


def _quant_small(s):
    n = z3.simplify(s.n)
    if z3.is_int_value(n):
        return n.as_long()
    return None


def forall_at(s, pred, exc='raise'):
    """SymBool: pred holds of every element of s (pred is executed symbolically, paths are merged)"""
    n = _quant_small(s)
    if n is not None and n <= 12:
        fs = []
        for k in range(n):
            kk = z3.IntVal(k)
            g = s.filt(kk) if s.filt is not None else z3.BoolVal(True)
            f, ex = summarise_bool(lambda: pred(s.at(kk)), (), g)
            _handle_exc(ex, (), g)
            fs.append(z3.Implies(g, f))
        return SymBool(z3.And(fs) if fs else z3.BoolVal(True))
    j = bvar()
    rng = in_range(s, j)
    f, ex = summarise_bool(lambda: pred(s.at(j)), (j,), rng)
    _handle_exc(ex, (j,), rng)
    return SymBool(z3.ForAll([j], z3.Implies(rng, f)))


def exists_at(s, pred):
    n = _quant_small(s)
    if n is not None and n <= 12:
        fs = []
        for k in range(n):
            kk = z3.IntVal(k)
            g = s.filt(kk) if s.filt is not None else z3.BoolVal(True)
            f, ex = summarise_bool(lambda: pred(s.at(kk)), (), g)
            _handle_exc(ex, (), g)
            fs.append(z3.And(g, f))
        return SymBool(z3.Or(fs) if fs else z3.BoolVal(False))
    j = bvar()
    rng = in_range(s, j)
    f, ex = summarise_bool(lambda: pred(s.at(j)), (j,), rng)
    _handle_exc(ex, (j,), rng)
    return SymBool(z3.Exists([j], z3.And(rng, f)))


def _handle_exc(ex, binders, rng):
    """exceptional paths of a quantified predicate: fork on whether one is taken"""
    for c, e in ex:
        g = exists(binders, z3.And(rng, c)) if binders else z3.And(rng, c)
        if cur().decide(g):
            raise e


def seq_eq(a, b):
    a, b = a.dense(), b.dense()
    if a is b:
        return z3.BoolVal(True)
    na, nb = _quant_small(a), _quant_small(b)
    if na is not None and nb is not None:
        if na != nb:
            return z3.BoolVal(False)
        return z3.And([eqf(a.at(z3.IntVal(k)), b.at(z3.IntVal(k))) for k in range(na)] or [z3.BoolVal(True)])
    if na is not None or nb is not None:
        k = na if na is not None else nb
        if k <= 6:
            other = b if na is not None else a
            f, _ = _seq_eq_k(a, b, k)
            return z3.And(other.n == k, f)
    j = bvar('q')
    rng = z3.And(j >= 0, j < a.n, a.n == b.n)
    f, ex = summarise_bool(lambda: SymBool(eqf(a.at(j), b.at(j))), (j,), rng)
    if ex:
        raise Unsupported('exception in ==')
    return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), f)))


def _seq_eq_k(a, b, k):
    fs = []
    for i in range(k):
        ii = z3.IntVal(i)
        rng = z3.And(a.n == k, b.n == k)
        f, ex = summarise_bool(lambda: SymBool(eqf(a.at(ii), b.at(ii))), (), rng)
        if ex:
            raise Unsupported('exception in ==')
        fs.append(f)
    return z3.And(fs) if fs else z3.BoolVal(True), None


# -- constructors of symbolic inputs --------------------------------------------------------------------------------

def sym_int(name, lo=None):
    v = SymInt(z3.Int(name)) if not cur().binders else SymInt(fresh(name, I))
    if lo is not None:
        assume(v.e >= lo)
    return v


def sym_bool(name):
    return SymBool(z3.Bool(name))


def sym_str(name):
    v = SymStr(z3.Real(name))
    assume(z3.And(v.e >= 0, v.e < 1))
    return v


def sym_opt(name, val):
    return SymOpt(z3.Bool(name + '.none'), val)


def int_seq(name, lo=None, minlen=0, kind='tuple'):
    n = z3.Int(name + '.len')
    f = z3.Function(name, I, I)
    assume(n >= minlen)
    if lo is not None:
        j = z3.Int('j!' + name)
        assume(z3.ForAll([j], f(j) >= lo, patterns=[f(j)]))
    s = SymSeq(n, lambda i: SymInt(f(i)), kind)
    s.tag = ('ints',)
    return s


# -- concretisation ------------------------------------------------------------------------------------------------

_strnames = {}


def concretise(v, m):
    ev = lambda e: m.eval(e, model_completion=True)
    if isinstance(v, SymBool):
        return z3.is_true(ev(v.e))
    if isinstance(v, SymInt):
        return ev(v.e).as_long()
    if isinstance(v, SymOpt):
        if z3.is_true(ev(v.none)):
            return None
        return concretise(v.val, m)
    if isinstance(v, SymStr):
        x = ev(v.e)
        for s, l in _LIT.items():
            if z3.is_true(z3.simplify(x == l)):
                return s
        return {'ord': str(x)}
    if isinstance(v, VList):
        if v.symbolic():
            return concretise(v.sym, m)
        return [concretise(x, m) for x in list.__iter__(v)]
    if isinstance(v, SymSeq):
        n = ev(v.n).as_long()
        n = min(n, 12)
        r = []
        for i in range(n):
            ii = z3.IntVal(i)
            if v.filt is not None and not z3.is_true(ev(v.filt(ii))):
                continue
            r.append(concretise(v.at(ii), m))
        return r
    h = getattr(type(v), '__vc_concrete__', None)
    if h:
        return h(v, m)
    if isinstance(v, (tuple, list)):
        return [concretise(x, m) for x in v]
    if isinstance(v, dict):
        return {str(k): concretise(x, m) for k, x in v.items()}
    if isinstance(v, (int, str, bool, float)) or v is None:
        return v
    import dataclasses
    if dataclasses.is_dataclass(v):
        return {'__class__': type(v).__name__, **{f.name: concretise(getattr(v, f.name), m)
                                                  for f in dataclasses.fields(v)}}
    return repr(v)
