"""loop rules with inferred invariants (Houdini over type-shaped candidate atoms; no rule looks at variable names)"""
import z3

from . import sym, runtime
from .runtime import CONT, BRK, DONE, Poison, CarriedRead, _pick, is_ret
from .sym import (SymBool, SymInt, SymOpt, SymSeq, SymStr, VList, Unsupported, Infeasible, assume, bvar, cur, explore,
                  form, forall, fresh, in_range, as_seq, _ie, eqf)


# -------------------------------------------------------------------------------------------- shapes of carried state

class Shape:
    """how one carried variable is generalised: fresh() builds an arbitrary value of the shape, atoms(x) the candidate
    facts about a value of the shape, match(v) recognises a value after an iteration"""

    def measure(self, x):
        return None


class IntShape(Shape):
    def __init__(self, v0, others):
        self.v0 = _ie(v0)
        self.others = others  # z3 ints to compare with

    def fresh(self):
        e = fresh('inv', sym.I)
        return SymInt(e), e

    def measure(self, x):
        return x

    def match(self, v):
        if isinstance(v, bool):
            return None
        return _ie(v) if isinstance(v, (int, SymInt)) else None

    def atoms(self, e):
        out = [('ge0', e >= 0), ('ge_init', e >= self.v0), ('le_init', e <= self.v0), ('eq_init', e == self.v0),
               ('ge1', e >= 1)]
        for i, o in enumerate(self.others):
            out += [(f'le{i}', e <= o), (f'lt{i}', e < o)]
        return out


def relational(shapes, rep, entry):
    """candidate linear relations between the measures of two carried variables"""
    ns = [n for n, sh in shapes.items() if rep[n] is not None and rep[n] is not True and sh.measure(rep[n]) is not None]
    for a in range(len(ns)):
        for b in range(a + 1, len(ns)):
            x, y = (shapes[n].measure(rep[n]) for n in (ns[a], ns[b]))
            x0, y0 = (shapes[n].measure(entry[n]) for n in (ns[a], ns[b]))
            yield (ns[a], ns[b], 'sum'), x + y == x0 + y0
            yield (ns[a], ns[b], 'diff'), x - y == x0 - y0


class SliceShape(Shape):
    """a slice of the value the variable had before the loop"""

    def __init__(self, s0):
        self.s0 = s0

    def fresh(self):
        lo, n = fresh('slo', sym.I), fresh('slen', sym.I)
        assume(z3.And(lo >= 0, n >= 0, lo + n <= self.s0.n))
        r = SymSeq(n, lambda i: self.s0.at(z3.simplify(lo + i)), self.s0.kind)
        r.tag = self.s0.tag if self.s0.tag == ('ints',) else None
        set_origin(r, self.s0, lo)
        return r, (lo, n)

    def match(self, v):
        v = as_seq(v) if isinstance(v, (SymSeq, VList)) else None
        if v is None:
            return None
        if v is self.s0:
            return z3.IntVal(0), v.n
        o = origin(v)
        if o is None or o[0] is not self.s0:
            return None
        return o[1], v.n

    def measure(self, x):
        return x[1]

    def atoms(self, x):
        lo, n = x
        out = [('lo0', lo == 0), ('full_end', lo + n == self.s0.n), ('n1', n >= 1), ('n2', n >= 2)]
        if sym.pure_ints(self.s0):
            i = z3.Int('i!sh')
            for c in (0, 1):
                out.append((f'tail{c}', z3.ForAll([i], z3.Implies(z3.And(lo + n <= i, i < self.s0.n),
                                                                 _ie(self.s0.at(i)) == c))))
                out.append((f'head{c}', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lo), _ie(self.s0.at(i)) == c))))
        return out


class ConstShape(Shape):
    def __init__(self, v0):
        self.v0 = v0

    def fresh(self):
        return self.v0, None

    def match(self, v):
        if v is self.v0 or (isinstance(v, (int, str, bool)) and type(v) is type(self.v0) and v == self.v0):
            return True
        return None

    def atoms(self, x):
        return []


class BoolShape(Shape):
    def __init__(self, v0):
        self.v0 = form(v0)

    def fresh(self):
        e = fresh('invb', sym.B)
        return SymBool(e), e

    def match(self, v):
        return form(v) if isinstance(v, (bool, SymBool)) else None

    def atoms(self, e):
        return [('true', e), ('false', z3.Not(e)), ('imp', z3.Implies(self.v0, e)), ('pmi', z3.Implies(e, self.v0))]


def any_like(v):
    """an arbitrary value of the kind of v"""
    while isinstance(v, SymOpt):
        v = v.val
    if isinstance(v, SymInt):
        return SymInt(fresh('any', sym.I))
    if isinstance(v, SymStr):
        e = fresh('any', sym.R)
        assume(z3.And(e >= 0, e < 1))
        return SymStr(e)
    f = getattr(type(v), '__vc_any__', None)
    return f(v) if f else None


class OptShape(Shape):
    """None, or a value of the kind of a sample"""

    def __init__(self, sample):
        self.sample = sample

    def fresh(self):
        none = fresh('none', sym.B)
        return SymOpt(none, any_like(self.sample)), none

    def match(self, v):
        if v is None:
            return z3.BoolVal(True)
        if isinstance(v, SymOpt):
            return v.none
        k = self.sample
        while isinstance(k, SymOpt):
            k = k.val
        return z3.BoolVal(False) if isinstance(v, type(k)) else None

    def atoms(self, x):
        return [('none', x), ('some', z3.Not(x))]


# loop annotations given by contracts: f(values by variable name, position, sequence, values before the loop) -> (key, formula) candidates, which
# become invariants when they hold on entry and are kept by the body
annotations = []


def annotated(vals, i, s, entry):
    for n, f in enumerate(annotations):
        for k, e in f(vals, i, s, entry):
            yield ('annotation', n, k), e


_ORG = {}


def set_origin(r, base, lo):
    _ORG[r.uid] = (base, lo)
    if len(_ORG) > 200000:
        _ORG.clear()


def origin(v):
    return _ORG.get(v.uid)


_old_slice = sym.seq_slice


def seq_slice(s, k):
    r = _old_slice(s, k)
    if k.step in (None, 1):
        lo = z3.IntVal(0)
        if k.start is not None:
            v = _ie(k.start)
            v = z3.If(v < 0, z3.If(s.n + v < 0, z3.IntVal(0), s.n + v), z3.If(v > s.n, s.n, v))
            lo = z3.simplify(v)
        o = origin(s)
        if o:
            set_origin(r, o[0], z3.simplify(o[1] + lo))
        else:
            set_origin(r, s, lo)
    return r


sym.seq_slice = seq_slice

extra_shapes = []  # f(value, env) -> Shape or None  (contracts may add shapes for their own abstract values)


def shape_of(v, env):
    for f in extra_shapes:
        r = f(v, env)
        if r is not None:
            return r
    if isinstance(v, (bool, SymBool)):
        return BoolShape(v)
    if isinstance(v, (int, SymInt)):
        others = []
        for x in env.values():
            if isinstance(x, SymSeq) and x.filt is None:
                others.append(x.n)
            elif isinstance(x, VList) and x.symbolic() and x.sym.filt is None:
                others.append(x.sym.n)
        return IntShape(v, others[:4])
    if isinstance(v, SymSeq) and v.filt is None:
        return SliceShape(v)
    if v is None or isinstance(v, str):
        return ConstShape(v)
    if isinstance(v, SymOpt) and any_like(v) is not None:
        return OptShape(v)
    return None


def _valid(e):
    st, _, _ = sym.check_valid(cur().facts(), e, 2000)
    return st == 'discharged'


def while_inv(site, cond, body, get, set_, mods):
    if sym.S.bounded is not None:
        return NotImplemented
    env0 = get()
    # a loop whose control flow is concrete is simply run
    carried = []
    try:
        while True:
            try:
                return _while(site, cond, body, get, set_, mods, env0, carried)
            except CarriedRead as e:
                if e.token is not env0:
                    raise
                set_(_pick(env0, mods))
                if e.name not in env0:
                    raise Unsupported(f'{site}: {e.name} read before assignment')
                carried.append(e.name)
    except _Fallback:
        set_(_pick(env0, mods))
        return NotImplemented


class _Fallback(Exception):
    pass


def _while(site, cond, body, get, set_, mods, env0, carried):
    shapes = {}
    for n in carried:
        sh = shape_of(env0[n], env0)
        if sh is None:
            raise _Fallback()
        shapes[n] = sh

    def enter():
        vals = {m: Poison(env0, m) for m in mods}
        rep = {}
        for n, sh in shapes.items():
            vals[n], rep[n] = sh.fresh()
        set_(vals)
        return rep

    # candidate atoms that hold on entry
    cand = set()
    for n, sh in shapes.items():
        x0 = sh.match(env0[n])
        if x0 is None:
            raise _Fallback()
        for k, f in sh.atoms(x0) if x0 is not True else []:
            if _valid(f):
                cand.add((n, k))

    entry = {n: sh.match(env0[n]) for n, sh in shapes.items()}
    for k, f in relational(shapes, entry, entry):
        cand.add(k)

    def atoms(rep, only):
        for n, sh in shapes.items():
            if rep[n] is None or rep[n] is True:
                continue
            for k, f in sh.atoms(rep[n]):
                if (n, k) in only:
                    yield (n, k), f
        for k, f in relational(shapes, rep, entry):
            if k in only:
                yield k, f

    while True:
        bad = set()
        variants = None

        def run():
            nonlocal variants
            rep = enter()
            for _, f in atoms(rep, cand):
                assume(f)
            if not cond():
                return 'exit'
            before = {n: sh.measure(rep[n]) for n, sh in shapes.items()}
            r = body()
            if r is not CONT:
                return 'exit'
            e = get()
            rep2 = {}
            for n, sh in shapes.items():
                rep2[n] = sh.match(e.get(n))
                if rep2[n] is None:
                    raise Unsupported(f'{site}: carried variable {n} leaves its shape')
            for key, f in atoms(rep2, cand - bad):
                if not _valid(f):
                    bad.add(key)
            if getattr(sym.S, 'termination', False):
                ok = {n for n, m in before.items() if m is not None and
                      _valid(z3.And(m >= 0, shapes[n].measure(rep2[n]) < m))}
                variants = ok if variants is None else variants & ok
            return 'cont'

        paths = explore(run, parent=cur())
        for p in paths:
            if p.effects:
                raise Unsupported(f'{site}: side effect in a loop with an inferred invariant')
        set_(_pick(env0, mods))
        if not bad:
            break
        cand -= bad
    if getattr(sym.S, 'termination', False) and variants is not None:
        if not variants:
            raise Unsupported(f'{site}: no variant found for the loop')
        sym.prove(f'{site}: the loop ends (variant found)', True)
    scan = _scan(cond, body, get, set_, mods, env0, shapes) if len(shapes) == 1 else None
    rep = enter()
    for _, f in atoms(rep, cand):
        assume(f)
    if scan:
        (n, sh), = shapes.items()
        for f in scan(rep[n]):
            assume(f)
    elif shapes:
        cur().weaken(site)
    if not cond():
        return DONE
    r = body()
    if r is CONT:
        raise Infeasible()
    return r


def _scan(cond, body, get, set_, mods, env0, shapes):
    """the only carried variable is a counter that every completed iteration moves up (or down) by exactly one: each
    earlier value of it went round the loop, so what it takes to go round holds for all of them"""
    (n, sh), = shapes.items()
    if not isinstance(sh, IntShape):
        return None
    for step in (1, -1):
        j = bvar()
        rng = j >= sh.v0 if step == 1 else j <= sh.v0

        def run():
            vals = {m: Poison(env0, m) for m in mods}
            vals[n] = SymInt(j)
            set_(vals)
            if not cond() or body() is not CONT:
                return None
            return get().get(n)

        try:
            paths = explore(run, parent=cur(), binders=(j,), assume=[rng])
        except (Unsupported, CarriedRead):
            return None
        finally:
            set_(_pick(env0, mods))
        goes_on, lemmas, ok = [], [], True
        for p in paths:
            if p.effects:
                return None
            br = []
            for k, e in p.items:
                if k == 'br':
                    br.append(e)
                elif k == 'as':
                    lemmas.append(z3.Implies(z3.And([rng] + br), e))
            if p.kind == 'exc' or p.value is None:
                continue
            if not isinstance(p.value, (int, SymInt)) or isinstance(p.value, bool):
                return None
            if not _valid(forall((j,), z3.Implies(z3.And([rng] + br + lemmas), _ie(p.value) == j + step))):
                ok = False
                break
            goes_on.append(z3.And(br))
        if not ok:
            continue
        f = z3.Or(goes_on) if goes_on else z3.BoolVal(False)

        def facts(i, j=j, rng=rng, step=step, lemmas=lemmas, f=f):
            done = z3.And(rng, j < i if step == 1 else j > i)
            return [i >= sh.v0 if step == 1 else i <= sh.v0] + \
                [forall((j,), z3.Implies(done, g)) for g in lemmas + [f]]

        return facts
    return None


def smart_while(site, cond, body, get, set_, mods):
    """run concretely as long as nothing symbolic decides the loop; otherwise use the invariant rule"""
    if sym.S.bounded is not None or sym.CUR is None:
        return NotImplemented
    env0 = get()
    # probing on a copy is impossible; look at whether the first condition is symbolic
    probe = {}

    def run():
        c = cur()
        t0 = len(c.trace)
        r = cond()
        bool(r)
        probe['sym'] = probe.get('sym', False) or len(c.trace) > t0
        return None

    try:
        explore(run, parent=cur())
    except Unsupported:
        return NotImplemented
    set_(_pick(env0, mods))
    if not probe.get('sym'):
        return NotImplemented
    return while_inv(site, cond, body, get, set_, mods)


runtime.while_rules.append(smart_while)


# --------------------------------------------------------------------------------------------- for loops with carried state

def for_fold_bool(site, s, body, get, set_, mods, env0, carried):
    """one boolean carried variable, loop without early exit: and-/or-fold"""
    if len(carried) != 1 or carried[0] not in env0:
        return NotImplemented
    n = carried[0]
    v0 = env0[n]
    if not isinstance(v0, (bool, SymBool)):
        return NotImplemented
    j = bvar()
    rng = in_range(s, j)
    res = {}
    for b in (True, False):
        def run(b=b):
            vals = {m: Poison(env0, m) for m in mods}
            vals[n] = b
            set_(vals)
            r = body(s.at(j))
            if r is not CONT:
                raise Unsupported(f'{site}: exit from a loop with carried state')
            return get().get(n)

        try:
            paths = explore(run, parent=cur(), binders=(j,), assume=[rng])
        finally:
            set_(_pick(env0, mods))
        f = []
        for p in paths:
            if p.effects or p.kind == 'exc':
                return NotImplemented
            br = []
            for k, e in p.items:
                if k == 'br':
                    br.append(e)
                elif k == 'as':
                    assume(forall((j,), z3.Implies(z3.And([rng] + br), e)))
            if not isinstance(p.value, (bool, SymBool)):
                return NotImplemented
            f.append(z3.And(br + [form(p.value)]))
        res[b] = z3.simplify(z3.Or(f))
    t, fl = res[True], res[False]
    v = form(v0)
    if _valid(forall((j,), z3.Implies(rng, z3.Not(fl)))):
        r = z3.And(v, forall((j,), z3.Implies(rng, t)))
    elif _valid(forall((j,), z3.Implies(rng, t))):
        r = z3.Or(v, sym.exists((j,), z3.And(rng, fl)))
    else:
        return NotImplemented
    out = {m: Poison(('after', site), m) for m in mods}
    out[n] = SymBool(r)
    set_(out)
    return DONE


def for_inv(site, s, body, get, set_, mods, env0, carried):
    """carried ints / slices / constants: inferred invariant, as for while loops; the index is havocked with them"""
    d = s.dense()
    shapes = {}
    for n in carried:
        if n not in env0:
            return NotImplemented
        sh = shape_of(env0[n], env0)
        if sh is None:
            return NotImplemented
        shapes[n] = sh
    optional = set()
    for n in mods:
        if n not in shapes and n in env0 and env0[n] is None:
            shapes[n] = ConstShape(None)  # read after the loop only
            optional.add(n)

    def enter():
        vals = {m: Poison(env0, m) for m in mods}
        rep = {}
        for n, sh in shapes.items():
            vals[n], rep[n] = sh.fresh()
        i = fresh('it', sym.I)
        assume(z3.And(i >= 0, i <= d.n))
        set_(vals)
        return i, rep

    def atoms(rep, i, only=None):
        for n, sh in shapes.items():
            x = rep[n]
            if x is None or x is True:
                continue
            lst = list(sh.atoms(x))
            if isinstance(sh, IntShape):
                lst += [('eq_i', x == i), ('eq_init_i', x == sh.v0 + i), ('le_i', x <= sh.v0 + i)]
            if isinstance(sh, SliceShape):
                lst += [('n_i', x[1] == sh.s0.n - i), ('lo_i', x[0] == i)]
            for k, f in lst:
                if only is None or (n, k) in only:
                    yield (n, k), f

    def candidates():
        c = set()
        rep0 = {}
        for n, sh in shapes.items():
            rep0[n] = sh.match(env0[n])
            if rep0[n] is None:
                return None
        for key, f in atoms(rep0, z3.IntVal(0)):
            if _valid(f):
                c.add(key)
        for key, f in annotated(env0, z3.IntVal(0), d, env0):
            if _valid(f):
                c.add(key)
        return c

    cand = candidates()
    if cand is None:
        return NotImplemented
    while True:
        bad = set()
        wider = {}
        exits = []

        def run():
            i, rep = enter()
            if shapes:
                cur().weaken(site)
            assume(i < d.n)
            for _, f in atoms(rep, i, cand):
                assume(f)
            for key, f in annotated(get(), i, d, env0):
                if key in cand:
                    assume(f)
            r = body(d.at(i))
            if r is not CONT:
                exits.append(1)
                return 'exit'
            e = get()
            rep2 = {}
            for n, sh in shapes.items():
                rep2[n] = sh.match(e.get(n))
                if rep2[n] is None:
                    if isinstance(sh, ConstShape) and sh.v0 is None and any_like(e.get(n)) is not None:
                        wider[n] = OptShape(e.get(n))
                        return 'cont'
                    if n in optional:
                        wider[n] = None
                        return 'cont'
                    raise Unsupported(f'{site}: carried variable {n} leaves its shape')
            for key, f in atoms(rep2, i + 1, cand - bad):
                if not _valid(f):
                    bad.add(key)
            for key, f in annotated(e, i + 1, d, env0):
                if key in cand - bad and not _valid(f):
                    bad.add(key)
            return 'cont'

        try:
            paths = explore(run, parent=cur())
        finally:
            set_(_pick(env0, mods))
        for p in paths:
            if p.effects:
                return NotImplemented
            if p.kind == 'exc':
                exits.append(1)
        if wider:
            shapes.update(wider)
            for n in [n for n, sh in shapes.items() if sh is None]:
                del shapes[n]
            cand = candidates()
            continue
        if not bad:
            break
        cand -= bad
    i, rep = enter()
    if shapes:
        cur().weaken(site)
    for _, f in atoms(rep, i, cand):
        assume(f)
    for key, f in annotated(get(), i, d, env0):
        if key in cand:
            assume(f)
    if not exits:
        assume(i == d.n)
    if not exits or cur().decide(i == d.n):
        vals = {m: (get()[m] if m in shapes else Poison(('after', site), m)) for m in mods}
        set_(vals)
        return DONE
    r = body(d.at(i))
    if r is CONT:
        raise Infeasible()
    return r


runtime.loop_rules.append(for_fold_bool)


def _for_inv_last(site, s, body, get, set_, mods, env0, carried):
    return NotImplemented


def final_for_rule(site, s, body, get, set_, mods, env0, carried):
    try:
        return for_inv(site, s, body, get, set_, mods, env0, carried)
    except CarriedRead as e:
        if e.token is env0 and e.name not in carried:
            set_(_pick(env0, mods))
            carried.append(e.name)
            for rule in runtime.loop_rules:
                r = rule(site, s, body, get, set_, mods, env0, carried)
                if r is not NotImplemented:
                    return r
        raise


runtime.loop_rules.append(final_for_rule)
