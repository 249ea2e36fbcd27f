"""loops and recursion that work on containers in place: lists, sets and dictionaries holding elements of a universe given by
the contract are generalised to arbitrary parts of that universe, constrained by the candidate facts of the contract that
survive (they hold on entry and every iteration keeps them)"""
import os

import z3

from . import sym, runtime
from .runtime import CONT, DONE, Poison, CarriedRead, _pick
from .sym import (SymBool, SymInt, SymStr, SymSeq, VList, Unsupported, Infeasible, assume, bvar, cur, explore, fresh, fresh_fun,
                  as_seq, eqf)
from .vdict import VDict, VSet, lifted

I, B = sym.I, sym.B


class Universe:
    """elements 0..n-1; mk(i) builds one, idx(x) tells which one x is (None: not an element), key(i) its key"""

    def __init__(self, n, mk, idx, key):
        self.n, self.mk, self.idx, self.key = n, mk, idx, key

    def rng(self, i):
        return z3.And(0 <= i, i < self.n)


class HeapContract:
    """candidates(mem, mem0, i, s) -> (key, formula): mem, mem0 map container names to membership functions, now and before the
    loop; i and s are the position and the sequence of a for loop"""

    def __init__(self, universe, candidates, for_loops=False):
        self.u, self.candidates, self.for_loops = universe, candidates, for_loops
        self.objs = {}  # containers that are no locals of the function at hand


active = []


class _Shape:
    pass


def _idx(u, x):
    i = u.idx(runtime.unopt(x))
    if i is None:
        raise _No()
    return i


class _No(BaseException):
    pass


def _is_true(f):
    if z3.is_true(z3.simplify(f)):
        return True
    for mbqi in (False, True):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.set('smt.mbqi', mbqi)
        s.add(cur().facts())
        s.add(z3.Not(f))
        r = s.check()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
    return False


def _formula_at(s, pred):
    """formula over a fresh position: pred(element)"""
    j = bvar()
    rng = sym.in_range(s, j)
    f, ex = sym.summarise_bool(lambda: SymBool(pred(s.at(j))), (j,), rng)
    if ex:
        raise _No()
    return j, rng, f


def _seq_membership(u, s):
    if s.cat:
        a, b = (_seq_membership(u, x) for x in s.cat)
        return lambda i: z3.Or(a(i), b(i))
    n = z3.simplify(s.n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return lambda i: z3.BoolVal(False)
    if z3.is_int_value(n) and n.as_long() <= 12:
        ks = [_idx(u, s.at(z3.IntVal(k))) for k in range(n.as_long())]
        for k in ks:
            if not _is_true(u.rng(k)):
                raise _No()
        return lambda i: z3.Or([i == k for k in ks])
    q = z3.Int(sym.S.fresh_name('mem'))
    j, rng, f = _formula_at(s, lambda x: z3.And(u.rng(_idx(u, x)), _idx(u, x) == q))
    j2, rng2, f2 = _formula_at(s, lambda x: u.rng(_idx(u, x)))
    if not _is_true(sym.forall((j2,), z3.Implies(rng2, f2))):
        raise _No()
    g = sym.exists((j,), z3.And(rng, f))
    return lambda i: z3.substitute(g, (q, i))


def membership(u, o):
    """the part of the universe o holds, as a function of the position; o holds nothing else"""
    if isinstance(o, VList):
        return _seq_membership(u, as_seq(o))
    if isinstance(o, VDict) or isinstance(o, VSet):
        d = o if isinstance(o, VDict) else o.d
        if d is None:
            d = VDict()
            for x in set.__iter__(o):
                dict.__setitem__(d, x, None)
        isd = isinstance(o, VDict)
        log = d.log if d.log is not None else [('set', k, v) for k, v in dict.items(d)]
        for e in log:
            if e[0] == 'set':
                if isd:
                    i = _idx(u, e[2])
                    if not _is_true(z3.And(u.rng(i), eqf(e[1], u.key(i)))):
                        raise _No()
                else:
                    _key_ok(u, e[1])
            elif e[0] == 'seq':
                if isd:
                    j, rng, f = _formula_at(e[1], lambda p: z3.And(u.rng(_idx(u, p[1])), eqf(p[0], u.key(_idx(u, p[1])))))
                    if not _is_true(sym.forall((j,), z3.Implies(rng, f))):
                        raise _No()
                elif not getattr(e[1], 'tag', None) == ('universe', id(u)):
                    raise _No()
        q = z3.Int(sym.S.fresh_name('mem'))
        probe = VDict()
        probe.log = list(log)
        if sym.CUR.depth:
            sym.CUR.local_ids[id(probe)] = probe
        g = probe.has(u.key(q))
        return lambda i: z3.substitute(g, (q, i))
    raise _No()


def _key_ok(u, k):
    q = z3.Int(sym.S.fresh_name('mem'))
    if not _is_true(z3.Exists([q], z3.And(u.rng(q), eqf(k, u.key(q))))):
        raise _No()


def havoc(u, o):
    """o now holds an arbitrary part of the universe; -> membership"""
    if isinstance(o, VList):
        n = fresh('hn', I)
        el = fresh_fun('hel', I, I)
        j = z3.Int('j!h')
        assume(n >= 0)
        assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), u.rng(el(j))), patterns=[el(j)]))
        list.clear(o)
        o.sym = SymSeq(n, lambda i: u.mk(el(i)), 'list')
        return lambda i: z3.Exists([j], z3.And(0 <= j, j < n, el(j) == i))
    p = fresh_fun('hp', I, B)
    isd = isinstance(o, VDict)
    d = o if isd else VDict()
    s = SymSeq(u.n, lambda i: (u.key(i), u.mk(i) if isd else None), 'list', lambda i: p(i))
    s.tag = ('universe', id(u))
    dict.clear(d)
    d.log = [('seq', s)]
    if not isd:
        set.clear(o)
        o.d = d
        c = sym.CUR
        if c.depth:
            c.local_ids[id(d)] = d
        o.fresh_card()
    return lambda i: z3.And(u.rng(i), p(i))


def save(o):
    if isinstance(o, VList):
        return list(list.__iter__(o)), o.sym
    if isinstance(o, VDict):
        return dict(dict.items(o)), None if o.log is None else list(o.log)
    return set(set.__iter__(o)), o.d, None if o.d is None else list(o.d.log or [])


def restore(o, st):
    if isinstance(o, VList):
        list.clear(o)
        list.extend(o, st[0])
        o.sym = st[1]
    elif isinstance(o, VDict):
        dict.clear(o)
        dict.update(o, st[0])
        o.log = None if st[1] is None else list(st[1])
    else:
        set.clear(o)
        set.update(o, st[0])
        o.d = st[1]
        if o.d is not None:
            o.d.log = list(st[2])


def containers(h, env):
    out, seen = {}, set()
    for src in (env, h.objs):
        for n, o in src.items():
            if isinstance(o, (VList, VDict, VSet)) and id(o) not in seen:
                seen.add(id(o))
                out[n] = o
    return out


def _register(objs):
    c = cur()
    if c.depth:
        for o in objs.values():
            c.local_ids[id(o)] = o
            if isinstance(o, VSet) and o.d is not None:
                c.local_ids[id(o.d)] = o.d


def heap_loop(site, cond, s, body, get, set_, mods):
    h = active[-1]
    env0 = get()
    u = h.u
    objs, mem0 = {}, {}
    for n, o in containers(h, env0).items():
        try:
            mem0[n] = membership(u, o)
            objs[n] = o
        except _No:
            pass
    if not objs:
        return NotImplemented
    d = s.dense() if s is not None else None
    st = {n: save(o) for n, o in objs.items()}

    def cands(mem, i):
        for n in objs:
            q = z3.Int('q!hc')
            yield ('same', n), z3.ForAll([q], z3.Implies(u.rng(q), mem[n](q) == mem0[n](q)))
        yield from h.candidates(mem, mem0, i, d)

    cand = {k for k, f in cands(mem0, z3.IntVal(0)) if _is_true(f)}

    def enter():
        for n, o in objs.items():
            restore(o, st[n])
        _register(objs)
        mem = {n: havoc(u, o) for n, o in objs.items()}
        set_({m: Poison(env0, m) for m in mods})
        i = None
        if d is not None:
            i = fresh('it', I)
            assume(z3.And(i >= 0, i <= d.n))
        for k, f in cands(mem, i):
            if k in cand:
                assume(f)
        return i

    def leave():
        for n, o in objs.items():
            restore(o, st[n])
        set_(_pick(env0, mods))

    exits = []
    while True:
        bad = set()
        exits.clear()

        def run():
            i = enter()
            cur().weaken(site)
            if d is not None:
                assume(i < d.n)
            elif not cond():
                return
            r = body(d.at(i)) if d is not None else body()
            if r is not CONT:
                exits.append(1)
                return
            if cur().effects and any(e[0] != 'dget' for e in cur().effects):
                raise Unsupported(f'{site}: effect on an object outside the loop')
            try:
                mem = {n: membership(u, o) for n, o in objs.items()}
            except _No:
                raise Unsupported(f'{site}: a container leaves the universe')
            for k, f in cands(mem, i + 1 if i is not None else None):
                if k in cand - bad and not _is_true(f):
                    bad.add(k)

        try:
            paths = explore(run, parent=cur())
        except CarriedRead:
            leave()
            raise Unsupported(f'{site}: a variable is carried by the loop')
        except BaseException:
            leave()
            raise
        leave()
        if any(p.kind == 'exc' for p in paths):
            exits.append(1)
        if os.environ.get('PYVC_DEBUG'):
            print('heap loop', site, 'kept', sorted(map(str, cand - bad)), 'dropped', sorted(map(str, bad)), flush=True)
        if not bad:
            break
        cand -= bad
    i = enter()
    c = cur()
    c.weaken(site)
    done = not exits and d is not None
    if d is not None:
        if done:
            assume(i == d.n)
        else:
            done = c.decide(i == d.n)
    else:
        done = not cond()
    if done:
        return DONE
    r = body(d.at(i)) if d is not None else body()
    if r is CONT:
        raise Infeasible()
    return r


def heap_while(site, cond, body, get, set_, mods):
    if not active or sym.S.bounded is not None:
        return NotImplemented
    return heap_loop(site, cond, None, body, get, set_, mods)


def heap_for(site, s, body, get, set_, mods):
    if not active or not active[-1].for_loops:
        return NotImplemented
    return heap_loop(site, None, s, body, get, set_, mods)


runtime.while_rules.insert(0, heap_while)
runtime.for_rules.append(heap_for)


class Recursion:
    """a recursive function on containers: pre/post(x, mem before, mem after); its body is verified once against them with its
    own calls replaced by them, every call then uses them"""

    def __init__(self, h, post):
        self.h, self.post = h, post
        self.verified = False
        self.busy = False

    def wrap(self, f):
        if sym.S.bounded is not None:
            return f

        def call(x):
            h, u = self.h, self.h.u
            objs = {}
            for nm, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
                try:
                    if isinstance(c.cell_contents, (VList, VDict, VSet)):
                        objs[nm] = c.cell_contents
                except ValueError:
                    pass
            try:
                mem0 = {n: membership(u, o) for n, o in objs.items()}
                ix = _idx(u, x)
            except _No:
                raise Unsupported('recursion outside the universe of its contract')
            if not self.verified and not self.busy:
                self.busy = True
                st = {n: save(o) for n, o in objs.items()}
                h.objs = dict(objs)

                def run():
                    for n, o in objs.items():
                        restore(o, st[n])
                    _register(objs)
                    m0 = {n: havoc(u, o) for n, o in objs.items()}
                    i = z3.Int(sym.S.fresh_name('arg'))
                    assume(u.rng(i))
                    f(u.mk(i))
                    try:
                        m1 = {n: membership(u, o) for n, o in objs.items()}
                    except _No:
                        raise Unsupported('a container leaves the universe')
                    for k, g in self.post(i, m0, m1):
                        sym.prove(f'{f.__name__}: {k}', g)

                try:
                    for p in explore(run, parent=cur()):
                        if p.kind == 'exc':
                            raise Unsupported(f'exception in a recursive function: {p.value!r}')
                        if any(e[0] != 'dget' for e in p.effects):
                            raise Unsupported('effect of a recursive function on an outer object')
                finally:
                    for n, o in objs.items():
                        restore(o, st[n])
                    self.busy = False
                    h.objs = {}
                self.verified = True
            sym.prove(f'{f.__name__}: called with an element', u.rng(ix))
            _register_if_local(objs)
            mem1 = {n: havoc(u, o) for n, o in objs.items()}
            for k, g in self.post(ix, mem0, mem1):
                assume(g)

        return call


def _register_if_local(objs):
    c = cur()
    for o in objs.values():
        if c.depth and id(o) not in c.local_ids:
            raise Unsupported('recursive call inside a summarised iteration')
