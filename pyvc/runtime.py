"""The ``__vc`` runtime the instrumented code calls into.  On ordinary values every function does exactly what the
rewritten construct did; on symbolic values it applies the corresponding verification rule."""
import builtins
import itertools
import re
import operator
import types

import z3

from . import sym
from .vdict import VDict, VSet, check_loop, reindex, NoReindex
from .sym import (Sym, SymBool, SymInt, SymStr, SymOpt, SymSeq, VList, Unsupported, Infeasible, as_seq, assume, bvar,
                  concretise_len, cur, eqf, explore, fresh, fresh_fun, form, forall, exists, in_range, truth, _ie, se,
                  forall_at, exists_at, _handle_exc, lift, str_lit)


class _Code:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


CONT = _Code('CONT')
BRK = _Code('BRK')
DONE = _Code('DONE')


class ret:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


def is_ret(r):
    return type(r) is ret


def is_done(r):
    return r is DONE


ANY_EXC = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)


class CarriedRead(Unsupported):
    def __init__(self, token, name):
        super().__init__(f'loop-carried variable {name}')
        self.token, self.name = token, name


class Poison:
    """value of a local that an earlier iteration may have set; looking at it makes it loop-carried"""

    def __init__(self, token, name):
        object.__setattr__(self, '_t', (token, name))

    def _r(self, *a, **k):
        t = object.__getattribute__(self, '_t')
        raise CarriedRead(*t)

    __getattr__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = \
        __rsub__ = __mul__ = __rmul__ = __iter__ = __len__ = __getitem__ = __contains__ = __call__ = __hash__ = \
        __and__ = __or__ = __xor__ = __rand__ = __ror__ = __invert__ = __neg__ = __index__ = __str__ = __repr__ = \
        __setitem__ = __delitem__ = __iadd__ = __next__ = __floordiv__ = __mod__ = __enter__ = _r

    def __setattr__(self, k, v):
        self._r()


def chk(x):
    if type(x) is Poison:
        x._r()
    return x


def unopt(x):
    if type(x) is Poison:
        x._r()
    while isinstance(x, SymOpt):
        x = x.force()
    return x


class SymGen:
    """a one-shot iterator over a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq
        self.pos = 0

    def rest(self):
        s = self.seq
        if self.pos:
            d = s.dense()
            p = self.pos
            s = SymSeq(z3.If(d.n > p, d.n - p, z3.IntVal(0)), lambda i: d.at(i + p), d.kind)
        self.pos = None
        return s

    def __iter__(self):
        if self.pos is None:
            return iter(())
        return iter(concretise_len(self.rest()))

    def __next__(self):
        return b_next(self)

    def __vc_seq__(self):
        if self.pos is None:
            return lift([])
        return self.rest()


def sym_iter(it):
    """the symbolic sequence behind an iterable, or None if it is an ordinary iterable"""
    it = unopt(it)
    if isinstance(it, SymSeq):
        return it
    if isinstance(it, VList):
        return it.sym if it.symbolic() else None
    if isinstance(it, SymGen):
        return as_seq(it)
    h = getattr(type(it), '__vc_seq__', None)
    if h:
        return h(it)
    return None


# ---------------------------------------------------------------------------------------------------------------
# heap effects inside summarised code
# ---------------------------------------------------------------------------------------------------------------

def _new(o):
    if sym.CUR is not None and sym.CUR.depth:
        sym.CUR.local_ids[id(o)] = o
    return o


def born(o):
    _new(o)


def _is_local(o):
    c = sym.CUR
    return c is None or c.depth == 0 or id(o) in c.local_ids


def wr(o):
    if not _is_local(o):
        raise Unsupported(f'write to an outer {type(o).__name__} inside a summarised iteration')


def wr_unknown():
    if sym.CUR is not None and sym.CUR.depth:
        raise Unsupported('write to an unknown object inside a summarised iteration')


def _read(o):
    c = sym.CUR
    if c is not None and c.depth and isinstance(o, (list, set, dict)):
        c.reads.add(id(o))
    return o


def setitem(v, o, k):
    o = chk(o)
    if sym.CUR is None:
        o[k] = v
        return
    o = unopt(o)
    if not isinstance(o, VDict):
        wr(o)
        if isinstance(k, SymOpt):
            k = k.force()
    o[k] = v


def delitem(o, k):
    o = unopt(o)
    if isinstance(o, VDict):
        del o[k]
        return
    wr(o)
    if isinstance(k, SymInt) and isinstance(o, VList):
        if not o.symbolic():
            s = as_seq(o)
            list.clear(o)
            o.sym = s
        o.__delitem__(k)
        return
    if isinstance(o, list) and isinstance(k, SymOpt):
        k = k.force()
    del o[k]


MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
       'setdefault', 'popitem', 'difference_update', 'intersection_update', '__setitem__'}


re_hooks = []  # the re module on symbolic strings: f(module or pattern, method, args, kwargs)


def mcall(o, name, *a, **k):
    o = unopt(o)
    c = sym.CUR
    if c is None:
        return getattr(o, name)(*a, **k)
    if isinstance(o, (VDict, VSet)):
        return getattr(o, name)(*a, **k)
    if isinstance(o, (list, set, dict)) and c.depth:
        if name in MUT and not _is_local(o):
            if name in ('append', 'add') and len(a) == 1:
                c.effects.append((name, o, a[0]))
                return None
            if name == '__setitem__' or (name == 'setdefault'):
                pass
            raise Unsupported(f'{name} on an outer {type(o).__name__} inside a summarised iteration')
        _read(o)
    if name == 'setdefault' and isinstance(o, dict) and not k:
        pass
    if type(o) is dict and name == 'get' and a and isinstance(unopt(a[0]), Sym):
        try:
            return sub(o, unopt(a[0]))
        except KeyError:
            return a[1] if len(a) > 1 else k.get('default')
    if type(o) is set and name in ('add', 'discard', 'remove', 'update', 'difference_update'):
        pass
    if isinstance(o, str):
        h = _str_methods.get(name)
        if h is not None:
            r = h(o, *a, **k)
            if r is not NotImplemented:
                return r
    if type(o) in (set, frozenset) and name in ('union', 'intersection', 'difference', 'update', 'issubset',
                                                'issuperset', 'difference_update', 'intersection_update'):
        aa = []
        for x in a:
            x = unopt(x)
            if hasattr(type(x), '__vc_' + name + '_into__'):
                return getattr(x, '__vc_' + name + '_into__')(o)
            s = sym_iter(x)
            aa.append(x if s is None else concretise_len(s))
        a = aa
    if name == 'extend' and type(o) is list and a and sym_iter(a[0]) is not None:
        raise Unsupported('extend of a foreign list with a symbolic sequence')
    if o is re or isinstance(o, re.Pattern):
        for h in re_hooks:
            r = h(o, name, a, k)
            if r is not NotImplemented:
                return r
    if o is itertools and name == 'chain' or o is itertools.chain and name == 'from_iterable':
        return chain(*a) if name == 'chain' else comp('gen', a[0], lambda x: x, None, True)
    return getattr(o, name)(*a, **k)


def _join(sep, it):
    s = sym_iter(it)
    if s is None:
        it = list(it)
        if not any(isinstance(x, (SymStr, SymOpt)) for x in it):
            return sep.join(it)
        r = None
        for x in it:
            r = x if r is None else (r + sep if sep else r) + x
        return r if r is not None else ''
    return join_hook(sep, s)


def join_hook(sep, s):
    raise Unsupported('join of a symbolic sequence')


def _starts(o, p, *a):
    if isinstance(p, SymStr):
        return SymBool(sym.uf('str.startswith', sym.R, sym.R, sym.B)(str_lit(o), p.e))
    return NotImplemented


_str_methods = {'join': _join, 'startswith': _starts}


def aug(op, x, v):
    x, v = chk(x), chk(v)
    if op == 'Add' and isinstance(x, list):
        wr(x)
    r = getattr(operator, {'Add': 'iadd', 'Sub': 'isub', 'Mult': 'imul', 'Div': 'itruediv', 'FloorDiv': 'ifloordiv',
                           'Mod': 'imod', 'BitOr': 'ior', 'BitAnd': 'iand', 'BitXor': 'ixor', 'Pow': 'ipow',
                           'LShift': 'ilshift', 'RShift': 'irshift'}[op])(x, v)
    return r


def sub(o, k):
    o, k = chk(o), chk(k)
    if sym.CUR is None:
        return o[k]
    if isinstance(o, SymOpt):
        o = o.force()
    _read(o)
    if isinstance(k, (SymInt, SymOpt)):
        k = unopt(k)
        if isinstance(o, (tuple, list)) and isinstance(k, SymInt):
            return as_seq(o)[k]
    if isinstance(k, slice) and any(isinstance(x, (SymInt, SymOpt)) for x in (k.start, k.stop, k.step)):
        if isinstance(o, (tuple, list)):
            return as_seq(o)[k]
    if type(o) is dict and isinstance(k, Sym):
        h = getattr(type(k), '__vc_index_of__', None)
        if h is not None:
            return h(k, o)
        for x in o:
            if cur().decide(eqf(x, k)):
                return o[x]
        raise KeyError(k)
    return o[k]


# ---------------------------------------------------------------------------------------------------------------
# operators
# ---------------------------------------------------------------------------------------------------------------

def is_(a, b):
    a, b = chk(a), chk(b)
    if sym.CUR is None:
        return a is b
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        if b is None:
            return SymBool(a.none)
        if a is None:
            return SymBool(b.none)
        if a is b:
            return True
        return is_(unopt(a), unopt(b))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(eqf(a, b)) if isinstance(a, SymBool) or isinstance(b, SymBool) else a is b
    for sy, py in ((SymInt, int), (SymStr, str), (SymSeq, (tuple, list))):
        if a is not b and (isinstance(a, sy) and isinstance(b, (sy, py)) or isinstance(b, sy) and isinstance(a, py)):
            raise Unsupported('identity of two values')
    h = getattr(type(a), '__vc_is__', None)
    if h:
        return h(a, b)
    h = getattr(type(b), '__vc_is__', None)
    if h:
        return h(b, a)
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r


def in_(a, b):
    a, b = chk(a), unopt(b)
    if sym.CUR is None:
        return a in b
    _read(b)
    h = getattr(type(b), '__vc_in__', None)
    if h:
        return h(b, a)
    h = getattr(type(a), '__vc_isin__', None)
    if h and isinstance(b, (str, set, frozenset, dict, tuple, list)):
        return h(a, b)
    s = sym_iter(b)
    if s is not None:
        return exists_at(s, lambda x: SymBool(eqf(x, a)))
    if isinstance(b, str) and isinstance(unopt(a), SymStr):
        return SymBool(sym.uf('str.contains', sym.R, sym.R, sym.B)(str_lit(b), unopt(a).e))
    if isinstance(b, SymStr):
        x = se(a)
        if x is None:
            raise TypeError("'in <string>' requires string as left operand")
        return SymBool(sym.uf('str.contains', sym.R, sym.R, sym.B)(b.e, x))
    if isinstance(a, SymOpt) and isinstance(b, (dict, set, frozenset)):
        a = a.force()
    if type(b) in (dict, set, frozenset) and isinstance(a, SymStr) and all(isinstance(x, (str, SymStr)) for x in b):
        return SymBool(z3.Or([z3.BoolVal(False)] + [eqf(x, a) for x in b]))
    return a in b


def not_(x):
    return SymBool(z3.Not(x.e)) if isinstance(x, SymBool) else not x


def not_in(a, b):
    r = in_(a, b)
    return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r


def unpack(v, n):
    v = unopt(v)
    if isinstance(v, SymSeq):
        if not cur().decide(v.dense().n == n):
            raise ValueError('wrong number of values to unpack')
        return tuple(v.at(z3.IntVal(i)) for i in range(n))
    h = getattr(type(v), '__vc_unpack__', None)
    if h:
        return h(v, n)
    return v


def unpack_call(fn, t, n):
    return fn(*unpack(t, n))


# ---------------------------------------------------------------------------------------------------------------
# displays, f-strings
# ---------------------------------------------------------------------------------------------------------------

class star:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = unopt(x)


def _flatten(items):
    """-> (list, None) or (None, SymSeq)"""
    parts, out, symb = [], [], False
    for it in items:
        if type(it) is star:
            s = sym_iter(it.x)
            if s is not None:
                symb = True
                if out:
                    parts.append(lift(out))
                    out = []
                parts.append(s)
            else:
                out.extend(it.x)
        else:
            out.append(it)
    if not symb:
        return out, None
    if out:
        parts.append(lift(out))
    r = parts[0]
    for p in parts[1:]:
        r = sym.seq_concat(r, p)
    return None, r


def mklist(*items):
    if sym.CUR is None:
        out = []
        for it in items:
            if type(it) is star:
                out.extend(it.x)
            else:
                out.append(it)
        return out
    l, s = _flatten(items)
    if l is not None:
        return _new(VList(l))
    v = VList()
    v.sym = SymSeq(s.n, s.at, 'list', s.filt, s.tag)
    return _new(v)


def mktuple(*items):
    l, s = _flatten(items)
    return tuple(l) if l is not None else SymSeq(s.n, s.at, 'tuple', s.filt, s.tag)


def mkset(*items):
    if sym.CUR is None:
        out = set()
        for it in items:
            if type(it) is star:
                out |= set(it.x)
            else:
                out.add(it)
        return out
    for it in items:
        if type(it) is star and hasattr(type(it.x), '__vc_mkset__'):
            return it.x.__vc_mkset__(items)
    l, s = _flatten(items)
    if l is not None:
        return _new(VSet(l))
    return set_hook(s)


def set_hook(s):
    v = VSet()
    _new(v)
    v.update(s if sym.S.bounded is None else concretise_len(s))
    return v


def mkdict(*pairs):
    if pairs and type(pairs[0]) is star and hasattr(type(pairs[0].x), '__vc_copydict__'):
        d = pairs[0].x.__vc_copydict__()
        for p in pairs[1:]:
            if type(p) is star:
                d.update(p.x)
            else:
                d[p[0]] = p[1]
        return _new(d)
    d = {} if sym.CUR is None else _new(VDict())
    for p in pairs:
        if type(p) is star:
            d.update(p.x)
        else:
            d[p[0]] = p[1]
    return d


def fstr(*parts):
    symb = False
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            v = chk(v)
            if sym.CUR is not None:
                v = unopt(v)
                h = getattr(type(v), '__vc_str__', None)
                if (spec or conv in (114, 97)) and (isinstance(v, Sym) or h):
                    if spec and type(spec) is not str or not isinstance(v, (SymStr, SymInt, SymBool)):
                        raise Unsupported('formatted text of an abstract value')
                    t = b_str(v)
                    kind = f'{type(v).__name__}!{chr(conv) if conv > 0 else ""}:{spec}'
                    out.append(SymStr(sym.uf('format.' + kind, sym.R, sym.R)(se(t))))
                    symb = True
                    continue
                if isinstance(v, (SymStr,)):
                    out.append(v)
                    symb = True
                    continue
                if isinstance(v, (Sym,)) or h:
                    out.append(b_str(v))
                    symb = True
                    continue
            try:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = b_str(v)
                elif conv == 97:
                    v = ascii(v)
                elif sym.CUR is not None and not isinstance(v, (str, int, float)):
                    v = b_str(v)
                    if isinstance(v, SymStr):
                        out.append(v)
                        symb = True
                        continue
                out.append(format(v, spec) if spec or not isinstance(v, str) else v)
            except Unsupported:
                if sym.CUR is None:
                    raise
                # the text of a message: an arbitrary string
                out.append(SymStr(fresh('text', sym.R)))
                symb = True
        else:
            out.append(p)
    if not symb:
        return ''.join(out)
    r = None
    for o in out:
        r = o if r is None else r + o
    return r


# ---------------------------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------------------------

def b_len(x):
    x = unopt(x)
    _read(x)
    if isinstance(x, SymSeq):
        return x.length()
    if isinstance(x, VList) and x.symbolic():
        return x.sym.length()
    h = getattr(type(x), '__vc_len__', None)
    if h:
        return h(x)
    return len(x)


def b_isinstance(x, t):
    if sym.CUR is None and not isinstance(x, Sym):
        return isinstance(x, t)
    x = unopt(x)
    h = getattr(type(x), '__vc_isinstance__', None)
    if h:
        return h(x, t)
    ts = t if isinstance(t, tuple) else (t,)
    k = {SymInt: int, SymBool: bool, SymStr: str}.get(type(x))
    if k is None and type(x) is SymSeq:
        k = list if x.kind == 'list' else tuple
    if k is not None:
        return any(isinstance(u, type) and issubclass(k, u) or not isinstance(u, type) and
                   isinstance(k(), u) for u in ts)
    return isinstance(x, t)


def b_type(*a):
    if len(a) != 1:
        return type(*a)
    x = unopt(a[0])
    h = getattr(type(x), '__vc_type__', None)
    if h:
        return h(x)
    k = {SymInt: int, SymBool: bool, SymStr: str, VList: list}.get(type(x))
    if k:
        return k
    if type(x) is SymSeq:
        return list if x.kind == 'list' else tuple
    return type(x)


def b_any(it):
    s = sym_iter(it)
    if s is None:
        _read(it)
        return any(it)
    return exists_at(s, lambda x: x)


def b_all(it):
    s = sym_iter(it)
    if s is None:
        _read(it)
        return all(it)
    return forall_at(s, lambda x: x)


def _seqs(its):
    its = [unopt(x) for x in its]
    ss = [sym_iter(x) for x in its]
    if all(s is None for s in ss):
        return its, None
    return its, [s.dense() if s is not None else lift(x) for s, x in zip(ss, its)]


def b_zip(*its, strict=False):
    its, ss = _seqs(its)
    if ss is None:
        return zip(*its, strict=strict)
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(n <= s.n, n, s.n)
    return SymGen(SymSeq(z3.simplify(n), lambda i: tuple(s.at(i) for s in ss)))


def zip_longest(*its, fillvalue=None):
    its, ss = _seqs(its)
    if ss is None:
        return itertools.zip_longest(*its, fillvalue=fillvalue)
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(n >= s.n, n, s.n)

    def pick(s, i):
        if sym.pure_ints(s) and isinstance(fillvalue, (int, SymInt)):
            return SymInt(z3.If(i < s.n, _ie(s.at(i)), _ie(fillvalue)))
        return s.at(i) if cur().decide(i < s.n) else fillvalue

    return SymGen(SymSeq(z3.simplify(n), lambda i: tuple(pick(s, i) for s in ss)))


def chain(*its):
    its, ss = _seqs(its)
    if ss is None:
        return itertools.chain(*its)
    r = ss[0]
    for s in ss[1:]:
        r = sym.seq_concat(r, s)
    return SymGen(r)


def b_enumerate(it, start=0):
    s = sym_iter(it)
    if s is None:
        return enumerate(it, start)
    s = s.dense()
    return SymGen(SymSeq(s.n, lambda i: (SymInt(z3.simplify(i + start)), s.at(i))))


def b_reversed(it):
    it = unopt(it)
    s = sym_iter(it)
    if s is None:
        return reversed(it)
    s = s.dense()
    r = SymSeq(s.n, lambda i: s.at(z3.simplify(s.n - 1 - i)))
    if sym.pure_ints(s):
        r.tag = ('ints',)
    return SymGen(r)


def b_range(*a):
    a = [unopt(x) for x in a]
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = _ie(lo), _ie(hi)
    if isinstance(st, Sym) or st not in (1, -1):
        raise Unsupported('range step')
    if st == 1:
        s = SymSeq(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: SymInt(z3.simplify(lo + i)), 'range')
    else:
        s = SymSeq(z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0))), lambda i: SymInt(z3.simplify(lo - i)), 'range')
    s.tag = ('ints',)
    return s


def _snap(fn):
    """freeze the variables a closure captures (they may be rebound before the lazily built element is looked at)"""
    if not isinstance(fn, types.FunctionType) or not fn.__closure__:
        return fn
    cells = []
    for c in fn.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(cells))
    g.__kwdefaults__ = fn.__kwdefaults__
    return g


def b_map(f, *its):
    if len(its) == 1:
        s = sym_iter(its[0])
        if s is not None:
            return SymGen(_mapped(s, f))
    return map(f, *its)


def b_filter(f, it):
    s = sym_iter(it)
    if s is None:
        return filter(f, it)
    return SymGen(_filtered(s, f if f is not None else (lambda x: x)))


def _mapped(s, f):
    f = _snap(f)
    r = SymSeq(s.n, lambda i: f(s.at(i)), 'list', s.filt)
    r.wit = s.wit
    return r


def _filtered(s, f):
    f = _snap(f)
    j = bvar()
    rng = in_range(s, j)
    fm, ex = sym.summarise_bool(lambda: f(s.at(j)), (j,), rng)
    _handle_exc(ex, (j,), rng)
    old = s.filt

    def filt(i):
        g = z3.substitute(fm, (j, i))
        return z3.And(old(i), g) if old is not None else g

    r = SymSeq(s.n, s.at, 'list', filt)
    r.tag = ('filtered', s)
    r.wit = s.wit
    return r


def b_sorted(it, *, key=None, reverse=False):
    s = sym_iter(it)
    if s is None:
        r = sorted(it, key=key, reverse=reverse)
        return _new(VList(r)) if sym.CUR is not None else r
    return sorted_hook(s, key, reverse)


def perm_sorted(s, key, reverse):
    """contract of the builtin: a stable permutation ordered by key (keys compared by <)"""
    d = s.dense()
    key = _snap(key) if key else (lambda x: x)
    p = fresh_fun('perm', sym.I, sym.I)
    q = fresh_fun('iperm', sym.I, sym.I)
    i, j = z3.Ints('i!s j!s')
    n = d.n
    assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)),
                     patterns=[p(i)]))
    assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)),
                     patterns=[q(i)]))
    a, b = bvar('a'), bvar('b')
    rng = z3.And(0 <= a, a < n, 0 <= b, b < n)
    lt, ex = sym.summarise_bool(lambda: key(d.at(a)) < key(d.at(b)), (a, b), rng)
    _handle_exc(ex, (a, b), rng)
    L = lambda x, y: z3.substitute(lt, (a, x), (b, y))
    i, j = z3.Ints('i!t j!t')
    first, second = (lambda x, y: z3.Not(L(y, x))), None
    if reverse:
        first = lambda x, y: z3.Not(L(x, y))
    strict = (lambda x, y: L(y, x)) if reverse else L
    assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n),
                                        z3.And(first(p(i), p(j)),
                                               z3.Or(strict(p(i), p(j)), p(i) < p(j)))),
                     patterns=[z3.MultiPattern(p(i), p(j))]))
    v = VList()
    v.sym = SymSeq(n, lambda i: d.at(p(i)), 'list')
    v.sym.tag = ('perm', d, p, q)
    v.sym.wit = [lambda i, w=w: q(w(i)) for w in sym.witnesses(d)]
    return _new(v)


sorted_hook = perm_sorted


def _minmax(name, builtin, better, a, k):
    if len(a) == 1:
        s = sym_iter(a[0])
        if s is None:
            return builtin(*a, **k)
        key = k.get('key') or (lambda x: x)
        if not cur().decide(exists_at(s, lambda x: True).e if s.filt is not None else s.n > 0):
            if 'default' in k:
                return k['default']
            raise ValueError(f'{name}() arg is an empty sequence')
        m = fresh('arg' + name, sym.I)
        assume(in_range(s, m))
        j = bvar()
        rng = in_range(s, j)
        bt, ex = sym.summarise_bool(lambda: better(key(s.at(j)), key(s.at(m))), (j,), rng)
        _handle_exc(ex, (j,), rng)
        assume(forall((j,), z3.Implies(rng, z3.Not(bt))))
        bt2, _ = sym.summarise_bool(lambda: better(key(s.at(m)), key(s.at(j))), (j,), rng)
        assume(forall((j,), z3.Implies(z3.And(rng, j < m), bt2)))
        return s.at(m)
    key = k.get('key')
    if sym.CUR is not None and any(isinstance(x, (SymInt, SymOpt, SymBool)) for x in a) and not key:
        a = [unopt(x) for x in a]
        if all(_ie(x) is not None for x in a):
            e = _ie(a[0])
            for x in a[1:]:
                y = _ie(x)
                e = z3.If(y > e, y, e) if name == 'max' else z3.If(y < e, y, e)
            return SymInt(e)
    return builtin(*a, **k)


def b_max(*a, **k):
    return _minmax('max', max, lambda x, y: x > y, a, k)


def b_min(*a, **k):
    return _minmax('min', min, lambda x, y: x < y, a, k)


INT_UF = z3.Function('int_of_str', sym.R, sym.I)


def b_int(*a):
    if a:
        x = unopt(a[0])
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymStr):
            if len(a) > 1:
                raise Unsupported('int base')
            return int_hook(x)
        h = getattr(type(x), '__vc_int__', None)
        if h:
            return h(x)
        return int(x, *a[1:])
    return int(*a)


def int_hook(x):
    ok = sym.uf('str.is_int', sym.R, sym.B)(x.e)
    if not cur().decide(ok):
        raise ValueError('invalid literal for int()')
    return SymInt(INT_UF(x.e))


STR_OF_INT = z3.Function('str_of_int', sym.I, sym.R)


def b_str(*a):
    if len(a) != 1:
        return str(*a)
    x = unopt(a[0])
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return SymStr(STR_OF_INT(x.e))
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    h = getattr(type(x), '__vc_str__', None)
    if h:
        return h(x)
    if sym.CUR is not None and not isinstance(x, (str, int, float, Sym)):
        f = type(x).__str__
        if isinstance(f, types.FunctionType):
            r = f(x)  # may legitimately be symbolic
            return r
        if isinstance(type(x).__repr__, types.FunctionType):
            return type(x).__repr__(x)
    return str(x)


def b_repr(x):
    x = unopt(x)
    h = getattr(type(x), '__vc_repr__', None)
    if h:
        return h(x)
    if isinstance(x, Sym):
        return SymStr(fresh('repr', sym.R))
    return repr(x)


def b_next(it, *d):
    it = unopt(it)
    if isinstance(it, SymGen):
        if it.pos is None:
            raise Unsupported('generator used after being consumed')
        if it.pos == 0 and it.seq.filt is not None:
            # first element of a filtered sequence: least selected index
            s = it.seq
            j = bvar()
            rng = in_range(s, j)
            if not cur().decide(exists((j,), rng)):
                if d:
                    return d[0]
                raise StopIteration
            k = fresh('first', sym.I)
            assume(in_range(s, k))
            assume(forall((j,), z3.Implies(z3.And(rng, j < k), z3.BoolVal(False))))
            it.seq = SymSeq(s.n, s.at, s.kind, lambda i, f=s.filt: z3.And(f(i), i > k))
            return s.at(k)
        s = it.seq.dense()
        if not cur().decide(s.n > it.pos):
            if d:
                return d[0]
            raise StopIteration
        v = s.at(z3.IntVal(it.pos))
        it.pos += 1
        return v
    return next(it, *d)


def b_iter(it, *a):
    if a:
        return iter(it, *a)
    it = unopt(it)
    if isinstance(it, SymGen):
        return it
    s = sym_iter(it)
    if s is not None:
        return SymGen(s)
    return iter(it)


def b_list(*a):
    if sym.CUR is None:
        return list(*a)
    if not a:
        return _new(VList())
    x = unopt(a[0])
    _read(x)
    s = sym_iter(x)
    if s is None:
        return _new(VList(x))
    v = VList()
    v.sym = SymSeq(s.n, s.at, 'list', s.filt, s.tag)
    return _new(v)


def b_tuple(*a):
    if not a:
        return ()
    x = unopt(a[0])
    s = sym_iter(x)
    if s is None:
        return tuple(x)
    return SymSeq(s.n, s.at, 'tuple', s.filt, s.tag)


def b_set(*a):
    if sym.CUR is None:
        return set(*a)
    if not a:
        return _new(VSet())
    x = unopt(a[0])
    if hasattr(type(x), '__vc_copyset__'):
        return x.__vc_copyset__()
    s = sym_iter(x)
    if s is None:
        return _new(VSet(x))
    return set_hook(s)


def b_frozenset(*a):
    if sym.CUR is None:
        return frozenset(*a)
    r = b_set(*a)
    if isinstance(r, VSet):
        return r if r.symbolic() else frozenset(r)
    return frozenset(r) if isinstance(r, set) else r


def b_dict(*a, **k):
    if sym.CUR is None:
        return dict(*a, **k)
    if a:
        x = unopt(a[0])
        if hasattr(type(x), '__vc_copydict__'):
            return x.__vc_copydict__()
        s = sym_iter(x)
        if s is not None:
            return dict_hook(s)
        d = _new(VDict())
        d.update(x, **k)
        return d
    return _new(VDict(**k))


def dict_hook(s):
    d = _new(VDict())
    if sym.S.bounded is not None:
        for k, v in concretise_len(s):
            d[k] = v
    else:
        d.go().log.append(('seq', s))
    return d


def b_sum(it, *a):
    s = sym_iter(it)
    if s is None:
        it = list(it)
        r = a[0] if a else 0
        for x in it:
            r = r + x
        return r
    return sum(concretise_len(s), *a)


def b_hash(x):
    if sym.CUR is None:
        return hash(x)
    return hash_hook(x)


def _hash_value(x):
    return hash(x)


hash_hook = _hash_value


def b_print(*a, **k):
    if sym.CUR is None:
        print(*a, **k)
    # what is printed is no part of any property; the arguments have been evaluated


def b_bool(*a):
    if not a:
        return False
    return bool(a[0])


def b_abs(x):
    return abs(unopt(x))


# ---------------------------------------------------------------------------------------------------------------
# comprehensions
# ---------------------------------------------------------------------------------------------------------------

def _native(kind, gen):
    if kind == 'list':
        r = list(gen)
        return _new(VList(r)) if sym.CUR is not None else r
    if kind == 'set':
        return set(gen) if sym.CUR is None else _new(VSet(gen))
    if kind == 'dict':
        if sym.CUR is None:
            return dict(gen)
        d = _new(VDict())
        for k, v in gen:
            d[k] = v
        return d
    return gen


def _ngen(it, elt, cond, nested):
    for x in it:
        if cond is None or cond(x):
            if nested:
                yield from elt(x)
            else:
                yield elt(x)


def comp(kind, it, elt, cond, nested):
    it = chk(it)
    if sym.CUR is None:
        return _native(kind, _ngen(it, elt, cond, nested))
    _read(it)
    if nested and sym.S.bounded is None and hasattr(type(unopt(it)), '__vc_parts__'):
        return flattened(kind, unopt(it).__vc_parts__(), elt, cond)
    h = getattr(type(unopt(it)), '__vc_comp__', None)
    if h and not nested:
        return h(unopt(it), kind, elt, cond)
    s = sym_iter(it)
    if s is None:
        if nested:
            # an ordinary outer iterable may produce symbolic inner ones
            it = unopt(it)
            inners = []
            symb = False
            for x in it:
                if cond is None or cond(x):
                    g = elt(x)
                    q = sym_iter(g)
                    if q is not None:
                        symb = True
                        inners.append(q)
                    else:
                        inners.append(list(g))
            if symb:
                parts = [p if isinstance(p, SymSeq) else lift(p) for p in inners]
                r = parts[0]
                for p in parts[1:]:
                    r = sym.seq_concat(r, p)
                return _from_seq(kind, r)
            return _native(kind, (y for g in inners for y in g))
        return _native(kind, _ngen(unopt(it), elt, cond, nested))
    if z3.is_int_value(z3.simplify(s.n)) and s.filt is None:
        n = z3.simplify(s.n).as_long()
        return comp(kind, tuple(s.at(z3.IntVal(i)) for i in range(n)), elt, cond, nested)
    if nested:
        if sym.S.bounded is not None:
            return comp(kind, tuple(concretise_len(s)), elt, cond, nested)
        return nested_comp(kind, s, elt, cond)
    s2 = s
    if cond is not None:
        s2 = _filtered(s, cond)
    r = _mapped(s2, elt)
    if kind != 'gen':
        _probe(r)
    return _from_seq(kind, r)


def _probe(s):
    """element expressions of a strict comprehension are evaluated once for an arbitrary index: their exceptions fork"""
    j = bvar()
    rng = in_range(s, j)
    fm, ex = sym.summarise_bool(lambda: (s.at(j), True)[1], (j,), rng)
    _handle_exc(ex, (j,), rng)


def _from_seq(kind, s):
    if kind == 'list':
        v = VList()
        v.sym = SymSeq(s.n, s.at, 'list', s.filt, s.tag)
        v.sym.wit = s.wit
        return _new(v)
    if kind == 'gen':
        return SymGen(s)
    if kind == 'set':
        return set_hook(s)
    if kind == 'dict':
        return dict_hook(s)


class OneOf(SymSeq):
    """a part of a partitioned sequence, of which nothing but its elements may be asked"""
    __slots__ = ()

    def _no(self, *a, **k):
        raise Unsupported('a group as a whole')

    __len__ = length = __bool__ = dense = __getitem__ = __iter__ = __eq__ = __add__ = __radd__ = __contains__ = _no
    __hash__ = Sym.__hash__


def flattened(kind, s, elt, cond):
    """[f(x) for part in parts for x in part if c(x)] for parts that partition s: the parts are only ever iterated, so that the
    elements of the result are those of [f(x) for x in s if c(x)] (their order across parts is not represented)"""
    if cond is not None:
        raise Unsupported('condition on a group')
    part = OneOf(s.n, s.at, 'list', s.filt)
    part.wit = s.wit
    g = elt(part)
    q = sym_iter(g)
    if q is None or not z3.eq(q.n, s.n):
        raise Unsupported('nested comprehension')
    return _from_seq(kind, q)


def nested_comp(kind, s, elt, cond):
    raise Unsupported('nested comprehension over a symbolic sequence')


def comp1(kind, it, lam):
    if sym.CUR is None or sym_iter_peek(it) is None:
        return _native(kind, (t[0] for t in map(lam, unopt(it) if sym.CUR is not None else it) if t is not None))
    s = sym_iter(it)
    sel = _filtered(s, lambda x: lam(x) is not None)

    def at(x):
        t = lam(x)
        if t is None:
            raise Infeasible()
        return t[0]

    return _from_seq(kind, _mapped(sel, at))


def sym_iter_peek(it):
    it = unopt(it)
    if isinstance(it, SymSeq):
        return it
    if isinstance(it, VList):
        return it.sym if it.symbolic() else None
    if isinstance(it, SymGen):
        return it
    if hasattr(type(it), '__vc_seq__'):
        return it
    return None


# ---------------------------------------------------------------------------------------------------------------
# loops
# ---------------------------------------------------------------------------------------------------------------

def _native_for(it, body):
    for x in it:
        r = body(x)
        if r is CONT:
            continue
        return r
    return DONE


loop_rules = []  # extra rules: f(site, seq, body, get, set, mods, carried) -> result or NotImplemented
for_rules = []  # tried before every other rule: f(site, seq, body, get, set, mods) -> result or NotImplemented
while_rules = []  # f(site, cond, body, get, set, mods) -> result or NotImplemented


def for_(site, it, body, get, set_, mods):
    it = chk(it)
    if sym.CUR is None:
        return _native_for(it, body)
    _read(it)
    s = sym_iter(it)
    if s is None:
        it = unopt(it)
        if isinstance(it, (list, dict, set)):
            it = list(it) if not isinstance(it, dict) else list(it)
        return _native_for(it, body)
    if z3.is_int_value(z3.simplify(s.n)) and s.filt is None:
        return _native_for([s.at(z3.IntVal(i)) for i in range(z3.simplify(s.n).as_long())], body)
    if sym.S.bounded is not None:
        return _native_for(concretise_len(s), body)
    for rule in for_rules:
        r = rule(site, s, body, get, set_, mods)
        if r is not NotImplemented:
            return r
    return _sym_for(site, s, body, get, set_, mods)


fn_hooks = []  # contracts for functions defined inside functions: f(function) -> function


def fn(f):
    if sym.CUR is None:
        return f
    for h in fn_hooks:
        f = h(f)
    return f


def _pick(env, names):
    return {n: env[n] for n in names if n in env}


def _sym_for(site, s, body, get, set_, mods):
    env0 = get()
    carried = []
    while True:
        try:
            return _stateless(site, s, body, get, set_, mods, env0, carried)
        except CarriedRead as e:
            if e.token is not env0:
                raise
            set_(_pick(env0, mods))
            if isinstance(env0.get(e.name), Poison):
                chk(env0[e.name])  # carried by an enclosing loop as well
            carried.append(e.name)
            for rule in loop_rules:
                r = rule(site, s, body, get, set_, mods, env0, carried)
                if r is not NotImplemented:
                    return r
            raise Unsupported(f'{site}: loop-carried variable {e.name}')


def poison(env0, mods, set_):
    set_({m: Poison(env0, m) for m in mods})


def summarise_iter(s, body, set_, mods, env0, j, prep=None, rng=None):
    """paths of one iteration at the arbitrary index j"""
    rng = in_range(s, j) if rng is None else rng

    def run():
        poison(env0, mods, set_)
        if prep:
            prep()
        return body(s.at(j))

    paths = explore(run, parent=cur(), binders=(j,), assume=[rng])
    for p in paths:
        br = []
        for k, e in p.items:
            if k == 'br':
                br.append(e)
            elif k == 'as':
                assume(forall((j,), z3.Implies(z3.And([rng] + br), e)))
    return paths


def _stateless(site, s, body, get, set_, mods, env0, carried):
    j = bvar()
    paths = summarise_iter(s, body, set_, mods, env0, j)
    cont = z3.simplify(z3.Or([p.cond() for p in paths if p.kind == 'ret' and p.value is CONT] or
                             [z3.BoolVal(False)]))
    lists = {}
    rng = in_range(s, j)
    dicts = check_loop(site, s, j, rng, paths)
    for p in paths:
        for (nm, o, v) in p.effects:
            if nm in ('dset', 'ddel', 'dget'):
                continue
            lists.setdefault(id(o), (nm, o))
            if id(o) in p.reads:
                raise Unsupported(f'{site}: list both read and appended to in the loop')
    for p in paths:
        for oid in lists:
            if sum(1 for e in p.effects if id(e[1]) == oid) > 1:
                raise Unsupported(f'{site}: several appends per iteration')
            if oid in p.reads:
                raise Unsupported(f'{site}: accumulator read in the loop')
    set_(_pick(env0, mods))
    rng = in_range(s, j)
    exits = any(not (p.kind == 'ret' and p.value is CONT) for p in paths)

    def selected(conds, limit):
        f0 = s.filt
        if z3.is_true(conds) and f0 is None and limit is None:
            return None

        def filt(i):
            f = [z3.substitute(conds, (j, i))]
            if f0 is not None:
                f.append(f0(i))
            if limit is not None:
                f.append(i < limit)
            return z3.And(f)
        return filt

    def apply_dicts(limit):
        for o, per in dicts:
            for r in range(per):
                for kind in ('dset', 'ddel'):
                    hit = [p for p in paths if len(_muts(p.effects, o)) > r and _muts(p.effects, o)[r][0] == kind]
                    if not hit:
                        continue
                    conds = z3.simplify(z3.Or([p.cond() for p in hit]))

                    vals = [(p.cond(), _muts(p.effects, o)[r][2]) for p in hit]

                    def at(i, o=o, r=r, conds=conds, vals=vals, kind=kind):
                        try:
                            if kind == 'dset':
                                reindex([v for _, v in vals][0], j, i)
                                return LazyPair([[(c, v[m]) for c, v in vals] for m in (0, 1)], j, i)
                            return _pick_value(vals, j, i)
                        except NoReindex:
                            pass
                        return _replay_effect(s, body, get, set_, mods, env0, i, z3.substitute(conds, (j, i)),
                                              lambda effs: [e[2] for e in _muts(effs, o)[r:r + 1]])
                    o.go().log.append(('seq' if kind == 'dset' else 'delseq',
                                       SymSeq(s.n, at, 'list', selected(conds, limit))))

    def apply(limit):
        apply_dicts(limit)
        for oid, (nm, o) in lists.items():
            conds = z3.simplify(z3.Or([p.cond() for p in paths if any(id(e[1]) == oid for e in p.effects)]))
            ups = [e[2] for p in paths for e in p.effects if id(e[1]) == oid]

            def at(i, oid=oid, conds=conds):
                if len(ups) == 1 and isinstance(ups[0], tuple([SymInt, SymStr, SymBool])):
                    u = ups[0]
                    return type(u)(z3.substitute(u.e, (j, i)))
                return _replay_append(s, body, get, set_, mods, env0, oid, i, z3.substitute(conds, (j, i)))

            filt = None
            if not z3.is_true(conds) or s.filt is not None or limit is not None:
                def filt(i, conds=conds):
                    f = [z3.substitute(conds, (j, i))]
                    if s.filt is not None:
                        f.append(s.filt(i))
                    if limit is not None:
                        f.append(i < limit)
                    return z3.And(f)
            if nm == 'append':
                if not isinstance(o, VList):
                    raise Unsupported(f'{site}: append to a foreign list')
                mcall(o, 'extend', SymSeq(s.n, at, 'list', filt)) if _is_local(o) else \
                    (_ for _ in ()).throw(Unsupported('accumulation into an outer list'))
            else:
                h = add_hook(o, SymSeq(s.n, at, 'list', filt))

    done = z3.BoolVal(True) if not exits else forall((j,), z3.Implies(rng, cont))
    if cur().decide(done):
        apply(None)
        # a local assigned by the loop body holds the last iteration's value afterwards
        after = {}
        empty = None
        for m in mods:
            after[m] = Poison(('after', site), m)
        if mods:
            set_(after)
        return DONE
    k = fresh('exit', sym.I)
    assume(z3.substitute(rng, (j, k)))
    assume(forall((j,), z3.Implies(z3.And(rng, j < k), cont)))
    assume(z3.Not(z3.substitute(cont, (j, k))))
    apply(k)
    poison(env0, mods, set_)
    r = body(s.at(k))
    if r is CONT:
        raise Infeasible()
    return r


def add_hook(o, seq):
    raise Unsupported('accumulation into a set')


def _same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SymStr, SymInt, SymBool)):
        return a.e.eq(b.e)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if hasattr(type(a), '__vc_reindex__'):
        names = getattr(type(a), '__slots__', None) or vars(a)
        return all(_same(getattr(a, n), getattr(b, n)) for n in names)
    return False


def _pick_value(vals, j, i):
    groups = []
    for c, v in vals:
        for g in groups:
            if _same(g[1], v):
                g[0].append(c)
                break
        else:
            groups.append([[c], v])
    out = [(z3.Or(cs), reindex(v, j, i)) for cs, v in groups]
    for c, v in out[:-1]:
        if cur().decide(z3.substitute(c, (j, i))):
            return v
    assume(z3.substitute(out[-1][0], (j, i)))
    return out[-1][1]


class LazyPair:
    """a (key, value) pair whose parts are selected when looked at"""

    def __init__(self, parts, j, i):
        self.parts, self.j, self.i = parts, j, i
        for m in (0, 1):
            for _, v in parts[m]:
                reindex(v, j, i)

    def __getitem__(self, m):
        return _pick_value(self.parts[m], self.j, self.i)

    def __iter__(self):
        return iter((self[0], self[1]))

    def __len__(self):
        return 2

    def __vc_unpack__(self, n):
        return (self[0], self[1])

    def __vc_isinstance__(self, t):
        return tuple in (t if isinstance(t, tuple) else (t,))


def _muts(effects, o):
    return [e for e in effects if e[1] is o and e[0] in ('dset', 'ddel')]


def _replay_append(s, body, get, set_, mods, env0, oid, i, cond):
    """value appended by iteration i"""
    return _replay_effect(s, body, get, set_, mods, env0, i, cond,
                          lambda effs: [e[2] for e in effs if id(e[1]) == oid])


def _replay_effect(s, body, get, set_, mods, env0, i, cond, pick):
    assume(cond)
    c = cur()
    saved = _pick(get(), mods)
    d0, l0, e0, r0 = c.depth, c.local_ids, c.effects, c.reads
    c.depth, c.local_ids, c.effects, c.reads = max(1, c.depth), {}, [], set()
    try:
        poison(env0, mods, set_)
        body(s.at(i))
        vals = pick(c.effects)
    finally:
        c.depth, c.local_ids, c.effects, c.reads = d0, l0, e0, r0
        set_(saved)
    if not vals:
        raise Infeasible()
    return vals[0]


MAX_UNROLL = 64


def while_(site, cond, body, get, set_, mods):
    if sym.CUR is None:
        while cond():
            r = body()
            if r is CONT:
                continue
            return r
        return DONE
    for rule in while_rules:
        r = rule(site, cond, body, get, set_, mods)
        if r is not NotImplemented:
            return r
    n = 0
    limit = MAX_UNROLL if sym.S.bounded is None else sym.S.bounded + 2
    forks0 = len(cur().pending)
    while True:
        before = len(cur().trace)
        c = cond()
        if not c:
            return DONE
        r = body()
        if r is not CONT:
            return r
        n += 1
        if n > limit:
            if sym.S.bounded is None:
                raise Unsupported(f'{site}: while loop without an invariant')
            sym.S.used_bound = True
            raise Infeasible()
        if sym.S.bounded is None and n > 6 and len(cur().trace) > before:
            raise Unsupported(f'{site}: symbolic while loop without an invariant')
