"""abstract collaborators: maps of strings, points in time, paths"""
import z3

from pyvc import sym, runtime
from pyvc.sym import SymBool, SymInt, SymStr, SymOpt, form, fresh, fresh_fun, se, cur, assume, str_lit

I, R, B = sym.I, sym.R, sym.B


class AbsMap(sym.Sym):
    """a mutable mapping str -> str with arbitrary initial content: presence and value are functions of the key"""
    __slots__ = ('has', 'val', 'log')

    def __init__(self, name=None, has=None, val=None):
        if name is not None:
            h, v = fresh_fun(name + '.has', R, B), fresh_fun(name + '.val', R, R)
            has, val = (lambda k: h(k)), (lambda k: v(k))
        self.has, self.val = has, val

    def snapshot(self):
        return AbsMap(None, self.has, self.val)

    def havoc(self, name):
        o = AbsMap(name)
        self.has, self.val = o.has, o.val

    def _key(self, k):
        e = se(runtime.unopt(k))
        if e is None:
            raise sym.Unsupported('map key')
        return e

    def _put(self, k, present, v=None):
        h0, v0 = self.has, self.val
        self.has = lambda x: z3.If(x == k, present, h0(x))
        if v is not None:
            self.val = lambda x: z3.If(x == k, v, v0(x))

    def get(self, k, d=None):
        e = self._key(k)
        if d is None:
            return SymOpt(z3.Not(self.has(e)), SymStr(self.val(e)))
        return SymStr(self.val(e)) if cur().decide(self.has(e)) else d

    def __getitem__(self, k):
        e = self._key(k)
        if not cur().decide(self.has(e)):
            raise KeyError(k if isinstance(k, str) else '<key>')
        return SymStr(self.val(e))

    def __setitem__(self, k, v):
        x = se(runtime.unopt(v))
        if x is None:
            raise TypeError(f'str expected, not {type(v).__name__}')
        self._put(self._key(k), z3.BoolVal(True), x)

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *d):
        e = self._key(k)
        if cur().decide(self.has(e)):
            r = SymStr(self.val(e))
            self._put(e, z3.BoolVal(False))
            return r
        if d:
            return d[0]
        raise KeyError(k if isinstance(k, str) else '<key>')

    def setdefault(self, k, v=None):
        e = self._key(k)
        if not cur().decide(self.has(e)):
            self[k] = v
        return SymStr(self.val(e))

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, AbsMap):
                h0, v0, h1, v1 = self.has, self.val, o.has, o.val
                self.has = lambda x: z3.Or(h1(x), h0(x))
                self.val = lambda x: z3.If(h1(x), v1(x), v0(x))
                continue
            for k, v in (o.items() if hasattr(o, 'items') else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return self.snapshot()

    __copy__ = copy

    def clear(self):
        self.has = lambda x: z3.BoolVal(False)

    def __vc_in__(self, k):
        return SymBool(self.has(self._key(k)))

    def __contains__(self, k):
        return cur().decide(self.has(self._key(k)))

    def __vc_copydict__(self):
        return self.snapshot()

    def same_at(self, o, k):
        return z3.And(self.has(k) == o.has(k), z3.Implies(self.has(k), self.val(k) == o.val(k)))


def any_key(name='k'):
    """an arbitrary string (skolem)"""
    k = z3.Real(sym.S.fresh_name(name))
    assume(z3.And(k >= 0, k < 1))
    return k


class AbsTime(sym.Sym):
    """a point in time"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _c(self, o, f):
        if not isinstance(o, AbsTime):
            raise TypeError('order of a datetime and something else')
        return SymBool(f(self.e, o.e))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, AbsTime) else False

    def __ne__(self, o):
        return SymBool(self.e != o.e) if isinstance(o, AbsTime) else True

    __hash__ = sym.Sym.__hash__

    def __bool__(self):
        return True

    def _same(self, *a, **k):
        return self

    astimezone = _same

    def timestamp(self):
        return self

    def replace(self, **k):
        if k != {'microsecond': 0}:
            raise sym.Unsupported('parts of a point in time')
        return AbsTime(z3.ToReal(z3.ToInt(self.e)))

    def _shift(self, o, k):
        import datetime
        if not isinstance(o, datetime.timedelta):
            raise sym.Unsupported('arithmetic on points in time')
        return AbsTime(self.e + k * z3.RealVal(str(o.total_seconds())))

    def __add__(self, o):
        return self._shift(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._shift(o, -1)


class AbsThing(sym.Sym):
    """an object of which only its identity and its text are known"""
    __slots__ = ('text',)

    def __init__(self, name):
        self.text = sym.sym_str(name)

    def __vc_str__(self):
        return self.text

    def __fspath__(self):
        raise sym.Unsupported('path of an abstract object')

    def as_posix(self):
        return self.text


def elem_index(x):
    """the base position an abstract element stands at"""
    x = runtime.unopt(x)
    i = getattr(type(x), 'i', None)
    if i is None:
        raise sym.Unsupported(f'element {type(x).__name__} of unknown origin')
    return x.i


def prove_selection(name, result, n, want):
    """`result` lists, in order, exactly the elements i of the base sequence 0..n-1 with want(i)"""
    r = sym.as_seq(result)
    if r is None:
        sym.prove(f'{name}: a list', False)
        return
    j = sym.bvar('s')
    if z3.eq(z3.simplify(r.n), z3.simplify(n)):
        # same base positions: compare the selection pointwise
        same = []
        rng = z3.And(j >= 0, j < n)

        def ix():
            same.append(1)
            return SymBool(elem_index(r.at(j)) == j)
        f, ex = sym.summarise_bool(ix, (j,), sym.in_range(r, j))
        if not ex:
            sel = r.filt(j) if r.filt is not None else z3.BoolVal(True)
            g = z3.Int(sym.S.fresh_name('any'))
            sub = lambda e: z3.substitute(e, (j, g))
            inr = z3.And(g >= 0, g < n)
            st = sym.check_valid(cur().facts() + [inr, sub(sel)], sub(f), 3000)[0]
            if st == 'discharged':
                assume(inr)
                sym.prove(f'{name}: nothing extra', z3.Implies(sub(sel), want(g)))
                sym.prove(f'{name}: nothing missing', z3.Implies(want(g), sub(sel)))
                sym.prove(f'{name}: in place and in order', z3.Implies(sub(sel), sub(f)))
                return
    d = r.dense()
    k, l = z3.Int(sym.S.fresh_name('k')), z3.Int(sym.S.fresh_name('l'))
    pos = lambda i: elem_index(d.at(i))
    assume(z3.And(0 <= k, k < d.n))
    a = pos(k)
    sym.prove(f'{name}: nothing extra', z3.And(a >= 0, a < n, want(a)))
    assume(z3.And(k < l, l < d.n))
    sym.prove(f'{name}: in order', pos(k) < pos(l))
    raise sym.Unsupported(f'{name}: completeness of a re-indexed list')


def prove_selection_bounded(name, result, n, want):
    """the same for a run in bounded mode: result is an ordinary list"""
    xs = list(result)
    ks = [elem_index(x) for x in xs]
    for a, b in zip(ks, ks[1:]):
        sym.prove(f'{name}: in order', a < b)
    for a in ks:
        sym.prove(f'{name}: nothing extra', z3.And(a >= 0, a < n, want(a)))
    for i in range(sym.S.bounded + 1):
        c = z3.IntVal(i)
        sym.prove(f'{name}: nothing missing', z3.Implies(z3.And(c < n, want(c)), z3.Or([a == c for a in ks] or [z3.BoolVal(False)])))


def selection(name, result, n, want):
    if sym.S.bounded is not None:
        prove_selection_bounded(name, result, n, want)
    else:
        prove_selection(name, result, n, want)


class AbsVer(sym.Sym):
    """a version of which only whether it is a pre- or dev-release is known"""
    __slots__ = ('pre',)

    def __init__(self, pre):
        self.pre = pre

    def is_pre_or_dev_release(self):
        return SymBool(self.pre)


class AbsPkg(sym.Sym):
    """element i of an arbitrary list of packages"""
    __slots__ = ('i', 'fam')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, AbsPkg) else False

    __hash__ = sym.Sym.__hash__

    def __vc_is__(self, o):
        return self == o

    def is_compatible_with(self, env):
        return self.fam.is_compatible(self, env)

    @property
    def version(self):
        return self.fam.version(self)

    def __bool__(self):
        return True


def exactly(name, result, fams, ident):
    """`result` holds, in any order, every wanted element exactly once and nothing else.
    fams: (family, size, want(i)); ident(x) -> (family, z3 position)"""
    fams = list(fams)
    if sym.S.bounded is not None:
        got = [ident(x) for x in result]
        for f, i in got:
            n, want = next(((n, w) for g, n, w in fams if g is f), (None, None))
            sym.prove(f'{name}: nothing extra', z3.And(0 <= i, i < n, want(i)) if n is not None else z3.BoolVal(False))
        for a in range(len(got)):
            for b in range(a):
                if got[a][0] is got[b][0]:
                    sym.prove(f'{name}: nothing twice', got[a][1] != got[b][1])
        for f, n, want in fams:
            for i in range(sym.S.bounded + 1):
                c = z3.IntVal(i)
                sym.prove(f'{name}: nothing missing', z3.Implies(z3.And(c < n, want(c)), z3.Or([k == c for g, k in got if g is f] or [z3.BoolVal(False)])))
        return
    r = sym.as_seq(result)
    if r is None:
        sym.prove(f'{name}: a list', False)
        return
    which = cur().choose(3)
    if which == 0:
        t = z3.Int(sym.S.fresh_name('t'))
        sym.assume_feasible(sym.in_range(r, t))
        f, i = ident(r.at(t))
        n, want = next(((n, w) for g, n, w in fams if g is f), (None, None))
        sym.prove(f'{name}: nothing extra', z3.And(0 <= i, i < n, want(i)) if n is not None else z3.BoolVal(False))
    elif which == 1:
        t, u = z3.Int(sym.S.fresh_name('t')), z3.Int(sym.S.fresh_name('u'))
        sym.assume_feasible(z3.And(sym.in_range(r, t), sym.in_range(r, u), t < u))
        (f, i), (g, k) = ident(r.at(t)), ident(r.at(u))
        if f is g:
            sym.prove(f'{name}: nothing twice', i != k)
        else:
            sym.prove(f'{name}: nothing twice', True)
    else:
        f, n, want = fams[cur().choose(len(fams))]
        i = z3.Int(sym.S.fresh_name('i'))
        sym.assume_feasible(z3.And(0 <= i, i < n, want(i)))
        for w in sym.witnesses(r):
            t = z3.simplify(w(i))
            if cur().decide(sym.in_range(r, t)):
                g, k = ident(r.at(t))
                if g is f and cur().decide(k == i):
                    sym.prove(f'{name}: nothing missing', True)
                    return
        sym.prove(f'{name}: nothing missing', False)
