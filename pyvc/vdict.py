"""dictionaries and sets created by instrumented code.  They are ordinary until a symbolic key or a summarised loop
reaches them; from then on they are a log of updates, and a lookup asks the log from its end.

The iteration order of such a dictionary is that of its log (positions of the last insertions); nothing may rely on it."""
import z3

from . import sym
from .sym import (Sym, SymBool, SymInt, SymOpt, SymSeq, SymStr, VList, Unsupported, Infeasible, assume, bvar, cur, eqf,
                  exists_at, fresh, forall, in_range, lift)


def _plain(k):
    if isinstance(k, Sym):
        return False
    try:
        hash(k)
        return True
    except Unsupported:
        return False
    except TypeError as e:
        if '__hash__ method should return an integer' in str(e):
            return False
        raise


def _true(f):
    return sym.check_valid(cur().facts(), f, 2000)[0] == 'discharged'


_ABSENT = object()


class VDict(dict):
    __slots__ = ('log', '__weakref__')

    def __init__(self, *a, **k):
        self.log = None
        super().__init__(*a, **k)

    def symbolic(self):
        return self.log is not None

    def go(self):
        if self.log is None:
            self.log = [('set', k, v) for k, v in super().items()]
            super().clear()
        return self

    # -- lookup -------------------------------------------------------------------------------------------------------
    def _overlay(self):
        """updates of the iteration being summarised"""
        c = sym.CUR
        if c is None or not c.depth or id(self) in c.local_ids:
            return None
        return c.effects

    def lookup(self, k):
        k = _unopt(k)
        ov = self._overlay()
        if ov is not None:
            for e in reversed(ov):
                if e[1] is self and e[0] in ('dset', 'ddel'):
                    key = e[2][0] if e[0] == 'dset' else e[2]
                    if cur().decide(eqf(k, key)):
                        return e[2][1] if e[0] == 'dset' else _ABSENT
            ov.append(('dget', self, k))
        if self.log is None:
            if _plain(k):
                return super().get(k, _ABSENT)
            for key in list(super().keys()):
                if cur().decide(eqf(k, key)):
                    return super().__getitem__(key)
            return _ABSENT
        for e in reversed(self.log):
            if e[0] == 'set':
                if cur().decide(eqf(k, e[1])):
                    return e[2]
            elif e[0] == 'del':
                if cur().decide(eqf(k, e[1])):
                    return _ABSENT
            elif e[0] == 'seq':
                hit = exists_at(e[1], lambda p: SymBool(eqf(p[0], k)))
                if cur().decide(hit.e):
                    return self._last(e[1], k)[1]
            elif e[0] == 'delseq':
                if cur().decide(exists_at(e[1], lambda x: SymBool(eqf(x, k))).e):
                    return _ABSENT
            else:
                raise Unsupported('dictionary log entry')
        return _ABSENT

    @staticmethod
    def _last(s, k):
        n = z3.simplify(s.n)
        if z3.is_int_value(n):
            for i in range(n.as_long() - 1, -1, -1):
                ii = z3.IntVal(i)
                if s.filt is not None and not cur().decide(s.filt(ii)):
                    continue
                p = s.at(ii)
                if cur().decide(eqf(p[0], k)):
                    return p
            raise Infeasible()
        w = fresh('last', sym.I)
        assume(in_range(s, w))
        p = s.at(w)
        assume(eqf(p[0], k))
        j = bvar()
        rng = z3.And(in_range(s, j), j > w)
        f, ex = sym.summarise_bool(lambda: SymBool(eqf(s.at(j)[0], k)), (j,), rng)
        if ex:
            raise Unsupported('exception in a key comparison')
        assume(forall((j,), z3.Implies(rng, z3.Not(f))))
        return p

    def has(self, k):
        """formula: k is a key"""
        if self.log is None or self._overlay() is not None:
            return z3.BoolVal(self.lookup(k) is not _ABSENT)
        r = z3.BoolVal(False)
        for e in self.log:
            if e[0] == 'set':
                r = z3.Or(eqf(k, e[1]), r)
            elif e[0] == 'del':
                r = z3.And(z3.Not(eqf(k, e[1])), r)
            elif e[0] == 'seq':
                r = z3.Or(exists_at(e[1], lambda p: SymBool(eqf(p[0], k))).e, r)
            else:
                r = z3.And(z3.Not(exists_at(e[1], lambda x: SymBool(eqf(x, k))).e), r)
        return r

    # -- reading ------------------------------------------------------------------------------------------------------
    def _easy(self, k=None):
        return sym.CUR is None or self.log is None and self._overlay() is None and _plain(k)

    def get(self, k, d=None):
        k = _unopt(k)
        if self._easy(k):
            return super().get(k, d)
        r = self.lookup(k)
        return d if r is _ABSENT else r

    def __getitem__(self, k):
        k = _unopt(k)
        if self._easy(k):
            return super().__getitem__(k)
        r = self.lookup(k)
        if r is _ABSENT:
            raise KeyError('<key>')
        return r

    def __contains__(self, k):
        k = _unopt(k)
        if self._easy(k):
            return super().__contains__(k)
        return cur().decide(self.has(k))

    def __vc_in__(self, k):
        k = _unopt(k)
        if self._easy(k):
            return super().__contains__(k)
        return SymBool(self.has(k))

    # -- writing ------------------------------------------------------------------------------------------------------
    def _outer(self):
        return self._overlay() is not None

    def __setitem__(self, k, v):
        k = _unopt(k)
        if self._outer():
            cur().effects.append(('dset', self, (k, v)))
        elif self.log is None and _plain(k):
            super().__setitem__(k, v)
        else:
            self.go().log.append(('set', k, v))

    def _del(self, k):
        if self._outer():
            cur().effects.append(('ddel', self, k))
        else:
            self.go().log.append(('del', k))

    def __delitem__(self, k):
        k = _unopt(k)
        if self._easy(k):
            return super().__delitem__(k)
        if self.lookup(k) is _ABSENT:
            raise KeyError('<key>')
        self._del(k)

    def pop(self, k, *d):
        k = _unopt(k)
        if self._easy(k):
            return super().pop(k, *d)
        r = self.lookup(k)
        if r is _ABSENT:
            if d:
                return d[0]
            raise KeyError('<key>')
        self._del(k)
        return r

    def setdefault(self, k, d=None):
        k = _unopt(k)
        if self._easy(k):
            return super().setdefault(k, d)
        r = self.lookup(k)
        if r is _ABSENT:
            self[k] = d
            return d
        return r

    def update(self, *a, **kw):
        for o in a:
            o = _unopt(o)
            if isinstance(o, VDict) and o.symbolic() and not self._outer():
                self.go().log.extend(o.log)
                continue
            s = sym.as_seq(o) if not isinstance(o, dict) and isinstance(o, (SymSeq, VList)) else None
            if s is not None:
                if self._outer():
                    raise Unsupported('update of an outer dictionary in a summarised iteration')
                self.go().log.append(('seq', s))
                continue
            for k, v in (o.items() if hasattr(o, 'items') else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        if self._outer():
            raise Unsupported('clear of an outer dictionary in a summarised iteration')
        self.log = None
        super().clear()

    def copy(self):
        r = VDict(dict.items(self)) if self.log is None else VDict()
        r.log = None if self.log is None else list(self.log)
        c = sym.CUR
        if c is not None and c.depth:
            c.local_ids[id(r)] = r
        return r

    __copy__ = copy

    def popitem(self):
        if self.log is None and not self._outer():
            return super().popitem()
        raise Unsupported('popitem of a symbolic dictionary')

    # -- iteration ----------------------------------------------------------------------------------------------------
    def pairs(self):
        """live (key, value) pairs"""
        parts = self.parts()
        if not parts:
            return lift([], 'list')
        r = parts[0]
        for p in parts[1:]:
            r = sym.seq_concat(r, p)
        return r

    def parts(self):
        if self._overlay() is not None:
            raise Unsupported('iteration over an outer dictionary in a summarised iteration') \
                if any(e[1] is self and e[0] in ('dset', 'ddel') for e in self._overlay()) else None
        log = self.log if self.log is not None else [('set', k, v) for k, v in dict.items(self)]
        conc = []

        def flush():
            if conc:
                parts.append(lift(conc, 'list'))
                conc.clear()
        parts = []
        for i, e in enumerate(log):
            later = log[i + 1:]
            if e[0] in ('del', 'delseq'):
                continue
            if e[0] == 'set':
                if not cur().decide(_overridden(e[1], later)):
                    conc.append((e[1], e[2]))
                continue
            s = e[1]
            flush()
            filt = s.filt
            if not _distinct(s):
                filt = _and(filt, _last_filter(s))
            if later:
                filt = _and(filt, lifted(s, lambda j, s=s, later=later: z3.Not(_overridden(s.at(j)[0], later))))
            parts.append(SymSeq(s.n, s.at, 'list', filt))
        flush()
        return parts

    def _view(self, f):
        s = self.pairs()
        r = SymSeq(s.n, lambda i: f(s.at(i)), 'list', s.filt)
        r.wit = s.wit
        return r

    def items(self):
        return super().items() if self._flat() else self._view(lambda p: p)

    def keys(self):
        return super().keys() if self._flat() else self._view(lambda p: p[0])

    def values(self):
        return super().values() if self._flat() else self._view(lambda p: p[1])

    def _flat(self):
        return sym.CUR is None or self.log is None

    def __iter__(self):
        return super().__iter__() if self._flat() else iter(self.keys())

    def __vc_seq__(self):
        if self._flat():
            return None
        return self.keys()

    def __len__(self):
        if self._flat():
            return super().__len__()
        return len(self.pairs())

    def __vc_len__(self):
        if self._flat():
            return super().__len__()
        return self.pairs().length()

    def __bool__(self):
        if self._flat():
            return super().__len__() > 0
        if any(e[0] == 'set' for e in self.log[-1:]):
            return True
        return bool(self.pairs())

    def __eq__(self, o):
        if self._flat() and not (isinstance(o, VDict) and o.symbolic()):
            return super().__eq__(o)
        raise Unsupported('comparison of symbolic dictionaries')

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __vc_copydict__(self):
        return self.copy()


def _and(f, g):
    return g if f is None else (lambda j: z3.And(f(j), g(j)))


def _unopt(k):
    from .runtime import unopt
    return unopt(k)


def lifted(s, fn):
    """fn(position) -> formula, evaluated once for an arbitrary position of s"""
    j = bvar()
    rng = in_range(s, j)
    f, ex = sym.summarise_bool(lambda: SymBool(fn(j)), (j,), rng)
    if ex:
        raise Unsupported('exception in a key comparison')
    return lambda i: z3.substitute(f, (j, i))


def _overridden(k, later):
    r = []
    for e in later:
        if e[0] in ('set', 'del'):
            r.append(eqf(k, e[1]))
        elif e[0] == 'seq':
            r.append(exists_at(e[1], lambda p: SymBool(eqf(p[0], k))).e)
        else:
            r.append(exists_at(e[1], lambda x: SymBool(eqf(x, k))).e)
    return z3.Or(r) if r else z3.BoolVal(False)


def key_clash(s1, k1, s2, k2):
    """formula, over two fresh positions i (of s1) and j (of s2): the keys there are equal"""
    i, j = bvar('c'), bvar('d')
    rng = z3.And(in_range(s1, i), in_range(s2, j))
    f, ex = sym.summarise_bool(lambda: SymBool(eqf(k1(i), k2(j))), (i, j), rng)
    if ex:
        raise Unsupported('exception in a key comparison')
    return i, j, rng, f


def _distinct(s):
    """the keys of the pairs are provably different"""
    try:
        i, j, rng, f = key_clash(s, lambda x: s.at(x)[0], s, lambda x: s.at(x)[0])
    except Unsupported:
        return False
    return _true(z3.ForAll([i, j], z3.Implies(z3.And(rng, i != j), z3.Not(f))))


def _last_filter(s):
    i, j, rng, f = key_clash(s, lambda x: s.at(x)[0], s, lambda x: s.at(x)[0])
    g = z3.Not(sym.exists((j,), z3.And(z3.substitute(rng, (i, j)), j > i, f)))
    return lambda x: z3.substitute(g, (i, x))


class VSet(set):
    """a set; symbolic: the keys of a VDict"""
    __slots__ = ('d', 'card')

    def __init__(self, *a):
        self.d = None
        self.card = None
        xs = list(*a) if a else []
        if all(_plain(x) for x in xs):
            super().__init__(xs)
        else:
            super().__init__()
            self.d = VDict()
            for x in xs:
                self.d.go().log.append(('set', x, None))

    def symbolic(self):
        return self.d is not None

    def _outer(self):
        c = sym.CUR
        return c is not None and c.depth > 0 and id(self) not in c.local_ids

    def go(self):
        if self.d is None:
            self.d = VDict()
            self.d.go().log.extend(('set', x, None) for x in set.__iter__(self))
            set.clear(self)
        c = sym.CUR
        if c is not None and c.depth and id(self) in c.local_ids:
            c.local_ids[id(self.d)] = self.d
        return self.d

    def _flat(self):
        return sym.CUR is None or self.d is None

    def __contains__(self, x):
        x = _unopt(x)
        if self._flat() and _plain(x) and not self._outer():
            return super().__contains__(x)
        return cur().decide(self.has(x))

    def has(self, x):
        return self.go().has(x)

    def __vc_in__(self, x):
        x = _unopt(x)
        if self._flat() and _plain(x) and not self._outer():
            return super().__contains__(x)
        return SymBool(self.has(x))

    def add(self, x):
        x = _unopt(x)
        if self._flat() and _plain(x) and not self._outer():
            return super().add(x)
        n = self._card()
        if n is not None:
            n = z3.simplify(n + z3.If(self.has(x), 0, 1))
        self.go()[x] = None
        self._counted(n)

    def discard(self, x):
        x = _unopt(x)
        if self._flat() and _plain(x) and not self._outer():
            return super().discard(x)
        n = self._card()
        if n is not None:
            n = z3.simplify(n - z3.If(self.has(x), 1, 0))
        self.go()._del(x)
        self._counted(n)

    # the number of elements, while it is known how the log changed it
    def _card(self):
        if self._outer():
            return None
        if self.d is None:
            return z3.IntVal(set.__len__(self))
        if self.card is not None and self.card[0] is self.d and self.card[1] == len(self.d.log):
            return self.card[2]
        return None

    def _counted(self, n):
        self.card = None if n is None else (self.d, len(self.d.log), n)

    def fresh_card(self):
        n = fresh('card', sym.I)
        assume(n >= 0)
        assume((n > 0) == z3.Or([exists_at(e[1], lambda x: True).e if e[0] == 'seq' else z3.BoolVal(True) for e in self.d.log]))
        self._counted(n)

    def remove(self, x):
        if x not in self:
            raise KeyError('<element>')
        self.discard(x)

    def update(self, *its):
        for it in its:
            it = _unopt(it)
            from .runtime import sym_iter
            s = sym_iter(it)
            if s is None:
                for x in it:
                    self.add(x)
            else:
                if self._outer():
                    raise Unsupported('update of an outer set in a summarised iteration')
                self.go().log.append(('seq', _keyed(s)))

    def difference_update(self, *its):
        for it in its:
            from .runtime import sym_iter
            s = sym_iter(_unopt(it))
            if s is None:
                for x in list(it):
                    self.discard(x)
            else:
                if self._outer():
                    raise Unsupported('update of an outer set in a summarised iteration')
                self.go().log.append(('delseq', s))

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def copy(self):
        r = VSet()
        if self.d is None:
            set.update(r, set.__iter__(self))
        else:
            r.d = self.d.copy()
            r._counted(self._card())
        c = sym.CUR
        if c is not None and c.depth:
            c.local_ids[id(r)] = r
        return r

    __copy__ = copy

    def __vc_copyset__(self):
        return self.copy()

    def __vc_mkset__(self, items):
        r = VSet()
        c = sym.CUR
        if c is not None and c.depth:
            c.local_ids[id(r)] = r
        for it in items:
            if type(it).__name__ == 'star':
                r.update(it.x)
            else:
                r.add(it)
        return r

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    __or__ = __ror__ = lambda self, o: self.union(o)

    def difference(self, *its):
        r = self.copy()
        r.difference_update(*its)
        return r

    __sub__ = difference

    def intersection(self, *its):
        r = self
        for it in its:
            if r._flat() and isinstance(it, (set, frozenset)) and not (isinstance(it, VSet) and it.symbolic()):
                r = VSet(set.intersection(set(set.__iter__(r)), it))
                continue
            o = it if isinstance(it, VSet) else VSet().union(it)
            s = lift(list(set.__iter__(r)), 'list') if r._flat() else r.d.keys()
            n = VSet()
            n.go().log.append(('seq', _keyed(SymSeq(s.n, s.at, 'list', _and(s.filt, lifted(s, lambda j: o.has(s.at(j))))))))
            r = n
        return r

    __and__ = intersection
    __rand__ = intersection

    def isdisjoint(self, o):
        return not self.intersection(o)

    def clear(self):
        if self._outer():
            raise Unsupported('clear of an outer set in a summarised iteration')
        self.d = None
        super().clear()

    def pop(self):
        if self._flat():
            return super().pop()
        raise Unsupported('pop of a symbolic set')

    def __iter__(self):
        return super().__iter__() if self._flat() else iter(self.d.keys())

    def __vc_seq__(self):
        return None if self._flat() else self.d.keys()

    def __len__(self):
        return super().__len__() if self._flat() else len(self.d)

    def __vc_len__(self):
        if self._flat():
            return super().__len__()
        n = self._card()
        return SymInt(n) if n is not None else self.d.__vc_len__()

    def __bool__(self):
        return super().__len__() > 0 if self._flat() else bool(self.d)

    def __eq__(self, o):
        if self._flat() and not (isinstance(o, VSet) and o.symbolic()):
            return super().__eq__(o)
        if not isinstance(o, (set, frozenset)):
            return False
        o = o if isinstance(o, VSet) else VSet(o)
        return bool(self.issubset(o)) and bool(o.issubset(self))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def issubset(self, o):
        if self._flat() and not (isinstance(o, VSet) and o.symbolic()):
            return super().issubset(o)
        o = o if isinstance(o, VSet) else VSet().union(o)
        s = lift(list(set.__iter__(self)), 'list') if self._flat() else self.d.keys()
        return sym.forall_at(s, lambda x: SymBool(o.has(x)))

    __le__ = issubset

    def issuperset(self, o):
        return (o if isinstance(o, VSet) else VSet().union(o)).issubset(self)

    __ge__ = issuperset


def _keyed(s):
    return SymSeq(s.n, lambda i: (s.at(i), None), 'list', s.filt)


# -- effects of a summarised loop ---------------------------------------------------------------------------------------

def _mutations(p, o):
    return [e for e in p.effects if e[1] is o and e[0] in ('dset', 'ddel')]


def check_loop(site, s, j, rng, paths):
    """dictionaries updated by a loop body: iterations must not see each other's updates"""
    objs = {id(e[1]): e[1] for p in paths for e in p.effects if e[0] in ('dset', 'ddel', 'dget')}
    out = []
    for o in objs.values():
        muts = [(p.cond(), e) for p in paths for e in _mutations(p, o)]
        if not muts:
            continue
        per = max(len(_mutations(p, o)) for p in paths)
        kinds = {e[0] for _, e in muts}
        reads = [(p.cond(), e[2]) for p in paths for e in p.effects if e[1] is o and e[0] == 'dget']
        if reads or per > 1 or len(kinds) > 1:
            touch = reads + [(c, e[2][0] if e[0] == 'dset' else e[2]) for c, e in muts]
            j2 = bvar('j2')
            for c1, e1 in muts:
                k1 = e1[2][0] if e1[0] == 'dset' else e1[2]
                for c2, k2 in touch:
                    f = _clash(k1, k2, j, j2)
                    if f is None:
                        raise Unsupported(f'{site}: keys of an updated dictionary')
                    other = lambda e: z3.substitute(e, (j, j2))
                    if not _true(z3.ForAll([j, j2], z3.Implies(z3.And(rng, other(rng), j != j2, c1, other(c2)), z3.Not(f)))):
                        raise Unsupported(f'{site}: an iteration may look at a key another iteration updates')
        out.append((o, per))
    return out


def _clash(k1, k2, j, j2):
    if isinstance(k1, (SymStr, SymInt)) and isinstance(k2, (SymStr, SymInt)) and type(k1) is type(k2):
        return k1.e == z3.substitute(k2.e, (j, j2))
    h = getattr(type(k1), '__vc_reindex__', None)
    if h is not None and type(k1) is type(k2):
        return eqf(k1, k2.__vc_reindex__(j, j2))
    if _plain(k1) and _plain(k2):
        return z3.BoolVal(k1 == k2)
    return None


class NoReindex(Exception):
    pass


def reindex(v, j, i):
    """the value v (built for position j) at position i"""
    if isinstance(v, (SymStr, SymInt, SymBool)):
        return type(v)(z3.substitute(v.e, (j, i)))
    if isinstance(v, SymOpt):
        return SymOpt(z3.substitute(v.none, (j, i)), reindex(v.val, j, i))
    if isinstance(v, tuple):
        return tuple(reindex(x, j, i) for x in v)
    h = getattr(type(v), '__vc_reindex__', None)
    if h:
        return h(v, j, i)
    import enum
    if v is None or isinstance(v, (str, int, float, bytes, enum.Enum, type)):
        return v
    raise NoReindex()
