"""C03: the algebra of version specifiers"""
import contextlib

from contracts.common import *
from pyvc import runtime, sym
from pyvc.sym import cur, VList
from pyvc.vc import goal
import pkm.api.versions.version_specifiers as S
from pkm.api.versions.version import StandardVersion, UrlVersion, NamedVersion, Version

M = 'pkm.api.versions.version_specifiers'
ASSUMPTIONS = ['versions: a totally ordered set in which the named and url versions come first (C01, C02), all of them public',
               'the recursion between specifiers and the work list of a union end (partial correctness)',
               'the inverse of a union that is not * is never empty as an object (segments of a union are never *, bounded)',
               'list.sort permutes its list']

STD = z3.Function('version.standard', I, B)
POST = z3.Function('version.post_release', I, B)
PRE_ = z3.Function('version.pre_or_dev', I, B)
CLASSES = {S._AllowAll: 0, S._RestrictAll: 1, S.VersionMatch: 2, S.StandardVersionRange: 3, S.HetroVersionIntersection: 4, S.VersionsUnion: 5}
ALL, NONE = 0, 1


class AV(sym.Sym):
    """a public version: its place in the order"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if Version in ts or {StandardVersion, NamedVersion, UrlVersion} <= set(ts):
            return True
        if StandardVersion in ts:
            return cur().decide(STD(self.e))
        if NamedVersion in ts or UrlVersion in ts:
            if not cur().decide(STD(self.e)):
                raise sym.Unsupported('which kind of version')
        return False

    def is_local(self):
        return False

    def without_local(self):
        return self

    def is_post_release(self):
        return SymBool(POST(self.e))

    def is_pre_or_dev_release(self):
        return SymBool(PRE_(self.e))

    def __bool__(self):
        return True

    def __vc_eq__(self, o):
        o = runtime.unopt(o)
        return SymBool(self.e == o.e) if isinstance(o, AV) else SymBool(z3.BoolVal(False))

    def __eq__(self, o):
        return self.__vc_eq__(o)

    def __ne__(self, o):
        return SymBool(z3.Not(form(self.__vc_eq__(o))))

    __hash__ = sym.Sym.__hash__

    def __lt__(self, o):
        return SymBool(self.e < o.e)

    def __le__(self, o):
        return SymBool(self.e <= o.e)

    def __gt__(self, o):
        return SymBool(self.e > o.e)

    def __ge__(self, o):
        return SymBool(self.e >= o.e)


def version(name, standard=None):
    v = fresh(name, I)
    if standard is not None:
        assume(STD(v) if standard else z3.Not(STD(v)))
    order(v)
    return AV(v)


def order(v):
    """named and url versions come before every standard one (0 separates them)"""
    assume(STD(v) == (v > 0))


class VerSet(sym.Sym):
    """a finite set of versions"""
    __slots__ = ('mem',)

    def __init__(self, mem):
        self.mem = mem

    def some(self):
        x = z3.Int(sym.S.fresh_name('x!some'))
        return z3.Exists([x], self.mem(x))

    def __vc_len__(self):
        return Size(self)

    def __bool__(self):
        return cur().decide(self.some())

    def __vc_in__(self, v):
        v = runtime.unopt(v)
        return SymBool(self.mem(v.e)) if isinstance(v, AV) else SymBool(z3.BoolVal(False))

    def __vc_comp__(self, kind, elt, cond):
        x = sym.bvar('v')
        same, ex = sym.summarise_bool(lambda: SymBool(elt(AV(x)).e == x) if isinstance(elt(AV(x)), AV) else False, (x,), z3.BoolVal(True))
        if ex:
            raise sym.Unsupported('a comprehension over a set of versions that fails')
        if not z3.is_true(z3.simplify(same)):
            return Mapped(self, elt, cond)
        f = z3.BoolVal(True)
        if cond is not None:
            f, ex = sym.summarise_bool(lambda: cond(AV(x)), (x,), z3.And(self.mem(x), STD(x) == (x > 0)))
            if ex:
                raise sym.Unsupported('a filter that fails')
        m = self.mem
        r = VerSet(lambda v: z3.And(m(v), z3.substitute(f, (x, v))))
        return r

    def __vc_mkset__(self, items):
        r = VerSet(lambda v: z3.BoolVal(False))
        for it in items:
            r.update(it.x) if type(it) is runtime.star else r.add(it)
        return r

    def add(self, v):
        m = self.mem
        self.mem = lambda x: z3.Or(m(x), x == v.e)

    def update(self, o):
        if not isinstance(o, VerSet):
            raise sym.Unsupported('update of a set of versions')
        m, n = self.mem, o.mem
        self.mem = lambda x: z3.Or(m(x), n(x))

    def union(self, o):
        r = VerSet(self.mem)
        r.update(o)
        return r

    def copy(self):
        return VerSet(self.mem)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        m, n = self.mem, o.mem
        return VerSet(lambda x: z3.And(m(x), n(x)))

    def __sub__(self, o):
        m, n = self.mem, o.mem
        return VerSet(lambda x: z3.And(m(x), z3.Not(n(x))))

    def __vc_eq__(self, o):
        x = z3.Int(sym.S.fresh_name('x!eq'))
        return SymBool(z3.ForAll([x], self.mem(x) == o.mem(x)))

    def __eq__(self, o):
        return self.__vc_eq__(o)

    __hash__ = sym.Sym.__hash__


class Mapped:
    """a generator over a set of versions"""

    def __init__(self, s, elt, cond):
        self.s, self.elt, self.cond = s, elt, cond

    def __vc_seq__(self):
        """the elements, in some order"""
        if self.cond is not None:
            raise sym.Unsupported('filtered generator over a set of versions')
        n, f, idx = fresh('members', I), sym.fresh_fun('member', I, I), sym.fresh_fun('index', I, I)
        j, x = z3.Ints('j!m x!m')
        m = self.s.mem
        assume(n >= 0)
        assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(m(f(j)), STD(f(j)) == (f(j) > 0))), patterns=[f(j)]))
        assume(z3.ForAll([x], z3.Implies(m(x), z3.And(0 <= idx(x), idx(x) < n, f(idx(x)) == x)), patterns=[idx(x)]))
        w = idx(X.e)  # the probe is the element asked about
        assume(z3.Implies(m(X.e), z3.And(0 <= w, w < n, f(w) == X.e)))
        if cur().decide(n == 1) if False else False:
            pass
        two = [fresh('m', I) for _ in range(2)]
        assume(z3.Implies(n == 0, z3.Not(self.s.some())))
        y, z = z3.Ints('y!m z!m')
        assume(z3.Implies(n == 1, z3.ForAll([y, z], z3.Implies(z3.And(m(y), m(z)), y == z))))
        return SymSeq(n, lambda i: self.elt(AV(f(i))), 'list')


class Size(sym.Sym):
    """len of a set of versions: only compared with 0 and 1"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def eq(self, k):
        if k == 0:
            return z3.Not(self.s.some())
        if k == 1:
            y, z = z3.Ints(sym.S.fresh_name('y!n') + ' ' + sym.S.fresh_name('z!n'))
            return z3.And(self.s.some(), z3.ForAll([y, z], z3.Implies(z3.And(self.s.mem(y), self.s.mem(z)), y == z)))
        raise sym.Unsupported('size of a set of versions')

    def __eq__(self, k):
        return SymBool(self.eq(k))

    def __ne__(self, k):
        return SymBool(z3.Not(self.eq(k)))

    __hash__ = sym.Sym.__hash__

    def __gt__(self, k):
        if k == 1:
            return SymBool(z3.Not(z3.Or(self.eq(0), self.eq(1))))
        if k != 0:
            raise sym.Unsupported('size of a set of versions')
        return SymBool(self.s.some())

    def __ge__(self, k):
        return self.__gt__(k - 1)

    def __lt__(self, k):
        return SymBool(z3.Not(form(self.__ge__(k))))

    def __le__(self, k):
        return SymBool(z3.Not(form(self.__gt__(k))))

    def __bool__(self):
        return cur().decide(self.s.some())


class Sorted(sym.Sym):
    """a sorted list of versions: only compared with others"""
    __slots__ = ()

    def __lt__(self, o):
        return SymBool(fresh('sorted_less', B))

    __gt__ = __le__ = __ge__ = __lt__


class OS(sym.Sym, S.VersionSpecifier):
    """any specifier: what it allows, and of which class it is.  Its operations follow the contracts proved below"""
    __slots__ = ('m', 'k')

    def __init__(self, m, k):
        self.m, self.k = m, k
        self.facts(X.e)

    def facts(self, x):
        assume(z3.And(z3.Implies(self.k == ALL, self.m(x)), z3.Implies(self.k == NONE, z3.Not(self.m(x))), 0 <= self.k, self.k <= 5))

    def at_probe(self):
        return self.m(X.e)

    def __vc_is__(self, o):
        if isinstance(o, (S._AllowAll, S._RestrictAll)):
            return SymBool(self.k == CLASSES[type(o)])
        return o is self

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if S.VersionSpecifier in ts:
            return True
        return cur().decide(z3.Or([z3.BoolVal(False)] + [self.k == CLASSES[c] for c in ts if c in CLASSES]))

    def allows_version(self, v):
        self.facts(v.e)
        return SymBool(self.m(v.e))

    def intersect_with(self, o):
        return made(z3.And(self.at_probe(), mean(o)))

    def union_with(self, o):
        return made(z3.Or(self.at_probe(), mean(o)))

    def inverse(self):
        r = made(z3.Not(self.at_probe()))
        assume((self.k == ALL) == (r.k == NONE))
        assume((self.k == NONE) == (r.k == ALL))
        return r

    def __lt__(self, o):
        return SymBool(fresh('spec_less', B))

    def __le__(self, o):
        return SymBool(fresh('spec_leq', B))

    __gt__, __ge__ = __lt__, __le__

    def __vc_eq__(self, o):
        b = fresh('same_spec', B)
        assume(z3.Implies(b, self.at_probe() == mean(o)))
        if isinstance(o, OS):
            assume(z3.Implies(b, self.k == o.k))
        elif type(o) in CLASSES:
            assume(z3.Implies(b, self.k == CLASSES[type(o)]))
            if type(o) in (S._AllowAll, S._RestrictAll):
                assume(b == (self.k == CLASSES[type(o)]))
        return SymBool(b)

    def __eq__(self, o):
        return self.__vc_eq__(o)

    def __ne__(self, o):
        return SymBool(z3.Not(form(self.__vc_eq__(o))))

    __hash__ = sym.Sym.__hash__

    def __str__(self):
        return SymStr(fresh('text', R))


def opaque(name='spec', *not_of):
    """an arbitrary specifier"""
    r = OS(sym.fresh_fun(name, I, B), fresh(name + '.class', I))
    for k in not_of:
        assume(r.k != k)
    return r


def made(at_probe):
    """the result of an operation: what it allows is known of the probe"""
    r = opaque('result')
    assume(r.at_probe() == at_probe)
    return r


X = None  # the probe: an arbitrary standard version that is no post-release


def probe():
    global X
    X = AV(z3.Int('probe'))
    assume(z3.And(STD(X.e), X.e > 0, z3.Not(POST(X.e))))


def mean(s):
    """does the specifier allow the probe"""
    if isinstance(s, OS):
        return s.at_probe()
    return form(s.allows_version(X))


# -- operands ------------------------------------------------------------------------------------------------------------------

def a_match():
    return S.VersionMatch(version('match'), bool(sym_bool('allow_' + sym.S.fresh_name('a'))))


def a_range():
    c = cur().choose(3)
    lo = version('min', True) if c != 1 else None
    hi = version('max', True) if c != 2 else None
    flag = lambda v: bool(SymBool(fresh('includes', B))) if v is not None else False
    if c == 0:
        assume(lo.e < hi.e)
    return S.StandardVersionRange(lo, hi, flag(lo), flag(hi))


def a_hetro():
    m = sym.fresh_fun('excluded', I, B)
    r = object.__new__(S.HetroVersionIntersection)
    r.blacklist = VerSet(lambda x: m(x))
    r.standard_spec = opaque('standard_spec', NONE)
    some = fresh('some_excluded', I)
    order(some)
    assume(m(some))
    assume(z3.Not(z3.And(r.standard_spec.k == ALL, Size(r.blacklist).eq(1))))
    return r


def segments(name='segments', least=2):
    n, m, k = fresh(name, I), sym.fresh_fun(name + '.allows', I, I, B), sym.fresh_fun(name + '.class', I, I)
    assume(n >= least)
    j = z3.Int('j!seg')
    assume(z3.ForAll([j], z3.And(k(j) != ALL, k(j) != NONE, 0 <= k(j), k(j) <= 5), patterns=[k(j)]))
    s = SymSeq(n, lambda i: OS(lambda x: m(i, x), k(i)), 'list')
    if sym.S.bounded is not None:
        return VList(sym.concretise_len(s))
    v = VList()
    v.sym = s
    return v


def a_union():
    r = object.__new__(S.VersionsUnion)
    r.segments = segments()
    return r


OPERANDS = {'all': lambda: S.AllowAllVersions, 'none': lambda: S.RestrictAllVersions, 'match': a_match, 'range': a_range, 'hetro': a_hetro,
            'union': a_union}


def state(s):
    """what must not change: the attributes and what is in the lists and sets behind them"""
    out = {}
    for n, x in vars(s).items():
        out[n] = x
        if isinstance(x, VList):
            out[n, 'in'] = (x.sym, list(list.__iter__(x)))
        if isinstance(x, VerSet):
            out[n, 'in'] = x.mem
    return out


def unchanged(name, s, before):
    now = state(s)
    ok = before.keys() == now.keys()
    for n in before:
        if not ok:
            break
        a, b = before[n], now[n]
        if isinstance(a, tuple):
            ok = a[0] is b[0] and len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
        else:
            ok = a is b
    prove(name, z3.BoolVal(bool(ok)))


# -- loops over segments ---------------------------------------------------------------------------------------------------------

class Segments:
    """loops over lists of specifiers: of the candidate invariants those that hold at first and are kept by the body are assumed"""

    def __init__(self, *operands):
        self.operands = operands

    def specs(self, env):
        own = {id(v) for o in self.operands for v in vars(o).values()}
        var = {n: o for n, o in env.items() if isinstance(o, (OS, S._AllowAll, S._RestrictAll))}
        lists = {n: o for n, o in env.items() if isinstance(o, VList) and id(o) not in own and (o.symbolic() or len(o) == 0 or all(
            isinstance(x, S.VersionSpecifier) for x in list.__iter__(o)))}
        return var, lists

    # for loops: a specifier collects what the segments say
    def for_(self, site, s, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        d = s.dense()
        env0 = get()
        var = [n for n in mods if n in env0 and isinstance(env0[n], (OS, S._AllowAll, S._RestrictAll))]
        if not isinstance(elem(d, sym.bvar()), OS):
            return self.search(site, d, body, get, set_, mods)
        if not var:
            return self.search(site, d, body, get, set_, mods)
        valid = lambda f: sym.check_valid(cur().facts(), f, 4000)[0] == 'discharged'
        others = [mean(o) for o in self.operands]
        others += [mean(env0[n]) for n in var if isinstance(env0[n], OS)]

        def candidates(env, i):
            j = z3.Int('j!fold')
            m = lambda j: d.at(j).at_probe()
            rng = z3.And(0 <= j, j < i)
            all_not = z3.ForAll([j], z3.Implies(rng, z3.Not(m(j))))
            one = z3.Exists([j], z3.And(rng, m(j)))
            every = z3.ForAll([j], z3.Implies(rng, m(j)))
            for n in var:
                r = mean(env[n])
                base = [('none of', all_not), ('one of', one), ('all of', every), ('not all of', z3.Not(every))]
                for k, f in base:
                    yield (n, k), r == f
                    for o, om in enumerate(others):
                        yield (n, k, 'and', o), r == z3.And(f, om)
                        yield (n, k, 'or', o), r == z3.Or(f, om)
                        yield (n, k, 'or not', o), r == z3.Or(f, z3.Not(om))
                        yield (n, k, 'and not', o), r == z3.And(f, z3.Not(om))

        def enter(cand):
            i = fresh('it', I)
            assume(z3.And(0 <= i, i <= d.n))
            set_({m: runtime.Poison(env0, m) for m in mods if m not in var})
            env = {n: opaque('so_far') for n in var}
            set_(env)
            for k, f in candidates(env, i):
                if k in cand:
                    assume(f)
            return i

        def leave():
            set_({m: env0[m] for m in mods if m in env0})

        def analyse():
            cand = {k for k, f in candidates(env0, z3.IntVal(0)) if valid(f)}
            while True:
                bad, exits = set(), []

                def run():
                    i = enter(cand)
                    assume(i < d.n)
                    r = body(d.at(i))
                    if r is not runtime.CONT:
                        exits.append(1)
                        return
                    if any(e[0] != 'dget' for e in cur().effects):
                        raise sym.Unsupported('effect in a loop over segments')
                    e = get()
                    if not all(isinstance(e[n], S.VersionSpecifier) for n in var):
                        raise sym.Unsupported('what is collected is no specifier')
                    for k, f in candidates(e, i + 1):
                        if k in cand - bad and not valid(f):
                            bad.add(k)

                try:
                    paths = sym.explore(run, parent=cur())
                finally:
                    leave()
                exits += [p for p in paths if p.kind == 'exc']
                if not bad:
                    return cand, bool(exits)
                cand -= bad

        cand, exits = sym.remembered(('fold', site), analyse)
        i = enter(cand)
        cur().weaken(site)
        if not exits:
            assume(i == d.n)
            return runtime.DONE
        if cur().decide(i == d.n):
            return runtime.DONE
        r = body(d.at(i))
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def search(self, site, d, body, get, set_, mods):
        """rounds that only go on, then the end or a round that leaves the loop"""
        env0 = get()
        j = sym.bvar()

        def run():
            set_({m: runtime.Poison(env0, m) for m in mods})
            lists = self.specs(env0)[1]
            saved = {n: (o.sym, list(list.__iter__(o))) for n, o in lists.items()}
            for o in lists.values():
                cur().local_ids[id(o)] = o
            try:
                r = body(d.at(j))
                same = all(o.sym is saved[n][0] and list.__len__(o) == len(saved[n][1]) for n, o in lists.items())
                if r is runtime.CONT and (not same or any(e[0] != 'dget' for e in cur().effects)):
                    raise sym.Unsupported('effect in a round that goes on')
                return r is runtime.CONT
            finally:
                for n, o in lists.items():
                    o.sym = saved[n][0]
                    list.clear(o)
                    list.extend(o, saved[n][1])

        def analyse():
            try:
                paths = sym.explore(run, parent=cur(), binders=(j,), assume=[z3.And(j >= 0, j < d.n)])
            finally:
                set_({m: env0[m] for m in mods if m in env0})
            known, on = [], []
            for p in paths:
                br = []
                for kind, e in p.items:
                    if kind == 'br':
                        br.append(e)
                    elif kind == 'as':
                        known.append(z3.Implies(z3.And(br), e) if br else e)
                if p.kind != 'exc' and p.value:
                    on.append(z3.And(br))
            return j, known + [z3.Or(on) if on else z3.BoolVal(False)]

        # what it takes to go on holds for every round before the one that leaves
        j0, went_on = sym.remembered(('search', site), analyse)
        set_({m: runtime.Poison(env0, m) for m in mods})
        k = fresh('found', I)
        assume(z3.And(0 <= k, k <= d.n))
        for e in went_on:
            assume(z3.ForAll([j0], z3.Implies(z3.And(0 <= j0, j0 < k), e)))
        if cur().decide(k == d.n):
            return runtime.DONE
        r = body(d.at(k))
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    # while loops: a work list
    def while_(self, site, cond, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        env0 = get()
        lists = self.specs(env0)[1]
        if not lists:
            return NotImplemented
        start = z3.Or([some(o) for o in lists.values()])
        kept = {n: (o.sym, list(list.__iter__(o))) for n, o in lists.items()}
        cur().weaken(site)
        before = fresh('together', B)
        assume(before == start)
        size = lambda: z3.Sum([ln(o) for o in lists.values()])
        prove('there is a segment', size() >= 1)
        for n, o in lists.items():
            prove('no segment is * or nothing', proper(o))

        def enter():
            set_({m: runtime.Poison(env0, m) for m in mods if m not in lists})
            for n, o in lists.items():
                list.clear(o)
                o.sym = segments('list', 0).sym
            assume(size() >= 1)
            assume(before == z3.Or([some(o) for o in lists.values()]))

        def leave():
            set_({m: env0[m] for m in mods if m in env0})
            for n, o in lists.items():
                list.clear(o)
                o.sym = kept[n][0]
                list.extend(o, kept[n][1])

        def run():
            for o in lists.values():
                cur().local_ids[id(o)] = o
            enter()
            if not cond():
                return
            r = body()
            if r is not runtime.CONT:
                return
            if {n for n, o in get().items() if n in lists and o is not lists[n]}:
                raise sym.Unsupported('another list')
            prove('the lists stay what they are together', before == z3.Or([some(o) for o in lists.values()]))
            prove('there is still a segment', size() >= 1)
            for n, o in lists.items():
                prove('no segment becomes * or nothing', proper(o))

        def analyse():
            try:
                sym.explore(run, parent=cur())
            finally:
                leave()
            return True

        sym.remembered(('worklist', site), analyse)
        enter()
        if not cond():
            return runtime.DONE
        r = body()
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def __enter__(self):
        self.saved = list(runtime.while_rules), list(runtime.for_rules)
        runtime.while_rules.insert(0, self.while_)
        runtime.for_rules.insert(0, self.for_)

    def __exit__(self, *a):
        runtime.while_rules[:], runtime.for_rules[:] = self.saved


def elem(s, j):
    try:
        return s.at(j)
    except Exception:
        return None


def ln(o):
    return o.sym.dense().n if o.symbolic() else z3.IntVal(list.__len__(o))


def some(o):
    """one of the specifiers in the list allows the probe"""
    if not o.symbolic():
        return z3.Or([z3.BoolVal(False)] + [mean(x) for x in list.__iter__(o)])
    return form(sym.exists_at(o.sym, lambda s: SymBool(mean(s))))


def klass(s):
    return s.k if isinstance(s, OS) else z3.IntVal(CLASSES[type(s)])


def proper(o):
    f = lambda s: z3.And(klass(s) != ALL, klass(s) != NONE)
    if not o.symbolic():
        return z3.And([z3.BoolVal(True)] + [f(x) for x in list.__iter__(o)])
    return form(sym.forall_at(o.sym, lambda s: SymBool(f(s))))


# -- goals -----------------------------------------------------------------------------------------------------------------------

def setup():
    def first(s, *a):
        if not isinstance(s, VerSet):
            raise sym.Unsupported('first of something else than a set')
        if not cur().decide(s.some()):
            raise ValueError('empty')
        v = version('first')
        assume(s.mem(v.e))
        return v

    real, mk = runtime.b_sorted, runtime.mkset

    def mkset(*items):
        if sym.CUR is None or not items or not any(isinstance(i.x if type(i) is runtime.star else i, (AV, VerSet)) for i in items):
            return mk(*items)
        return VerSet.__vc_mkset__(None, items)

    b_set = runtime.b_set
    return patched((S, 'first_or_raise', first), (runtime, 'mkset', mkset),
                   (runtime, 'b_set', lambda *a: VerSet(a[0].mem) if a and isinstance(a[0], VerSet) else b_set(*a)),
                   (runtime, 'b_sorted', lambda it, **k: Sorted() if isinstance(it, VerSet) else real(it, **k)),
                   (runtime, 'sorted_hook', permuted))


def permuted(s, key, reverse):
    """list.sort with an arbitrary order: a permutation"""
    d = s.dense()
    if sym.S.bounded is not None:
        v = VList()
        v.sym = d
        return v
    p, q = sym.fresh_fun('perm', I, I), sym.fresh_fun('iperm', I, I)
    i = z3.Int('i!p')
    assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.n), z3.And(0 <= p(i), p(i) < d.n, q(p(i)) == i)), patterns=[p(i)]))
    assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d.n), z3.And(0 <= q(i), q(i) < d.n, p(q(i)) == i)), patterns=[q(i)]))
    # the sorted list holds a specifier that allows the probe iff the list did
    w, u = fresh('w', I), fresh('u', I)
    some_d = form(sym.exists_at(SymSeq(d.n, d.at, 'list'), lambda s: SymBool(mean(s))))
    v = VList()
    v.sym = SymSeq(d.n, lambda i: d.at(p(i)), 'list')
    some_v = form(sym.exists_at(v.sym, lambda s: SymBool(mean(s))))
    assume(some_d == some_v)
    return runtime._new(v)


def pair_goal(op, a, b):
    A, Bo = OPERANDS[a](), OPERANDS[b]()
    ma, mb = mean(A), mean(Bo)
    sa, sb = state(A), state(Bo)
    with Segments(A, Bo):
        r = getattr(A, op)(Bo)
        got = mean(r)
    want = z3.And(ma, mb) if op == 'intersect_with' else z3.Or(ma, mb)
    prove(f'{op}: {a}, {b}', got == want)
    unchanged('the first operand is as before', A, sa)
    unchanged('the second operand is as before', Bo, sb)
    cover(f'{a} {b}')


def register():
    names = {'all': '_AllowAll', 'none': '_RestrictAll', 'match': 'VersionMatch', 'range': 'StandardVersionRange',
             'hetro': 'HetroVersionIntersection', 'union': 'VersionsUnion'}
    extra = {'range': ['_{}', ''], 'hetro': [], 'match': []}
    for op in ('intersect_with', 'union_with'):
        for a in OPERANDS:
            for b in OPERANDS:
                fs = [f'{M}:{names[a]}.{op}', f'{M}:{names[a]}.allows_version']
                if a == 'range' and b == 'range':
                    fs += [f'{M}:StandardVersionRange._{op}', f'{M}:VersionSpecifier.create_range', f'{M}:StandardVersionRange.__lt__']
                if a == 'hetro':
                    fs.append(f'{M}:HetroVersionIntersection.create')

                def run(op=op, a=a, b=b):
                    probe()
                    pair_goal(op, a, b)

                goal('C03', name=f'{op[:-5]}_{a}_{b}', functions=fs, setup=setup)(run)
    for a in OPERANDS:
        def run(a=a):
            probe()
            A = OPERANDS[a]()
            sa, ma = state(A), mean(A)
            with Segments(A):
                r = A.inverse()
                prove(f'inverse: {a}', mean(r) == z3.Not(ma))
            if a != 'union':
                prove('the inverse is nothing only of *', (klass(r) == NONE) == (klass(A) == ALL))
                prove('the inverse is * only of nothing', (klass(r) == ALL) == (klass(A) == NONE))
            unchanged('the operand is as before', A, sa)
            cover(a)

        goal('C03', name=f'inverse_{a}', functions=[f'{M}:{names[a]}.inverse'], setup=setup)(run)

        def same(a=a):
            probe()
            A = OPERANDS[a]()
            b = list(OPERANDS)[cur().choose(len(OPERANDS))]
            Bo = OPERANDS[b]()
            ma, mb = mean(A), mean(Bo)
            if bool(runtime.unopt(A == Bo)):
                prove(f'equal specifiers allow the same: {a}, {b}', ma == mb)
            cover('equal')

        goal('C03', name=f'equality_{a}', functions=[f'{M}:{names[a]}.__eq__'], setup=setup)(same)

        def less(a=a):
            probe()
            A = OPERANDS[a]()
            b = list(OPERANDS)[cur().choose(len(OPERANDS))]
            Bo = OPERANDS[b]()
            x = A < Bo
            y = Bo < A
            prove(f'the order answers: {a}, {b}', z3.BoolVal(x is not NotImplemented and y is not NotImplemented))
            cover('less')

        goal('C03', name=f'order_{a}', functions=[f'{M}:{names[a]}.__lt__', f'{M}:VersionSpecifier.__ge__', f'{M}:VersionSpecifier.__le__'], setup=setup)(less)

        def claims(a=a):
            probe()
            A, O = OPERANDS[a](), opaque('other')
            if a not in ('all', 'none'):
                # by the contract of intersect_with
                A.__dict__['intersect_with'] = lambda o: made(z3.And(mean(A), mean(o)))
            ma, mo = mean(A), mean(O)
            if bool(runtime.unopt(A.allows_all(O))):
                prove(f'allows all: {a}', z3.Implies(mo, ma))
            if not bool(runtime.unopt(A.allows_any(O))):
                prove(f'allows none: {a}', z3.Not(z3.And(ma, mo)))
            if a not in ('all', 'none'):
                A.__dict__['inverse'] = lambda: made(z3.Not(mean(A)))
            prove(f'difference: {a}', mean(A.difference_from(O)) == z3.And(ma, z3.Not(mo)))
            cover('claims')

        goal('C03', name=f'claims_{a}', functions=[f'{M}:VersionSpecifier.allows_all', f'{M}:VersionSpecifier.allows_any',
                                                   f'{M}:VersionSpecifier.difference_from'], setup=setup)(claims)


register()


def to_cases(goal, inputs):
    return []
