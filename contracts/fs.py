"""an arbitrary file system: kind and content of every path, operations as the operating system performs them (any of them may fail),
a temporary directory of named slots, and logs with parts that are known only by what undoing them does"""
import z3
from z3 import z3util

from pyvc import sym, runtime
from pyvc.sym import SymBool, SymInt, SymSeq, SymStr, SymOpt, assume, cur, fresh, fresh_fun, prove, str_lit

I, R, B = sym.I, sym.R, sym.B
PAR = z3.Function('fs.parent', I, I)
UNDER = z3.Function('fs.under', I, I, B)  # the path is the other or lies below it
CHILD = z3.Function('fs.child', I, R, I)
NAME = z3.Function('fs.name', I, R)
ABSENT, FILE, DIR = 0, 1, 2
EMPTY = z3.Int('fs.empty_content')
KS, CS = z3.ArraySort(I, I), z3.ArraySort(I, I)

WORLD = 6  # number of paths in the runs that look for a counterexample


def forall(vs, body, patterns=()):
    """for all paths; over a small universe when a counterexample is looked for"""
    if sym.S.bounded is None:
        return z3.ForAll(vs, body, patterns=list(patterns))
    import itertools
    return z3.And([z3.substitute(body, *zip(vs, map(z3.IntVal, c))) for c in itertools.product(range(WORLD), repeat=len(vs))])


def a_path(e):
    """paths of the universe"""
    if sym.S is not None and sym.S.bounded is not None and sym.CUR is not None:
        assume(z3.And(0 <= e, e < WORLD, 0 <= PAR(e), PAR(e) < WORLD))
    return e


FS = None  # the file system of this path of the exploration


def axioms():
    x, y, z, n = z3.Int('x!fs'), z3.Int('y!fs'), z3.Int('z!fs'), z3.Real('n!fs')
    return [
        forall([x], z3.And(0 <= PAR(x), PAR(x) < WORLD)) if sym.S.bounded is not None else z3.BoolVal(True),
        forall([x], UNDER(x, x), patterns=[UNDER(x, x)]),
        forall([x], UNDER(x, PAR(x)), patterns=[PAR(x)]),
        forall([x, y, z], z3.Implies(z3.And(UNDER(x, y), UNDER(y, z)), UNDER(x, z)), patterns=[z3.MultiPattern(UNDER(x, y), UNDER(y, z))]),
        forall([x, y], z3.Implies(z3.And(UNDER(x, y), UNDER(y, x)), x == y), patterns=[z3.MultiPattern(UNDER(x, y), UNDER(y, x))]),
        forall([x, y], z3.Implies(z3.And(UNDER(x, y), x != y), UNDER(PAR(x), y)), patterns=[z3.MultiPattern(UNDER(x, y), PAR(x))]),
        z3.BoolVal(True) if sym.S.bounded is not None else z3.ForAll([x, n], z3.And(PAR(CHILD(x, n)) == x, CHILD(x, n) != x, NAME(CHILD(x, n)) == n, UNDER(CHILD(x, n), x)), patterns=[CHILD(x, n)]),
    ]


def well_formed(K):
    x, p = z3.Ints('x!wf p!wf')
    return [
        forall([x], z3.And(K[x] >= 0, K[x] <= 2), patterns=[K[x]]),
        forall([x, p], z3.Implies(z3.And(UNDER(x, p), x != p, K[p] != DIR), K[x] == ABSENT), patterns=[UNDER(x, p)]),
        forall([x], z3.Implies(PAR(x) == x, K[x] == DIR), patterns=[PAR(x)]),
    ]


def same(a, b, x):
    """path x is the same in both states"""
    return z3.And(a[0][x] == b[0][x], z3.Implies(a[0][x] == FILE, a[1][x] == b[1][x]))


def everywhere(f, name='x'):
    x = z3.Int(name + '!ev')
    return forall([x], f(x))


class Injected(OSError):
    """a failure of the operating system at this point"""


class Fs:
    def __init__(self):
        global FS
        FS = self
        self.slots = []  # (name expression, origin or None, K, C) newest last; None: taken out
        self.alive = True
        self.faults = True
        self.used = []  # (list, its length) that named a slot
        self.logs = {}  # lists of the transaction
        self.state = self.any('fs0')
        self.start = self.state
        for a in axioms()[:self.facts]:
            assume(a)

    def any(self, name):
        K, C = z3.Const(sym.S.fresh_name(name + '.kind'), KS), z3.Const(sym.S.fresh_name(name + '.content'), CS)
        for a in well_formed(K):
            assume(a)
        return K, C

    def directory_removed(self, e, empty):
        pass  # ghost state of a contract

    facts = None  # how many of the facts on paths are used
    ghosts = ()  # names of the predicates on paths that directory_removed changes

    @property
    def K(self):
        return self.state[0]

    @property
    def C(self):
        return self.state[1]

    def fault(self):
        if self.faults and cur().nondet():
            raise Injected('any operation may fail')

    def put(self, p, kind, content=None):
        self.state = z3.Store(self.K, p, z3.IntVal(kind)), self.C if content is None else z3.Store(self.C, p, content)

    def subtree(self, p, inside, name='mv'):
        """replace what lies at and below p by inside = (K, C)"""
        K, C = z3.Const(sym.S.fresh_name(name + '.kind'), KS), z3.Const(sym.S.fresh_name(name + '.content'), CS)
        x = z3.Int('x!mv')
        K0, C0 = self.state
        assume(forall([x], z3.And(K[x] == z3.If(UNDER(x, p), inside[0](x), K0[x]), C[x] == z3.If(UNDER(x, p), inside[1](x), C0[x])), patterns=[K[x], C[x]]))
        self.state = K, C

    def remove_tree(self, p):
        C0 = self.C
        self.subtree(p, (lambda x: z3.IntVal(ABSENT), lambda x: C0[x]))

    def decide(self, e):
        return cur().decide(e)

    def take_name(self, e):
        """the name of a slot must be free: it is the length of a list of the transaction, which has grown since it was used last"""
        for n, o in sorted(self.logs.items(), key=lambda x: not e.eq(runtime.STR_OF_INT(x[1].length()))):
            k = o.length()
            if e.eq(runtime.STR_OF_INT(k)) or valid(e == runtime.STR_OF_INT(k)):
                for m, _, l in self.used:
                    if m != n:
                        raise sym.Unsupported('names of the temporary directory from several lists')
                    prove('a free place in the temporary directory', l < k)
                self.used.append((n, o, k))
                return
        if self.other_number(e):
            return
        raise sym.Unsupported('a name in the temporary directory')

    def other_number(self, e):
        """a name that is another number computed from the length of a list: no shorter list may have given the same"""
        if not (z3.is_app(e) and e.decl().eq(runtime.STR_OF_INT)):
            return False
        e = z3.simplify(e)
        mine = {str(v): v for v in z3util.get_vars(e)}
        for n, o in sorted(self.logs.items()):
            parts = {str(x.n): x.n for x in o.items if isinstance(x, Part)}
            if not mine or not set(mine) <= set(parts):
                continue
            old = [(v, fresh('shorter', I)) for v in parts.values()]
            k, ko = o.length(), z3.substitute(o.length(), *old)
            before = z3.And([o >= 0 for _, o in old] + [ko < k])
            prove('a free place in the temporary directory', z3.Implies(before, z3.substitute(e, *old).arg(0) != e.arg(0)))
            return True
        return False

    def names_stay_free(self):
        for n, o, k in self.used:
            prove('the place in the temporary directory is not given away again', k < o.length())

    def unknown(self):
        """the operation does something this model does not describe: anything may be the result"""
        self.state = self.any('unknown')


class AbsPath(sym.Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = a_path(e)

    # pure
    def __truediv__(self, n):
        n = runtime.unopt(n)
        e = sym.se(n)
        if e is None:
            raise sym.Unsupported('path / thing')
        c = CHILD(self.e, e)
        if sym.S.bounded is not None:
            assume(z3.And(PAR(c) == self.e, c != self.e, NAME(c) == e, UNDER(c, self.e)))
        return AbsPath(c)

    def joinpath(self, *ns):
        r = self
        for n in ns:
            r = r / n
        return r

    @property
    def parent(self):
        return AbsPath(PAR(self.e))

    @property
    def name(self):
        return SymStr(NAME(self.e))

    def absolute(self):
        return self

    resolve = absolute

    def __vc_eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, AbsPath) else SymBool(z3.BoolVal(False))

    def __eq__(self, o):
        return self.__vc_eq__(o)

    def __ne__(self, o):
        return SymBool(z3.Not(self.__vc_eq__(o).e))

    __hash__ = sym.Sym.__hash__

    def __bool__(self):
        return True

    def __vc_str__(self):
        return SymStr(fresh('pathtext', R))

    @property
    def parents(self):
        return Above(self)

    def is_relative_to(self, o):
        return SymBool(UNDER(self.e, o.e))

    # queries
    def exists(self):
        return SymBool(FS.K[self.e] != ABSENT)

    def is_dir(self):
        return SymBool(FS.K[self.e] == DIR)

    def is_file(self):
        return SymBool(FS.K[self.e] == FILE)

    def is_symlink(self):
        return False

    def iterdir(self):
        return runtime.SymGen(self.children())

    def children(self):
        if not FS.decide(FS.K[self.e] == DIR):
            raise FileNotFoundError('no directory')
        K = FS.K
        n = fresh('children', I)
        ch, ix = fresh_fun('child', I, I), fresh_fun('childindex', I, I)
        i = z3.Int('i!ch')
        assume(n >= 0)
        assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(PAR(ch(i)) == self.e, ch(i) != self.e, K[ch(i)] != ABSENT, UNDER(ch(i), self.e), ix(ch(i)) == i)), patterns=[ch(i)]))
        assume(forall([i], z3.Implies(z3.And(PAR(i) == self.e, i != self.e, K[i] != ABSENT), z3.And(0 <= ix(i), ix(i) < n, ch(ix(i)) == i)), patterns=[PAR(i)]))
        # a child at least if there is one
        assume(z3.Implies(n == 0, forall([i], z3.Implies(z3.And(UNDER(i, self.e), i != self.e), K[i] == ABSENT), patterns=[UNDER(i, self.e)])))
        return SymSeq(n, lambda i: AbsPath(ch(i)), 'list')

    # effects
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            raise sym.Unsupported('mkdir(parents)')
        FS.fault()
        if FS.decide(FS.K[self.e] != ABSENT):
            if exist_ok and FS.decide(FS.K[self.e] == DIR):
                return
            raise FileExistsError('mkdir')
        if not FS.decide(FS.K[PAR(self.e)] == DIR):
            raise FileNotFoundError('mkdir')
        FS.put(self.e, DIR)

    def rmdir(self):
        FS.fault()
        i = z3.Int('i!rd')
        if not FS.decide(FS.K[self.e] == DIR):
            raise FileNotFoundError('rmdir')
        if not FS.decide(forall([i], z3.Implies(z3.And(PAR(i) == self.e, i != self.e), FS.K[i] == ABSENT))):
            raise OSError('not empty')
        FS.put(self.e, ABSENT)
        FS.directory_removed(self.e, True)

    def unlink(self, missing_ok=False):
        FS.fault()
        if FS.decide(FS.K[self.e] == ABSENT):
            if missing_ok:
                return
            raise FileNotFoundError('unlink')
        if FS.decide(FS.K[self.e] == DIR):
            raise IsADirectoryError('unlink')
        FS.put(self.e, ABSENT)

    def touch(self, mode=0o666, exist_ok=True):
        FS.fault()
        if FS.decide(FS.K[self.e] != ABSENT):
            if not exist_ok:
                raise FileExistsError('touch')
            return
        if not FS.decide(FS.K[PAR(self.e)] == DIR):
            raise FileNotFoundError('touch')
        FS.put(self.e, FILE, EMPTY)


class Above(sym.Sym):
    """path.parents"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __vc_in__(self, x):
        return SymBool(z3.And(UNDER(self.p.e, x.e), self.p.e != x.e)) if isinstance(x, AbsPath) else SymBool(z3.BoolVal(False))

    def __contains__(self, x):
        return bool(self.__vc_in__(x))


class TempDir(sym.Sym):
    """the directory of a transaction for what it moved away"""
    __slots__ = ()

    def __truediv__(self, n):
        e = sym.se(runtime.unopt(n))
        if e is None:
            raise sym.Unsupported('path / thing')
        return Slot(e)

    def __bool__(self):
        return True


class Slot(sym.Sym):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return True

    def __vc_eq__(self, o):
        return SymBool(self.name == o.name) if isinstance(o, Slot) else SymBool(z3.BoolVal(False))

    __hash__ = sym.Sym.__hash__


def valid(e):
    """provable here"""
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(cur().facts())
    s.add(z3.Not(e))
    return s.check() == z3.unsat


class Log(sym.Sym):
    """a list the transaction keeps: concrete entries and parts known by length and by the states undoing them connects"""
    __slots__ = ('items', 'undo')

    def __init__(self, undo):
        self.items = []
        self.undo = undo

    def part(self, pre, post):
        n = fresh('loglen', I)
        assume(n >= 0)
        self.items.append(Part(n, pre, post))

    def append(self, x):
        self.items.append(x)

    def extend(self, xs):
        s = runtime.sym_iter(xs)
        if s is not None:
            n = z3.simplify(s.n)
            if s.filt is not None or not z3.is_int_value(n):
                raise sym.Unsupported('log extended by a sequence of unknown length')
            xs = [s.at(z3.IntVal(i)) for i in range(n.as_long())]
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        raise sym.Unsupported('a copy of a log')

    __radd__ = __mul__ = __rmul__ = __add__

    def length(self):
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [x.n if isinstance(x, Part) else z3.IntVal(1) for x in self.items]))

    def __vc_len__(self):
        return SymInt(self.length())

    def _top(self):
        """undo the parts on top; is there an entry left?"""
        while self.items and isinstance(self.items[-1], Part):
            self.items.pop().undone()
        return bool(self.items)

    def __bool__(self):
        return self._top()

    def pop(self, i=-1):
        if i not in (-1,) or not self._top():
            raise sym.Unsupported('pop')
        return self.items.pop()

    def clear(self):
        self.items.clear()

    def __vc_reversed__(self):
        for x in reversed(list(self.items)):
            if isinstance(x, Part):
                x.undone()
            else:
                yield x

    __reversed__ = __vc_reversed__

    def __iter__(self):
        raise sym.Unsupported('iteration over a log of a transaction')


class Part:
    def __init__(self, n, pre, post):
        self.n, self.pre, self.post = n, pre, post

    def undone(self):
        """induction hypothesis: undoing this part from its state after it restores the state before it"""
        if self.pre is None:
            raise sym.Unsupported('iteration over a log of a transaction')
        x = a_path(z3.Int(sym.S.fresh_name('path')))
        if not z3.is_false(z3.simplify(z3.Or(FS.K != self.post[0], FS.C != self.post[1]))):
            prove('undoing the last operations restores the tree before them', same(FS.state, self.post, x))
        FS.state = self.pre


class Bag(sym.Sym):
    """a set whose content the contract does not speak about"""
    __slots__ = ()

    def add(self, x):
        pass

    def update(self, *x):
        pass


def move(src, dst):
    if isinstance(src, AbsPath) and isinstance(dst, Slot):
        FS.fault()
        if not FS.alive or not FS.decide(FS.K[src.e] != ABSENT):
            raise FileNotFoundError('move')
        if FS.decide(PAR(src.e) == src.e):
            raise OSError('move of the root')
        FS.take_name(dst.name)
        K, C = FS.state
        FS.slots.append((dst.name, src.e, K, C))
        FS.remove_tree(src.e)
        return dst
    if isinstance(src, Slot) and isinstance(dst, AbsPath):
        FS.fault()
        if not FS.alive:
            raise FileNotFoundError('move: the temporary directory is gone')
        ks = [k for k, s in enumerate(FS.slots) if s is not None]
        for i in [k for k in ks if FS.slots[k][0].eq(src.name)] or ks[::-1]:
            s = FS.slots[i]
            if s[0].eq(src.name) or FS.decide(s[0] == src.name):
                break
        else:
            raise FileNotFoundError('move')
        FS.slots[i] = None
        _, o, K, C = s
        if not FS.decide(FS.K[PAR(dst.e)] == DIR):
            raise FileNotFoundError('move')
        if not FS.decide(FS.K[dst.e] == ABSENT) or not FS.decide(o == dst.e):
            FS.unknown()
        else:
            FS.subtree(dst.e, (lambda x: K[x], lambda x: C[x]), 'back')
        return dst
    if isinstance(src, AbsPath) and isinstance(dst, AbsPath):
        FS.fault()
        FS.unknown()
        return dst
    raise sym.Unsupported('move')


def copy(src, dst, *a, **k):
    if not (isinstance(src, AbsPath) and isinstance(dst, AbsPath)):
        raise sym.Unsupported('copy')
    FS.fault()
    if not FS.decide(FS.K[src.e] == FILE):
        raise FileNotFoundError('copy')
    if FS.decide(FS.K[dst.e] == DIR):
        FS.unknown()
        return dst
    if not FS.decide(FS.K[PAR(dst.e)] == DIR):
        raise FileNotFoundError('copy')
    if FS.faults and cur().nondet():
        FS.put(dst.e, FILE, fresh('partial', I))
        raise Injected('copied in part')
    FS.put(dst.e, FILE, FS.C[src.e])
    return dst


def rmtree(p, ignore_errors=False, **k):
    if isinstance(p, TempDir):
        FS.alive = False
        return
    if not isinstance(p, AbsPath):
        raise sym.Unsupported('rmtree')
    if not FS.decide(FS.K[p.e] == DIR):
        if ignore_errors:
            return
        raise FileNotFoundError('rmtree')
    if FS.faults and cur().nondet():
        # some of it is gone
        K0, C0 = FS.state
        gone = fresh_fun('gone', I, B)
        FS.subtree(p.e, (lambda x: z3.If(gone(x), z3.IntVal(ABSENT), K0[x]), lambda x: C0[x]), 'partly')
        for a in well_formed(FS.K):
            assume(a)
        if ignore_errors:
            return
        raise Injected('removed in part')
    FS.remove_tree(p.e)
    FS.directory_removed(p.e, False)


# -- sets of paths and loops over the state --------------------------------------------------------------------------------

class PathSet(sym.Sym):
    """a mutable set of paths"""
    __slots__ = ('mem',)

    def __init__(self, it=None):
        self.mem = lambda x: z3.BoolVal(False)
        if it is not None:
            self.update(it)

    def add(self, p):
        m, e = self.mem, _pe(p)
        self.mem = lambda x: z3.Or(m(x), x == e)

    def discard(self, p):
        m, e = self.mem, _pe(p)
        self.mem = lambda x: z3.And(m(x), x != e)

    def remove(self, p):
        if not FS.decide(self.mem(_pe(p))):
            raise KeyError('remove')
        self.discard(p)

    def update(self, it):
        it = runtime.unopt(it)
        if isinstance(it, PathSet):
            m, o = self.mem, it.mem
            self.mem = lambda x: z3.Or(m(x), o(x))
            return
        s = runtime.sym_iter(it)
        if s is None:
            for p in it:
                self.add(p)
            return
        s = s.dense()
        m = self.mem
        j = z3.Int('j!ps')
        k = s.n

        def mem(x):
            return z3.Or(m(x), z3.Exists([j], z3.And(0 <= j, j < k, _pe(s.at(j)) == x)))
        self.mem = mem

    def some(self):
        x = z3.Int('x!ps')
        if sym.S.bounded is not None:
            return z3.Or([self.mem(z3.IntVal(i)) for i in range(WORLD)])
        return z3.Exists([x], self.mem(x))

    def pop(self):
        if not FS.decide(self.some()):
            raise KeyError('pop from an empty set')
        x = a_path(fresh('popped', I))
        assume(self.mem(x))
        p = AbsPath(x)
        self.discard(p)
        return p

    def clear(self):
        self.mem = lambda x: z3.BoolVal(False)

    def copy(self):
        r = PathSet()
        r.mem = self.mem
        return r

    def __bool__(self):
        return FS.decide(self.some())

    def __vc_in__(self, p):
        return SymBool(self.mem(_pe(p))) if isinstance(runtime.unopt(p), AbsPath) else SymBool(z3.BoolVal(False))

    def __contains__(self, p):
        return bool(self.__vc_in__(p))


def _pe(p):
    p = runtime.unopt(p)
    if not isinstance(p, AbsPath):
        raise sym.Unsupported('something else than a path in a set of paths')
    return p.e


class StateLoop:
    """loops over the file system and sets of paths: of the candidate invariants those that hold at the start and are kept by the
    body are assumed.  candidates(sets, i, s) yields (key, formula); s and i: the sequence of a for loop and the next position"""

    def __init__(self, candidates):
        self.candidates = candidates

    def loop(self, site, cond, s, body, get, set_, mods):
        import os
        env0 = get()
        sets = {n: o for n, o in env0.items() if isinstance(o, PathSet)}
        d = s.dense() if s is not None else None
        st0, mem0 = FS.state, {n: o.mem for n, o in sets.items()}
        gh0 = {g: getattr(FS, g) for g in FS.ghosts}

        def holds(f, key=None):
            import time
            t = time.time()
            r = sym.check_valid(cur().facts(), f, 4000)[0] == 'discharged'
            if os.environ.get('PYVC_DEBUG'):
                print('   ', r, round(time.time() - t, 2), key, flush=True)
            return r

        cand = set()

        def enter():
            FS.state = FS.any('loop')
            for g in FS.ghosts:
                setattr(FS, g, (lambda m: lambda x: m(x))(fresh_fun(g, I, B)))
            for o in sets.values():
                m = fresh_fun('member', I, B)
                o.mem = lambda x, m=m: m(x)
            set_({m: runtime.Poison(env0, m) for m in mods if m not in sets})
            i = None
            if d is not None:
                i = fresh('it', I)
                assume(z3.And(i >= 0, i <= d.n))
            for k, f in self.candidates(sets, i, d):
                if k in cand:
                    assume(f)
            return i

        def leave():
            FS.state = st0
            for g in FS.ghosts:
                setattr(FS, g, gh0[g])
            for n, o in sets.items():
                o.mem = mem0[n]
            set_({m: env0[m] for m in mods if m in env0})

        def analyse():
            nonlocal cand
            cand = {k for k, f in self.candidates(sets, z3.IntVal(0), d) if holds(f, k)}
            while True:
                bad, exits = set(), []

                def run():
                    i = enter()
                    if d is not None:
                        assume(i < d.n)
                    elif not cond():
                        return
                    r = body(d.at(i)) if d is not None else body()
                    if r is not runtime.CONT:
                        exits.append(1)
                        return
                    if cur().effects and any(e[0] != 'dget' for e in cur().effects):
                        raise sym.Unsupported(f'{site}: effect on an object outside the loop')
                    for k, f in self.candidates(sets, i + 1 if i is not None else None, d):
                        if k in cand - bad and not holds(f, k):
                            bad.add(k)

                try:
                    paths = sym.explore(run, parent=cur())
                finally:
                    leave()
                exits += [p for p in paths if p.kind == 'exc']
                if os.environ.get('PYVC_DEBUG'):
                    print('state loop', site, 'kept', sorted(map(str, cand - bad)), 'dropped', sorted(map(str, bad)), flush=True)
                if not bad:
                    return cand, bool(exits)
                cand -= bad

        cand, exits = sym.remembered(('loop', site), analyse)
        i = enter()
        cur().weaken(site)
        if d is not None:
            if not exits:
                assume(i == d.n)
                return runtime.DONE
            done = FS.decide(i == d.n)
        else:
            done = not cond()
        if done:
            return runtime.DONE
        r = body(d.at(i)) if d is not None else body()
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def while_(self, site, cond, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        return self.loop(site, cond, None, body, get, set_, mods)

    def for_(self, site, s, body, get, set_, mods):
        return self.loop(site, None, s, body, get, set_, mods)

    def __enter__(self):
        self.saved = list(runtime.while_rules), list(runtime.for_rules)
        runtime.while_rules.insert(0, self.while_)
        runtime.for_rules.insert(0, self.for_)

    def __exit__(self, *a):
        runtime.while_rules[:], runtime.for_rules[:] = self.saved
