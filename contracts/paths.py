"""absolute normalised paths as sequences of components, and the texts pathlib makes of them"""
import pathlib

import z3

from pyvc import sym, runtime, rules
from pyvc.sym import SymBool, SymInt, SymSeq, SymStr, assume, cur, fresh, fresh_fun, exists_at

I, R, B = sym.I, sym.R, sym.B


class Ancestors(SymSeq):
    """path.parents: nearest first; exactly the proper ancestors"""
    __slots__ = ('path',)

    def __init__(self, path):
        super().__init__(path.n, lambda i: path.prefix(z3.simplify(path.n - 1 - i)), 'tuple')
        self.path = path

    def __vc_in__(self, x):
        if not isinstance(x, AbsPath):
            return SymBool(z3.BoolVal(False))
        return SymBool(z3.And(x.n < self.path.n, x.is_prefix_of(self.path)))

    def __contains__(self, x):
        return bool(self.__vc_in__(x))


class AbsPath(sym.Sym):
    """components f(0..n-1); `ups` leading '..' steps (0 for absolute paths)"""
    __slots__ = ('f', 'n', 'ups', 'abs')

    def __init__(self, f, n, ups=0, absolute=True):
        self.f, self.n = f, n
        self.ups, self.abs = z3.IntVal(ups) if isinstance(ups, int) else ups, absolute

    @classmethod
    def any(cls, name):
        n = z3.Int(name + '.depth')
        f = z3.Function(name + '.component', I, R)
        assume(n >= 0)
        p = cls(f, n)
        sym.register_input(name, p, cls.conc)
        return p

    @staticmethod
    def conc(p, m):
        n = min(m.eval(p.n, model_completion=True).as_long(), 8)
        return [str(m.eval(p.f(z3.IntVal(i)), model_completion=True)) for i in range(n)]

    # ---- pathlib's pure operations
    def absolute(self):
        if not self.abs:
            raise sym.Unsupported('absolute() of a relative path')
        return self

    def is_absolute(self):
        return self.abs

    resolve = None

    def prefix(self, n):
        return AbsPath(self.f, n, self.ups, self.abs)

    @property
    def parent(self):
        return self.prefix(z3.simplify(z3.If(self.n > 0, self.n - 1, z3.IntVal(0))))

    @property
    def parents(self):
        return Ancestors(self)

    @property
    def parts(self):
        root = str(pathlib.Path('/'))
        s = SymSeq(self.n + 1, lambda i: SymStr(z3.If(i == 0, sym.str_lit(root), self.f(i - 1))), 'tuple')
        return s

    @property
    def name(self):
        return SymStr(z3.If(self.n > 0, self.f(self.n - 1), sym.str_lit('')))

    def eq(self, o):
        if not isinstance(o, AbsPath):
            return z3.BoolVal(False)
        if self.f is o.f:
            return self.n == o.n
        j = z3.Int(sym.S.fresh_name('jp'))
        return z3.And(self.n == o.n, self.ups == o.ups, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.f(j) == o.f(j))))

    def is_prefix_of(self, o):
        if self.f is o.f:
            return self.n <= o.n
        j = z3.Int(sym.S.fresh_name('jp'))
        return z3.And(self.n <= o.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.f(j) == o.f(j))))

    def __vc_eq__(self, o):
        return SymBool(self.eq(o))

    def __eq__(self, o):
        return SymBool(self.eq(o))

    def __ne__(self, o):
        return SymBool(z3.Not(self.eq(o)))

    __hash__ = sym.Sym.__hash__

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(x, type) and issubclass(pathlib.PosixPath, x) for x in ts)

    def __bool__(self):
        return True

    def is_relative_to(self, o):
        return SymBool(o.is_prefix_of(self))

    def relative_to(self, o):
        if not cur().decide(o.is_prefix_of(self)):
            raise ValueError('not in the subpath')
        k = o.n
        f = self.f
        return AbsPath(lambda i: f(k + i), z3.simplify(self.n - k), 0, False)

    def __vc_str__(self):
        return PathText([('path', self)])

    def as_posix(self):
        return PathText([('path', self)])


class PathText(sym.Sym):
    """the text of a path put together from pieces"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        if isinstance(o, PathText):
            return PathText(self.parts + o.parts)
        if isinstance(o, str) and set(o) <= {'.', '/'}:
            return PathText(self.parts + [('lit', o)]) if o else self
        raise sym.Unsupported('path text')

    def __radd__(self, o):
        if isinstance(o, str):
            return PathText([('lit', o)] + self.parts) if o else self
        raise sym.Unsupported('path text')

    def __vc_str__(self):
        return self

    def __bool__(self):
        return True


def repeat(s, n):
    if s in ('../', '..', '/..'):
        return PathText([('rep', s, n.e)])
    raise sym.Unsupported('repetition of a string')


def make_path(*args):
    """pathlib.Path(...) of texts and paths: '..' steps then components"""
    ups, tail = z3.IntVal(0), None
    for a in args:
        a = runtime.unopt(a)
        if isinstance(a, AbsPath):
            a = PathText([('path', a)])
        if isinstance(a, str):
            if set(a.split('/')) <= {'.', '..', ''} and not a.startswith('/'):
                a = PathText([('lit', a)])
            else:
                raise sym.Unsupported('literal path')
        for k, part in enumerate(a.parts):
            if part[0] == 'lit':
                if part[1] not in ('', '.', '/', './'):
                    c = part[1].split('/')
                    if set(c) <= {'..', '', '.'} and tail is None and not part[1].startswith('/'):
                        ups = ups + c.count('..')
                        continue
                    raise sym.Unsupported('literal path')
            elif part[0] == 'rep':
                if tail is not None:
                    raise sym.Unsupported('steps up after components')
                if part[1] == '..' and not (k + 1 == len(a.parts)):
                    raise sym.Unsupported('unseparated steps')
                n = part[2]
                ups = ups + z3.If(n > 0, n, z3.IntVal(0))
            else:
                p = part[1]
                if tail is not None or p.abs:
                    raise sym.Unsupported('joined absolute path')
                tail = p
                ups = ups + p.ups
    if tail is None:
        return AbsPath(lambda i: z3.RealVal(0), z3.IntVal(0), z3.simplify(ups), False)
    return AbsPath(tail.f, tail.n, z3.simplify(ups), False)


class MemberSet(sym.Sym):
    """a set given by the sequence of its members: only membership is asked"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def __vc_in__(self, x):
        return exists_at(self.seq, lambda y: SymBool(sym.eqf(y, x)))

    def __contains__(self, x):
        return bool(self.__vc_in__(x))

    def __bool__(self):
        return bool(self.seq)


class PathShape(rules.Shape):
    """an ancestor of the path a variable held before the loop"""

    def __init__(self, p0):
        self.p0 = p0

    def fresh(self):
        n = fresh('depth', I)
        assume(z3.And(n >= 0, n <= self.p0.n))
        return self.p0.prefix(n), n

    def match(self, v):
        return v.n if isinstance(v, AbsPath) and v.f is self.p0.f else None

    def measure(self, n):
        return n

    def atoms(self, n):
        return [('all', n == self.p0.n), ('pos', n >= 1)]


rules.extra_shapes.append(lambda v, env: PathShape(v) if isinstance(v, AbsPath) else None)
