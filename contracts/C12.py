"""C12: compatibility scores of compressed tags, and the artifact chosen"""
from contracts.common import *
from pyvc.vc import goal
from pyvc import sym as psym, rules, runtime
from pyvc.sym import cur, SymOpt
import pkm.api.environments.environment_introspection as EI
import pkm.api.packages.standard_package as SP

ASSUMPTIONS = ['in the goals about compressed tags and artifacts, scores are elements of any total order and the score of a single triple is an '
               'uninterpreted partial function',
               'the goals about single triples (X_on_SYSTEM) prove, for the listed systems, when a triple has a score, for every form of tag part with '
               'any numbers in it (written without leading zeros), every interpreter version and every glibc or musl version; interpreter, abi and '
               'platform forms are combined as two of the interpreters with all platforms and two or three platforms with all interpreters or abis; how '
               'two scores compare is left to the generated cases',
               'the abis of an interpreter other than CPython, the glibc and musl versions and the ELF header of the interpreter enter as their contracts; the regular '
               'expression of platform tags is matched on structured text by its meaning',
               'a python requirement answers allows_version or raises ValueError (an unreadable requirement never fits)']


class AbsScore(psym.Sym):
    """an element of a totally ordered set"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _c(self, o, f):
        o = runtime.unopt(o)
        if not isinstance(o, AbsScore):
            raise TypeError('order of a score and something else')
        return SymBool(f(self.e, o.e))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return SymBool(self.e == o.e) if isinstance(o, AbsScore) else False

    def __ne__(self, o):
        return SymBool(self.e != o.e) if isinstance(o, AbsScore) else True

    __hash__ = psym.Sym.__hash__

    def __bool__(self):
        return True  # a score is a non-empty tuple

    def __vc_any__(self):
        return AbsScore(fresh('score', R))


def some(v, cls):
    """(is None, value) of a variable that holds None or a cls"""
    if v is None:
        return z3.BoolVal(True), None
    if isinstance(v, SymOpt):
        return (v.none, v.val) if isinstance(v.val, cls) else None
    return (z3.BoolVal(False), v) if isinstance(v, cls) else None


# ------------------------------------------------------------------------------------------------ compressed tags

class Part:
    def __init__(self, fam):
        self.fam, self.n = fam, z3.Int('alternatives.' + fam)
        assume(self.n >= 1)

    def split(self, sep):
        prove('alternatives are separated by dots', sep == '.')
        v = psym.VList()
        v.sym = SymSeq(self.n, lambda i: Alt(self.fam, i), 'list')
        return v


class Alt(psym.Sym):
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i


class Tag:
    def __init__(self):
        self.parts = [Part(f) for f in 'iap']

    def split(self, sep):
        prove('parts are separated by dashes', sep == '-')
        return list(self.parts)


class Triples:
    def __init__(self, tag):
        self.tag = tag
        self.no, self.sc = z3.Function('unsupported', I, I, I, B), z3.Function('score', I, I, I, R)
        register_input('tag', self, Triples.conc)

    def __call__(self, i, a, p):
        prove('the scorer is asked about an interpreter, an abi and a platform, in this order',
              [x.fam for x in (i, a, p)] == list('iap'))
        return SymOpt(self.no(i.i, a.i, p.i), AbsScore(self.sc(i.i, a.i, p.i)))

    @staticmethod
    def conc(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        ns = [min(ev(p.n).as_long(), 3) for p in self.tag.parts]
        return [[[None if z3.is_true(ev(self.no(i, a, p))) else str(ev(self.sc(i, a, p))) for p in range(ns[2])]
                 for a in range(ns[1])] for i in range(ns[0])]


TAG = []


def max_so_far(vals, at, s, entry):
    """the best score of the triples seen so far, at every nesting level"""
    if not TAG:
        return
    t, tag = TAG[-1]
    e = s.at(z3.IntVal(0))
    if not isinstance(e, Alt):
        return
    fixed = {v.fam: v.i for v in vals.values() if isinstance(v, Alt) and v.fam != e.fam}
    q = [z3.Int(f'{f}!q') for f in 'iap']
    ix = [fixed.get(f, q[k]) for k, f in enumerate('iap')]
    vs = [q[k] for k, f in enumerate('iap') if f not in fixed]
    rng = [z3.And(0 <= q[k], q[k] < (at if f == e.fam else tag.parts[k].n)) for k, f in enumerate('iap') if f not in fixed]
    allr = [z3.And(0 <= q[k], q[k] < tag.parts[k].n) for k in range(3)]
    for n, v in vals.items():
        if n not in entry:
            continue
        x, x0 = some(v, AbsScore), some(entry[n], AbsScore)
        if x is None or x0 is None:
            continue
        ge = lambda none, val: z3.Or(none, z3.And(z3.Not(x[0]), val <= x[1].e)) if x[1] is not None else none
        yield (n, 'upper', e.fam, tuple(sorted(fixed))), z3.ForAll(vs, z3.Implies(z3.And(rng), ge(t.no(*ix), t.sc(*ix))))
        yield (n, 'grows'), ge(x0[0], x0[1].e if x0[1] is not None else z3.RealVal(0))
        yield (n, 'attained'), (z3.Or(x[0], z3.Exists(q, z3.And(*allr, z3.Not(t.no(*q)), t.sc(*q) == x[1].e)))
                                if x[1] is not None else z3.BoolVal(True))


@goal('C12', functions=['pkm.api.environments.environment_introspection:EnvironmentIntrospection.compatibility_score'])
def best_score_of_a_compressed_tag():
    tag = Tag()
    t = Triples(tag)
    del TAG[:]
    del rules.annotations[:]
    TAG.append((t, tag))
    rules.annotations.append(max_so_far)

    class Intro(EI.EnvironmentIntrospection):
        def __init__(self):
            pass

        _compatibility_tag_scorer = staticmethod(t)

    r = Intro().compatibility_score(tag)
    x = some(r, AbsScore)
    prove('no score or a score', x is not None)
    q = [z3.Int(f'{f}!r') for f in 'iap']
    rng = z3.And([z3.And(0 <= q[k], q[k] < tag.parts[k].n) for k in range(3)])
    has = z3.Exists(q, z3.And(rng, z3.Not(t.no(*q))))
    prove('a score iff some triple is supported', z3.Not(x[0]) == has)
    if x[1] is not None:
        prove('no triple scores more', z3.Implies(z3.Not(x[0]), z3.ForAll(q, z3.Implies(z3.And(rng, z3.Not(t.no(*q))), t.sc(*q) <= x[1].e))))
        prove('the score of some triple', z3.Implies(z3.Not(x[0]), z3.Exists(q, z3.And(rng, z3.Not(t.no(*q)), t.sc(*q) == x[1].e))))
    cover('scored')


# ------------------------------------------------------------------------------------------------- a single triple

DIGITS = z3.Function('decimal digits of', I, I)


class Tx(psym.Sym):
    """a text of known shape: literals, single digits and decimal numbers (without leading zeros) of any value"""
    __slots__ = ('parts',)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if p == '' and isinstance(p, str):
                continue
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.parts = tuple(out)

    def _p(self):
        if self.parts == (None,):
            raise psym.Unsupported('a cut through a number')
        return self.parts

    def matches(self, s, prefix=False):
        """formula: the text is (starts with) the literal s"""
        def go(ps, s):
            if not ps:
                return z3.BoolVal(s == '')
            if prefix and s == '':
                return z3.BoolVal(True)
            p, rest = ps[0], ps[1:]
            if isinstance(p, str):
                n = min(len(p), len(s))
                if p[:n] != s[:n]:
                    return z3.BoolVal(False)
                if len(p) <= len(s):
                    return go(rest, s[len(p):])
                return z3.BoolVal(prefix)
            kind, e = p
            k = 0
            while k < len(s) and s[k].isascii() and s[k].isdigit():
                k += 1
            if prefix and kind == 'num' and k == len(s) and k:
                raise psym.Unsupported('first digits of a number')
            ends = range(1, k + 1) if kind == 'num' else range(1, min(k, 1) + 1)
            return z3.Or([z3.BoolVal(False)] + [z3.And(e == int(s[:j]), go(rest, s[j:])) for j in ends if j == 1 or s[0] != '0'])
        return go(self._p(), s)

    def __vc_eq__(self, o):
        o = runtime.unopt(o)
        if isinstance(o, str):
            return SymBool(z3.simplify(self.matches(o)))
        if o is self:
            return True
        if isinstance(o, psym.Sym):
            raise psym.Unsupported('equality of two texts')
        return False

    __eq__ = __vc_eq__

    def __ne__(self, o):
        r = self.__vc_eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    __hash__ = psym.Sym.__hash__

    def __bool__(self):
        return bool(self._p())

    def __vc_str__(self):
        return self

    def __vc_isinstance__(self, t):
        return str in (t if isinstance(t, tuple) else (t,))

    def startswith(self, s):
        if isinstance(s, tuple):
            return SymBool(z3.simplify(z3.Or([self.matches(x, True) for x in s])))
        return SymBool(z3.simplify(self.matches(s, True)))

    def endswith(self, s):
        ps = list(self._p())
        while s:
            if not ps:
                return False
            p = ps.pop()
            if not isinstance(p, str):
                if s[-1].isascii() and s[-1].isdigit():
                    raise psym.Unsupported('last digits of a number')
                return False
            n = min(len(p), len(s))
            if p[-n:] != s[-n:]:
                return False
            s = s[:-n]
        return True

    def __getitem__(self, k):
        if isinstance(k, int):
            return self[k:k + 1] if k >= 0 else self[k:k + 1 or None]
        if not isinstance(k, slice) or k.step is not None or any(not isinstance(x, (int, type(None))) for x in (k.start, k.stop)):
            raise psym.Unsupported('slice of a text')
        ps = self._p()

        def drop(ps, n, left):
            ps = list(ps)
            while n and ps:
                p = ps.pop(0 if left else -1)
                if isinstance(p, str):
                    m = min(n, len(p))
                    n -= m
                    p = p[m:] if left else p[:-m]
                    if p:
                        ps.insert(0, p) if left else ps.append(p)
                elif p[0] == 'dig':
                    n -= 1
                else:
                    return [None]
            return ps
        a, b = k.start or 0, k.stop
        if a >= 0 and b is None:
            return Tx(*drop(ps, a, True))
        if a >= 0 and b is not None and b < 0:
            r = drop(ps, -b, False)
            return Tx(*(drop(r, a, True) if r != [None] else r))
        if a >= 0 and b is not None and b >= a:
            r, out, n = drop(ps, a, True), [], b - a
            while n and r and r != [None]:
                p = r.pop(0)
                if isinstance(p, str):
                    out.append(p[:n])
                    n -= len(p[:n])
                elif p[0] == 'dig':
                    out.append(p)
                    n -= 1
                else:
                    return Tx(None)
            return Tx(None) if r == [None] else Tx(*out)
        if a < 0 and b is None:
            n, out = -a, []
            for p in reversed(ps):
                if n == 0:
                    break
                if isinstance(p, str):
                    out.insert(0, p[-n:])
                    n -= len(p[-n:])
                elif p[0] == 'dig':
                    out.insert(0, p)
                    n -= 1
                else:
                    return Tx(None)
            return Tx(*out)
        raise psym.Unsupported('slice of a text')

    def __vc_len__(self):
        n, es = 0, []
        for p in self._p():
            if isinstance(p, str):
                n += len(p)
            elif p[0] == 'dig':
                n += 1
            else:
                d = DIGITS(p[1])
                assume(z3.And(d >= 1, (d == 1) == (p[1] < 10), (d == 2) == z3.And(p[1] >= 10, p[1] < 100)))
                es.append(d)
        return SymInt(z3.Sum([z3.IntVal(n)] + es)) if es else n

    def __len__(self):
        n = self.__vc_len__()
        return n if isinstance(n, int) else n.__index__()

    def __vc_in__(self, x):
        if not isinstance(x, str) or any(c.isdigit() for c in x):
            raise psym.Unsupported('search in a text')
        return any(isinstance(p, str) and x in p for p in self._p())

    def __contains__(self, x):
        return self.__vc_in__(x)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or not sep or any(c.isdigit() for c in sep):
            raise psym.Unsupported('split of a text')
        out, cur_ = [], []
        for p in self._p():
            if not isinstance(p, str):
                cur_.append(p)
                continue
            while sep in p and maxsplit != len(out):
                h, p = p.split(sep, 1)
                out.append(Tx(*cur_, h))
                cur_ = []
            cur_.append(p)
        out.append(Tx(*cur_))
        return out

    def __vc_int__(self):
        ps = self._p()
        if len(ps) == 1 and not isinstance(ps[0], str):
            return SymInt(ps[0][1])
        if all(isinstance(p, str) for p in ps):
            return int(''.join(ps))
        if any(isinstance(p, str) and not p.isdigit() for p in ps):
            raise ValueError('invalid literal for int()')
        if len(ps) == 2 and not isinstance(ps[0], str) and ps[1][0] == 'dig':
            return SymInt(ps[0][1] * 10 + ps[1][1])
        raise psym.Unsupported('a number from pieces')

    def isdigit(self):
        return bool(self._p()) and all(not isinstance(p, str) or p.isdigit() for p in self._p())

    isnumeric = isdecimal = isdigit

    def text(self, m):
        ev = lambda e: m.eval(e, model_completion=True).as_long()
        return ''.join(p if isinstance(p, str) else str(ev(p[1])) for p in self.parts)


def tx_re(o, name, a, k):
    if not a or not isinstance(runtime.unopt(a[0]), Tx):
        return NotImplemented
    t = runtime.unopt(a[0])
    if o.pattern != '[\\d_]+' or o.flags & ~32 or name not in ('fullmatch', 'match') or len(a) > 1 or k:
        raise psym.Unsupported('a pattern on a text')
    ok = [not isinstance(p, str) or all(c.isdigit() or c == '_' for c in p) for p in t._p()]
    if name == 'match':
        p = t._p()
        return bool(p) and (not isinstance(p[0], str) or p[0][0].isdigit() or p[0][0] == '_') or None
    return bool(ok) and all(ok) or None


class AbsAbi(psym.Sym):
    """the name of an abi, known only by which name it is"""
    __slots__ = ('e',)
    NAMES = {'none': 0, 'abi3': 1}

    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e

    def __vc_eq__(self, o):
        o = runtime.unopt(o)
        if isinstance(o, AbsAbi):
            return SymBool(self.e == o.e)
        if isinstance(o, str):
            return SymBool(self.e == AbsAbi.NAMES.setdefault(o, 10 + len(AbsAbi.NAMES)))
        return False

    __eq__ = __vc_eq__

    def __ne__(self, o):
        r = self.__vc_eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    __hash__ = psym.Sym.__hash__

    def __vc_isinstance__(self, t):
        return str in (t if isinstance(t, tuple) else (t,))


def pick(name, n):
    """one of 0..n-1, a path each"""
    k = z3.Int(name)
    assume(z3.And(0 <= k, k < n))
    for i in range(n - 1):
        if cur().decide(k == i):
            return i
    return n - 1


def num(name):
    e = z3.Int(name)
    assume(e >= 0)
    return ('num', e)


def dig(name):
    e = z3.Int(name)
    assume(z3.And(0 <= e, e <= 9))
    return ('dig', e)


class Interpreter:
    """an environment: its implementation, version (any), abis, system, architecture and C libraries (any versions)"""
    ARCHS = ['x86_64', 'aarch64', 'i686', 'ppc64le']

    def __init__(self, impl, system, arch, bits32=False, libc=True, abis=True):
        self.impl, self.system, self.arch, self.bits32 = impl, system, arch, bits32
        self.a, self.b = z3.Int('py.major'), z3.Int('py.minor')
        assume(z3.And(2 <= self.a, self.a <= 9, self.b >= 0))
        self.two = sym_bool('second abi')
        if not abis:
            assume(z3.Not(self.two.e))
        self.plat = {'Linux': 'linux_' + arch, 'Windows': arch.replace('-', '_')}[system]
        self.own = self.plat
        if bits32 and self.plat == 'linux_x86_64':
            self.own = 'linux_i686'
        if bits32 and self.plat == 'linux_aarch64':
            self.own = 'linux_armv7l'
        self.has_libc = libc and system == 'Linux'
        self.glibc_none, self.g = z3.Bool('glibc.none'), (z3.Int('glibc.major'), z3.Int('glibc.minor'))
        self.musl_none, self.m = z3.Bool('musl.none'), (z3.Int('musl.major'), z3.Int('musl.minor'))
        assume(z3.And([x >= 0 for x in self.g + self.m]))
        self.abis = [AbsAbi(2)] + ([AbsAbi(3)] if self.impl == 'cpython' and self.two else [])

    def introspection(self):
        me = self

        class Elf:
            def have_compatible_abi(self, arch):
                prove('the interpreter is examined for its own architecture', arch == me.own[len('linux_'):])
                return me.has_libc

            def compute_musl_version(self):
                return None if cur().decide(me.musl_none) else tuple(map(SymInt, me.m))

        class Intro(EI.EnvironmentIntrospection):
            def __init__(self):
                super().__init__({
                    'sysconfig': {'platform': 'linux-' + me.arch if me.system == 'Linux' else me.arch, 'vars': {}},
                    'sys': {'implementation': {'name': me.impl}, 'version_info': [SymInt(me.a), SymInt(me.b), 4, 'final', 0],
                            'maxsize': 2 ** 31 - 1 if me.bits32 else 2 ** 63 - 1, 'executable': '/nonexistent'},
                    'platform': {'system': me.system, 'mac_ver': ['', ['', '', ''], '']}, 'os': {'conf': {}}})

            def _compute_cpython_abis(self, v):
                prove('the abis are those of the interpreter version', z3.And(form(v[0] == SymInt(me.a)), form(v[1] == SymInt(me.b))))
                return list(me.abis)

            def _compute_generic_abis(self):
                return iter(list(me.abis))

            @property
            def _glibc_version(self):
                import types
                return None if cur().decide(me.glibc_none) else types.SimpleNamespace(release=tuple(map(SymInt, me.g)))
        EI._ElfData.read = classmethod(lambda cls, f: Elf())
        return Intro()

    short = property(lambda self: {'cpython': 'cp', 'pypy': 'pp'}[self.impl])

    # the rules, as the specification of the tags has them
    def ipt_ok(self, name, major, minor):
        if name not in ('py', self.short) or major is None:
            return z3.BoolVal(False)
        return z3.And(major == self.a, minor <= self.b if minor is not None else True)

    def abi_ok(self, code):
        names = [code == 0] + [code == int(str(x.e)) for x in self.abis]
        if self.impl == 'cpython':
            names.append(z3.And(code == 1, z3.Or(self.a > 3, z3.And(self.a == 3, self.b >= 2))))
        return z3.Or(names)

    def plt_ok(self, kind, arch, v):
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if kind == 'any':
            return T
        if kind == 'own' or kind == 'literal':
            return z3.BoolVal(kind == 'own')
        if self.system != 'Linux' or arch != self.own[len('linux_'):] or not self.has_libc or v is None or len(v) != 2:
            return F
        le = lambda x, y: z3.Or(x[0] < y[0], z3.And(x[0] == y[0], x[1] <= y[1]))
        if kind == 'manylinux':
            return z3.And(z3.Not(self.glibc_none), le(v, self.g))
        return z3.And(z3.Not(self.musl_none), v[0] == self.m[0], v[1] <= self.m[1])


LEGACY = {'manylinux1': (2, 5), 'manylinux2010': (2, 12), 'manylinux2014': (2, 17)}


def interpreters(it):
    """(text, name, major, minor) of the forms of an interpreter part"""
    M, m, k, d = num('tag.major'), num('tag.minor'), num('tag.micro'), dig('tag.digit')
    out = []
    for n in ('py', it.short, 'jy'):
        out += [(Tx(n, d), n, d[1], None), (Tx(n, d, m), n, d[1], m[1]), (Tx(n, M, '_', m), n, M[1], m[1]),
                (Tx(n, d, m, 'x'), n, None, None)]
    return out + [(Tx(it.short, M, '_', m, '_', k), it.short, M[1], m[1]), (Tx(it.short), it.short, None, None), (Tx(it.short, 't', d), it.short, None, None),
                  (Tx('none'), 'none', None, None)]


def platforms(it):
    """(text, kind, architecture, version) of the forms of a platform part"""
    v1, v2, v3 = num('tag.libc.major'), num('tag.libc.minor'), num('tag.libc.micro')
    out = [(Tx('any'), 'any', None, None), (Tx(it.plat), 'own', None, None), (Tx(it.own), 'own', None, None), (Tx('macosx_10_9_x86_64'), 'literal', None, None),
           (Tx('win32' if it.plat != 'win32' else 'win_arm64'), 'literal', None, None)]
    own = it.own[len('linux_'):] if it.system == 'Linux' else 'x86_64'
    for a in (own, 'aarch64' if own != 'aarch64' else 'x86_64', own[1:]):
        if a != own and 'linux_' + a != it.plat:
            out.append((Tx('linux_' + a), 'literal', None, None))
        for n, v in LEGACY.items():
            out.append((Tx(f'{n}_{a}'), 'manylinux', a, tuple(map(z3.IntVal, v))))
        for n in ('manylinux', 'musllinux'):
            out.append((Tx(n + '_', v1, '_', v2, '_' + a), n, a, (v1[1], v2[1])))
            out.append((Tx(n + '_', v1, '_' + a), n, a, None))
    return out


class Triple:
    def __init__(self, it, ipt, abi, plt):
        self.it, self.ipt, self.abi, self.plt = it, ipt, abi, plt
        register_input('triple', self, Triple.conc)

    @staticmethod
    def conc(t, m):
        ev = lambda e: m.eval(e, model_completion=True)
        it = t.it
        M, n = ev(it.a).as_long(), ev(it.b).as_long()
        own = f'cp{M}{n}' + ('m' if (M, n) < (3, 8) else '') + ('u' if (M, n) < (3, 3) else '') if it.impl == 'cpython' else 'pypy39_pp73'
        abi = {0: 'none', 1: 'abi3', 2: own}.get(ev(t.abi).as_long(), 'cp11')
        e = {'py': [M, n], 'impl': it.impl, 'sys': it.system, 'arch': it.arch, 'bits': 32 if it.bits32 else 64,
             'glibc': None if z3.is_true(ev(it.glibc_none)) else [ev(x).as_long() for x in it.g],
             'musl': None if z3.is_true(ev(it.musl_none)) else [ev(x).as_long() for x in it.m]}
        return {'env': e, 'tag': f'{t.ipt.text(m)}-{abi}-{t.plt.text(m)}'}


def triple_setup():
    return patched((EI._ElfData, 'read', EI._ElfData.read), (runtime, 're_hooks', [tx_re] + runtime.re_hooks))


EIM = 'pkm.api.environments.environment_introspection'
@goal('C12', functions=[f'{EIM}:EnvironmentIntrospection._compute_cpython_abis'])
def abis_of_a_cpython():
    a, b = num('major'), num('minor')
    assume(a[1] >= 2)
    v = (SymInt(a[1]), SymInt(b[1]))
    vars_, opt = {}, {}
    for n, vals in (('Py_DEBUG', (0, 1)), ('WITH_PYMALLOC', (0, 1)), ('Py_UNICODE_SIZE', (2, 4))):
        k = pick(n, 3)
        if k < 2:
            vars_[n] = vals[k]
        opt[n] = vars_.get(n)
    refs, ext, wide = (sym_bool(x) for x in ('counts references', 'debug extensions', 'wide unicode'))
    refs, ext, wide = bool(refs), bool(ext), bool(wide)
    register_input('build', (a[1], b[1], dict(opt, refs=refs, ext=ext, wide=wide)), lambda t, m: abi_cases(
        *(m.eval(x, model_completion=True).as_long() for x in t[:2]), t[2]))
    it = EI.EnvironmentIntrospection({
        'sysconfig': {'platform': 'linux-x86_64', 'vars': vars_}, 'os': {'conf': {}},
        'sys': {'implementation': {'name': 'cpython'}, 'version_info': [*v, 4, 'final', 0], 'has_totalrefcount': refs,
                'maxunicode': 0x10FFFF if wide else 0xFFFF, 'maxsize': 2 ** 63 - 1},
        'importlib': {'machinery': {'EXTENSION_SUFFIXES': ['.so'] + (['_d.pyd'] if ext else [])}}, 'platform': {'system': 'Linux'}})
    r = it._compute_cpython_abis(v)
    before = lambda y, z: z3.Or(a[1] < y, z3.And(a[1] == y, b[1] < z))
    debug = bool(opt['Py_DEBUG']) or opt['Py_DEBUG'] is None and (refs or ext)
    m = opt['WITH_PYMALLOC'] is None or bool(opt['WITH_PYMALLOC'])
    u = opt['Py_UNICODE_SIZE'] == 4 or opt['Py_UNICODE_SIZE'] is None and wide
    old, ancient = cur().decide(before(3, 8)), cur().decide(before(3, 3))
    name = 'cp' + runtime.b_str(v[0]) + runtime.b_str(v[1])
    want = [name + ('d' if debug else '') + ('m' if old and m else '') + ('u' if ancient and u else '')]
    if debug and not old:
        want.append(name)
    prove('as many abis as the build supports', len(r) == len(want))
    for x, y in zip(r, want):
        prove('the abi is named after version and build flags', x == y)
    cover('old' if old else 'new')


SYSTEMS = [('cpython', 'Linux', 'x86_64', False, True), ('pypy', 'Linux', 'aarch64', False, True), ('cpython', 'Linux', 'x86_64', True, True),
           ('cpython', 'Linux', 'i686', True, True), ('cpython', 'Linux', 'ppc64le', False, False), ('cpython', 'Windows', 'win-amd64', False, False),
           ('cpython', 'Windows', 'win32', True, False), ('cpython', 'Linux', 'aarch64', True, True)]


def score_of(it, ip, pl, abis):
    code = z3.Int('abi')
    assume(z3.And(0 <= code, code <= 4) if abis else code == 0)
    Triple(it, ip[0], code, pl[0])
    r = it.introspection()._compatibility_tag_scorer(ip[0], AbsAbi(code), pl[0])
    got = r is not None and not (isinstance(r, SymOpt) and cur().decide(r.none))
    prove('a score iff interpreter, abi and platform are supported',
          z3.BoolVal(got) == z3.And(it.ipt_ok(*ip[1:]), it.abi_ok(code), it.plt_ok(*pl[1:])))
    cover('scored' if got else 'no score')


def scorer_goal(system):
    name = f'{system[0]}_{system[1].lower()}_{system[2].replace("-", "_")}{"_32" if system[3] else ""}'

    def add(what, run):
        def g():
            abis = what == 'abis'
            it = Interpreter(*system, abis)
            if what == 'interpreters':
                assume(it.musl_none)
            if what == 'platforms':
                assume(z3.Or(it.a > 3, z3.And(it.a == 3, it.b >= 2)))
            run(it, interpreters(it), platforms(it), abis)
        g.__name__ = f'{what}_on_{name}'
        goal('C12', functions=[f'{EIM}:EnvironmentIntrospection._compatibility_tag_scorer', f'{EIM}:_normalize_string', f'{EIM}:_abi3_applies'],
             setup=triple_setup)(g)
    some_ips, some_pls = (0, 5), (0, 1, 8)
    if system[1:] in (('Linux', 'x86_64', False, True), ('Linux', 'aarch64', False, True), ('Windows', 'win-amd64', False, False)):
        add('interpreters', lambda it, ips, pls, f: score_of(it, ips[pick('interpreter', len(ips))], pls[some_pls[pick('platform', 3)]], f))
        add('abis', lambda it, ips, pls, f: score_of(it, ips[some_ips[pick('interpreter', 2)]], pls[some_pls[pick('platform', 3)]], f))
    add('platforms', lambda it, ips, pls, f: score_of(it, ips[some_ips[pick('interpreter', 2)]], pls[pick('platform', len(pls))], f))


for _s in SYSTEMS:
    scorer_goal(_s)


# ---------------------------------------------------------------------------------------------------- artifact choice

class Artifacts:
    def __init__(self, env):
        self.env = env
        self.n = z3.Int('artifacts')
        assume(self.n >= 0)
        f = lambda a, s: z3.Function('artifact.' + a, I, s)
        self.noreq, self.bad, self.ok, self.bin, self.noscore, self.score = \
            f('no_requirement', B), f('unreadable', B), f('python_fits', B), f('wheel', B), f('tags_do_not_fit', B), f('score', R)
        register_input('artifacts', self, Artifacts.conc)

    def listed(self):
        v = psym.VList()
        v.sym = SymSeq(self.n, lambda i: AbsArtifact(self, i), 'list')
        return v

    def fits(self, j):
        return z3.And(0 <= j, j < self.n, z3.Or(self.noreq(j), z3.And(z3.Not(self.bad(j)), self.ok(j))))

    def wheel(self, j):
        return z3.And(self.fits(j), self.bin(j), z3.Not(self.noscore(j)))

    def source(self, j):
        return z3.And(self.fits(j), z3.Not(self.bin(j)))

    @staticmethod
    def conc(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        return [[str(ev(f(z3.IntVal(i)))) for f in (self.noreq, self.bad, self.ok, self.bin, self.noscore, self.score)]
                for i in range(min(ev(self.n).as_long(), 4))]


class AbsArtifact(psym.Sym):
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def __vc_any__(self):
        return AbsArtifact(self.fam, fresh('artifact', I))

    def __bool__(self):
        return True

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, AbsArtifact) else False

    __hash__ = psym.Sym.__hash__

    def __vc_is__(self, o):
        return self == o

    file_name = property(lambda self: AbsFile(self.fam, self.i))
    requires_python = property(lambda self: SymOpt(self.fam.noreq(self.i), AbsRequirement(self.fam, self.i)))

    def is_binary(self):
        return SP.PackageArtifact.is_binary(self)


class AbsFile(psym.Sym):
    __slots__ = ('fam', 'i')

    def __init__(self, fam, i):
        self.fam, self.i = fam, i

    def endswith(self, x):
        if x != '.whl':
            raise psym.Unsupported('suffix of a file name')
        return SymBool(self.fam.bin(self.i))

    def __vc_str__(self):
        return psym.sym_str('file name')


class AbsRequirement(AbsFile):
    def allows_version(self, v):
        prove('the requirement is asked about the interpreter of the environment', v is self.fam.env.interpreter_version)
        if cur().decide(self.fam.bad(self.i)):
            raise ValueError('unreadable')
        return SymBool(self.fam.ok(self.i))

    def __bool__(self):
        return True


class AbsTags:
    def __init__(self, f):
        self.f = f


class Env:
    interpreter_version = object()

    @staticmethod
    def compatibility_tag_score(tag):
        f = tag.f
        return SymOpt(f.fam.noscore(f.i), AbsScore(f.fam.score(f.i)))


ARTS = []


def chosen_so_far(vals, at, s, entry):
    if not ARTS:
        return
    A = ARTS[-1]
    if not isinstance(s.at(z3.IntVal(0)), AbsArtifact):
        return
    j = z3.Int('j!c')
    seen = z3.And(0 <= j, j < at)
    arts = {n: some(v, AbsArtifact) for n, v in vals.items() if n in entry and some(v, AbsArtifact) is not None}
    scores = {n: some(v, AbsScore) for n, v in vals.items() if n in entry and some(v, AbsScore) is not None}
    for n, (none, a) in arts.items():
        i = a.i if a is not None else z3.IntVal(-1)
        for k, p in (('wheel', A.wheel), ('source', A.source)):
            yield (n, 'is', k), z3.Or(none, z3.And(i < at, p(i)))
            yield (n, 'if any', k), z3.ForAll([j], z3.Implies(z3.And(seen, p(j)), z3.Not(none)))
        yield (n, 'best'), z3.ForAll([j], z3.Implies(z3.And(seen, A.wheel(j)), z3.And(z3.Not(none), A.score(j) <= A.score(i))))
        for m, (snone, sc) in scores.items():
            if m != n:
                yield (n, m, 'score of'), z3.And(none == snone, z3.Or(none, A.score(i) == sc.e) if sc is not None else none)


def artifact_setup():
    class Wheels(SP.WheelDistribution):
        extract_compatibility_tags_of = staticmethod(AbsTags)
    return patched((SP, 'Path', lambda f: f), (SP, 'WheelDistribution', Wheels))


def package(fam):
    class Pk(SP.AbstractPackage):
        name = version = property(lambda self: psym.sym_str('any'))

        def _retrieve_artifact(self, a):
            raise AssertionError

        def to_dict(self):
            raise AssertionError
    return Pk(None, fam.listed())


SPM = 'pkm.api.packages.standard_package'


@goal('C12', functions=[f'{SPM}:AbstractPackage.best_artifact_for', f'{SPM}:AbstractPackage.is_compatible_with',
                        f'{SPM}:PackageArtifact.is_binary'], setup=artifact_setup)
def artifact_choice():
    A = Artifacts(Env)
    del ARTS[:]
    del rules.annotations[:]
    ARTS.append(A)
    rules.annotations.append(chosen_so_far)
    p = package(A)
    j = z3.Int('j!p')
    any_ = lambda f: z3.Exists([j], f(j))
    if sym_bool('asked whether compatible'):
        c = p.is_compatible_with(Env)
        prove('compatible iff some artifact fits', form(c) == z3.Or(any_(A.wheel), any_(A.source)))
        return
    r = p.best_artifact_for(Env)
    x = some(r, AbsArtifact)
    prove('none or an artifact', x is not None)
    none, a = x
    prove('nothing is chosen iff nothing fits', none == z3.Not(z3.Or(any_(A.wheel), any_(A.source))))
    if a is not None:
        i = a.i
        prove('the choice fits', z3.Or(none, A.wheel(i), A.source(i)))
        prove('a source archive only without a fitting wheel', z3.Implies(z3.And(z3.Not(none), A.source(i)), z3.Not(any_(A.wheel))))
        prove('no fitting wheel scores more', z3.Implies(z3.Not(none), z3.ForAll([j], z3.Implies(A.wheel(j), A.score(j) <= A.score(i)))))
    cover('chosen')


def abi_cases(M, n, build):
    e = {'py': [M, n], 'impl': 'cpython', 'sys': 'Linux', 'arch': 'x86_64', 'bits': 64, 'glibc': None, 'musl': None, 'build': build}
    return [{'env': e, 'tag': f'py{M}-cp{M}{n}{d}{p}{u}-any'} for d in ('', 'd') for p in ('', 'm') for u in ('', 'u')]


def to_cases(goal, inputs):
    t = inputs.get('triple')
    return [t] if isinstance(t, dict) else inputs.get('build') or []
