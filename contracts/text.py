"""symbolic text: an array of characters of any length, its slices, and the contracts of pkm.utils.parsers.SimpleParser"""
import string

import z3

from contracts.common import *
from pyvc import runtime, sym
from pyvc.sym import check_valid, cur

C = z3.Function('text.char', I, I)  # the code of the character at a position
N = z3.Int('text.length')
WS = z3.Function('text.white', I, I, B)  # only white space between two positions (see white_space())

# str.isdigit and so on of one character: what Python says of ASCII, anything of the rest
UNI = {k: z3.Function('unicode.' + k, I, B) for k in ('digit', 'space', 'alpha', 'alnum')}
ASCII = {'digit': string.digits, 'space': '\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f ', 'alpha': string.ascii_letters,
         'alnum': string.ascii_letters + string.digits}


def ranges(cs):
    xs = sorted(set(map(ord, cs)))
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def among(c, cs):
    return z3.Or([z3.BoolVal(False)] + [c == a if a == b else z3.And(a <= c, c <= b) for a, b in ranges(cs)])


def kind(k, c):
    return z3.If(c < 128, among(c, ASCII[k]), UNI[k](c))


def is_at(p, s):
    """the text continues with s at p"""
    return z3.And([p + len(s) <= N] + [C(p + i if i else p) == ord(ch) for i, ch in enumerate(s)])


def all_between(lo, hi, f, name='k'):
    k = z3.Int(sym.S.fresh_name(name + '!ab'))
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(C(k))), patterns=[C(k)])


def ie(x):
    x = runtime.unopt(x)
    return x.e if isinstance(x, SymInt) else z3.IntVal(x)


def cut(x, d):
    """Python's slice bound: within the text, counted from its end if negative"""
    if x is None:
        return d
    return ie(x)


class Sl(sym.Sym):
    """the characters lo..hi of the text"""
    __slots__ = ('lo', 'hi', 'mx')

    def __init__(self, lo, hi, mx=None):
        self.lo, self.hi, self.mx = lo, hi, mx

    @property
    def n(self):
        return z3.simplify(self.hi - self.lo)

    def at(self, i):
        return C(z3.simplify(self.lo + i))

    def __vc_len__(self):
        return SymInt(self.n)

    def __len__(self):
        raise sym.Unsupported('len of symbolic text')

    def __bool__(self):
        return cur().decide(self.hi > self.lo)

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return str in ts or any(not isinstance(u, type) and isinstance('', u) for u in ts)

    def __vc_str__(self):
        return self

    def same(self, o):
        o = runtime.unopt(o)
        if isinstance(o, str):
            return z3.And([self.n == len(o)] + [self.at(i) == ord(ch) for i, ch in enumerate(o)])
        if isinstance(o, Sl):
            k = z3.Int(sym.S.fresh_name('k!eq'))
            return z3.Or(z3.And(self.lo == o.lo, self.hi == o.hi), z3.And(
                self.n == o.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), self.at(k) == o.at(k)))))
        return z3.BoolVal(False)

    def __vc_eq__(self, o):
        return SymBool(self.same(o))

    def __eq__(self, o):
        return SymBool(self.same(o))

    def __ne__(self, o):
        return SymBool(z3.Not(self.same(o)))

    def __hash__(self):
        return 11

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise sym.Unsupported('step of a slice of text')
            n = self.n
            a, b = cut(k.start, z3.IntVal(0)), cut(k.stop, n)
            neg = lambda x: z3.simplify(z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x)))
            a = self.bound(a)
            mx = None
            if k.stop is not None:
                d = z3.simplify(b - a)
                if z3.is_int_value(d):
                    mx = max(0, d.as_long())
            b = self.bound(b) if k.stop is not None else n
            b = z3.simplify(z3.If(b < a, a, b)) if k.stop is not None and not (mx is not None) else b
            return Sl(z3.simplify(self.lo + a), z3.simplify(self.lo + b), mx)
        i = ie(k)
        if not cur().decide(z3.And(-self.n <= i, i < self.n)):
            raise IndexError('string index out of range')
        if not cur().decide(i >= 0):
            i = i + self.n
        return Sl(z3.simplify(self.lo + i), z3.simplify(self.lo + i + 1), 1)

    lazy = False

    def bound(self, x):
        n = self.n
        if self.lazy:
            known = lambda f: not cur().feasible(z3.Not(f))
            x = z3.simplify(x)
            if z3.is_int_value(x) and x.as_long() >= 0 or known(x >= 0):
                return x if known(x <= n) else n if known(x >= n) else z3.If(x <= n, x, n)
        if not cur().decide(x >= 0):
            x = x + n
            if not cur().decide(x >= 0):
                return z3.IntVal(0)
        return x if cur().decide(x <= n) else n

    def char(self, k):
        """all characters are of that kind, and there is one"""
        if self.mx is not None and self.mx <= 4:
            return z3.And([self.hi > self.lo] + [z3.Implies(self.n > i, kind(k, self.at(i))) for i in range(self.mx)])
        return z3.And(self.hi > self.lo, all_between(self.lo, self.hi, lambda c: kind(k, c)))

    def isdigit(self):
        return SymBool(self.char('digit'))

    def isspace(self):
        return SymBool(self.char('space'))

    def isalpha(self):
        return SymBool(self.char('alpha'))

    def isalnum(self):
        return SymBool(self.char('alnum'))

    def startswith(self, s):
        s = runtime.unopt(s)
        if isinstance(s, tuple):
            return SymBool(z3.Or([form(self.startswith(x)) for x in s]))
        if not isinstance(s, str):
            raise sym.Unsupported('startswith')
        return SymBool(z3.And([self.n >= len(s)] + [self.at(i) == ord(ch) for i, ch in enumerate(s)]))

    def endswith(self, s):
        if not isinstance(s, str):
            raise sym.Unsupported('endswith')
        return SymBool(z3.And([self.n >= len(s)] + [C(self.hi - len(s) + i) == ord(ch) for i, ch in enumerate(s)]))

    def __vc_isin__(self, b):
        """self in b, for a string (as a substring) or another container of strings"""
        if isinstance(b, str):
            if self.mx is None or self.mx > 1:
                subs = {b[i:j] for i in range(len(b) + 1) for j in range(i, len(b) + 1)}
                return SymBool(z3.Or([self.same(s) for s in sorted(subs)]))
            return SymBool(z3.Or(self.n == 0, among(self.at(0), b)))
        if all(isinstance(x, str) for x in b):
            one = [x for x in b if len(x) == 1]
            rest = [x for x in b if len(x) != 1]
            return SymBool(z3.Or([z3.And(self.n == 1, among(self.at(0), one))] + [self.same(x) for x in rest]))
        raise sym.Unsupported('symbolic text in a container')

    def __contains__(self, s):
        raise sym.Unsupported('in symbolic text')


def whole():
    return Sl(z3.IntVal(0), N)


def position(name):
    p = z3.Int(name)
    assume(z3.And(N >= 0, 0 <= p, p <= N))
    return p


def parser(cls, p, **attrs):
    r = cls(whole())
    r.position = SymInt(p)
    return r


def at(self):
    return ie(self.position)


# ------------------------------------------------------------------ contracts, used where SimpleParser is called

def match_ws(self, allow_new_lines=True):
    p, q = at(self), fresh('after_space', I)
    sp = lambda c: kind('space', c) if allow_new_lines else z3.And(kind('space', c), c != 10)
    assume(z3.And(p <= q, q <= N, z3.Implies(p == N, q == N), z3.Or(q == N, z3.Not(sp(C(q)))), WS(p, q),
                  z3.Implies(z3.Not(z3.And(p < N, sp(C(p)))), p == q)))
    assume(all_between(p, q, sp))
    q = settle(p, q)
    self.position = SymInt(q)
    return Sl(p, q)


RUNS = []  # stretches of the text known to the goal, and when: where one starts the stop may be found to be its end


def settle(p, q):
    for lo, hi, when in RUNS:
        if cur().excluded(z3.Not(z3.And(p == lo, when))) and sym.remembered(
                ('run', lo.sexpr()), lambda: check_valid(cur().facts(), q == hi, 3000)[0]) == 'discharged':
            assume(q == hi)
            return hi
    return q


def until(self, predicate):
    p, q = at(self), fresh('stop', I)
    k = sym.bvar('u')
    f, ex = sym.summarise_bool(lambda: predicate(SymInt(k), self.text), (k,), z3.And(p <= k, k < N))
    if ex:
        raise sym.Unsupported('the stop condition may fail')
    stops = lambda e: z3.substitute(f, (k, e))
    assume(z3.And(p <= q, q <= N))
    assume(z3.ForAll([k], z3.Implies(z3.And(p <= k, k < q), z3.Not(f)), patterns=[C(k)]))
    assume(z3.Or(q == N, stops(q)))
    assume(z3.Implies(p < q, z3.Not(stops(p))))
    q = settle(p, q)
    self.position = SymInt(q)
    return Sl(p, q)


def raise_err(self, msg, lines_to_show=4):
    raise ValueError('Parsing Failed')


def classes(c):
    return z3.And(z3.Implies(UNI['digit'](c), UNI['alnum'](c)), z3.Implies(UNI['alpha'](c), UNI['alnum'](c)),
                  z3.Not(z3.And(UNI['space'](c), UNI['alnum'](c))))


def white_axioms():
    p, q, r = z3.Ints('p!w q!w r!w')
    return [z3.ForAll([p], classes(p), patterns=[UNI[k](p)]) for k in ('digit', 'alpha', 'space')] + [
            z3.ForAll([p], WS(p, p), patterns=[WS(p, p)]),
            z3.ForAll([p, q, r], z3.Implies(z3.And(WS(p, q), WS(q, r)), WS(p, r)), patterns=[z3.MultiPattern(WS(p, q), WS(q, r))])]


def own(*objects):
    """the state of these objects is handled by the loop rule at work"""
    for o in objects:
        cur().local_ids[id(o)] = o


class Scan:
    """while loops that only move the parser on: candidate invariants, those that hold at first and are kept are assumed"""

    def __init__(self, p):
        self.p = p

    def candidates(self, p0, q):
        yield 'moves on', z3.And(p0 <= q, q <= N)
        for k in UNI:
            yield k, all_between(p0, q, lambda c: kind(k, c))
        yield 'one line', all_between(p0, q, lambda c: c != 10)

    def while_(self, site, cond, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        env0 = get()
        p, p0 = self.p, at(self.p)
        valid = lambda f: check_valid(cur().facts(), f, 4000)[0] == 'discharged'

        def enter(cand):
            q = fresh('at', I)
            p.position = SymInt(q)
            set_({m: runtime.Poison(env0, m) for m in mods})
            for k, f in self.candidates(p0, q):
                if k in cand:
                    assume(f)

        def analyse():
            cand = {k for k, f in self.candidates(p0, p0) if valid(f)}
            while True:
                bad, exits = set(), []

                def run():
                    own(p)
                    enter(cand)
                    if not cond():
                        return
                    r = body()
                    if r is not runtime.CONT:
                        return
                    for k, f in self.candidates(p0, at(p)):
                        if k in cand - bad and not valid(f):
                            bad.add(k)

                try:
                    sym.explore(run, parent=cur())
                finally:
                    p.position = SymInt(p0)
                    set_({m: env0[m] for m in mods if m in env0})
                if not bad:
                    return cand
                cand -= bad

        cur().weaken(site)
        enter(sym.remembered(('scan', site), analyse))
        if not cond():
            return runtime.DONE
        r = body()
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def for_(self, site, s, body, get, set_, mods):
        """a search: every round but the last only goes on"""
        if sym.S.bounded is not None or s.filt is not None:
            return NotImplemented
        env0, p = get(), self.p
        pos0 = p.position
        j = sym.bvar()

        def run():
            own(p)
            set_({m: runtime.Poison(env0, m) for m in mods})
            r = body(s.at(j))
            return r is runtime.CONT, p.position is pos0

        def restore():
            p.position = pos0
            set_({m: env0[m] for m in mods if m in env0})

        paths = sym.explore(lambda: back(run, restore), parent=cur(), binders=(j,), assume=[z3.And(j >= 0, j < s.n)])
        if any(x.kind == 'exc' or x.value == (True, False) or x.effects for x in paths):
            return NotImplemented
        cont = z3.Or([z3.BoolVal(False)] + [x.cond() for x in paths if x.value[0]])
        k = fresh('found', I)
        assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), cont)))
        assume(z3.And(0 <= k, k <= s.n))
        if cur().decide(k == s.n):
            return runtime.DONE
        assume(z3.Not(z3.substitute(cont, (j, k))))
        r = body(s.at(k))
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def __enter__(self):
        self.saved = list(runtime.while_rules), list(runtime.for_rules)
        runtime.while_rules.insert(0, self.while_)
        runtime.for_rules.insert(0, self.for_)

    def __exit__(self, *a):
        runtime.while_rules[:], runtime.for_rules[:] = self.saved


def back(f, g):
    try:
        return f()
    finally:
        g()


def scanner_goals(prop):
    """the contracts above hold of the real functions"""
    import pkm.utils.parsers as PA
    from pyvc.vc import goal
    M = 'pkm.utils.parsers:SimpleParser'

    @goal(prop, functions=[f'{M}.match_ws', f'{M}.peek', f'{M}.next', f'{M}.is_not_empty'])
    def skipping_white_space():
        p = position('p')
        r = parser(PA.SimpleParser, p)
        lines = bool(sym_bool('allow_new_lines'))
        with Scan(r):
            res = r.match_ws(lines)
        q = at(r)
        sp = lambda c: kind('space', c) if lines else z3.And(kind('space', c), c != 10)
        prove('moves on inside the text', z3.And(p <= q, q <= N))
        prove('only white space is skipped', all_between(p, q, sp))
        prove('all white space is skipped', z3.Or(q == N, z3.Not(sp(C(q)))))
        prove('the skipped text is returned', z3.And(res.lo == p, res.hi == q))
        cover('space')

    @goal(prop, functions=[f'{M}.until'])
    def reading_until():
        p = position('p')
        r = parser(PA.SimpleParser, p)
        stop = z3.Function('stops', I, B)
        with Scan(r):
            res = r.until(lambda i, t: (SymBool(stop(ie(i))) if t is r.text else sym_bool('other text')))
        q = at(r)
        k = z3.Int(sym.S.fresh_name('k'))
        prove('moves on inside the text', z3.And(p <= q, q <= N))
        prove('nothing before stops', z3.Implies(z3.And(p <= k, k < q), z3.Not(stop(k))))
        prove('stops where asked', z3.Or(q == N, stop(q)))
        prove('the text read is returned', z3.And(res.lo == p, res.hi == q))
        cover('until')

    @goal(prop, functions=[f'{M}.match', f'{M}.match_any', f'{M}.match_or_err', f'{M}.peek_prev'], setup=setup)
    def matching():
        p = position('p')
        r = parser(PA.SimpleParser, p)
        case = cur().choose(5)
        if case == 0:
            res = r.match('and')
            prove('matches what is there', z3.And(z3.BoolVal(res is not None) == is_at(p, 'and'), at(r) == p + (3 if res is not None else 0)))
        elif case == 1:
            res = r.match_any('===', '==', '=', 'x')
            w = z3.If(is_at(p, '==='), 3, z3.If(is_at(p, '=='), 2, z3.If(z3.Or(is_at(p, '='), is_at(p, 'x')), 1, 0)))
            prove('the first that matches', at(r) == p + w)
            prove('it is returned', w == 0 if res is None else z3.And(w > 0, is_at(p, res), len(res) == w))
        elif case == 2:
            res = r.match('not', 'in')
            q = at(r)
            if res is None:
                prove('stays', q == p)
            else:
                prove('matches both', z3.And(is_at(p, 'not'), is_at(q - 2, 'in'), p + 3 <= q - 2, WS(p + 3, q - 2), q <= N))
        elif case == 3:
            try:
                r.match_or_err('(', 'message')
                prove('matches', z3.And(is_at(p, '('), at(r) == p + 1))
            except ValueError:
                prove('fails only if it is not there', z3.Not(is_at(p, '(')))
        else:
            res = r.peek_prev()
            prove('the character before', z3.And(res.hi == p, res.lo == z3.If(p > 0, p - 1, 0), at(r) == p))
        cover(f'matching {case}')


def setup():
    import pkm.utils.parsers as PA
    return patched((PA.SimpleParser, 'match_ws', match_ws), (PA.SimpleParser, 'until', until), (PA.SimpleParser, 'raise_err', raise_err))
