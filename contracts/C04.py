"""C04: what a version specifier text accepts"""
import contextlib

from contracts import text, vtext
from contracts.common import *
from contracts.text import C, N, WS, Sl, is_at, position, parser, at, kind, among, all_between
from contracts.vtext import Layout
from pyvc import runtime, sym
from pyvc.sym import cur, check_valid
from pyvc.vc import goal
import pkm.api.versions.version as V
import pkm.api.versions.version_parser as VP
import pkm.api.versions.version_specifiers as S

M = 'pkm.api.versions.version_parser:VersionParser'
MS = 'pkm.api.versions.version_specifiers'

ASSUMPTIONS = ['read_version reads a version as C05 says; versions compare as C01 and C02 say (a total order); the operations of specifiers are those of C03',
               'str.isspace: as documented for ASCII, any class beyond; str.lower as in C05']

text.scanner_goals('C04')
vtext.matching_goals('C04')

# ------------------------------------------------------------------ versions, compared by contract


class View:
    """the parts of a standard version as formulas"""

    def __init__(self, v):
        o = lambda x: x if isinstance(x, SymOpt) else SymOpt(z3.BoolVal(x is None), x)
        num = lambda x: z3.IntVal(0) if x is None else x.e if isinstance(x, SymInt) else z3.IntVal(x)
        txt = lambda x: str_lit('') if x is None else x.e if isinstance(x, SymStr) else str_lit(x)
        r = sym.as_seq(v.release).dense()
        self.n, self.f = r.n, lambda i: num(r.at(i))
        e, pr, po, d, l = (o(x) for x in (v.epoch, v.pre_release, v.post_release, v.dev_release, v.local_label))
        self.epoch_none, self.epoch = e.none, num(e.val)
        self.pre_none = pr.none
        self.prek, self.pre = (txt(pr.val[0]), num(pr.val[1])) if pr.val is not None else (str_lit('a'), z3.IntVal(0))
        self.post_none, self.post = po.none, num(po.val)
        self.dev_none, self.dev = d.none, num(d.val)
        self.label_none, self.label = l.none, txt(l.val)

    def pad(self, i):
        return z3.If(i < self.n, self.f(i), z3.IntVal(0))

    def key(self):
        j = z3.Int('j!key')
        return tuple(z3.simplify(x).sexpr() for x in (self.n, self.f(j), self.epoch_none, self.epoch, self.pre_none, self.prek, self.pre, self.post_none,
                                                      self.post, self.dev_none, self.dev, self.label_none, self.label))


def less(a, b):
    """contract of _less (C01): precedence"""
    return SymBool(spec_less(View(a), View(b)))


def equals(self, other, compare_locals=True):
    """contract of equals_to (C02)"""
    if not isinstance(runtime.unopt(other), V.StandardVersion):
        return False
    return SymBool(spec_eq(View(self), View(runtime.unopt(other)), compare_locals))


class Meaning(S.VersionSpecifier):
    """a specifier known by what it says of the probe"""

    def __init__(self, probe, formula):
        self.probe, self.formula = probe, formula

    def allows_version(self, v):
        if v is not self.probe:
            raise sym.Unsupported('allows_version of another version')
        return SymBool(self.formula)

    def intersect_with(self, other):
        return Meaning(self.probe, z3.And(self.formula, form(other.allows_version(self.probe))))

    def union_with(self, other):
        return Meaning(self.probe, z3.Or(self.formula, form(other.allows_version(self.probe))))

    def inverse(self):
        return Meaning(self.probe, z3.Not(self.formula))

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        raise sym.Unsupported('order of specifiers')

    def __str__(self):
        return 'a specifier'


# ------------------------------------------------------------------ one clause

OPS = ['==', '!=', '>=', '>', '<=', '<']


def clause_text(op, version=True, dots=False):
    """[space] op [space] version ['.*'] [space], then a comma, a bracket or the end"""
    p = position('p')
    o, stop = z3.Ints('op_at stop')
    L = None
    white = lambda a, b: z3.And(0 <= a, a <= b, b <= N, WS(a, b))
    body_end = o + len(op)
    if version:
        L = Layout('text', o + len(op))
        L.assume()
        body_end = L.end
    else:
        for a in text.white_axioms():
            assume(a)
    if dots:
        assume(L.wild)
        body_end = L.end + 2
    assume(white(p, o))
    assume(all_between(p, o, lambda c: kind('space', c)))
    assume(is_at(o, op))
    assume(white(body_end, stop))
    assume(all_between(body_end, stop, lambda c: kind('space', c)))
    assume(z3.Or(stop == N, among(C(stop), ',)')))
    if version and not dots:
        assume(z3.Not(L.wild))
    text.RUNS[:] = [(p, o, z3.BoolVal(True)), (body_end, stop, z3.BoolVal(True))] + list(text.RUNS if version else [])
    return p, L, body_end, stop


def reader(L, v, seen):
    """contract of read_version (C05): the version in the text, and nothing but white space after it"""
    def read_version(self):
        q = at(self)
        prove('the version is read where it is', z3.And(L.p <= q, q <= L.start))
        seen.append(1)
        q = fresh('read_to', I)
        assume(z3.If(L.wild, q == L.end, z3.And(L.end <= q, q <= N, z3.Or(q == N, z3.Not(kind('space', C(q)))))))
        assume(all_between(L.end, q, lambda c: kind('space', c)))
        assume(WS(L.end, q))
        self.position = SymInt(q)
        return v.v
    return read_version


def by_contract(probe):
    def inverse(self):
        return Meaning(probe, z3.Not(form(self.allows_version(probe))))
    return patched((V, '_less', less), (V.StandardVersion, 'equals_to', equals), (S.VersionMatch, 'inverse', inverse), (S.StandardVersionRange, 'inverse', inverse))


def probe(final=False):
    w = SV('w', label=False)
    assume(w.post_none)
    if final:
        assume(z3.And(w.pre_none, w.dev_none))
    return w


def is_final(v):
    return z3.And(v.pre_none, v.post_none, v.dev_none, v.label_none)


def first_difference(a, b):
    """instance of the lemma proved in C01: two releases agree or have a first difference"""
    n = z3.If(a.n > b.n, a.n, b.n)
    j, k = z3.Int('j!fd'), fresh('first_difference', I)
    assume(z3.Or(rel_eq(a, b), z3.And(0 <= k, k < n, a.pad(k) != b.pad(k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), a.pad(j) == b.pad(j))))))


def at_least(w, v):
    return z3.Or(spec_less(v, w), spec_eq(v, w))


def prefix(w, v, k):
    """same epoch and the first k numbers of the release"""
    j = z3.Int('j!pre')
    return z3.And(epoch_of(w) == epoch_of(v), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), w.pad(j) == v.pad(j)), patterns=[v.f(j), w.f(j)]))


def read_one(op, kind_):
    w = probe(kind_ in ('prefix', 'compatible'))
    v = SV('v')
    p, L, end, stop = clause_text(op, kind_ != 'any', kind_ in ('prefix', 'dots'))
    if kind_ == 'prefix':
        assume(is_final(v))
        first_difference(v, w)
    if kind_ == 'compatible':
        assume(v.n >= 2)
    r = parser(VP.VersionParser, p)
    seen = []
    with patched((VP.VersionParser, 'read_version', reader(L, v, seen))), by_contract(w.v):
        s = r._read_single_specifier()
        got = form(s.allows_version(w.v))
    if kind_ == 'any':
        want = z3.BoolVal(True)
    elif kind_ == 'prefix':
        want = prefix(w, v, v.n) if op == '==' else z3.Not(prefix(w, v, v.n))
    elif kind_ == 'compatible':
        want = z3.And(at_least(w, v), prefix(w, v, v.n - 1))
    else:
        lt, eq, gt = spec_less(w, v), spec_eq(v, w), spec_less(v, w)
        want = {'==': eq, '!=': z3.Not(eq), '>=': z3.Or(gt, eq), '>': gt, '<=': z3.Or(lt, eq), '<': lt}[op]
    if check_valid(cur().facts(), z3.BoolVal(False), 3000)[0] == 'discharged':
        return
    prove('allowed only if the clause holds', z3.Implies(got, want))
    prove('allowed if the clause holds', z3.Implies(want, got))
    q = at(r)
    prove('the clause is read and only white space after it', z3.And(end <= q, q <= stop))
    cover('clause')


FN = [f'{M}._read_single_specifier', f'{MS}:VersionSpecifier.create_range', f'{MS}:VersionMatch.allows_version', f'{MS}:StandardVersionRange.allows_version',
      f'{MS}:StandardVersionRange.__post_init__', 'pkm.api.versions.version:StandardVersion.without_local', 'pkm.api.versions.version:StandardVersion.is_local']
NAMES = {'==': 'equal', '!=': 'different', '>=': 'from', '>': 'above', '<=': 'up_to', '<': 'below'}

for _o in OPS:
    goal('C04', f'clause_{NAMES[_o]}', functions=FN, setup=vtext.setup, limit_s=300)(lambda o=_o: read_one(o, 'compare'))
for _o in ('>=', '>', '<=', '<'):
    goal('C04', f'clause_{NAMES[_o]}_with_dots', functions=FN, setup=vtext.setup, limit_s=300)(lambda o=_o: read_one(o, 'dots'))
for _o in ('==', '!='):
    goal('C04', f'clause_{NAMES[_o]}_prefix', functions=FN, setup=vtext.setup, limit_s=300)(lambda o=_o: read_one(o, 'prefix'))
goal('C04', 'clause_compatible', functions=FN, setup=vtext.setup, limit_s=300)(lambda: read_one('~=', 'compatible'))
goal('C04', 'clause_any', functions=FN, setup=vtext.setup, limit_s=300)(lambda: read_one('*', 'any'))


# ------------------------------------------------------------------ lists of clauses

class Clauses:
    """[space] ['('] clause [space] (',' clause [space])* [')']: clause j is from s(j) to e(j), what follows it is at c(j)"""

    def __init__(self, p):
        self.p, self.first, self.n = p, z3.Int('first'), z3.Int('clauses')
        self.s, self.e, self.c = (z3.Function('clause.' + x, I, I) for x in ('start', 'end', 'separator'))
        self.A = z3.Function('clause.allows', I, B)           # what clause j says of the probe
        self.ALL = z3.Function('clauses.allow', I, B)         # what the first j clauses say
        self.paren = z3.Bool('brackets')

    def clause(self, j):
        s, e, c = self.s(j), self.e(j), self.c(j)
        return z3.Implies(z3.And(0 <= j, j < self.n), z3.And(
            0 <= s, s < e, e <= c, c <= N, WS(e, c), z3.Or(c == N, z3.Not(kind('space', C(c)))),
            z3.Implies(j + 1 < self.n, z3.And(c < N, C(c) == ord(','), self.s(j + 1) == c + 1)),
            z3.Implies(j + 1 == self.n, z3.If(self.paren, is_at(c, ')'), c == N))))

    def meaning(self, j):
        return self.ALL(j + 1) == z3.And(self.ALL(j), self.A(j))

    def assume(self):
        for a in text.white_axioms():
            assume(a)
        p, a = self.p, self.first
        assume(z3.And(0 <= p, p <= a, a <= N, WS(p, a)))
        assume(all_between(p, a, lambda c: kind('space', c)))
        assume(z3.Or(a == N, z3.Not(kind('space', C(a)))))
        assume(z3.If(self.paren, z3.And(is_at(a, '('), self.n >= 1, self.s(0) == a + 1),
                     z3.And(self.n >= 0, z3.Not(is_at(a, '(')), z3.If(self.n == 0, a == N, self.s(0) == a))))
        assume(self.ALL(0))
        text.RUNS[:] = [(p, a, z3.BoolVal(True))]

    def at(self, m):
        """the facts about clause m"""
        for f in (self.clause(m), all_between(self.e(m), self.c(m), lambda c: kind('space', c)), self.meaning(m)):
            for g in vtext.conjuncts(f) if not z3.is_quantifier(f) else [f]:
                assume(g)


class ReadClauses:
    """the loop over the clauses: the specifier says what the clauses read so far say, the parser stands at the next one"""

    def __init__(self, p, lay, probe):
        self.p, self.lay, self.probe, self.m = p, lay, probe, None

    def while_(self, site, cond, body, get, set_, mods):
        p, L = self.p, self.lay
        env0 = get()
        names = [k for k in mods if isinstance(env0.get(k), S.VersionSpecifier)]
        if len(names) != 1 or self.m is not None:
            return NotImplemented
        cur().weaken(site)
        name = names[0]
        where = lambda m: z3.If(m < L.n, L.s(m), N)
        prove('nothing is asked before the first clause', form(env0[name].allows_version(self.probe)))
        prove('the first clause is next', at(p) == where(z3.IntVal(0)))
        m = self.m = fresh('read', I)
        assume(z3.And(0 <= m, m <= L.n, z3.Implies(L.paren, m < L.n)))
        L.at(m)
        text.RUNS.append((L.e(m), L.c(m), m < L.n))
        p.position = SymInt(where(m))
        set_({x: runtime.Poison(env0, x) for x in mods if x != name})
        set_({name: Meaning(self.probe, L.ALL(m))})
        if not cond():
            prove('all clauses are read', m == L.n)
            return runtime.DONE
        r = body()
        now = get()[name]
        if r is not runtime.CONT:
            if r is runtime.BRK:
                prove('all clauses are read', m + 1 == L.n)
            return r
        prove('the next clause', z3.And(z3.Implies(L.paren, m + 1 < L.n), m + 1 <= L.n, at(p) == where(m + 1)))
        prove('one more clause', form(now.allows_version(self.probe)) == L.ALL(m + 1))
        raise sym.Infeasible()

    def __enter__(self):
        self.saved = list(runtime.while_rules)
        runtime.while_rules.insert(0, self.while_)
        return self

    def __exit__(self, *a):
        runtime.while_rules[:] = self.saved


@goal('C04', functions=[f'{M}.read_specifier'], setup=vtext.setup, limit_s=300)
def all_clauses():
    p = position('p')
    L = Clauses(p)
    L.assume()
    w = V.StandardVersion(release=(1,))
    r = parser(VP.VersionParser, p)
    loop = ReadClauses(r, L, w)

    def one(self):
        m = loop.m
        if m is None:
            raise sym.Unsupported('a clause read outside of the loop')
        prove('the clause is read from its start', z3.And(m < L.n, at(self) == L.s(m)))
        q = fresh('clause_read_to', I)
        assume(z3.And(L.e(m) <= q, q <= L.c(m), WS(L.e(m), q), WS(q, L.c(m))))
        self.position = SymInt(q)
        return Meaning(w, L.A(m))

    def both(self, other):
        return Meaning(w, z3.And(form(self.allows_version(w)), form(other.allows_version(w))))

    with loop, patched((VP.VersionParser, '_read_single_specifier', one), (S._AllowAll, 'intersect_with', both)):
        s = r.read_specifier()
    prove('the probe is allowed iff every clause allows it', form(s.allows_version(w)) == L.ALL(L.n))
    cover('specifier')


class Raw(sym.Sym):
    """text that still has upper case letters: its lower case is the symbolic text"""
    __slots__ = ()

    def lower(self):
        return text.whole()

    def __vc_isinstance__(self, t):
        return str in (t if isinstance(t, tuple) else (t,))


@goal('C04', functions=['pkm.api.versions.version_parser:parse_specifier', f'{MS}:VersionSpecifier.parse'], setup=vtext.setup)
def entry_points():
    """both read the text in lower case, from its start, and return what the reader returns"""
    seen = []

    def read(self):
        prove('from the start', at(self) == 0)
        prove('all of it', z3.And(self.text.lo == 0, self.text.hi == N))
        seen.append(1)
        return 'the specifier'

    position('p')
    fs = [VP.parse_specifier, S.VersionSpecifier.parse]
    with patched((VP.VersionParser, 'read_specifier', read)):
        prove('the specifier read is returned', fs[cur().choose(2)](Raw()) == 'the specifier' and len(seen) == 1)
    cover('entry')


def to_cases(goal, inputs):
    from bounded.vgen import realise, text as written
    i = realise(inputs)
    v, w = i.get('v'), i.get('w')
    op = {'equal': '==', 'different': '!=', 'from': '>=', 'above': '>', 'up': '<=', 'below': '<', 'compatible': '~='}.get((goal.split('_') + [''])[1])
    if v is None or w is None or op is None:
        return []
    w = {k: x for k, x in w.items() if k not in ('post', 'local')}
    dots = '.*' if goal.endswith(('_prefix', '_dots')) else ''
    return [{'clauses': [[op + ('*' if goal.endswith('_prefix') else ''), v]], 'text': op + written(v) + dots, 'probes': [w]}]
