"""version texts inside symbolic text: the grammar of the normal form and the listed spellings, with ghost boundaries"""
import contextlib

from contracts import text
from contracts.common import *
from contracts.text import C, N, WS, Sl, among, kind, is_at, all_between, position, parser, at, ie
from pyvc import runtime, sym
from pyvc.sym import cur, check_valid, VList

VAL = z3.Function('number', I, I, I)  # the value of the digits between two positions
DIGITS = '0123456789'
WORDS = ['alpha', 'beta', 'preview', 'a', 'b', 'rc', 'c']
KIND = {'alpha': 'a', 'beta': 'b', 'preview': 'rc', 'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc'}
POSTS = ['post', 'rev', 'r']


class Choice(SymStr):
    """one of several strings"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        e = str_lit(alts[-1][1])
        for c, s in reversed(alts[:-1]):
            e = z3.If(c, str_lit(s), e)
        super().__init__(e)
        self.alts = alts

    def __vc_index_of__(self, d):
        alts = [(c, d[s]) for c, s in self.alts]  # KeyError as in the code
        if all(isinstance(v, str) for _, v in alts):
            return Choice(alts)
        for c, v in alts[:-1]:
            if cur().decide(c):
                return v
        return alts[-1][1]


def number(self):
    """int() of a slice"""
    ok = z3.And(self.lo < self.hi, all_between(self.lo, self.hi, lambda c: among(c, DIGITS)))
    if cur().decide(ok):
        assume(VAL(self.lo, self.hi) >= 0)
        return SymInt(VAL(self.lo, self.hi))
    if cur().nondet():
        raise ValueError('invalid literal for int()')
    return SymInt(fresh('unicode_number', I))


class Mapped(Sl):
    """a slice with characters replaced"""
    __slots__ = ('table',)

    def __init__(self, lo, hi, table):
        super().__init__(lo, hi)
        self.table = table

    def at(self, i):
        c = C(z3.simplify(self.lo + i))
        e = c
        for a, b in self.table.items():
            e = z3.If(c == a, b, e)
        return e

    def __getitem__(self, k):
        raise sym.Unsupported('slice of translated text')

    char = startswith = endswith = same = __vc_isin__ = lambda self, *a: Mapped.__getitem__(self, 0)


def translate(self, table):
    if not (isinstance(table, dict) and all(isinstance(k, int) and isinstance(v, (int, str)) for k, v in table.items())):
        raise sym.Unsupported('translate')
    t = {k: v if isinstance(v, int) else ord(v) for k, v in table.items() if isinstance(v, int) or len(v) == 1}
    if len(t) != len(table):
        raise sym.Unsupported('translate')
    return Mapped(self.lo, self.hi, t)


# ------------------------------------------------------------------ contracts of match and match_any, without a fork

MATCHED = ['!', '.', '-', 'v', 'dev', '+', '(', "'", '"', '*', '@', '===', '.*', '~=', ',', ')']
ANY = [('.', '-', '_'), tuple(WORDS), tuple(POSTS), ('==', '!='), ('>=', '>', '<=', '<')]


def contract_match(self, *subs):
    if len(subs) != 1 or subs[0] not in MATCHED:
        return REAL['match'](self, *subs)
    return matched(self, subs, True)


def contract_match_any(self, *subs):
    if tuple(subs) not in ANY:
        return REAL['match_any'](self, *subs)
    return matched(self, subs, False)


def matched(self, subs, one):
    p = at(self)
    c = cur()

    def analyse():
        out = []
        before = []
        for s in subs:
            f = z3.And([is_at(p, s)] + [z3.Not(b) for b in before])
            if c.feasible(f):
                out.append((f, s))
                before.append(is_at(p, s))
        return out, not c.feasible(z3.Not(z3.Or([z3.BoolVal(False)] + [f for f, _ in out])))

    hits, certain = sym.remembered(('match', subs, p.sexpr()), analyse)
    if not hits:
        return None
    q = p
    for f, s in reversed(hits):
        q = z3.If(f, p + len(s), q)
    res = hits[0][1] if len(hits) == 1 else Choice(hits)
    if certain:
        if len(hits) == 1:
            q = p + len(hits[0][1])
        self.position = SymInt(q)
        return res
    self.position = SymInt(q)
    return sym.SymOpt(z3.Not(z3.Or([f for f, _ in hits])), res)


REAL = {}


def setup():
    import pkm.utils.parsers as PA
    S = PA.SimpleParser
    st = contextlib.ExitStack()
    REAL.update(match=S.__dict__['match'], match_any=S.__dict__['match_any'])
    st.enter_context(text.setup())
    st.enter_context(patched((S, 'match', contract_match), (S, 'match_any', contract_match_any), (Sl, '__vc_int__', number),
                             (Sl, 'translate', translate), (Sl, 'maketrans', lambda self, *a: str.maketrans(*a)), (Sl, 'lazy', True)))
    return st


def matching_goals(prop):
    import pkm.utils.parsers as PA
    from pyvc.vc import goal
    M = 'pkm.utils.parsers:SimpleParser'

    @goal(prop, functions=[f'{M}.match', f'{M}.match_any', f'{M}.peek'])
    def matching_fixed_text():
        p = position('p')
        i = cur().choose(len(MATCHED) + len(ANY))
        subs = (MATCHED[i],) if i < len(MATCHED) else ANY[i - len(MATCHED)]
        a = parser(PA.SimpleParser, p)
        r = a.match(*subs) if i < len(MATCHED) else a.match_any(*subs)
        b = parser(PA.SimpleParser, p)
        w = matched(b, subs, i < len(MATCHED))
        if r is not None and w is not None:
            prove('returns the first that is there', SymBool(eqf(same_text(r), runtime.unopt(w))))
        else:
            prove('returns nothing only if nothing is there', z3.BoolVal(r is None and runtime.unopt(w) is None))
        prove('moves past it', at(a) == at(b))
        cover('match')

    def same_text(r):
        if isinstance(r, Sl):
            n = z3.simplify(r.n)
            for s in {x for x in MATCHED} | {x for t in ANY for x in t}:
                if check_valid(cur().facts(), r.same(s), 2000)[0] == 'discharged':
                    return s
        return r


# ------------------------------------------------------------------ the grammar

class Layout:
    """a version text from p to end: the parts that are there and where they are"""

    def __init__(self, name, p, canonical=False, follow=True):
        i = lambda x: z3.Int(f'{name}.{x}')
        b = lambda x: z3.Bool(f'{name}.{x}')
        self.p = p
        self.start, self.after_v, self.bang, self.R, self.P, self.Q, self.D, self.end = (
            i(x) for x in ('start', 'after_v', 'bang', 'release_end', 'pre_end', 'post_end', 'dev_end', 'end'))
        self.s, self.t = z3.Function(name + '.seg_from', I, I), z3.Function(name + '.seg_to', I, I)
        self.n = i('segments')
        self.has_v, self.has_epoch, self.has_dev, self.has_local = b('v'), b('epoch'), b('dev'), b('local')
        self.pre = i('pre_kind')      # -1: none, else index in WORDS
        self.pre_at = i('pre_digits')
        self.post = i('post_style')   # 0: none, 1: separator and word, 2: -N
        self.word = i('post_word')
        self.post_at, self.dev_at = i('post_digits'), i('dev_digits')
        self.canonical, self.follow = canonical, follow

    def digits(self, lo, hi):
        return z3.And(lo < hi, hi <= N, among(C(lo), DIGITS), among(C(hi - 1), DIGITS), all_between(lo, hi, lambda c: among(c, DIGITS)))

    def segment(self, j):
        return z3.Implies(z3.And(0 <= j, j < self.n), z3.And(
            self.after_v <= self.s(j), self.t(j) <= self.R, self.digits(self.s(j), self.t(j)),
            z3.Implies(j + 1 < self.n, z3.And(is_at(self.t(j), '.'), self.s(j + 1) == self.t(j) + 1))))

    def facts(self):
        j = z3.Int('j!seg')
        An, Or, Im, If = z3.And, z3.Or, z3.Implies, z3.If
        can = self.canonical
        yield An(0 <= self.p, self.p <= self.start, WS(self.p, self.start))
        yield all_between(self.p, self.start, lambda c: kind('space', c))
        yield self.after_v == If(self.has_v, self.start + 1, self.start)
        yield Im(self.has_v, is_at(self.start, 'v'))
        yield Im(self.has_epoch, An(self.digits(self.after_v, self.bang), is_at(self.bang, '!'), self.s(0) == self.bang + 1))
        yield Im(z3.Not(self.has_epoch), self.s(0) == self.after_v)
        yield self.n >= 1
        yield z3.ForAll([j], self.segment(j), patterns=[self.s(j)])
        yield z3.ForAll([j], self.segment(j), patterns=[self.t(j)])
        yield An(self.digits(self.s(0), self.t(0)))
        yield self.digits(self.s(self.n - 1), self.t(self.n - 1))
        yield self.R == self.t(self.n - 1)
        yield An(-1 <= self.pre, self.pre < len(WORDS))
        yield Im(self.pre == -1, self.P == self.R)
        for k, w in enumerate(WORDS):
            ok = An(is_at(self.R, w), self.pre_at == self.R + len(w))
            yield Im(self.pre == k, z3.BoolVal(False) if can and KIND[w] != w else ok)
        yield Im(self.pre != -1, self.digits(self.pre_at, self.P))
        yield An(0 <= self.post, self.post <= (1 if can else 2), 0 <= self.word, self.word < (1 if can else len(POSTS)))
        yield Im(self.post == 0, self.Q == self.P)
        sep = lambda x: An(x < N, among(C(x), '.' if can else '-_.'))
        for k, w in enumerate(POSTS):
            yield Im(An(self.post == 1, self.word == k), An(sep(self.P), is_at(self.P + 1, w), self.post_at == self.P + 1 + len(w)))
        yield Im(self.post == 2, An(is_at(self.P, '-'), self.post_at == self.P + 1))
        yield Im(self.post != 0, self.digits(self.post_at, self.Q))
        yield Im(z3.Not(self.has_dev), self.D == self.Q)
        yield Im(self.has_dev, An(sep(self.Q), is_at(self.Q + 1, 'dev'), self.dev_at == self.Q + 4, self.digits(self.dev_at, self.D)))
        yield Im(z3.Not(self.has_local), self.end == self.D)
        low = DIGITS + 'abcdefghijklmnopqrstuvwxyz'
        k = z3.Int('k!lab')
        dot = lambda c: among(c, '.' if can else '-_.')
        yield Im(self.has_local, An(is_at(self.D, '+'), self.D + 1 < self.end, self.end <= N, among(C(self.D + 1), low),
                                    among(C(self.end - 1), low),
                                    all_between(self.D + 1, self.end, lambda c: Or(among(c, low), dot(c))),
                                    z3.ForAll([k], Im(An(self.D < k, k < self.end, dot(C(k))), z3.Not(dot(C(k + 1)))), patterns=[C(k)])))
        yield self.end <= N
        self.wild = An(is_at(self.end, '.*'), z3.Not(self.has_local))
        if self.follow:
            yield Or(self.end == N, kind('space', C(self.end)), among(C(self.end), ',)'), self.wild)
        else:
            yield self.end == N
        for x in (self.start, self.R, self.P, self.Q, self.D):
            yield An(self.p <= x, x <= self.end)

    def assume(self):
        for a in text.white_axioms():
            assume(a)
        for f in self.facts():
            for g in conjuncts(f):
                assume(g)
        yes = z3.BoolVal(True)
        text.RUNS[:] = [(self.p, self.start, yes), (self.after_v, self.bang, self.has_epoch), (self.s(0), self.t(0), yes),
                        (self.pre_at, self.P, self.pre != -1), (self.post_at, self.Q, self.post != 0),
                        (self.dev_at, self.D, self.has_dev), (self.D + 1, self.end, self.has_local)]
        a, b = z3.Ints('a!v b!v')
        assume(z3.ForAll([a, b], VAL(a, b) >= 0, patterns=[VAL(a, b)]))

    def release(self):
        return sym.SymSeq(self.n, lambda j: SymInt(VAL(self.s(j), self.t(j))), 'tuple')

    # what the text says
    def parts_are(self, v):
        """obligations: the version has exactly the parts of the text"""
        o = lambda x: x if isinstance(x, SymOpt) else SymOpt(z3.BoolVal(x is None), x)
        e, pr, po, d, l = (o(x) for x in (v.epoch, v.pre_release, v.post_release, v.dev_release, v.local_label))
        j = z3.Int(sym.S.fresh_name('j!rel'))
        r = sym.as_seq(v.release)
        yield 'release length', r.n == self.n
        yield 'release numbers', z3.Implies(z3.And(0 <= j, j < self.n), eqf(r.at(j), SymInt(VAL(self.s(j), self.t(j)))))
        yield 'epoch', z3.And(e.none == z3.Not(self.has_epoch), same(e.val, VAL(self.after_v, self.bang), e.none))
        yield 'pre-release', pr.none == (self.pre == -1)
        if pr.val is not None:
            k, num = pr.val
            yield 'pre-release number', z3.Or(pr.none, eqf(num, SymInt(VAL(self.pre_at, self.P))))
            for i, w in enumerate(WORDS):
                yield f'{w} is {KIND[w]}', z3.Implies(z3.And(z3.Not(pr.none), self.pre == i), eqf(k, KIND[w]))
        yield 'post-release', z3.And(po.none == (self.post == 0), same(po.val, VAL(self.post_at, self.Q), po.none))
        yield 'dev-release', z3.And(d.none == z3.Not(self.has_dev), same(d.val, VAL(self.dev_at, self.D), d.none))
        yield 'local label', l.none == z3.Not(self.has_local)
        if l.val is not None:
            i = z3.Int(sym.S.fresh_name('i!lab'))
            yield 'length of the label', z3.Or(l.none, l.val.n == self.end - self.D - 1)
            c = C(self.D + 1 + i)
            yield 'characters of the label', z3.Implies(z3.And(z3.Not(l.none), 0 <= i, i < self.end - self.D - 1),
                                                        l.val.at(i) == z3.If(among(c, '-_'), ord('.'), c))


def conjuncts(f):
    """the same, in small formulas: those without quantifiers are of more use"""
    if z3.is_and(f):
        for x in f.children():
            yield from conjuncts(x)
    elif z3.is_implies(f):
        for x in conjuncts(f.children()[1]):
            yield z3.Implies(f.children()[0], x)
    else:
        yield f


def same(x, e, none):
    return none if x is None else z3.Or(none, eqf(x, SymInt(e)))


class ReadRelease:
    """the loop that reads the release: the list holds the numbers read so far, the parser stands after the last of them"""

    def __init__(self, p, lay):
        self.p, self.lay = p, lay

    def while_(self, site, cond, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        p, L = self.p, self.lay
        env0 = get()
        valid = lambda f: check_valid(cur().facts(), f, 6000)[0] == 'discharged'
        el = lambda j: SymInt(VAL(L.s(j), L.t(j)))

        def entry():
            if not valid(at(p) == L.t(0)):
                return None
            names = [k for k, v in env0.items() if isinstance(v, VList) and not v.symbolic() and len(v) == 1
                     and isinstance(v[0], SymInt) and valid(v[0].e == VAL(L.s(0), L.t(0)))]
            return names[0] if len(names) == 1 else None

        name = sym.remembered(('release', site), entry)
        if name is None:
            return NotImplemented
        cur().weaken(site)
        lst = env0[name]
        m = fresh('read', I)
        assume(z3.And(1 <= m, m <= L.n))
        for x in (m - 1, m):
            for f in conjuncts(L.segment(x)):
                assume(f)
        lst.clear()
        lst.sym = sym.SymSeq(m, el, 'list')
        p.position = SymInt(L.t(m - 1))
        set_({x: runtime.Poison(env0, x) for x in mods if x != name})
        if not cond():
            return runtime.DONE
        r = body()
        if r is not runtime.CONT:
            return r
        now = get()[name]
        s = sym.as_seq(now)
        j = z3.Int(sym.S.fresh_name('j!inv'))
        prove('one more segment', z3.And(m + 1 <= L.n, at(p) == L.t(m)))
        prove('the numbers read are those of the segments', z3.And(s.n == m + 1, z3.Implies(z3.And(0 <= j, j < m + 1), eqf(s.at(j), el(j)))))
        raise sym.Infeasible()

    def __enter__(self):
        self.saved = list(runtime.while_rules)
        runtime.while_rules.insert(0, self.while_)

    def __exit__(self, *a):
        runtime.while_rules[:] = self.saved
