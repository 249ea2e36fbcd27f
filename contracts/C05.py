"""C05: version text"""
from contracts import text, vtext
from contracts.common import *
from contracts.text import C, N, WS, Sl, is_at, position, parser, at, kind
from contracts.vtext import VAL, WORDS, KIND, Layout, ReadRelease
from pyvc import runtime, sym
from pyvc.sym import cur
from pyvc.vc import goal
import pkm.api.versions.version as V
import pkm.api.versions.version_parser as VP

M = 'pkm.api.versions.version_parser:VersionParser'
MV = 'pkm.api.versions.version:StandardVersion'

ASSUMPTIONS = ['str.isdigit/isspace/isalnum: as documented for ASCII, any classes beyond', 'str.lower turns the listed spellings in upper case into those in lower case',
               "the decimal text of n is a run of digits whose number (int) is n, and the number of digits without leading zeros has them as its text"]

text.scanner_goals('C05')
vtext.matching_goals('C05')


def reading(epoch, label, post):
    p = position('p')
    L = Layout('text', p)
    L.assume()
    assume(z3.And(L.has_epoch == epoch, L.has_local == label, (L.post != 0) == post))
    r = parser(VP.VersionParser, p)
    with ReadRelease(r, L):
        v = r.read_version()
    if sym.check_valid(cur().facts(), z3.BoolVal(False), 3000)[0] == 'discharged':
        return  # no text takes this path
    for name, f in L.parts_are(v):
        prove(name, f)
    q = at(r)
    prove('nothing else is read', z3.If(L.wild, q == L.end, z3.And(L.end <= q, q <= N, z3.Or(q == N, z3.Not(kind('space', C(q)))))))
    prove('only white space is skipped', text.all_between(L.end, q, lambda c: kind('space', c)))
    cover('version')


for _e in (False, True):
    for _l in (False, True):
        for _p in (False, True):
            goal('C05', f"reading{'_epoch' * _e}{'_label' * _l}{'_post' * _p}", functions=[f'{M}.read_version', 'pkm.utils.parsers:SimpleParser.read_digits'],
                 setup=vtext.setup, limit_s=400)(lambda e=_e, l=_l, p=_p: reading(e, l, p))


# ------------------------------------------------------------------ printing

DOTTED = z3.Const('dotted_release', R)  # the numbers of the release in decimal, with dots between


def dotted(f, n):
    """join of a symbolic sequence: only that of the decimal numbers of the release is known"""
    def hook(sep, s):
        j = z3.Int(sym.S.fresh_name('j!join'))
        s = s.dense()
        ok = z3.And(s.n == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), s.at(j).e == STROF(f(j)))))
        if sep == '.' and sym.check_valid(cur().facts(), ok, 4000)[0] == 'discharged':
            return SymStr(DOTTED)
        return SymStr(fresh('joined', R))
    return hook


@goal('C05', functions=[f'{MV}.__str__'])
def printing():
    """[E!]N(.N)*[{a|b|rc}N][.postN][.devN][+local]"""
    v = SV('v')
    with patched((runtime, 'join_hook', dotted(v.f, v.n))):
        text_ = str_(v.v)
    exp = ''
    if cur().decide(z3.Not(v.epoch_none)):
        exp = SymStr(STROF(v.epoch)) + '!'
    exp = exp + SymStr(DOTTED)
    if cur().decide(z3.Not(v.pre_none)):
        exp = exp + SymStr(v.prek) + SymStr(STROF(v.pre))
    if cur().decide(z3.Not(v.post_none)):
        exp = exp + '.post' + SymStr(STROF(v.post))
    if cur().decide(z3.Not(v.dev_none)):
        exp = exp + '.dev' + SymStr(STROF(v.dev))
    if cur().decide(z3.Not(v.label_none)):
        exp = exp + '+' + SymStr(v.label)
    prove('the parts in the normal form', text_.e == exp.e)
    prove('no sharing with the parts', True)
    cover('printed')


def str_(x):
    return runtime.b_str(x)


@goal('C05', lemma=True)
def lemma_printed_text_is_the_text_read():
    """A canonical text whose numbers have no leading zeros is, stretch by stretch, what printing its parts gives: the
    stretches printed one after the other (decimal text of the number of a stretch: that stretch) begin where the last ended
    and end with the text."""
    p = position('p')
    L = Layout('text', p, canonical=True, follow=False)
    L.assume()
    assume(z3.And(p == 0, L.start == 0, z3.Not(L.has_v)))
    j = z3.Int('j!any')
    c = z3.IntVal(0)
    step = lambda there, ends: z3.If(there, ends, c)
    prove('epoch', z3.Implies(L.has_epoch, z3.And(L.after_v == c, is_at(L.bang, '!'))))
    c = step(L.has_epoch, L.bang + 1)
    prove('release', z3.And(L.s(0) == c, z3.Implies(z3.And(0 <= j, j + 1 < L.n), z3.And(is_at(L.t(j), '.'), L.s(j + 1) == L.t(j) + 1))))
    c = L.t(L.n - 1)
    for i, w in enumerate(WORDS):
        prove('pre-release', z3.Implies(L.pre == i, z3.And(z3.BoolVal(KIND[w] == w) if KIND[w] == w else L.pre != i, is_at(c, KIND[w]), L.pre_at == c + len(KIND[w]))))
    c = step(L.pre != -1, L.P)
    prove('post-release', z3.Implies(L.post != 0, z3.And(is_at(c, '.post'), L.post_at == c + 5)))
    c = step(L.post != 0, L.Q)
    prove('dev-release', z3.Implies(L.has_dev, z3.And(is_at(c, '.dev'), L.dev_at == c + 4)))
    c = step(L.has_dev, L.D)
    prove('label', z3.Implies(L.has_local, z3.And(is_at(c, '+'), L.D + 1 == c + 1, z3.Not(z3.Or(C(L.D + 1) == ord('-'), C(L.D + 1) == ord('_'))))))
    prove('the end', z3.If(L.has_local, L.end, c) == N)
    cover('canonical')


# ------------------------------------------------------------------ the way from the text to the reader

class Raw(sym.Sym):
    """text that still has upper case letters: its lower case is the symbolic text"""
    __slots__ = ()

    def lower(self):
        return text.whole()

    def __vc_isinstance__(self, t):
        return str in (t if isinstance(t, tuple) else (t,))


@goal('C05', functions=['pkm.api.versions.version_parser:parse_version', f'{MV}.parse', 'pkm.api.versions.version:Version.parse'],
      setup=lambda: entry_setup())
def entry_points():
    """both read the text in lower case, from its start, and return what the reader returns"""
    seen = []

    def read(self):
        prove('from the start', at(self) == 0)
        prove('all of it', z3.And(self.text.lo == 0, self.text.hi == N))
        seen.append(1)
        return 'the version'

    p = position('p')
    k = z3.Int('k!colon')
    assume(z3.ForAll([k], C(k) != ord(':'), patterns=[C(k)]))
    fs = [VP.parse_version, V.Version.parse, V.StandardVersion.parse]
    with patched((VP.VersionParser, 'read_version', read)):
        prove('the version read is returned', fs[cur().choose(3)](Raw()) == 'the version' and len(seen) == 1)
    cover('entry')


def contains(self, s):
    if isinstance(s, str):
        k = z3.Int(sym.S.fresh_name('k!in'))
        return SymBool(z3.Exists([k], z3.And(self.lo <= k, k + len(s) <= self.hi, *[C(k + i) == ord(ch) for i, ch in enumerate(s)])))
    raise sym.Unsupported('in symbolic text')


def entry_setup():
    import contextlib
    st = contextlib.ExitStack()
    st.enter_context(vtext.setup())
    st.enter_context(patched((Sl, '__vc_in__', contains)))
    return st
