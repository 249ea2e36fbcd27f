"""C06: environment markers"""
from contracts import text
from contracts.common import *
from contracts.text import C, N, WS, Sl, among, kind, is_at, all_between, position, parser, at, ie
from pyvc import heap, runtime, sym
from pyvc.sym import cur, VList
from pyvc.vc import goal
import pkm.api.dependencies.env_markers as EM
from pkm.api.versions.version import StandardVersion
from pkm.api.versions.version_specifiers import VersionSpecifier

M = 'pkm.api.dependencies.env_markers:PEP508EnvMarkerParser'
P = EM.PEP508EnvMarkerParser
ASSUMPTIONS = ['str.isdigit/isspace/isalpha/isalnum: as documented for ASCII, any classes beyond',
               'eval of repr(a) + operator + repr(b) compares the strings a and b; version and specifier texts: C04, C05',
               'the loops and the recursion of the parser end (partial correctness)']

text.scanner_goals('C06')

# -- the grammar: relations closed under its rules, hence the proofs hold for the least ones --------------------------------
T = z3.DeclareSort('MarkerText')  # strings in the evaluation: literals, values of variables; EXTRAS: the requested extras
LIT = z3.Function('literal', I, I, T)
VALUE = z3.Function('value_of_variable', I, I, T)
EXTRAS = z3.Const('requested_extras', T)
OPS = ['<=', '<', '>=', '>', '!=', '===', '==', '~=', 'in', 'not in']
SEM = z3.Function('comparison', I, T, T, B)

Var = z3.Function('Var', I, I, T, B)
Op = z3.Function('Op', I, I, I, B)
Expr = z3.Function('Expr', I, I, B, B)
Seq = z3.Function('Seq', I, I, B, B, B, B)  # an or-list so far: from, to, has it earlier groups, one of them true, last group
Marker = z3.Function('Marker', I, I, B, B)

PEP508_CHARS = ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>'
ident = lambda c: z3.Or(kind('alnum', c), among(c, '_-.'))


def quoted(p, q, quote):
    """a string literal from p to q"""
    other = '"' if quote == "'" else "'"
    return z3.And(p < q - 1, q <= N, C(p) == ord(quote), C(q - 1) == ord(quote),
                  all_between(p + 1, q - 1, lambda c: among(c, PEP508_CHARS + other)))


def identifier(p, q):
    return z3.And(p < q, q <= N, kind('alpha', C(p)), all_between(p, q, ident), z3.Or(q == N, z3.Not(ident(C(q)))))


def extra(p, q):
    return z3.And(q == p + 5, is_at(p, 'extra'))


def operator(p, q, o):
    """the longest operator at p"""
    sy = [x for x in OPS if not x[0].isalpha()]
    cases = [z3.And(o == OPS.index(x), q == p + len(x), is_at(p, x),
                    *[z3.Not(is_at(p, y)) for y in sy if y.startswith(x) and y != x]) for x in sy]
    cases.append(z3.And(o == OPS.index('in'), q == p + 2, is_at(p, 'in')))
    cases.append(z3.And(o == OPS.index('not in'), is_at(p, 'not'), p + 3 <= q - 2, WS(p + 3, q - 2), is_at(q - 2, 'in')))
    return z3.Or(cases)


def rules():
    p, q, r, a, b, c, d, o = z3.Ints('p q r a b c d o')
    l, t = z3.Consts('l t', T)
    v, w, h, D, k = z3.Bools('v w h D k')
    every = lambda vs, body, *pat: z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pat) if len(pat) > 1 else pat[0]])
    imp, an = z3.Implies, z3.And
    return text.white_axioms() + [
        every([p, a, b, c, d, q, o, l, t], imp(an(Var(p, a, l), WS(a, b), Op(b, c, o), WS(c, d), Var(d, q, t)), Expr(p, q, SEM(o, l, t))),
              Var(p, a, l), Op(b, c, o), Var(d, q, t)),
        every([p, q, r, v], imp(an(C(p) == ord('('), Marker(p + 1, q, v), q < N, C(q) == ord(')'), r == q + 1), Expr(p, r, v)),
              Marker(p + 1, q, v), Expr(p, r, v)),
        every([p, a, q, v], imp(an(WS(p, a), Expr(a, q, v)), Expr(p, q, v)), WS(p, a), Expr(a, q, v)),
        # lists: and binds tighter than or
        every([p, a, q, v], imp(an(Expr(p, a, v), WS(a, q)), Seq(p, q, False, False, v)), Expr(p, a, v), WS(a, q)),
        every([p, a, b, q, r, h, D, k, w], imp(an(Seq(p, a, h, D, k), is_at(a, 'and'), b == a + 3, Expr(b, q, w), WS(q, r)),
              Seq(p, r, h, D, an(k, w))), Seq(p, a, h, D, k), Expr(b, q, w), WS(q, r)),
        every([p, a, b, q, r, h, D, k, w], imp(an(Seq(p, a, h, D, k), is_at(a, 'or'), b == a + 2, Expr(b, q, w), WS(q, r)),
              Seq(p, r, True, z3.Or(an(h, D), k), w)), Seq(p, a, h, D, k), Expr(b, q, w), WS(q, r)),
        every([p, q, h, D, k], imp(Seq(p, q, h, D, k), Marker(p, q, z3.Or(an(h, D), k))), Seq(p, q, h, D, k)),
        every([p, a, q, v], imp(an(WS(p, a), Marker(a, q, v)), Marker(p, q, v)), WS(p, a), Marker(a, q, v)),
    ]


# -- stand-ins ---------------------------------------------------------------------------------------------------------------

class Opnd(sym.Sym):
    """a string (or the requested extras) of the evaluation"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        ex = self.t == EXTRAS
        a_list = any(isinstance([], u) for u in ts)
        a_str = any(isinstance('', u) for u in ts)
        return a_str if a_list == a_str else cur().decide(ex if a_list else z3.Not(ex))

    def __vc_in__(self, x):
        return SymBool(MEMBER(tt(x), self.t))

    def __vc_str__(self):
        return Txt([('str', self.t)])

    def __vc_eq__(self, o):
        return SymBool(tt(o) == self.t)


def tt(x):
    x = runtime.unopt(x)
    if isinstance(x, Txt) and len(x.parts) == 1 and x.parts[0][0] == 'str':
        return x.parts[0][1]
    if isinstance(x, Sl):
        return LIT(x.lo, x.hi)
    if not isinstance(x, Opnd):
        raise sym.Unsupported('something else than a string of the evaluation')
    return x.t


class Txt(sym.Sym):
    """text made of fixed parts and strings of the evaluation"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Txt(self.parts + parts_of(o))

    def __radd__(self, o):
        return Txt(parts_of(o) + self.parts)

    def __vc_str__(self):
        return self

    def __vc_repr__(self):
        return Txt([('repr', tt(self))])

    def __vc_eq__(self, o):
        return SymBool(tt(self) == tt(o))

    def __eq__(self, o):
        return SymBool(tt(self) == tt(o))

    def __ne__(self, o):
        return SymBool(tt(self) != tt(o))

    __hash__ = sym.Sym.__hash__

    def __vc_in__(self, x):
        return SymBool(CONTAINS(tt(self), tt(x)))

    def __lt__(self, o):
        return SymBool(LESS(tt(self), tt(o)))

    def __gt__(self, o):
        return SymBool(LESS(tt(o), tt(self)))

    def __le__(self, o):
        return SymBool(z3.Or(LESS(tt(self), tt(o)), tt(self) == tt(o)))

    def __ge__(self, o):
        return SymBool(z3.Or(LESS(tt(o), tt(self)), tt(self) == tt(o)))


def parts_of(o):
    o = runtime.unopt(o)
    if isinstance(o, Txt):
        return list(o.parts)
    if isinstance(o, Sl):
        for w in OPS:
            if sym.check_valid(cur().facts(), o.same(w), 3000)[0] == 'discharged':
                return [w]
        return [('str', LIT(o.lo, o.hi))]
    if isinstance(o, str):
        return [o]
    raise sym.Unsupported('text of ' + type(o).__name__)


MEMBER = z3.Function('is_among', T, T, B)
CONTAINS = z3.Function('contains', T, T, B)  # CONTAINS(b, a): a in b
LESS = z3.Function('string_less', T, T, B)
IS_VERSION = z3.Function('is_a_version', T, B)
IS_SPEC = z3.Function('is_a_specifier', I, T, B)
ALLOWS = z3.Function('specifier_allows', I, T, T, B)


def evaluate(t):
    """eval of an expression over strings"""
    import ast
    t = runtime.unopt(t)
    if not isinstance(t, Txt):
        raise sym.Unsupported('eval')
    vals, src = {}, ''
    for p in t.parts:
        if isinstance(p, str):
            src += p
        elif p[0] == 'repr':
            n = f'v{len(vals)}_'
            vals[n] = p[1]
            src += ' ' + n + ' '
        else:
            raise sym.Unsupported('eval of text that is not quoted')
    e = ast.parse(src.strip(), mode='eval').body
    if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Name)):
        raise sym.Unsupported('eval of ' + src)
    a, b = vals[e.left.id], vals[e.comparators[0].id]
    return SymBool(compare(type(e.ops[0]), a, b))


def compare(op, a, b):
    import ast
    return {ast.Lt: lambda: LESS(a, b), ast.LtE: lambda: z3.Or(LESS(a, b), a == b), ast.Gt: lambda: LESS(b, a),
            ast.GtE: lambda: z3.Or(LESS(b, a), a == b), ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
            ast.In: lambda: CONTAINS(b, a), ast.NotIn: lambda: z3.Not(CONTAINS(b, a))}[op]()


class AVersion(sym.Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class ASpec(sym.Sym):
    __slots__ = ('o', 't')

    def __init__(self, o, t):
        self.o, self.t = o, t

    def allows_version(self, v):
        return SymBool(ALLOWS(self.o, self.t, v.t))


def version_parse(cls, s):
    t = tt(s)
    if not cur().decide(IS_VERSION(t)):
        raise ValueError('not a version')
    return AVersion(t)


def spec_parse(cls, s):
    s = runtime.unopt(s)
    if not isinstance(s, Txt) or len(s.parts) < 2 or not all(isinstance(x, str) for x in s.parts[:-1]) or s.parts[-1][0] != 'str':
        raise sym.Unsupported('text of a specifier')
    o = OPS.index(''.join(s.parts[:-1]).strip())
    t = s.parts[-1][1]
    if not cur().decide(IS_SPEC(o, t)):
        raise ValueError('not a specifier')
    return ASpec(z3.IntVal(o), t)


class AnEnv(sym.Sym):
    __slots__ = ()

    @property
    def markers(self):
        return Markers()


class Markers(sym.Sym):
    __slots__ = ()

    def __getitem__(self, k):
        return Opnd(VALUE(k.lo, k.hi))


ENV, EX = AnEnv(), Opnd(EXTRAS)


class Const:
    """what the environment and the requested extras make of a parsed part"""

    def __init__(self, x):
        self.x = x

    def __call__(self, e, x):
        if e is not ENV or x is not EX:
            raise sym.Unsupported('evaluated on something else')
        return self.x


def after(self, name):
    q = fresh(name, I)
    assume(z3.And(at(self) <= q, q <= N))
    self.position = SymInt(q)
    return q


def read_var(self):
    p, q = at(self), after(self, 'after_var')
    t = fresh('operand', T)
    assume(Var(p, q, t))
    may_fail(p, self)
    return Const(Opnd(t))


def may_fail(p, self):
    if cur().nondet():
        raise ValueError('Parsing Failed')


def read_op(self):
    p, q = at(self), after(self, 'after_op')
    o = fresh('operator', I)
    assume(Op(p, q, o))
    may_fail(p, self)
    return lambda a, b: SymBool(SEM(o, tt(a), tt(b)))


def read_expr(self):
    p, q = at(self), after(self, 'after_expr')
    v = fresh('value', B)
    assume(Expr(p, q, v))
    may_fail(p, self)
    return Const(SymBool(v))


def read_compound(self):
    p, q = at(self), after(self, 'after_marker')
    v = fresh('value', B)
    assume(Marker(p, q, v))
    may_fail(p, self)
    return Const(SymBool(v))


# contracts of the functions called from the one under verification
CONTRACTS = {'_read_marker_var': read_var, '_read_marker_op': read_op, '_read_marker_expr': read_expr,
             '_read_marker_compound_expr': read_compound}


def calling(*names):
    def setup():
        import contextlib
        st = contextlib.ExitStack()
        st.enter_context(text.setup())
        st.enter_context(patched(*[(P, n, CONTRACTS[n]) for n in names]))
        return st
    return setup


def start(p):
    for a in rules():
        assume(a)
    return parser(P, p)


# -- goals -------------------------------------------------------------------------------------------------------------------

@goal('C06', functions=[f'{M}._read_str'], setup=text.setup)
def string_literals():
    p = position('p')
    r = start(p)
    q = z3.Int('q')
    quote = '\'"'[cur().choose(2)]
    assume(quoted(p, q, quote))
    res = r._read_str()   # no exception
    prove('the literal is read to its end', at(r) == q)
    prove('its characters are the value', z3.And(res.lo == p + 1, res.hi == q - 1))
    cover('literal')


@goal('C06', functions=[f'{M}._read_marker_var', f'{M}._read_identifier', f'{M}._read_str'], setup=text.setup)
def variables_and_literals():
    p = position('p')
    r = start(p)
    try:
        f = r._read_marker_var()
    except Exception:  # which one an incomplete text gets is not specified
        prove('no identifier is refused', z3.Not(z3.And(p < N, kind('alpha', C(p)))))
        return
    q = at(r)
    v = f(ENV, EX)
    t = tt(v)
    prove('inside the text', z3.And(p <= q, q <= N))
    prove('a literal or a variable', z3.Or(
        z3.And(z3.Or(quoted(p, q, "'"), quoted(p, q, '"')), t == LIT(p + 1, q - 1)),
        z3.And(identifier(p, q), extra(p, q), t == EXTRAS),
        z3.And(identifier(p, q), z3.Not(extra(p, q)), t == VALUE(p, q))))
    cover('operand')


@goal('C06', functions=[f'{M}._read_marker_op'], setup=lambda: ops_setup())
def operators():
    p = position('p')
    r = start(p)
    try:
        f = r._read_marker_op()
    except ValueError:
        q, o = z3.Int('q!any'), z3.Int('o!any')
        prove('refused only without an operator', z3.Not(z3.Or([operator(p, p + len(w), z3.IntVal(OPS.index(w))) for w in OPS[:-1]])))
        return
    q = at(r)
    a, b = fresh('a', T), fresh('b', T)
    assume(z3.Not(z3.And(a == EXTRAS, b == EXTRAS)))
    failed = False
    v = None
    try:
        v = form(f(Opnd(a), Opnd(b)))
    except ValueError:
        failed = True
    sem = z3.BoolVal(False)
    for i, w in enumerate(OPS):
        here = operator(p, q, z3.IntVal(i))
        if failed:
            prove('only ~= fails, and on what are no versions', z3.Implies(z3.And(here, a != EXTRAS, b != EXTRAS), z3.And(
                z3.BoolVal(w == '~='), z3.Not(z3.And(IS_VERSION(a), IS_SPEC(i, b))))))
            continue
        prove(f'{w} means what PEP 508 says', z3.Implies(here, v == meaning(w, a, b)))
    if not failed:
        prove('an operator is there', z3.Or([operator(p, q, z3.IntVal(i)) for i in range(len(OPS))]))
    cover('operator')


def ops_setup():
    import contextlib
    st = contextlib.ExitStack()
    st.enter_context(text.setup())
    st.enter_context(patched((EM, 'eval', evaluate), (StandardVersion, 'parse', classmethod(version_parse)),
                             (VersionSpecifier, 'parse', classmethod(spec_parse))))
    return st


def meaning(w, a, b):
    i = OPS.index(w)
    if w == 'in':
        return CONTAINS(b, a)
    if w == 'not in':
        return z3.Not(CONTAINS(b, a))
    le = z3.Or(LESS(a, b), a == b)
    ge = z3.Or(LESS(b, a), a == b)
    string = {'<=': le, '<': LESS(a, b), '>=': ge, '>': LESS(b, a), '!=': a != b, '==': a == b, '===': a == b, '~=': z3.BoolVal(False)}[w]
    versions = z3.And(IS_VERSION(a), IS_SPEC(i, b))
    r = string if w == '===' else z3.If(versions, ALLOWS(i, b, a), string)
    if w in ('==', '==='):
        r = z3.If(a == EXTRAS, MEMBER(b, a), z3.If(b == EXTRAS, MEMBER(a, b), r))
    return r


@goal('C06', functions=[f'{M}._read_marker_expr'], setup=calling('_read_marker_var', '_read_marker_op', '_read_marker_compound_expr'))
def single_expressions():
    p = position('p')
    r = start(p)
    try:
        f = r._read_marker_expr()
    except ValueError:
        return
    prove('the value of the expression read', Expr(p, at(r), form(f(ENV, EX))))
    cover('expression')


class Groups:
    """the loop of _read_marker_compound_expr: one variable holds the last group (None at first), one list the groups before"""

    def __init__(self, p, parser):
        self.p, self.parser = p, parser

    def while_(self, site, cond, body, get, set_, mods):
        if sym.S.bounded is not None:
            return NotImplemented
        env0 = get()
        lists = [n for n, o in env0.items() if isinstance(o, list) and not o]
        preds = [n for n, o in env0.items() if n in mods and o is None]
        if len(lists) != 1 or len(preds) != 1:
            return NotImplemented
        cur().weaken(site)
        ln, pn = lists[0], preds[0]
        ors = env0[ln]
        p, ps = self.p, self.parser
        prove('before the loop only space is read', WS(p, at(ps)))

        def enter():
            set_({m: runtime.Poison(env0, m) for m in mods if m not in (ln, pn)})
            q = fresh('at', I)
            assume(z3.And(p <= q, q <= N))
            ps.position = SymInt(q)
            if cur().nondet():
                assume(WS(p, q))
                set_({pn: None})
                return
            n = fresh('groups', I)
            V = sym.fresh_fun('group', I, B)
            D, k = fresh('earlier', B), fresh('last', B)
            assume(n >= 0)
            j = z3.Int('j!g')
            assume(D == z3.Exists([j], z3.And(0 <= j, j < n, V(j))))
            assume(Seq(p, q, n > 0, D, k))
            set_({pn: Const(SymBool(k))})
            list.clear(ors)
            ors.sym = SymSeq(n, lambda i: Const(SymBool(V(i))), 'list')

        def leave():
            set_({m: env0[m] for m in mods if m in env0})
            list.clear(ors)
            ors.sym = None

        def run():
            text.own(ps, ors)
            enter()
            if not cond():
                return
            r = body()
            if r is not runtime.CONT:
                return
            e = get()
            h, D, k = fresh('has', B), fresh('earlier', B), fresh('last', B)
            now = e[ln]
            assume(h == form(runtime.b_len(now) > 0))
            assume(D == form(runtime.b_any(SymSeq(ie(runtime.b_len(now)), lambda i: sym.as_seq(now).at(i)(ENV, EX), 'list'))))
            assume(k == form(e[pn](ENV, EX)))
            prove('the groups read so far', Seq(p, at(ps), h, D, k))

        if not isinstance(ors, VList):
            return NotImplemented
        sym.remembered(('groups', site), lambda: sym.explore(run, parent=cur()) and leave() or True)
        leave()
        enter()
        if not cond():
            return runtime.DONE
        r = body()
        if r is runtime.CONT:
            raise sym.Infeasible()
        return r

    def __enter__(self):
        self.saved = list(runtime.while_rules)
        runtime.while_rules.insert(0, self.while_)

    def __exit__(self, *a):
        runtime.while_rules[:] = self.saved


@goal('C06', functions=[f'{M}._read_marker_compound_expr'], setup=calling('_read_marker_expr'))
def lists_of_expressions():
    p = position('p')
    r = start(p)
    with Groups(p, r):
        try:
            f = r._read_marker_compound_expr()
        except ValueError:
            return
    v = fresh('result', B)
    assume(v == form(f(ENV, EX)))
    prove('and binds tighter than or', Marker(p, at(r), v))
    cover('list')


@goal('C06', functions=[f'{M}.read_marker', 'pkm.api.dependencies.env_markers:EnvironmentMarker.evaluate_on',
                        'pkm.api.dependencies.env_markers:EnvironmentMarker.__str__',
                        'pkm.api.dependencies.env_markers:EnvironmentMarker.parse_pep508'], setup=calling('_read_marker_compound_expr'))
def markers():
    p = position('p')
    r = start(p)
    whole = bool(sym_bool('whole_text'))
    if whole:
        p = z3.IntVal(0)
    try:
        m = EM.EnvironmentMarker.parse_pep508(text.whole()) if whole else r.read_marker()
    except ValueError:
        return
    s = m.__str__()
    prove('the value of the marker', Marker(p, s.hi, form(m.evaluate_on(ENV, EX))))
    prove('the text of the marker', s.lo == p)
    cover('marker')


@goal('C06', lemma=True)
def the_grammar_of_lists():
    """Seq is the usual grammar: Or := And ('or' And)*, And := Expr ('and' Expr)*"""
    And = z3.Function('And_', I, I, B, B)
    Or = z3.Function('Or_', I, I, B, B)
    p, a, b, c, q, r = z3.Ints('p a b c q r')
    v, w = z3.Bools('v w')
    every = lambda vs, body, *pat: assume(z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pat) if len(pat) > 1 else pat[0]]))
    # positions are those after trailing white space
    every([p, a, q, v], z3.Implies(z3.And(Expr(p, a, v), WS(a, q)), And(p, q, v)), Expr(p, a, v), WS(a, q))
    every([p, a, b, q, r, v, w], z3.Implies(z3.And(And(p, a, v), is_at(a, 'and'), b == a + 3, Expr(b, q, w), WS(q, r)), And(p, r, z3.And(v, w))),
          And(p, a, v), Expr(b, q, w), WS(q, r))
    every([p, q, v], z3.Implies(And(p, q, v), Or(p, q, v)), And(p, q, v))
    every([p, a, b, q, v, w], z3.Implies(z3.And(Or(p, a, v), is_at(a, 'or'), b == a + 2, And(b, q, w)), Or(p, q, z3.Or(v, w))),
          Or(p, a, v), And(b, q, w))
    seq = lambda p, q, h, D, k: z3.If(h, z3.Exists([a, b], z3.And(Or(p, a, D), is_at(a, 'or'), b == a + 2, And(b, q, k))), And(p, q, k))
    h, D, k, u = (fresh(n, B) for n in ('h', 'D', 'k', 'u'))
    P, A, Bq, Q, R_ = (fresh(n, I) for n in 'PABQR')
    assume(seq(P, A, h, D, k))
    assume(z3.And(Expr(Bq, Q, u), WS(Q, R_)))
    prove('first', z3.Implies(Bq == P, seq(P, R_, z3.BoolVal(False), z3.BoolVal(False), u)))
    prove('and', z3.Implies(z3.And(is_at(A, 'and'), Bq == A + 3), seq(P, R_, h, D, z3.And(k, u))))
    prove('or', z3.Implies(z3.And(is_at(A, 'or'), Bq == A + 2), seq(P, R_, z3.BoolVal(True), z3.Or(z3.And(h, D), k), u)))
    prove('the end', Or(P, A, z3.Or(z3.And(h, D), k)))
    cover('grammar')


def to_cases(goal, inputs):
    return []
