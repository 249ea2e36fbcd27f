"""strings as functions of one arbitrary input text: finite-state transducers.  Methods like strip, lower, replace and re.sub of a
character class compose transducers; equality of two such results for every input text is decided by automata algorithms
(the back end `transducers`), and a difference yields the shortest text found that shows it."""
import re
import sys
from collections import deque
from re import _parser as sre

from . import sym, runtime
from .sym import Unsupported

LETTERS = [chr(i) for i in range(128)]
OTHER = ['\xa0', '\xe9', '\xc9', 'ſ', 'K', '٣', '中', '·']  # samples of what is not ASCII
ALPHABET = LETTERS + OTHER
ASCII = set(LETTERS)
_uniform = {}


class FST:
    """state 0 is the start; delta[q][letter] = [(q', output)]; final[q] = output at the end"""
    __slots__ = ('delta', 'final')

    def __init__(self, delta, final):
        self.delta, self.final = delta, final

    def run(self, w, q=0):
        """outputs of all accepting runs"""
        cur = {(q, '')}
        for c in w:
            cur = {(q2, o + x) for q1, o in cur for q2, x in self.delta[q1].get(c, ())}
        return {o + self.final[q] for q, o in cur if q in self.final}


def _build(start, step, fin):
    """explore from a structured start state; step(s, a) -> [(s', out)], fin(s) -> out or None"""
    ids, delta, final, todo = {start: 0}, [{}], {}, [start]
    while todo:
        s = todo.pop()
        q = ids[s]
        f = fin(s)
        if f is not None:
            final[q] = f
        for a in ALPHABET:
            for s2, o in dict.fromkeys(step(s, a)):
                if s2 not in ids:
                    ids[s2] = len(ids)
                    delta.append({})
                    todo.append(s2)
                    if len(ids) > 4000:
                        raise Unsupported('transducer too large')
                delta[q].setdefault(a, []).append((ids[s2], o))
    return trim(FST(delta, final))


def trim(t):
    rev = {}
    for q, d in enumerate(t.delta):
        for a, xs in d.items():
            for q2, _ in xs:
                rev.setdefault(q2, set()).add(q)
    live, todo = set(t.final), list(t.final)
    while todo:
        for p in rev.get(todo.pop(), ()):
            if p not in live:
                live.add(p)
                todo.append(p)
    return FST([{a: [x for x in xs if x[0] in live] for a, xs in d.items() if any(x[0] in live for x in xs)} if q in live else {}
                for q, d in enumerate(t.delta)], dict(t.final))


def letterwise(f):
    return _build(0, lambda s, a: [(0, f(a))], lambda s: '')


IDENT = letterwise(lambda a: a)


def compose(t1, t2):
    """first t1, then t2"""
    def feed(q, w):
        cur = [(q, '')]
        for c in w:
            cur = [(q2, o + x) for q1, o in cur for q2, x in t2.delta[q1].get(c, ())]
        return cur

    def step(s, a):
        out = []
        for q1, w in t1.delta[s[0]].get(a, ()):
            out += [((q1, q2), o) for q2, o in feed(s[1], w)]
        return out

    def fin(s):
        if s[0] not in t1.final:
            return None
        for q2, o in feed(s[1], t1.final[s[0]]):
            if q2 in t2.final:
                return o + t2.final[q2]
        return None
    return _build((0, 0), step, fin)


# -- languages: complete deterministic automata over the alphabet ------------------------------------------------------

class DFA:
    __slots__ = ('delta', 'acc')

    def __init__(self, delta, acc):
        self.delta, self.acc = delta, acc

    def shortest(self):
        seen, todo = {0: ''}, deque([0])
        while todo:
            q = todo.popleft()
            if q in self.acc:
                return seen[q]
            for a in ALPHABET:
                p = self.delta[q][a]
                if p not in seen:
                    seen[p] = seen[q] + a
                    todo.append(p)
        return None

    def accepts(self, w):
        q = 0
        for c in w:
            q = self.delta[q][c]
        return q in self.acc


def determinise(start, step, acc):
    """start: frozenset; step(s, a) -> iterable of states; acc(s) -> bool"""
    ids, delta, todo, ac = {start: 0}, [{}], [start], set()
    while todo:
        S = todo.pop()
        q = ids[S]
        if any(acc(s) for s in S):
            ac.add(q)
        for a in ALPHABET:
            T = frozenset(x for s in S for x in step(s, a))
            if T not in ids:
                ids[T] = len(ids)
                delta.append({})
                todo.append(T)
                if len(ids) > 4000:
                    raise Unsupported('automaton too large')
            delta[q][a] = ids[T]
    return DFA(delta, ac)


def dfa_of(start, step, acc):
    return determinise(frozenset([start]), lambda s, a: [step(s, a)], acc)


def product(d1, d2, f):
    return dfa_of((0, 0), lambda s, a: (d1.delta[s[0]][a], d2.delta[s[1]][a]), lambda s: f(s[0] in d1.acc, s[1] in d2.acc))


ALL = dfa_of(0, lambda s, a: 0, lambda s: True)


def complement(d):
    return DFA(d.delta, set(range(len(d.delta))) - d.acc)


def minus(a, b):
    return product(a, b, lambda x, y: x and not y)


def inter(a, b):
    return product(a, b, lambda x, y: x and y)


def preimage(t, d):
    """texts t maps into d"""
    def feed(q, w):
        for c in w:
            q = d.delta[q][c]
        return q
    return determinise(frozenset([(0, 0)]), lambda s, a: [(q, feed(s[1], o)) for q, o in t.delta[s[0]].get(a, ())],
                       lambda s: s[0] in t.final and feed(s[1], t.final[s[0]]) in d.acc)


def domain(t):
    return preimage(t, ALL)


def restrict(t, d):
    return _build((0, 0), lambda s, a: [((q, d.delta[s[1]][a]), o) for q, o in t.delta[s[0]].get(a, ())],
                  lambda s: t.final[s[0]] if s[0] in t.final and s[1] in d.acc else None)


def regex_dfa(pattern):
    """texts a simple regular expression (character classes, *, +, ?, groups, alternatives) matches in full"""
    eps, edges = [[]], [[]]

    def new():
        eps.append([])
        edges.append([])
        return len(eps) - 1

    def go(items, q):
        for op, av in items:
            n = str(op)
            if n in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY', 'CATEGORY', 'RANGE'):
                r = new()
                edges[q].append((_charset([(op, av)]), r))
                q = r
            elif n == 'MAX_REPEAT':
                lo, hi, sub = av
                for _ in range(lo):
                    q = go(sub, q)
                if hi == sre.MAXREPEAT:
                    a = new()
                    eps[q].append(a)
                    b = go(sub, a)
                    eps[b].append(a)
                    q = a
                else:
                    r = new()
                    for _ in range(hi - lo):
                        eps[q].append(r)
                        q = go(sub, q)
                    eps[q].append(r)
                    q = r
            elif n == 'SUBPATTERN':
                q = go(av[3], q)
            elif n == 'BRANCH':
                r = new()
                for alt in av[1]:
                    eps[go(alt, q)].append(r)
                q = r
            else:
                raise Unsupported(f'regular expression {n}')
        return q
    end = go(sre.parse(pattern), 0)

    def close(S):
        S, todo = set(S), list(S)
        while todo:
            for x in eps[todo.pop()]:
                if x not in S:
                    S.add(x)
                    todo.append(x)
        return S
    return determinise(frozenset(close([0])), lambda s, a: close([r for cs, r in edges[s] if a in cs]), lambda s: s == end)


def _charset(items):
    import re._compiler as comp
    p = sre.SubPattern(sre.State(), list(items))
    code = comp.compile(p)
    return {c for c in ALPHABET if code.fullmatch(c)}


# -- equivalence ---------------------------------------------------------------------------------------------------------

def differ(t1, t2, dom=ALL):
    """a text of dom for which the results differ (or only one is defined), None if there is none"""
    t1, t2 = restrict(t1, dom), restrict(t2, dom)
    a, b = domain(t1), domain(t2)
    for x, y in ((a, b), (b, a)):
        w = minus(x, y).shortest()
        if w is not None:
            return w
    # functional transducers on one domain: in the trimmed product every pair of states has one delay
    fwd, rev = {}, {}
    start = (0, 0)
    todo, seen = [start], {start}
    while todo:
        s = todo.pop()
        fwd.setdefault(s, [])
        for c, xs in t1.delta[s[0]].items():
            for q1, o1 in xs:
                for q2, o2 in t2.delta[s[1]].get(c, ()):
                    n = (q1, q2)
                    fwd.setdefault(s, []).append((c, o1, o2, n))
                    rev.setdefault(n, set()).add(s)
                    if n not in seen:
                        seen.add(n)
                        todo.append(n)
    fin = [s for s in seen if s[0] in t1.final and s[1] in t2.final]
    tail, todo = {s: '' for s in fin}, deque(fin)
    while todo:
        s = todo.popleft()
        for p in rev.get(s, ()):
            if p not in tail:
                c = next(c for c, _, _, n in fwd[p] if n == s)
                tail[p] = c + tail[s]
                todo.append(p)
    delay = {start: ('', '')}
    word = {start: ''}
    todo = deque([start])

    def bad(*ws):
        for w in ws:
            if len(w) < 400 and t1.run(w) != t2.run(w):
                return w
        raise Unsupported('difference without a witness')
    while todo:
        s = todo.popleft()
        if s not in tail:
            continue
        d1, d2 = delay[s]
        if s in fin and d1 + t1.final[s[0]] != d2 + t2.final[s[1]]:
            return bad(word[s])
        for c, o1, o2, n in fwd.get(s, ()):
            if n not in tail:
                continue
            x, y = d1 + o1, d2 + o2
            k = 0
            while k < min(len(x), len(y)) and x[k] == y[k]:
                k += 1
            nd = (x[k:], y[k:])
            w = word[s] + c
            if nd[0] and nd[1]:
                return bad(w + tail[n])
            if n in delay:
                if delay[n] != nd:
                    return bad(w + tail[n], word[n] + tail[n])
            else:
                if len(nd[0]) + len(nd[1]) > 200:
                    raise Unsupported('unbounded delay')
                delay[n] = nd
                word[n] = w
                todo.append(n)
    return None


# -- symbolic strings ----------------------------------------------------------------------------------------------------

class Base:
    """an arbitrary text of a regular language"""

    def __init__(self, dom=ALL):
        self.dom = dom

    def text(self):
        return FStr(self, IDENT)


def _class_uniform(p, chars):
    """the sample characters stand for all others: the character class holds all or none of what is not ASCII"""
    key = p.pattern, p.flags, chars
    if key not in _uniform:
        f = p.fullmatch
        _uniform[key] = len({bool(f(chr(i))) for i in range(128, sys.maxunicode + 1) if not 0xd800 <= i < 0xe000}) == 1
    return _uniform[key]


class FStr(sym.Sym):
    __slots__ = ('base', 't')

    def __init__(self, base, t):
        self.base, self.t = base, t

    def _then(self, t):
        return FStr(self.base, compose(self.t, t))

    def _ascii_only(self, what):
        """nothing outside ASCII reaches a step that treats such characters one by one"""
        d = dfa_of(0, lambda s, a: 1 if s or a not in ASCII else 0, lambda s: s == 1)
        if inter(self.base.dom, preimage(self.t, d)).shortest() is not None:
            raise Unsupported(f'{what} of a text that may hold other characters than ASCII')

    def decide(self, lang):
        """does the result lie in the language: forks, restricting the input text"""
        yes = inter(self.base.dom, preimage(self.t, lang))
        no = minus(self.base.dom, preimage(self.t, lang))
        if no.shortest() is None:
            return True
        if yes.shortest() is None:
            return False
        if sym.cur().depth:
            raise Unsupported('condition on a text inside a summarised expression')
        r = sym.cur().nondet()
        self.base.dom = yes if r else no
        return r

    def __bool__(self):
        return not self.decide(dfa_of(0, lambda s, a: 1, lambda s: s == 0))

    def __vc_str__(self):
        return self

    def __vc_eq__(self, o):
        if isinstance(o, str):
            return self.decide(_word(o))
        if isinstance(o, FStr) and o.base is self.base:
            if differ(self.t, o.t, self.base.dom) is None:
                return True
        raise Unsupported('comparison of texts')

    def __eq__(self, o):
        return self.__vc_eq__(o) if isinstance(o, (str, FStr)) else False

    def __ne__(self, o):
        return not self == o

    __hash__ = sym.Sym.__hash__

    def __contains__(self, x):
        if not isinstance(x, str):
            raise Unsupported('in')
        return self.decide(regex_dfa(f'(.|\n)*{re.escape(x)}(.|\n)*'))

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return self.decide(regex_dfa('(' + '|'.join(map(re.escape, ps)) + ')(.|\n)*'))

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return self.decide(regex_dfa('(.|\n)*(' + '|'.join(map(re.escape, ps)) + ')'))

    def __add__(self, o):
        if isinstance(o, str):
            return FStr(self.base, FST(self.t.delta, {q: f + o for q, f in self.t.final.items()}))
        raise Unsupported('concatenation')

    def __radd__(self, o):
        if isinstance(o, str):
            return self._then(_build(0, lambda s, a: [(1, (o if s == 0 else '') + a)], lambda s: o if s == 0 else ''))
        raise Unsupported('concatenation')

    def lower(self):
        self._ascii_only('lower')
        return self._then(letterwise(lambda a: a.lower() if a in ASCII else a))

    casefold = lower

    def upper(self):
        self._ascii_only('upper')
        return self._then(letterwise(lambda a: a.upper() if a in ASCII else a))

    def _strip(self, chars, left, right):
        if chars is None:
            self._ascii_only('strip')
            inset = lambda a: a.isspace()
        elif isinstance(chars, str) and set(chars) <= ASCII:
            inset = lambda a: a in chars
        else:
            raise Unsupported('strip')

        # lead: only letters to strip so far; mid: the last letter to keep lies ahead; tail: it lies behind
        keep = lambda a: [('mid', a), ('tail', a)] if right else [('mid', a)]

        def step(s, a):
            if s == 'lead':
                if not inset(a):
                    return keep(a)
                return [('lead', '')] if left else [('mid', a), ('gone', '')]
            if s == 'mid':
                return [('mid', a)] if inset(a) else keep(a)
            return [(s, '')] if inset(a) else []
        return self._then(_build('lead', step, lambda s: None if s == 'mid' and right else ''))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, a, b, *n):
        if n or not isinstance(a, str) or not isinstance(b, str) or len(a) != 1 or a not in ASCII:
            raise Unsupported('replace')
        return self._then(letterwise(lambda x: b if x == a else x))

    def translate(self, table):
        if not isinstance(table, dict) or any(k >= 128 for k in table):
            raise Unsupported('translate')
        return self._then(letterwise(lambda x: x.translate(table)))

    def isalnum(self):
        self._ascii_only('isalnum')
        return self.decide(_all_chars(str.isalnum))

    def isdigit(self):
        self._ascii_only('isdigit')
        return self.decide(_all_chars(str.isdigit))

    def isascii(self):
        return self.decide(dfa_of(0, lambda s, a: 1 if s or a not in ASCII else 0, lambda s: s == 0))

    def __vc_re__(self, p, name, args):
        if name == 'sub' and len(args) == 2 and isinstance(args[0], str) and '\\' not in args[0] and args[1] is self:
            cs, many = _class(p)
            if not _class_uniform(p, cs):
                self._ascii_only('a character class')
            rep = args[0]

            def step(s, a):
                if a in cs:
                    return [(1, '' if s and many else rep)]
                return [(0, a)]
            return self._then(_build(0, step, lambda s: ''))
        if name == 'fullmatch' and len(args) == 1:
            if p.flags & re.IGNORECASE:
                raise Unsupported('flags of a regular expression')
            return self.decide(regex_dfa(p.pattern)) or None
        raise Unsupported(f're.{name}')


def _class(p):
    items = list(sre.parse(p.pattern, p.flags))
    if len(items) != 1:
        raise Unsupported('regular expression')
    op, av = items[0]
    many = False
    if str(op) == 'MAX_REPEAT' and av[0] == 1 and av[1] == sre.MAXREPEAT and len(av[2]) == 1:
        many = True
        op = av[2][0][0]
    if str(op) not in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY', 'CATEGORY'):
        raise Unsupported('regular expression')
    return frozenset(c for c in ALPHABET if p.fullmatch(c)), many


def _word(w):
    return regex_dfa(re.escape(w)) if w else dfa_of(0, lambda s, a: 1, lambda s: s == 0)


def _all_chars(f):
    return dfa_of(0, lambda s, a: 1 if s in (0, 1) and f(a) else 2, lambda s: s == 1)


def prove_equal(name, a, b, show=None):
    """a == b for every input text of the domain of this path"""
    w = differ(a.t, b.t, a.base.dom)
    _obligation(name, w, show)


def prove_in(name, a, lang, show=None):
    w = minus(a.base.dom, preimage(a.t, lang)).shortest()
    _obligation(name, w, show)


def prove_domain(name, base, lang, show=None):
    """every input text of this path lies in the language"""
    _obligation(name, minus(base.dom, lang).shortest(), show)


def _obligation(name, w, show):
    s = sym.S
    o = sym.Obligation(name, 'discharged' if w is None else 'refuted', 'transducers', 0.0, 0, None,
                       None if w is None else {'text': w}, '' if w is None else f'{name}: not for the text {w!r}')
    s.obligations.append(o)
    if w is not None and s.stop_at_refuted:
        raise sym.Refuted(o)


def _re_call(o, name, a, k):
    """calls of the re module on such strings"""
    hit = [x for x in a if isinstance(x, FStr)]
    if not hit:
        return NotImplemented
    if o is re:
        p = re.compile(a[0], k.pop('flags', 0)) if not isinstance(a[0], re.Pattern) else a[0]
        a = a[1:]
    else:
        p = o
    if k:
        raise Unsupported('re')
    return hit[0].__vc_re__(p, name, list(a))


runtime.re_hooks.append(_re_call)
