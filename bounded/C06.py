"""random marker expressions (and/or nesting, parentheses, spacing, both quote kinds, all operators, literals over the whole
PEP 508 character set) against a PEP 508 evaluator on the expression tree"""
import re

from bounded import vgen

RULE = __doc__
CHARS = ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>'
VARS = ['python_version', 'sys_platform', 'os_name', 'platform_machine', 'platform_release', 'implementation_name', 'python_full_version']
WORDS = ['linux', 'win32', 'posix', 'x86_64', 'cpython', 'Darwin', 'J', 'Java', 'lin', 'x', 'and', 'or', 'not in', 'extra', '', 'nt', 'i686']
PRE = ['3.13.0rc1', '3.13.0a7', '3.13.0b2', '3.13.0', '3.13', '3.13.0.dev3', '3.9.0rc2', '3.13a7', '3.12.9', '3.13.1']
VERS = ['3.6', '3.10', '3.9', '3.10.2', '3', '2.7', '3.7.0', '3.8.1', '3.10.0', '4.0', '3.6.0']
OPS = ['<=', '<', '>=', '>', '!=', '==', '~=', '===', 'in', 'not in']


def lit(rng):
    c = rng.random()
    if c < .5:
        return rng.choice(VERS if rng.random() < .75 else PRE)
    if c < .85:
        return rng.choice(WORDS)
    q = rng.choice('\'"')
    return ''.join(rng.choice(CHARS + q) for _ in range(rng.randint(0, 9)))


def atom(rng):
    if rng.random() < .15:
        w = rng.choice(['test', 'dev', 'x', 'foo-bar'])
        return ['extra', w, rng.random() < .8]
    a, b = ['var', rng.choice(VARS)], ['lit', lit(rng)]
    c = rng.random()
    if c < .2:
        a, b = b, a
    elif c < .25:
        a = ['lit', lit(rng)]
    return ['op', rng.choice(OPS), a, b]


def wide(rng):
    # long chains of one connective, nested in the other
    ats = [atom(rng) for _ in range(rng.randint(6, 40))]
    k, o = rng.choice([('and', 'or'), ('or', 'and')])
    t = ats[0]
    for a in ats[1:]:
        t = [k, t, [o, a, atom(rng)] if rng.random() < .15 else a]
    return t


def tree(rng, d):
    if d == 0 or rng.random() < .3:
        return atom(rng)
    return [rng.choice(['and', 'or']), tree(rng, d - 1), tree(rng, d - 1)]


def ws(rng, req=False):
    return rng.choice([' ', '  ', '\t'] if req else ['', ' ', ' ', '  '])


def quote(rng, s):
    q = '"' if "'" in s else "'" if '"' in s else rng.choice('\'"')
    return q + s + q


def render(rng, t, prec=0):
    k = t[0]
    if k in ('and', 'or'):
        p = 2 if k == 'and' else 1
        l, r = render(rng, t[1], p), render(rng, t[2], p + (rng.random() < .5 if t[2][0] == k else 0))
        s = l + ws(rng, True) + k + ws(rng, True) + r
        if p < prec or rng.random() < .2:
            s = '(' + ws(rng) + s + ws(rng) + ')'
        return s
    if k == 'extra':
        a, b = 'extra', quote(rng, t[1])
        if not t[2]:
            a, b = b, a
        s = a + ws(rng) + '==' + ws(rng) + b
    else:
        parts = []
        for x in t[2:]:
            parts.append(x[1] if x[0] == 'var' else quote(rng, x[1]))
        req = t[1] in ('in', 'not in')
        op = t[1] if t[1] != 'not in' else 'not' + ws(rng, True) + 'in'
        s = parts[0] + ws(rng, req) + op + ws(rng, req) + parts[1]
    return '(' + ws(rng) + s + ws(rng) + ')' if rng.random() < .12 else s


def cases(rng, tier):
    for o in OPS:
        for a, b in [('3.10', '3.9'), ('3.9', '3.9'), ('linux', 'linux'), ('linux', 'win32'), ('lin', 'linux'), ('linux', '3.9'), ('3.9', 'linux')]:
            yield {'text': f'python_version {o} "{b}"', 'tree': ['op', o, ['var', 'python_version'], ['lit', b]],
                   'env': {'python_version': a}, 'extras': []}
    for c in CHARS + "'":
        yield {'text': f'sys_platform == "{c}"', 'tree': ['op', '==', ['var', 'sys_platform'], ['lit', c]],
               'env': {'sys_platform': c}, 'extras': []}
    yield {'text': "sys_platform == '\"'", 'tree': ['op', '==', ['var', 'sys_platform'], ['lit', '"']],
           'env': {'sys_platform': 'a'}, 'extras': []}
    while True:
        t = tree(rng, rng.randint(0, 4)) if rng.random() < .97 else wide(rng)
        env = {v: rng.choice((VERS if rng.random() < .75 else PRE) if 'version' in v and rng.random() < .8 else WORDS) for v in VARS}
        yield {'text': ws(rng) + render(rng, t) + ws(rng), 'tree': t, 'env': env,
               'extras': [x for x in ['test', 'dev', 'x', 'foo-bar'] if rng.random() < .4]}


def pre(s):
    """the version written as release, pre-release and dev number, or None"""
    m = re.fullmatch(r'([0-9]+(?:\.[0-9]+)*)(?:(a|b|rc)([0-9]+))?(?:\.dev([0-9]+))?', s)
    return m and {'release': [int(x) for x in m[1].split('.')], 'pre': m[2] and (m[2], int(m[3])), 'dev': m[4] and int(m[4])}


def isver(s):
    return bool(s) and all(p.isdigit() and p.isascii() for p in s.split('.'))


class Undefined(Exception):
    pass


def cmp_(op, a, b):
    if op in ('in', 'not in'):
        return (a in b) == (op == 'in')
    if op == '===':
        return a == b
    va, vb = a.strip(), b.strip()
    if isver(va) and isver(vb):
        x, y = ([int(i) for i in s.split('.')] for s in (va, vb))
        n = max(len(x), len(y))
        px, py = x + [0] * (n - len(x)), y + [0] * (n - len(y))
        if op == '~=':
            if len(y) < 2:
                raise Undefined()
            return px >= py and (x + [0] * n)[:len(y) - 1] == y[:-1]
        return {'<=': px <= py, '<': px < py, '>=': px >= py, '>': px > py, '!=': px != py, '==': px == py}[op]
    if op == '~=':
        raise Undefined()
    if pre(va) and pre(vb):
        x, y = vgen.key(pre(va)), vgen.key(pre(vb))
        return {'<=': x <= y, '<': x < y, '>=': x >= y, '>': x > y, '!=': x != y, '==': x == y}[op]
    for s in (va, vb):
        t = s.lower().lstrip('v(\'" ')
        if t[:1].isdigit() and not isver(s):
            raise Undefined()  # half version-like texts: not claimed
        if '://' in t or t[:1] in '(\'"v@=*!<>~,':
            raise Undefined()
    return {'<=': a <= b, '<': a < b, '>=': a >= b, '>': a > b, '!=': a != b, '==': a == b}[op]


def ev(t, env, extras):
    """(value, certain); and/or short-circuit left to right"""
    k = t[0]
    if k == 'and':
        return ev(t[1], env, extras) and ev(t[2], env, extras)
    if k == 'or':
        return ev(t[1], env, extras) or ev(t[2], env, extras)
    if k == 'extra':
        return t[1] in extras
    a, b = (env[x[1]] if x[0] == 'var' else x[1] for x in t[2:])
    return cmp_(t[1], a, b)


class Env:
    def __init__(self, markers):
        self.markers = markers


def check(case):
    from pkm.api.dependencies.env_markers import EnvironmentMarker
    m = EnvironmentMarker.parse_pep508(case['text'])
    try:
        exp = ev(case['tree'], case['env'], case['extras'])
    except Undefined:
        return None
    got = m.evaluate_on(Env(case['env']), case['extras'])
    if bool(got) != exp:
        return f"marker {case['text']!r} on {case['env']} extras {case['extras']} is {got}, expected {exp}"
