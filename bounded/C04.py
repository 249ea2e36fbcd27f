"""specifier texts of up to 4 clauses (every operator, prefix forms, ~=, *; normal and alternative spellings, optional
white space and parentheses), checked on probe versions close to the bounds against the clauses read by the PEP 440 order of
an independent oracle"""
from bounded import vgen
from bounded.C05 import alternative

RULE = __doc__

OPS = ['==', '!=', '>=', '>', '<=', '<', '~=', '==*', '!=*', '*']


def final(v):
    return all(v.get(k) is None for k in ('pre', 'post', 'dev', 'local'))


def rclause(rng):
    op = rng.choice(OPS)
    if op == '*':
        return [op, None]
    v = vgen.rversion(rng, local=.05, extras=.6)
    v['release'] = [rng.choice([0, 1, 1, 2, 9, 10]) for _ in v['release']]
    if op.endswith('*'):
        for k in ('pre', 'post', 'dev', 'local'):
            v.pop(k, None)
    if op == '~=':
        v.pop('local', None)
        if len(v['release']) == 1:
            v['release'] += [rng.choice([0, 1, 9])]
    return [op, v]


def written(rng, cl, plain):
    ws = lambda: '' if plain else rng.choice(['', '', '', ' ', '  ', '\t'])
    parts = []
    for op, v in cl:
        if v is None:
            parts.append('*')
            continue
        t = (vgen.text(v) if plain else alternative(rng, v).strip())
        if op.endswith('*'):
            t += '.*'
            op = op[:2]
        parts.append(op + ws() + t)
    s = ','.join(ws() + p + ws() for p in parts)
    if not plain and rng.random() < .3:
        s = '(' + s + ')'
    return ws() + s


def probes(rng, cl):
    out = []
    for op, v in cl:
        if v is None:
            continue
        base = {k: x for k, x in v.items() if k not in ('local', 'post')}
        out.append(base)
        r, e = v['release'], v.get('epoch')
        for rel in (r + [0], r + [1], r[:-1] or [0], r[:-1] + [r[-1] + 1], r[:-2] + [r[max(0, len(r) - 2)] + 1, 0], r[:-1] + [max(0, r[-1] - 1)],
                    r[:-2] + [r[max(0, len(r) - 2)] + 1], r + [0, 5], r[:-1] + [r[-1] + 1, 1], r[:-1] + [0]):
            out.append({'release': rel, 'epoch': e})
        out.append({'release': r, 'epoch': (e or 0) + 1})
        out.append({'release': r, 'epoch': e, 'pre': ['rc', 1]})
        out.append({'release': r, 'epoch': e, 'dev': 3})
        out.append({k: x for k, x in vgen.tweak(rng, base).items() if k not in ('local', 'post')})
    rng.shuffle(out)
    return out[:12] + [{k: x for k, x in vgen.rversion(rng, local=0).items() if k != 'post'}]


def cases(rng, tier):
    for op in OPS:
        for r in ([1], [1, 2], [1, 0], [2, 9], [1, 2, 3], [0, 9, 10]):
            for e in (None, 1):
                if (op == '~=' and len(r) == 1) or (op == '*' and r != [1]):
                    continue
                cl = [[op, None if op == '*' else {'release': r, 'epoch': e}]]
                for plain in (True, False):
                    yield {'clauses': cl, 'text': written(rng, cl, plain), 'probes': probes(rng, cl) + [{'release': [1]}]}
    while True:
        cl = [rclause(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        yield {'clauses': cl, 'text': written(rng, cl, rng.random() < .3), 'probes': probes(rng, cl)}


def starts(w, prefix):
    r = list(w['release']) + [0] * len(prefix)
    return r[:len(prefix)] == list(prefix)


def accepts(cl, w):
    """None: no claim"""
    op, v = cl
    if op == '*':
        return True
    a, b = vgen.key(w), vgen.key(v)
    if op in ('==*', '!=*', '~='):
        if not final(w):
            return None
        same = (v.get('epoch') or 0) == (w.get('epoch') or 0)
        if op == '~=':
            return a >= b and same and starts(w, v['release'][:-1])
        return (same and starts(w, v['release'])) == (op == '==*')
    return {'==': a == b, '!=': a != b, '>=': a >= b, '>': a > b, '<=': a <= b, '<': a < b}[op]


def check(case):
    from pkm.api.versions.version_specifiers import VersionSpecifier
    text = case['text']
    try:
        s = VersionSpecifier.parse(text)
    except Exception as e:
        return f'{text!r} fails: {type(e).__name__}: {e}'
    for w in case['probes']:
        want = [accepts(c, w) for c in case['clauses']]
        if None in want and False not in want:
            continue
        want = False not in want
        got = s.allows_version(vgen.build(w))
        if bool(got) != want:
            return f'{text!r} allows {vgen.text(w)}: {got}, expected {want}'
    return None
