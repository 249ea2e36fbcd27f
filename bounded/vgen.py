"""version generators and an independent PEP 440 oracle"""


def key(v):
    rel = list(v['release'])
    while rel and rel[-1] == 0:
        rel.pop()
    pre, post, dev = v.get('pre'), v.get('post'), v.get('dev')
    if pre is None and post is None and dev is not None:
        pk = (0,)
    elif pre is None:
        pk = (2,)
    else:
        pk = (1, pre[0], pre[1])
    loc = v.get('local')
    if loc is None:
        lk = (0,)
    else:
        lk = (1,) + tuple((1, int(s), '') if s.isdigit() else (0, 0, s) for s in loc)
    return (v.get('epoch') or 0, tuple(rel), pk, (0,) if post is None else (1, post), (1,) if dev is None else (0, dev),
            lk)


def text(v):
    t = ''
    if v.get('epoch') is not None:
        t += f"{v['epoch']}!"
    t += '.'.join(map(str, v['release']))
    if v.get('pre') is not None:
        t += f"{v['pre'][0]}{v['pre'][1]}"
    if v.get('post') is not None:
        t += f".post{v['post']}"
    if v.get('dev') is not None:
        t += f".dev{v['dev']}"
    if v.get('local') is not None:
        t += '+' + '.'.join(v['local'])
    return t


def build(v):
    from pkm.api.versions.version import StandardVersion
    return StandardVersion(release=tuple(v['release']), epoch=v.get('epoch'),
                           pre_release=tuple(v['pre']) if v.get('pre') is not None else None,
                           post_release=v.get('post'), dev_release=v.get('dev'),
                           local_label='.'.join(v['local']) if v.get('local') is not None else None)


NUMS = [0, 0, 0, 1, 1, 2, 3, 9, 10, 11, 19, 20, 100, 2021]


def rnum(rng):
    return rng.choice(NUMS) if rng.random() < .97 else rng.randrange(10 ** rng.choice([4, 9, 10, 14, 30]))


def rversion(rng, local=.3, maxrel=4, extras=1.0):
    v = {'release': [rnum(rng) for _ in range(rng.randint(1, maxrel if rng.random() < .95 else 8))]}
    if rng.random() < .15 * extras:
        v['epoch'] = rng.choice([0, 0, 1, 2])
    if rng.random() < .35 * extras:
        v['pre'] = [rng.choice(['a', 'b', 'rc']), rnum(rng)]
    if rng.random() < .3 * extras:
        v['post'] = rnum(rng)
    if rng.random() < .3 * extras:
        v['dev'] = rnum(rng)
    if rng.random() < local:
        v['local'] = [rng.choice(['1', '2', '9', '10', '11', 'a', 'b', 'ab', 'cu1', '0', 'z9', 'abc', '100'])
                      for _ in range(rng.randint(1, 3))]
    return v


def tweak(rng, v):
    """a close relative of v"""
    w = {k: (list(x) if isinstance(x, list) else x) for k, x in v.items()}
    for _ in range(rng.randint(0, 2)):
        c = rng.randrange(9)
        if c == 0:
            w['release'] = w['release'] + [0] * rng.randint(1, 2)
        elif c == 1:
            i = rng.randrange(len(w['release']))
            w['release'][i] = rnum(rng)
        elif c == 2:
            w['epoch'] = rng.choice([None, 0, 1])
        elif c == 3:
            w['pre'] = rng.choice([None, [rng.choice(['a', 'b', 'rc']), rnum(rng)]])
        elif c == 4:
            w['post'] = rng.choice([None, rnum(rng)])
        elif c == 5:
            w['dev'] = rng.choice([None, rnum(rng)])
        elif c == 6:
            w['local'] = rng.choice([None, [rng.choice(['1', '2', '10', 'a', 'b']) for _ in range(rng.randint(1, 3))]])
        elif c == 7 and w.get('local'):
            w['local'] = w['local'][:-1] + [rng.choice(['1', '9', '10', 'a', 'ab', '11'])]
        elif c == 8 and len(w['release']) > 1:
            w['release'] = w['release'][:-1]
    return w


def realise(cands):
    """map {'ord': r} markers in model inputs to strings, order preserving"""
    from fractions import Fraction
    vals = set()

    def walk(x, f):
        if isinstance(x, dict):
            if set(x) == {'ord'}:
                return f(x)
            return {k: walk(v, f) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v, f) for v in x]
        return x

    def num(x):
        s = x['ord'].rstrip('?')
        try:
            return Fraction(s)
        except ValueError:
            return Fraction(0)

    walk(cands, lambda x: vals.add(num(x)) or x)
    names = {r: 'k' + chr(97 + i // 26) + chr(97 + i % 26) for i, r in enumerate(sorted(vals))}
    return walk(cands, lambda x: names[num(x)])
