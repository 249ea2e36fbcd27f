"""version texts written down from their parts (normal form, and every mix of the listed spellings with releases up to 8
segments and numbers up to 10^30) parsed and compared with the parts, printed and parsed again; whole text and in brackets,
quotes or white space; standard versions built from parts printed and parsed"""
from bounded import vgen

RULE = __doc__

KINDS = {'a': ['a', 'alpha'], 'b': ['b', 'beta'], 'rc': ['rc', 'c', 'preview']}


def alternative(rng, v):
    t = rng.choice(['', 'v']) if rng.random() < .5 else ''
    if v.get('epoch') is not None:
        t += f"{v['epoch']}!"
    t += '.'.join(map(str, v['release']))
    if v.get('pre') is not None:
        t += f"{rng.choice(KINDS[v['pre'][0]])}{v['pre'][1]}"
    if v.get('post') is not None:
        t += f"-{v['post']}" if rng.random() < .25 else f"{rng.choice('-_.')}{rng.choice(['post', 'rev', 'r'])}{v['post']}"
    if v.get('dev') is not None:
        t += f"{rng.choice('-_.')}dev{v['dev']}"
    if v.get('local') is not None:
        t += '+' + ''.join((rng.choice('-_.') if i else '') + s for i, s in enumerate(v['local']))
    if rng.random() < .3:
        t = ''.join(c.upper() if rng.random() < .5 else c for c in t)
    if rng.random() < .1:
        t = rng.choice([' ', '', '\t', '  ']) + t + rng.choice([' ', '', '\n'])
    return t


def cases(rng, tier):
    out = []
    for r in ([0], [1], [1, 2], [10, 20, 30], [0, 0], [2021, 1, 0, 4], [20211231235959, 10 ** 20 + 7]):
        for e in (None, 0, 1):
            for pre in (None, ['a', 0], ['b', 2], ['rc', 11]):
                for post in (None, 0, 3):
                    for dev in (None, 0, 4):
                        for loc in (None, ['1'], ['ab', '2', 'c3']):
                            out.append({'release': r, 'epoch': e, 'pre': pre, 'post': post, 'dev': dev, 'local': loc})
    rng.shuffle(out)
    for v in out:
        yield {'parts': v, 'text': vgen.text(v), 'normal': True}
        yield {'parts': v, 'text': alternative(rng, v)}
    while True:
        v = vgen.rversion(rng)
        yield {'parts': v, 'text': vgen.text(v), 'normal': True}
        yield {'parts': v, 'text': alternative(rng, v)}


def fields(x):
    return [list(x.release), x.epoch, list(x.pre_release) if x.pre_release is not None else None, x.post_release, x.dev_release,
            x.local_label]


def check(case):
    from pkm.api.versions.version import StandardVersion, Version
    v = case['parts']
    text = case.get('text')
    if text is None:
        text = vgen.text(v)
    want = [v['release'], v.get('epoch'), v.get('pre'), v.get('post'), v.get('dev'), '.'.join(v['local']) if v.get('local') is not None else None]
    for how in (Version.parse, StandardVersion.parse):
        try:
            x = how(text)
        except Exception as e:
            return f'{how.__qualname__}({text!r}) fails: {type(e).__name__}: {e}'
        if type(x) is not StandardVersion or fields(x) != want:
            return f'{how.__qualname__}({text!r}) has the parts {fields(x) if type(x) is StandardVersion else repr(x)}, expected {want}'
        if case.get('normal') and str(x) != text:
            return f'{text!r} is printed as {str(x)!r}'
    b = vgen.build(v)
    try:
        y = Version.parse(str(b))
    except Exception as e:
        return f'parsing {str(b)!r} (printed) fails: {type(e).__name__}: {e}'
    if not (y == b):
        return f'{fields(b)} is printed as {str(b)!r}, which parses to another version: {y!r}'
    return None
