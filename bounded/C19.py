"""random three-part versions (all optional parts) and particles against a direct transcription of the rule"""
from bounded import vgen

RULE = __doc__


def cases(rng, tier):
    while True:
        v = vgen.rversion(rng, maxrel=3)
        v['release'] = [vgen.rnum(rng) for _ in range(3 if rng.random() < .93 else rng.choice([1, 2, 4]))]
        yield {'v': v, 'p': rng.choice(['major', 'minor', 'patch', 'a', 'b', 'rc'])}


def check(case):
    from pkm.utils.commons import UnsupportedOperationException
    d, p = case['v'], case['p']
    v, orig = vgen.build(d), vgen.build(d)
    if len(d['release']) != 3:
        try:
            r = v.bump(p)
        except UnsupportedOperationException:
            return
        return f'bump of {orig} did not refuse: {r}'
    r = v.bump(p)
    f = lambda x: (x.release, x.epoch, x.pre_release, x.post_release, x.dev_release, x.local_label)
    if f(v) != f(orig):
        return f'bump changed {orig} to {v}'
    a, b, c = d['release']
    order = ['a', 'b', 'rc']
    if tuple(r.release) == () or r.epoch != d.get('epoch'):
        return f'epoch of {r} after bumping {orig}'
    if p in ('major', 'minor', 'patch'):
        rel = {'major': (a + 1, 0, 0), 'minor': (a, b + 1, 0), 'patch': (a, b, c + 1)}[p]
        if f(r)[2:] != (None,) * 4 or tuple(r.release) != rel:
            return f'bump {p} of {orig} is {r}'
        return
    pre = d.get('pre')
    if pre is None or order.index(pre[0]) < order.index(p):
        rel, pr = (a, b, c), (p, 0)
    elif pre[0] == p:
        rel, pr = (a, b, c), (p, pre[1] + 1)
    else:
        rel, pr = (a, b, c + 1), (p, 0)
    if tuple(r.release) != rel or tuple(r.pre_release or ()) != pr:
        return f'bump {p} of {orig} is {r}'
