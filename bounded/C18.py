"""every directive over fetch infos (etag and fetch time absent, empty, present) and times around the retrieval time, created in varying order; histories of fetches of two urls
through one HttpClient (scratch workspace, scripted server answers) under varying directives"""
import datetime
import email.utils

RULE = __doc__
UNPRIV = True


def preload():
    import pkm.utils.http.http_client  # noqa
    import pkm.utils.http.cache_directive  # noqa


def cases(rng, tier):
    for a in 'aun':
        for b in 'aun':
            for st in (200, 304):
                yield {'fetch': [[0, 'a', 200], [0, a, 200], [0, b, st], [0, 'u', 200]]}
    k = 0
    while True:
        k += 1
        if k % 40 == 0:
            yield {'fetch': [[rng.randrange(2), rng.choice('aaunr'), rng.choice([200, 200, 200, 304, 404, 0])] for _ in range(rng.randint(2, 7))]}
        yield {'t': rng.randrange(0, 2 ** 31), 'dt': rng.choice([0, 0, 1, -1, 3600, -3600, 86400 * 400, rng.randrange(-10 ** 8, 10 ** 8)]),
               'us': rng.choice([0, 0, 0, 1, 999999, rng.randrange(10 ** 6)]), 'zone': rng.choice([0, 0, 2, -7]), 'known': rng.random() < .8, 'etag': rng.choice([None, None, '', '"e"', 'W/"x"']),
               'head': rng.choice([{}, {'A': 'b'}]), 'order': rng.sample(['a', 'u', 'n'], 3), 'zone2': rng.choice([0, 0, 3])}


def check_fetch(case):
    import contextlib
    import io
    import types
    from pathlib import Path
    from bounded import fsbox
    from bounded.gap import need
    from pkm.utils.http.http_client import HttpClient, HttpException
    from pkm.utils.http.cache_directive import CacheDirective as C
    need(HttpClient, 'fetch_resource', '_request')
    log = []
    with fsbox.Box() as box:
        class Client(HttpClient):
            @contextlib.contextmanager
            def _request(self, mtd, url, headers, *a, **k):
                st = step[2]
                log.append((str(url), dict(headers)))
                if st == 0:
                    raise OSError('connection lost')

                class Resp(io.BytesIO):
                    status, msg = st, 'm'
                r = Resp(b'data %d' % n)
                r.headers = {'etag': f'e{n}', 'date': 'Wed, 21 Oct 2015 07:28:00 GMT'}
                yield r
        cl = Client(Path(box.path, 'ws'))
        stored = {}
        for n, step in enumerate(case['fetch']):
            u, d, st = step
            url = f'https://h.test/d/f{u}.txt'
            D = {'a': C.allways, 'u': C.ask_for_update, 'n': C.never,
                 'r': lambda: C.if_retrieved_after(datetime.datetime(2014, 1, 1, tzinfo=datetime.timezone.utc))}[d]()
            before = len(log)
            err = None
            got = None
            try:
                got = cl.fetch_resource(url, D)
            except HttpException as e:
                err = e
            asked = len(log) - before
            use = u in stored and d in 'ar'
            if asked != (0 if use else 1):
                return f'step {n} {step}: {asked} requests with copy {stored.get(u)!r} stored, history {case["fetch"]}'
            if not use:
                if u in stored and d == 'u' and log[-1][1].get('If-None-Match') != stored[u][1]:
                    return f'step {n} {step}: headers {log[-1][1]} with stored etag {stored[u][1]}'
                if st == 200:
                    stored[u] = (b'data %d' % n, f'e{n}')
            if (err is None) != (use or st in (200, 304)):
                return f'step {n} {step}: error {err!r}'
            if err is None and u in stored and got.data.read_bytes() != stored[u][0]:
                return f'step {n} {step}: served {got.data.read_bytes()!r}, expected {stored[u][0]!r}, history {case["fetch"]}'


def check(case):
    if 'fetch' in case:
        return check_fetch(case)
    from pkm.utils.http.cache_directive import CacheDirective as C
    z = datetime.timezone(datetime.timedelta(hours=case['zone']))
    when = email.utils.format_datetime(datetime.datetime.fromtimestamp(case['t'], datetime.timezone.utc), usegmt=True) if case['zone2'] == 0 else \
        email.utils.format_datetime(datetime.datetime.fromtimestamp(case['t'], datetime.timezone(datetime.timedelta(hours=case['zone2']))))

    class F:
        etag = case['etag']
        fetch_time = when if case['known'] else None
    dirs = {}
    for k in case['order']:
        dirs[k] = {'a': C.allways, 'u': C.ask_for_update, 'n': C.never}[k]()
    dirs['r'] = C.if_retrieved_after(datetime.datetime.fromtimestamp(case['t'] + case['dt'], z) + datetime.timedelta(microseconds=case.get('us', 0)))
    exp_valid = {'a': True, 'u': False, 'n': False, 'r': case['known'] and case['dt'] * 10 ** 6 + case.get('us', 0) <= 0}
    for k, d in dirs.items():
        if bool(d.is_cache_valid(F)) != exp_valid[k]:
            return f'directive {k}: cache valid is {d.is_cache_valid(F)} for {case}'
        if bool(d.store_result(None)) != (k != 'n'):
            return f'directive {k}: stores {d.store_result(None)}'
        h = dict(case['head'])
        d.add_headers(F, h)
        exp = dict(case['head'])
        if k == 'u':
            if case['etag']:
                exp['If-None-Match'] = case['etag']
            elif case['known']:
                exp['If-Modified-Since'] = when
        if h != exp:
            return f'directive {k}: headers {h}, expected {exp}'
