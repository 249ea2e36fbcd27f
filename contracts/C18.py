"""C18: http cache directives and the decision of a fetch"""
import contextlib
import email.utils as eu
import types

from contracts.common import *
from contracts.lib import AbsMap, AbsTime, any_key
from pyvc.vc import goal
import pkm.utils.http.http_client as H
from pkm.utils.http.cache_directive import CacheDirective as C

M = 'pkm.utils.http.cache_directive:CacheDirective'
ASSUMPTIONS = ['email.utils.parsedate_to_datetime maps a retrieval time text to a whole second on one time line',
               'the request itself (HttpClient._request), the files of a resource and the fetch monitor are replaced by '
               'arbitrary outcomes; a fetch runs alone (no other fetch of the url is in progress)']
TIME = z3.Function('time_of_text', R, R)


class AbsInfo:
    """fetch information: etag and retrieval time, each possibly absent"""

    def __init__(self, n):
        self.etag = SymOpt(z3.Bool(n + '.etag.none'), sym_str(n + '.etag'))
        self.fetch_time = SymOpt(z3.Bool(n + '.time.none'), sym_str(n + '.time'))
        register_input('etag', self.etag)
        register_input('fetch_time', self.fetch_time)


def parse(s):
    x = runtime.unopt(s)
    if x is None:
        raise TypeError('no text')
    t = TIME(sym.se(x))
    assume(t == z3.ToReal(z3.ToInt(t)))  # such a text names a whole second
    return AbsTime(t)


def setup():
    return patched((eu, 'parsedate_to_datetime', parse))


def kinds():
    return {'a': C.allways(), 'u': C.ask_for_update(), 'n': C.never()}


@goal('C18', functions=[f'{M}.if_retrieved_after'], setup=setup)
def valid_iff_retrieved_not_before():
    info, dt = AbsInfo('f'), AbsTime(z3.Real('dt'))
    r = C.if_retrieved_after(dt).is_cache_valid(info)
    cover('answer')
    prove('valid <=> known and not before T', iff(r, z3.And(z3.Not(info.fetch_time.none), TIME(info.fetch_time.val.e) >= dt.e)))


@goal('C18', functions=[f'{M}.allways', f'{M}.ask_for_update', f'{M}.never'], setup=setup)
def fixed_answers():
    info = AbsInfo('f')
    # in any order of creation, and again when asked a second time
    for _ in range(2):
        for k, d in kinds().items():
            prove(f'{k}: validity', iff(d.is_cache_valid(info), k == 'a'))
            prove(f'{k}: storing', iff(d.store_result(None), k != 'n'))
    prove('retrieved-after stores', iff(C.if_retrieved_after(AbsTime(z3.Real('dt'))).store_result(None), True))


@goal('C18', functions=[f'{M}.ask_for_update', f'{M}.add_headers'], setup=setup)
def headers_sent():
    info = AbsInfo('f')
    has = lambda o: z3.And(z3.Not(o.none), o.val.e != str_lit(''))
    for k, d in {**kinds(), 'r': C.if_retrieved_after(AbsTime(z3.Real('dt')))}.items():
        h = AbsMap('headers')
        old = h.snapshot()
        d.add_headers(info, h)
        x = any_key()
        if k != 'u':
            prove(f'{k}: headers unchanged', h.same_at(old, x))
            continue
        e, t = str_lit('If-None-Match'), str_lit('If-Modified-Since')
        tag, time = has(info.etag), z3.Not(info.fetch_time.none)
        prove('etag is sent', z3.Implies(tag, z3.And(h.has(e), h.val(e) == info.etag.val.e)))
        prove('time is sent without etag', z3.Implies(z3.And(z3.Not(tag), time),
                                                      z3.And(h.has(t), h.val(t) == info.fetch_time.val.e)))
        prove('nothing else is touched', z3.Implies(
            z3.And(z3.Or(x != e, z3.Not(tag)), z3.Or(x != t, tag, z3.Not(time))), h.same_at(old, x)))


class Refused(Exception):
    pass


@contextlib.contextmanager
def monitor(*a, **k):
    yield types.SimpleNamespace(notify=lambda ev: None)


@goal('C18', functions=['pkm.utils.http.http_client:HttpClient.fetch_resource'])
def fetch_follows_its_directive():
    """a fetch asks the server iff there is no stored copy or its directive does not accept it, and leaves no trace a
    later fetch of the url would see"""
    exists, valid, status = sym_bool('exists'), sym_bool('valid'), sym_int('status')
    fails = sym_bool('request_fails')
    log = []
    info = AbsInfo('f')

    class AbsFiles:
        data, fetch_info = 'data', 'info'

        def exists(self):
            return exists

        def save(self, resp):
            log.append('save')

    class AbsDirective(C):
        def is_cache_valid(self, i):
            prove('asked about the stored information', i is info)
            return valid

        def add_headers(self, i, headers):
            prove('headers for the stored information', i is info)
            headers['directive'] = 'yes'

    class AbsClient(H.HttpClient):
        def _resource_files_of(self, url):
            return files

        @contextlib.contextmanager
        def _request(self, mtd, url, headers, *a, **k):
            log.append(('request', mtd, dict(headers)))
            if fails:
                raise Refused()
            yield types.SimpleNamespace(status=status, msg='m', headers={})

    files = AbsFiles()
    cl = AbsClient.__new__(AbsClient)
    from threading import Lock
    cl._fetch_inprogress, cl._fetch_lock = {}, Lock()
    outcome = None
    with patched((H, 'FetchResourceMonitoredOp', monitor), (H.FetchInfoConfig, 'load', staticmethod(lambda p: info))):
        try:
            got = cl.fetch_resource('https://h/p', AbsDirective())
            outcome = 'files' if got is files else 'other'
        except H.HttpException:
            outcome = 'http error'
    use = z3.And(form(exists), form(valid))
    asked = [x for x in log if isinstance(x, tuple)]
    cover('fetched')
    prove('asks the server <=> no accepted copy', z3.BoolVal(len(asked) == 1) == z3.Not(use))
    prove('at most one request', len(asked) <= 1)
    if asked:
        prove('GET with the headers of the directive', asked[0][1] == 'GET' and asked[0][2].get('directive') == 'yes')
        ok = z3.And(z3.Not(form(fails)), z3.Or(status.e == 200, status.e == 304))
        prove('files iff the server answered', z3.BoolVal(outcome == 'files') == ok)
        prove('saved iff new data came', z3.BoolVal('save' in log) == z3.And(z3.Not(form(fails)), status.e == 200))
    else:
        prove('the stored copy is the result', outcome == 'files' and log == [])
    prove('nothing in progress afterwards', not cl._fetch_inprogress)


def to_cases(goal, inputs):
    out = []
    for a in 'aunr':
        for st in (200, 304, 404, 0):
            out.append({'fetch': [[0, 'a', 200], [0, a, st], [0, 'u', 200], [0, a, 200]]})
    val = lambda x, d: None if x is None else ('' if x == '' else d)
    for dt, us in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, 600000), (-1, 999999), (0, 999999)):
        for e in (None, '', '"e"'):
            for k in (True, False):
                out.append({'t': 10 ** 9, 'dt': dt, 'us': us, 'zone': 0, 'known': k, 'etag': e, 'head': {}, 'order': ['a', 'u', 'n'], 'zone2': 0})
    return out
