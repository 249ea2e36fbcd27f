"""C08: names of packages"""
import re

from contracts.common import *
from pyvc import fst, runtime
from pyvc.fst import Base, FStr, regex_dfa, prove_equal, prove_in, prove_domain, letterwise
from pyvc.vc import goal
import pkm.api.packages.package as P
import pkm.api.dependencies.dependency as D
from pkm.api.versions.version import StandardVersion
from pkm.api.versions.version_specifiers import AllowAllVersions

PD = P.PackageDescriptor
M, MD = 'pkm.api.packages.package:PackageDescriptor', 'pkm.api.dependencies.dependency:Dependency'
ASSUMPTIONS = ['transducers: str.strip/lower/replace/translate and re.sub of a character class act letter by letter as documented; '
               'characters outside ASCII are represented by samples (every character class used is checked to treat all of them alike)']
VALID = '[A-Za-z0-9]([A-Za-z0-9._-]*[A-Za-z0-9])?'


def valid():
    return Base(regex_dfa(VALID))


def canon(x):
    """the specification: every run of separators is one dash, letters are lower case"""
    return FStr(x.base, fst.compose(fst.compose(x.t, RUNS), LOWER))


def _runs(s, a):
    return [(1, '' if s else '-')] if a in '-_.' else [(0, a)]


RUNS = fst._build(0, _runs, lambda s: '')
LOWER = letterwise(lambda a: a.lower() if a in fst.ASCII else a)


def identity(key):
    """key(x) == key(y) iff canon(x) == canon(y), for all valid names x, y: key and canon factor through each other"""
    x = valid().text()
    k = key(x)
    if not isinstance(k, FStr):
        prove('the key is made of the name', False)
        return
    prove_equal('names that differ only in case and separators have one key', key(canon(x)), k, 'spread')
    prove_equal('names with one key differ only in case and separators', canon(k), canon(x), 'merge')
    cover('names')


def once(f):
    """a key may be asked for any name"""
    return lambda n: f(n)


def desc(n):
    return PD(n, StandardVersion((1,)))


@goal('C08', functions=[f'{M}.package_name_key', f'{M}.normalize_name'])
def the_key_of_a_name():
    identity(PD.package_name_key)


@goal('C08', functions=[f'{M}.__post_init__', f'{M}.name_key', f'{M}.package_name_key', f'{M}.normalize_name'])
def the_key_of_a_descriptor():
    identity(lambda n: desc(n).name_key)


@goal('C08', functions=[f'{MD}.package_name_key', f'{MD}.__post_init__', f'{M}.package_name_key', f'{M}.normalize_name'])
def the_key_of_a_dependency():
    identity(lambda n: D.Dependency(n, AllowAllVersions).package_name_key)


@goal('C08', functions=[f'{M}.__post_init__', f'{M}.name_key', f'{MD}.package_name_key', f'{M}.package_name_key', f'{M}.normalize_name'])
def one_key_everywhere():
    x = valid().text()
    k = PD.package_name_key(x)
    prove_equal('the descriptor of a name has its key', desc(x).name_key, k)
    prove_equal('the dependency on a name has its key', D.Dependency(x, AllowAllVersions).package_name_key, k)
    prove_equal('the key is its own key', PD.package_name_key(k), k)
    cover('keys')


@goal('C08', functions=[f'{M}.normalize_name', f'{M}.package_name_key', f'{M}.__post_init__', f'{M}.name_key'])
def normalising_any_text():
    b = Base()
    x = b.text()
    some = regex_dfa('(.|\n)*[A-Za-z0-9](.|\n)*')
    try:
        n = PD.normalize_name(x)
    except ValueError:
        prove_domain('only a text without letter or digit is refused', b, fst.complement(some))
        cover('refused')
        return
    prove_domain('a text without letter or digit is refused', b, some)
    prove_in('a normalised name is valid', n, regex_dfa(VALID))
    prove_equal('normalising twice', PD.normalize_name(n), n)
    k = PD.package_name_key(x)
    prove_equal('the key of the text is the key of its normal form', PD.package_name_key(n), k)
    prove_equal('the key of a descriptor of the text', desc(x).name_key, k)
    cover('normalised')


def to_cases(goal, inputs):
    w = (inputs or {}).get('text')
    if w is None:
        return []
    out = [{'raw': w}, {'x': w, 'y': re.sub('[-_.]+', '-', w).lower()}]
    # a name its key might be shared with
    for f in (lambda s: s.replace('-', ''), lambda s: s.replace('.', ''), lambda s: s.replace('_', ''), lambda s: s[:-1], lambda s: s[1:]):
        y = f(w)
        if re.fullmatch(VALID, y):
            out.append({'x': w, 'y': y})
    return [c for c in out if 'raw' in c or re.fullmatch(VALID, c['x'])]
