"""generated wheels (nested packages, data files, look-alike dist-info directories, odd names, several hash algorithms) left intact or
tampered with (file altered, emptied, added, record line dropped, hash dropped or changed, RECORD removed), judged by record
verification and by installation of the zipped wheel into a scratch target; hash signatures against hashlib"""
import base64
import csv
import dataclasses
import hashlib
import io
import os
import zipfile
from pathlib import Path

from bounded import fsbox
from bounded.gap import need

RULE = __doc__
UNPRIV = True
ALGS = ['sha256', 'sha256', 'sha384', 'sha512', 'md5', 'sha1']
NAMES = ['p/__init__.py', 'p/a.py', 'p/sub/b.py', 'p/data,x.txt', 'p/"q".txt', 'p/sp ace.bin', 'p/é.txt', 'm.py', 'p/RECORD', 'p/v.dist-info/x.py',
         'p/v.dist-info/RECORD', 'p-1.0.data/purelib/z.py', 'p-1.0.data/data/share/y', 'p/empty', 'RECORD', 'p.dist-info.txt', 'x.dist-info.d/e.py', 'p-1.0.dist-info-x/e.py', 'p-1.0.dist-info.py']
DI = 'p-1.0.dist-info'
ADDED = {'add-meta': DI + '/extra.txt', 'add-sub': DI + '/sub/extra.txt', 'add-near': DI + '-x/extra.py', 'add-near2': DI + '.py', 'add-nested': 'p/' + DI + '/extra.py',
         'add-record': 'p/sub/RECORD', 'add-jws': DI + '/sub/RECORD.jws', 'add-pyc': 'p/__pycache__/a.pyc', 'add-data': 'p-1.0.data/scripts/x', 'add-top': 'evil.pth'}


def cases(rng, tier):
    tam = ['none', 'alter', 'add', *ADDED, 'unlist', 'unhash', 'rehash', 'norecord', 'alter-meta', 'trunc', 'swap', 'case', 'cuthash', 'emptyhash', 'longhash', 'casehash']
    for t in tam:
        for n in NAMES:
            yield {'files': {n: ['hello ' + n, 'sha256']}, 'tamper': t, 'on': n, 'big': 0, 'mode': 'verify'}
    for t in tam:
        yield {'files': {'p/__init__.py': ['x = 1\n', 'sha256'], 'p/a.py': ['y = 2\n', 'sha256']}, 'tamper': t, 'on': 'p/a.py', 'big': 0, 'mode': 'install'}
    while True:
        fs = {rng.choice(NAMES): [''.join(rng.choice('ab\n=+\x00é') for _ in range(rng.choice([0, 1, 5, 40]))), rng.choice(ALGS)]
              for _ in range(rng.randint(1, 6))}
        c = rng.random()
        if c < .2:
            yield {'sig': rng.choice(ALGS), 'size': rng.choice([0, 1, 10, 8191, 8192, 8193, 16384, 50000]), 'flip': rng.choice([None, 0, -1, 5]),
                   'enc': rng.choice(['hex', 'b64'])}
            continue
        yield {'files': fs, 'tamper': rng.choice(tam), 'on': rng.choice(sorted(fs)), 'big': rng.choice([0, 0, 0, 9000]),
               'mode': 'install' if c < .35 else 'verify'}


def sig(alg, data):
    return alg + '=' + base64.urlsafe_b64encode(hashlib.new(alg, data).digest()).decode().rstrip('=')


def wheel(case):
    files = {n: c.encode() * 1 + b'z' * case['big'] for n, (c, _) in case['files'].items()}
    meta = {DI + '/METADATA': b'Metadata-Version: 2.1\nName: p\nVersion: 1.0\n', DI + '/WHEEL': b'Wheel-Version: 1.0\nGenerator: g\nRoot-Is-Purelib: true\nTag: py3-none-any\n'}
    rec = {n: [sig(case['files'][n][1], d), str(len(d))] for n, d in files.items()}
    rec.update({n: [sig('sha256', d), str(len(d))] for n, d in meta.items()})
    files.update(meta)
    t, on = case['tamper'], case['on']
    bad = None  # None: intact, True: must be refused, False: either
    flip = lambda d: (bytes([d[0] ^ 1]) + d[1:]) if d else b'!'
    if t == 'alter':
        files[on] = flip(files[on])
        bad = True
    elif t == 'trunc':
        if files[on]:
            files[on] = files[on][:-1]
            bad = True
    elif t == 'add':
        files['p/evil.py'] = b'evil'
        bad = True
    elif t.startswith('add-'):
        files[ADDED[t]] = b'evil'
        bad = True
    elif t == 'unlist':
        del rec[on]
        bad = True
    elif t == 'unhash':
        rec[on][0] = ''
        bad = True
    elif t == 'rehash':
        a = case['files'][on][1]
        rec[on][0] = sig(a, files[on] + b'?')
        bad = True
    elif t in ('cuthash', 'emptyhash', 'longhash', 'casehash'):
        h = rec[on][0]
        a, _, v = h.partition('=')
        rec[on][0] = {'cuthash': h[:-1], 'emptyhash': a + '=', 'longhash': h + v[:1], 'casehash': a + '=' + v.swapcase()}[t]
        bad = True
    elif t == 'swap':
        rec[on][0] = sig('md5' if case['files'][on][1] != 'md5' else 'sha1', files[on]).replace('md5=', 'sha256=').replace('sha1=', 'sha256=')
        bad = True
    elif t == 'alter-meta':
        files[DI + '/METADATA'] = files[DI + '/METADATA'] + b'\n'
        bad = False
    elif t == 'case':
        rec[on.upper()] = rec.pop(on)
        if on.upper() != on:
            bad = True
    elif t == 'norecord':
        bad = True
    return files, rec, bad


def record_text(rec):
    o = io.StringIO()
    w = csv.writer(o, lineterminator='\n')
    for n in rec:
        w.writerow([n] + rec[n])
    w.writerow([DI + '/RECORD', '', ''])
    return o.getvalue()


def preload():
    import pkm.api.distributions.wheel_distribution  # noqa
    import pkm.utils.archives  # noqa
    import compileall  # noqa
    import pkm.api.environments.environment  # noqa


def check(case):
    from pkm.utils.hashes import HashSignature
    if 'sig' in case:
        with fsbox.Box() as box:
            f = Path(box.path, 'f')
            data = bytes(i * 7 % 251 for i in range(case['size']))
            f.write_bytes(data)
            d = bytearray(data)
            if case['flip'] is not None and d:
                d[max(-len(d), min(len(d) - 1, case['flip']))] ^= 4
            h = hashlib.new(case['sig'], bytes(d))
            if case['enc'] == 'hex':
                s = HashSignature.parse_hex_encoded(f"{case['sig']}={h.hexdigest()}")
                s2 = HashSignature.compute_hex_encoded(case['sig'], f)
                exp2 = hashlib.new(case['sig'], data).hexdigest()
            else:
                s = HashSignature.parse_urlsafe_base64_nopad_encoded(sig(case['sig'], bytes(d)))
                s2 = HashSignature.compute_urlsafe_base64_nopad_encoded(case['sig'], f)
                exp2 = sig(case['sig'], data).partition('=')[2]
            for cut in (1, len(s.hash_value) // 2, len(s.hash_value)):
                for v in (s.hash_value[:-cut], s.hash_value[cut:], s.hash_value + s.hash_value[:cut]):
                    if bytes(d) == data and dataclasses.replace(s, hash_value=v).validate_against(f):
                        return f'the signature {v!r} for {s.hash_type} of {case} validates'
            if bool(s.validate_against(f)) != (bytes(d) == data):
                return f'signature {s} of {case} validates: {s.validate_against(f)}'
            if (s2.hash_type, s2.hash_value) != (case['sig'], exp2) or not s2.validate_against(f):
                return f'computed signature {s2}, expected {exp2}'
        return
    import pkm.api.distributions.wheel_distribution as W
    from pkm.api.distributions.distinfo import DistInfo
    from pkm.api.packages.package import PackageDescriptor
    from pkm.api.versions.version import StandardVersion
    files, rec, bad = wheel(case)
    with fsbox.Box() as box:
        if case['mode'] == 'verify':
            need(W, '_verify_records')
            root = Path(box.path, 'w')
            for n, d in files.items():
                (root / n).parent.mkdir(parents=True, exist_ok=True)
                (root / n).write_bytes(d)
            if case['tamper'] != 'norecord':
                (root / DI / 'RECORD').write_text(record_text(rec))
            di = DistInfo.load(root / DI)
            before = fsbox.snapshot(root)
            try:
                W._verify_records(di, root, di.load_record_cfg())
                ok, why = True, ''
            except Exception as e:  # noqa
                ok, why = False, f'{type(e).__name__}: {e}'
            d = fsbox.diff(before, fsbox.snapshot(root))
            if d:
                return f'verification changed the wheel: {d}'
        else:
            whl = Path(box.path, 'p-1.0-py3-none-any.whl')
            with zipfile.ZipFile(whl, 'w') as z:
                for n, d in files.items():
                    z.writestr(n, d)
                if case['tamper'] != 'norecord':
                    z.writestr(DI + '/RECORD', record_text(rec))
            site = Path(box.path, 'site')
            site.mkdir()

            class Env:
                interpreter_path = Path('/usr/bin/python3')

            class T:
                env = Env()
                purelib = platlib = str(site)
                scripts = str(Path(box.path, 'bin'))
                data = str(Path(box.path, 'data'))
                headers = include = str(Path(box.path, 'include'))
            W.WheelDistribution  # noqa
            try:
                W.WheelDistribution(PackageDescriptor('p', StandardVersion((1, 0))), whl).install_to(T())
                ok, why = True, ''
            except Exception as e:  # noqa
                ok, why = False, f'{type(e).__name__}: {e}'
                left = fsbox.snapshot(site)
                if left:
                    return f'refused ({why}) but left {sorted(left)[:4]} in the site'
    if bad is None and not ok:
        return f'intact wheel refused: {why}'
    if bad and ok:
        return f"wheel accepted after tampering ({case['tamper']} on {case['on']})"
