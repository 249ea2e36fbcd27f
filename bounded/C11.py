"""sites with a package whose record lists nested modules, scripts outside the site, caches, symbolic links and missing files, next to other
packages, namespace siblings, look-alike directories and empty directories, reached directly or through a linked site; after the
uninstall everything is compared with the expected tree"""
import csv
import io
import os
from pathlib import Path

from bounded import fsbox

RULE = __doc__
UNPRIV = True
OWN = ['p/__init__.py', 'p/a.py', 'p/sub/b.py', 'p/sub/deep/c.py', 'm.py', 'ns/p/x.py', 'ns/q.py', '../../bin/tool', '../../share/p/doc.txt',
       'p/__pycache__/a.pyc', '__pycache__/m.pyc', 'data dir/x,y.txt', '../site-x/own.txt', 'ns/p/deep/er/z.py', '../lib2/inner/w.py', 'link.py']
OTHER = ['other/__init__.py', 'ns/other/y.py', 'p/extra.txt', 'n.py', '../site-x/keep.txt', '../../bin/python', 'p_x-1.0.dist-info/RECORD', 'p-1.0.dist-info.bak/RECORD', 'p-1.0/f',
         'p/sub/keep/k', '../other.txt', 'p2/__init__.py', 'ns/p/user.cfg', '__pycache__/n.pyc', '../site-x/p/z', 'target.py', '../../share/p/mine']
DIRS = ['other/empty', 'p/sub/emptyd', '../site-x/emptyd', 'emptyd', '../../share/e']


def cases(rng, tier):
    for o in OWN:
        for k in OTHER[::3] + [None]:
            yield {'own': [o], 'missing': [], 'other': [k] if k else [], 'dirs': [], 'via': 'direct', 'cache': []}
    deep = '/'.join(f'd{i}' for i in range(40)) + '/f.py'
    for via in ('direct', 'site', 'link'):
        yield {'own': [f'many/s{i % 30}/f{i}.py' for i in range(400)] + ['many/s3/__pycache__/f3.pyc', deep], 'missing': [], 'other': ['many/s5/user.cfg', 'n.py'],
               'dirs': [], 'via': via, 'cache': ['many/s7']}
    while True:
        own = [x for x in OWN if rng.random() < .4]
        yield {'own': own, 'missing': [x for x in ['p/gone.py', 'gone/away.py'] + own if rng.random() < .15],
               'other': [x for x in OTHER if rng.random() < .35], 'dirs': [x for x in DIRS if rng.random() < .3],
               'via': rng.choice(['direct', 'direct', 'site', 'link']), 'cache': [x for x in ['p', 'ns/p', 'ns', 'other', 'p/sub'] if rng.random() < .2]}


def preload():
    import pkm.api.packages.site_packages  # noqa
    import pkm.api.environments.environment  # noqa


def check(case):
    from pkm.api.distributions.distinfo import DistInfo
    from pkm.api.packages.site_packages import InstalledPackage, SitePackages
    with fsbox.Box() as box:
        site = Path(box.path, 'env/lib/site')
        site.mkdir(parents=True)
        norm = lambda r: os.path.normpath(os.path.join('lib/site', r))
        env = Path(box.path, 'env')
        missing = set(case['missing'])
        for r in case['other'] + [x for x in case['own'] if x not in missing]:
            f = env / norm(r)
            f.parent.mkdir(parents=True, exist_ok=True)
            if r == 'link.py':
                (site / 'target.py').write_text('target')
                f.symlink_to('target.py')
            else:
                f.write_text('content of ' + r)
        for d in case['dirs']:
            (env / norm(d)).mkdir(parents=True, exist_ok=True)
        for c in case['cache']:
            if (env / norm(c)).is_dir():
                (env / norm(c) / '__pycache__').mkdir(exist_ok=True)
                (env / norm(c) / '__pycache__/stale.pyc').write_text('c')
        di = site / 'p-1.0.dist-info'
        di.mkdir()
        (di / 'METADATA').write_text('Metadata-Version: 2.1\nName: p\nVersion: 1.0\n')
        (di / 'licenses').mkdir()
        (di / 'licenses/L').write_text('l')
        o = io.StringIO()
        w = csv.writer(o, lineterminator='\n')
        for r in case['own'] + sorted(missing - set(case['own'])) + ['p-1.0.dist-info/METADATA', 'p-1.0.dist-info/RECORD']:
            w.writerow([r, '', ''])
        (di / 'RECORD').write_text(o.getvalue())
        before = fsbox.snapshot(env)
        use = di
        if case['via'] == 'link':
            Path(box.path, 'ln').symlink_to(site, target_is_directory=True)
            use = Path(box.path, 'ln', di.name)
        sp = None
        if case['via'] == 'site':
            class Env:
                path = env
            sp = SitePackages(Env(), site, site)
            ip = sp.installed_package('P')
            if ip is None:
                return 'installed package not found'
        else:
            ip = InstalledPackage(DistInfo.load(use))
        try:
            ip.uninstall()
        except fsbox.Escape as e:
            return str(e)
        after = fsbox.snapshot(env)
        if sp is not None and sp.installed_package('p') is not None:
            return 'the package still counts as installed'
        own = {norm(r) for r in case['own'] + sorted(missing)}
        mdir = norm('p-1.0.dist-info')
        for k in after:
            if k not in before:
                return f'{k} appeared'
            if after[k] != before[k]:
                return f'{k} changed'
            if k in own:
                return f'recorded file {k} is still there'
            if (k + '/').startswith(mdir + '/'):
                return f'metadata {k} is still there'
        touched = {os.path.dirname(k) for k in own} | {mdir}
        while True:  # directories next to removed files or removed directories
            more = {os.path.dirname(k) for k in before if before[k] is None and k not in after} - touched
            if not more:
                break
            touched |= more
        for k in before:
            if k in after or k in own or (k + '/').startswith(mdir + '/'):
                continue
            par, _, rest = (k + '/').partition('/__pycache__/')
            if rest or k.endswith('/__pycache__') or '/__pycache__/' in k:
                if par in touched or os.path.dirname(k.split('/__pycache__')[0] + '/x') in touched:
                    continue
            if before[k] is not None:
                return f'{k} was removed'
            inside = k.startswith('lib/site/')
            if not inside:
                return f'directory {k} outside the site was removed'
            if not any(q.startswith(k + '/') for q in own):
                return f'directory {k} that the package did not use was removed'
