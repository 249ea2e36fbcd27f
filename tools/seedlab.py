"""Author and try planted changes (development aid, no check uses it).

seedlab.py make SPEC.py   SPEC.py calls seed(id, prop, edits, needs, breaks, demo) for each change
seedlab.py run [ID...]    apply each kept change to /repo, run its property's check, undo it
"""
import json, os, subprocess, sys, time
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
SEEDED = HERE / 'seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds in the shown situation; 1: it does not
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD/pkm/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 XDG_DATA_HOME="$W/data" SCRATCH="$W"
timeout 120 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'


def undo():
    sh('git -C /repo checkout -- .')


def failed_tests():
    out = '/tmp/seed_tests.json'
    sh(f'bash /opt/vp/test.sh {out}')
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(out))
    stable = base.get('stable') or base.get('passing') or base.get('passed') or base
    got = set(res.get('passed') or [])
    return [t for t in (stable if isinstance(stable, list) else stable.get('passed', [])) if t not in got]


def seed(id, prop, edits, needs, breaks, demo):
    clean()
    d = SEEDED / id
    try:
        for f, old, new in edits:
            p = REPO / f
            s = p.read_text()
            if s.count(old) != 1:
                print(id, 'EDIT does not match once', f, s.count(old)); return
            p.write_text(s.replace(old, new))
        d.mkdir(parents=True, exist_ok=True)
        (d / 'patch.diff').write_text(sh('git -C /repo diff').stdout)
        (d / 'demo.sh').write_text(DEMO); os.chmod(d / 'demo.sh', 0o755)
        (d / 'demo.py').write_text(demo.lstrip('\n'))
        (d / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        b = sh('bash /opt/vp/build.sh')
        ft = failed_tests() if b.returncode == 0 else ['build']
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
    finally:
        undo()
    r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
    ok = b.returncode == 0 and not ft and r.returncode != 0 and r0.returncode == 0
    print(id, 'KEPT' if ok else 'REJECTED', 'build', b.returncode, 'failed', ft, 'demo', r.returncode, 'clean', r0.returncode)
    if not ok:
        print(b.stderr[-500:], 'PATCHED:', (r.stdout + r.stderr)[-800:], 'CLEAN:', (r0.stdout + r0.stderr)[-800:])
        sh(f'rm -rf {d}')


def run(ids):
    for d in sorted(SEEDED.iterdir()):
        if ids and not any(d.name == i or d.name.startswith(i) for i in ids):
            continue
        meta = json.loads((d / 'meta.json').read_text())
        clean()
        a = sh(f'git -C /repo apply {d}/patch.diff')
        try:
            t = time.time()
            r = sh(f'python3-vt check.py {meta["property"]}', cwd=HERE, env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        finally:
            undo()
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(d.name, 'apply', a.returncode, 'rc', r.returncode, f'{time.time()-t:.0f}s', 'CAUGHT' if r.returncode == 1 and v else 'MISSED', v[:1], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'))
    else:
        run(sys.argv[2:])
