#!/usr/bin/env python3
"""Try the planted bugs: each demonstration passes on /repo as it is and fails with its patch, the patched
repository builds and passes its stable tests, and the check of its property reports a violation.

usage: seeded.py [id ...]      (all of them by default; --no-check tries the plants only)
"""
import json, pathlib, subprocess, sys, tempfile, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def clean():
    return run(f'git -C {REPO} status --porcelain').stdout == ''

def tests():
    with tempfile.TemporaryDirectory() as d:
        if run('bash /opt/vp/build.sh').returncode: return 'does not build'
        run(f'bash /opt/vp/test.sh {d}/o.json')
        got = json.load(open(f'{d}/o.json'))
        passed = set(got['passed'])
        missing = sorted(stable - passed)
        return f'tests fail: {missing[:3]}' if missing else ''

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--no-check' not in sys.argv
    ids = args or sorted(p.name for p in (ROOT / 'seeded').iterdir() if p.is_dir())
    for id in ids:
        d = ROOT / 'seeded' / id
        prop = json.load(open(d / 'meta.json'))['property']
        assert clean(), '/repo is not clean'
        notes = []
        r = run(f'bash {d}/demo.sh', cwd=REPO)
        if r.returncode: notes.append('demo fails on the clean tree: ' + (r.stdout + r.stderr)[-300:])
        if run(f'git -C {REPO} apply {d}/patch.diff').returncode:
            print(id, 'does not apply'); continue
        try:
            t = tests()
            if t: notes.append(t)
            r = run(f'bash {d}/demo.sh', cwd=REPO)
            if r.returncode == 0: notes.append('demo passes with the patch')
            demo = (r.stdout + r.stderr).strip().splitlines()[:1]
            verdict = ''
            if check:
                t0 = time.time()
                r = run(f'bin/check {prop}', cwd=ROOT)
                caught = r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout
                verdict = ('caught' if caught else f'MISSED rc={r.returncode} {r.stdout[-200:]}') + f' {time.time()-t0:.0f}s'
        finally:
            run(f'git -C {REPO} checkout -- .')
        print(id, prop, verdict, '; '.join(notes) or 'valid', demo, flush=True)

main()
