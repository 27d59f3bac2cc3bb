"""Confirm planted bugs:  python3 tools/seed.py confirm ID ..   |  python3 tools/seed.py catch ID [CHECK ..]

confirm: the demo passes on /repo as it is, fails with the patch; the patched tree builds and passes the stable tests.
catch:   runs the quick check of the bug's property (or the given ones) with the patch applied.
The patch is applied in /repo and undone straight afterwards.
"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    return sh('git -C /repo status --porcelain').stdout.strip() == ''


def demo(d):
    r = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    assert clean(), 'repo not clean'
    if mode == 'catch':
        ids, checks = ids[:1], ids[1:]
    for i in ids:
        d = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        if mode == 'confirm':
            rc, out = demo(d)
            print(i, 'demo on the unchanged tree:', rc, out if rc else '')
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stderr)
            continue
        try:
            if mode == 'confirm':
                rc, out = demo(d)
                print(i, 'demo with the patch:', rc, out.strip().splitlines()[-1:] if rc else 'NOT DETECTED')
                b = sh('bash /opt/vp/build.sh')
                with tempfile.TemporaryDirectory() as t:
                    r = sh(f'bash /opt/vp/test.sh {t}/o.json')
                    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                    o = json.load(open(t + '/o.json'))
                    passed = set(o.get('passed', []))
                    print(i, 'build', b.returncode, 'stable tests broken:', sorted(base - passed)[:5])
            else:
                for c in checks or [meta['property']]:
                    r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./vp check {c} quick', cwd=ROOT)
                    lines = [x for x in r.stdout.splitlines() if x.startswith(('-- ', 'VIOLATION', c, 'HARNESS'))]
                    print(i, c, 'rc', r.returncode, '\n   ' + '\n   '.join(x[:260] for x in lines))
        finally:
            sh('git -C /repo checkout -- .')
    assert clean(), 'repo not clean afterwards'


main()
