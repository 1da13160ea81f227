"""Plant the bugs of a spec file, one at a time, and keep those that hold up.

usage: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines SEEDS: a list of dict(id, prop, edits=[(file, old, new), ...],
needs, breaks, demo).  For each entry the edits are made in /repo's working
tree (which must be clean), the stable tests are run, the demonstration is run,
the check of the property is run, and the tree is put back.  seeded/<id>/ is
written when tests pass, the demo fails with the edit and passes without.
"""
from concurrent.futures import ThreadPoolExecutor
import json, os, runpy, subprocess, sys, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
REPO = '/repo'
SH = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$(pwd)" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$work" CUDA_VISIBLE_DEVICES=
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=REPO, capture_output=True, text=True, **k)


def stable():
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    try:
        o = json.load(open('/tmp/plant.json'))
    except Exception:
        return ['no result']
    return [t for t in b['stable'] if t not in o['passed']]


def caught_by():
    """the checks that report the change that is in /repo's working tree"""
    ids = [c.get('property') or c.get('property_id') for c in json.load(open(V / 'MANIFEST.json'))['checks']]
    if os.environ.get("ONLY"):
        ids = os.environ["ONLY"].split(",")
    with ThreadPoolExecutor(8) as ex:
        rc = list(ex.map(lambda i: subprocess.run(['python3', 'check.py', i], cwd=V, capture_output=True).returncode, ids))
    return [i for i, r in zip(ids, rc) if r == 1]


def main():
    ns = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    assert not sh('git status --porcelain').stdout.strip(), '/repo not clean'
    for s in ns['SEEDS']:
        if want and s['id'] not in want:
            continue
        d = V / 'seeded' / s['id']
        d.mkdir(parents=True, exist_ok=True)
        (d / 'demo.sh').write_text(SH)
        os.chmod(d / 'demo.sh', 0o755)
        (d / 'demo.py').write_text(ns.get('PRELUDE', '') + s['demo'])
        keep = False
        try:
            msg = []
            good = sh(f'bash {d}/demo.sh')
            if good.returncode != 0:
                msg.append('demo fails on the clean tree: ' + (good.stderr or good.stdout)[-300:])
            for f, old, new in s['edits']:
                p = pathlib.Path(REPO, f)
                t = p.read_text()
                if t.count(old) != 1:
                    msg.append(f'edit matches {t.count(old)} times: {old[:60]!r}')
                else:
                    p.write_text(t.replace(old, new))
            diff = sh('git diff').stdout
            if not msg:
                bad = sh(f'bash {d}/demo.sh')
                if bad.returncode == 0:
                    msg.append('demo passes with the bug')
                miss = stable()
                if miss:
                    msg.append(f'tests notice: {miss[:3]}')
                chk = subprocess.run(['python3', 'check.py', s['prop']], cwd=V, capture_output=True, text=True)
                v = [l for l in chk.stdout.splitlines() if l.startswith('VIOLATION')]
                cj = V / 'tools/catch.json'
                catch = json.loads(cj.read_text()) if cj.exists() else {}
                catch[s['id']] = caught_by()
                cj.write_text(json.dumps(catch, indent=1, sort_keys=True) + '\n')
                print(s['id'], s['prop'], 'CAUGHT' if chk.returncode == 1 and v else f'MISSED rc={chk.returncode}',
                      (v or chk.stdout.splitlines()[-1:] or [''])[0][:160])
        finally:
            sh('git checkout -- .')
        if msg:
            print(s['id'], 'REJECTED', msg)
            subprocess.run(['rm', '-rf', str(d)])
        else:
            (d / 'patch.diff').write_text(diff)
            (d / 'meta.json').write_text(json.dumps(
                {'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        sys.stdout.flush()


main()
