"""Plants bugs: makes /verif/seeded/<id>/ from a spec, confirming each in a scratch copy of /repo.

usage: seedtool.py SPEC.py [id ...]

SPEC.py defines BUGS, a list of dicts:
  id, prop, edits [(file, old, new), ...], needs, breaks, demo (python text), cpython (optional).
A bug is kept when its patch changes original lines, the repository's stable tests pass with it, and its
demonstration exits 0 on the clean copy and nonzero on the changed one; whether the property's check
catches it is reported, not a condition. No check reads /verif/seeded.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

SCRATCH = '/tmp/sd%d' % os.getpid()
STABLE = None

DEMO_SH = '''#!/bin/bash
# Exits 0 when the code behaves as the property says, nonzero otherwise. Run with cwd at the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONPYCACHEPREFIX=$(mktemp -d)
timeout 240 %s "$here/demo.py"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
'''
PYPY = '/opt/venv/bin/python'
CPY = '/opt/veriftools/pyvenv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors='replace')
    return p.returncode, p.stdout


def fresh():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])


def original_lines(path, removed):
    """Whether every removed/replaced line is one of the original repository."""
    rc, orig = sh('git show %s:%s' % (base(), path), cwd='/repo')
    orig = set(l.strip() for l in orig.splitlines())
    return [l for l in removed if l.strip() and l.strip() not in orig]


def base():
    rc, o2 = sh('git log --format=%H --grep=^fix: --invert-grep -1', cwd='/repo')
    return o2.strip()


def inside(cmd):
    """The command with the scratch copy mounted over /repo (the interpreter's .pth files name /repo)."""
    return "unshare -Urm sh -c 'mount --bind %s /repo && %s'" % (SCRATCH, cmd)


def run_tests():
    rc, o = sh(inside('bash /opt/vp/test.sh %s.json' % SCRATCH), cwd='/')
    with open('/opt/vp/BASELINE.json') as f:
        b = json.load(f)
    want = set(b['stable'])
    try:
        with open(SCRATCH + '.json') as f:
            r = json.load(f)
    except Exception:
        return ['no result']
    return sorted(want - set(r['passed']))


def plant(bug):
    global STABLE
    fresh()
    removed = []
    for path, old, new in bug['edits']:
        full = os.path.join(SCRATCH, path)
        with open(full) as f:
            src = f.read()
        n = src.count(old)
        if n != 1:
            return 'EDIT matches %d times in %s: %r' % (n, path, old[:60])
        with open(full, 'w') as f:
            f.write(src.replace(old, new))
    rc, diff = sh('git diff', cwd=SCRATCH)
    cur = None
    foreign = []
    for l in diff.splitlines():
        m = re.match(r'--- a/(.*)', l)
        if m:
            cur = m.group(1)
        elif l.startswith('-') and not l.startswith('---'):
            foreign += original_lines(cur, [l[1:]])
    if foreign:
        return 'NOT ORIGINAL: %r' % foreign
    rc, o = sh('%s -m compileall -q amazon' % PYPY, cwd=SCRATCH, env={'PYTHONPYCACHEPREFIX': SCRATCH + '_pyc'})
    if rc:
        return 'COMPILE ' + o[-300:]
    out = os.path.join('/tmp/sdout', bug['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(os.path.join(out, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(bug['demo'].lstrip('\n'))
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write(DEMO_SH % (CPY if bug.get('cpython') else PYPY))
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')
    rc, o = sh('bash %s/demo.sh' % out, cwd='/repo')
    if rc != 0:
        return 'DEMO fails on clean: ' + o[-500:]
    rc, o = sh(inside('cd /repo && bash %s/demo.sh' % out), cwd='/')
    if rc == 0:
        return 'DEMO passes with bug'
    missing = run_tests()
    if missing:
        return 'TESTS fail: %d %s' % (len(missing), missing[:4])
    t = time.time()
    rc, o = sh(inside('cd /verif && ./check %s' % bug['prop']), cwd='/',
               env={'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
    t = time.time() - t
    viol = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    caught = rc == 1 and any('property=%s ' % bug['prop'] in l for l in viol)
    dst = os.path.join('/verif/seeded', bug['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    if caught:
        return 'CAUGHT %.0fs %s' % (t, viol[0][:140])
    return 'MISSED rc=%d %.0fs %s' % (rc, t, o[-300:] if rc != 0 else '')


def record(bug, res):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seed_results.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except OSError:
        d = {}
    d[bug['id']] = {'property': bug['prop'], 'result': res, 'needs': bug['needs']}
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    for bug in spec:
        if ids and bug['id'] not in ids:
            continue
        try:
            res = plant(bug)
        except Exception as e:
            res = 'ERROR %r' % e
        print('%-28s %s %s' % (bug['id'], bug['prop'], res), flush=True)
        if res.startswith(('CAUGHT', 'MISSED')):
            record(bug, res.split()[0].lower())
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.rmtree(SCRATCH + '_pyc', ignore_errors=True)
    if os.path.exists(SCRATCH + '.json'):
        os.remove(SCRATCH + '.json')


main()
