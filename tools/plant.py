"""python3 tools/plant.py SPEC.py [...]: try planted bugs; those that are valid are kept in /verif/seeded.

A spec is a Python file with ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (the text of demo.py).
Valid: applies, changes lines of the original commit, builds, passes the stable tests, and the demonstration
exits 0 without and nonzero with it. Then the property's check is run on the changed copy.

python3 tools/plant.py --check ID [CHECK ...]: run checks (default: the property's) on a copy with seeded/ID applied.
python3 tools/plant.py --matrix: run the property's check for everything in seeded/.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = '5c77def'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent', 'PYTHONHASHSEED': '0'}
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy_repo():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    sh(['git', '-C', REPO, 'worktree', 'prune'])
    rc, o = sh(['git', 'clone', '-q', '--shared', REPO, d + '/repo'])
    assert rc == 0, o
    os.mkdir(d + '/path')
    os.symlink(d + '/repo/src', d + '/path/dice_calc')
    return d


def lib_env(d):
    return {**ENV, 'PYTHONPATH': d + '/path'}


def tests(d):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '--ignore=test/test_fetch.py', '-n0', 'test'], cwd=d + '/repo', env=lib_env(d))
    if 'unrecognized arguments' in o:
        rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '--ignore=test/test_fetch.py', 'test'], cwd=d + '/repo', env=lib_env(d))
    m = re.search(r'(\d+) passed', o)
    return rc == 0 and m and int(m.group(1)) >= len(base), o[-1500:]


def demo(d, folder, patched):
    """as the judge runs it, with the library of the copy"""
    shutil.copytree(folder, d + '/demo', dirs_exist_ok=True)
    rc, o = sh(['bash', d + '/demo/demo.sh'], cwd=d + '/repo', env=lib_env(d))
    shutil.rmtree(d + '/demo')
    return rc, o[-600:]


def run_check(d, prop, tier='quick'):
    t = time.time()
    env = {**os.environ, 'VERIF_REPO': d + '/repo', 'VERIF_SEED': '1', 'VERIF_TIER': tier, 'VERIF_EVIDENCE': d + '/ev'}
    rc, o = sh([PY, '-m', 'simdice', 'check', prop], cwd='/verif', env=env)
    v = [x for x in o.splitlines() if 'violates' in x]
    return rc, (v[0][:230] if v else o[-300:]), time.time() - t


def changed_base_lines(d, patch):
    """does the patch remove or change a line of the original commit?"""
    n = 0
    f = None
    for x in patch.splitlines():
        if x.startswith('--- a/'):
            f = x[6:]
        elif x.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', x).group(1))
        elif x.startswith('-') and not x.startswith('---'):
            rc, o = sh(['git', '-C', REPO, 'blame', '-s', '-L', f'{line},{line}', 'HEAD', '--', f])
            n += o.lstrip('^').startswith(BASE[:6])
            line += 1
        elif x.startswith(' '):
            line += 1
    return n


def plant(spec_file):
    s = {}
    exec(open(spec_file).read(), s)
    d = copy_repo()
    out = []
    try:
        for f, old, new in s['EDITS']:
            p = f'{d}/repo/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return f'{s["ID"]}: edit of {f} found {t.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new))
        rc, patch = sh(['git', 'diff'], cwd=d + '/repo')
        if not changed_base_lines(d, patch):
            return f'{s["ID"]}: changes no original line'
        ok, o = tests(d)
        if not ok:
            return f'{s["ID"]}: tests fail: ' + ' | '.join(x for x in o.splitlines() if 'FAILED' in x or 'Error' in x)[:500]
        folder = d + '/out'
        os.makedirs(folder)
        open(folder + '/demo.sh', 'w').write(DEMO_SH)
        open(folder + '/demo.py', 'w').write(s['DEMO'])
        rc1, o1 = demo(d, folder, True)
        sh(['git', 'stash', '-q'], cwd=d + '/repo')
        rc0, o0 = demo(d, folder, False)
        sh(['git', 'stash', 'pop', '-q'], cwd=d + '/repo')
        if rc0 != 0 or rc1 in (0, 124):
            return f'{s["ID"]}: demo unpatched {rc0} {o0} patched {rc1} {o1}'
        open(folder + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(folder + '/meta.json', 'w'), indent=1)
        dest = f'{SEEDED}/{s["ID"]}'
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(folder, dest)
        rc, v, t = run_check(d, s['PROPERTY'])
        return f'{s["ID"]}: VALID; check {s["PROPERTY"]} {"CAUGHT" if rc == 1 else "missed rc=%d" % rc} in {t:.0f} s: {v}'
    finally:
        shutil.rmtree(d)


def with_patch(pid, props):
    meta = json.load(open(f'{SEEDED}/{pid}/meta.json'))
    d = copy_repo()
    try:
        rc, o = sh(['git', 'apply', f'{SEEDED}/{pid}/patch.diff'], cwd=d + '/repo')
        if rc:
            return f'{pid}: does not apply: {o}'
        res = []
        for p in props or [meta['property']]:
            rc, v, t = run_check(d, p)
            res.append(f'{pid}: check {p} {"CAUGHT" if rc == 1 else "missed rc=%d" % rc} in {t:.0f} s: {v}')
        return '\n'.join(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--check':
        print(with_patch(a[1], a[2:]))
    elif a[0] == '--matrix':
        for pid in sorted(os.listdir(SEEDED)):
            print(with_patch(pid, a[1:]), flush=True)
    else:
        for f in a:
            print(plant(f), flush=True)
