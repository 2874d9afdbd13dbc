"""Confirms planted bugs in scratch copies of /repo and stores them in seeded/.

usage: plant.py SPEC.py [ID...]; SPEC.py defines BUGS = [dict(id, property,
edits=[(file, old, new)...], demo, needs, breaks)...].  Development only.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
BASE = '62549fc'
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def demo_py(src, root):
    env = dict(os.environ, PYTHONPATH=root + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        return run([PY, src], env=env, cwd=root, timeout=120)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(src, 99, '', 'timeout')


def plant(b):
    d = f'/tmp/pl/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    run(['git', 'clone', '-q', REPO, d])
    try:
        own = ''
        for f, old, new, *last in b['edits']:
            p = f'{d}/src/fauxdoc/{f}'
            s = open(p).read()
            if s.count(old) != 1 and not (last and s.count(old)):
                return f'edit matches {s.count(old)} times: {f}: {old!r}'
            a, _, z = s.rpartition(old)
            open(p, 'w').write(a + new + z)
        diff = run(['git', 'diff'], cwd=d).stdout
        if not any(x.startswith('-') and not x.startswith('---') for x in diff.splitlines()):
            own = '(changes no original line: kept in /tmp/own) '
        for f in {e[0] for e in b['edits']}:
            blame = run(['git', 'blame', '-s', 'HEAD', '--', 'src/fauxdoc/' + f], cwd=d).stdout.splitlines()
            hunks = run(['git', 'diff', '-U0', 'src/fauxdoc/' + f], cwd=d).stdout
            for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))?', hunks, re.M):
                for i in range(int(a), int(a) + int(n or 1)):
                    if n != '0' and not blame[i - 1].lstrip('^').startswith(BASE[:7]):
                        own = f'(touches own line {f}:{i}: kept in /tmp/own) '
        demo = f'/tmp/pl/{b["id"]}.py'
        open(demo, 'w').write(b['demo'])
        r = demo_py(demo, REPO)
        if r.returncode:
            return 'demo fails unpatched: ' + r.stderr[-300:]
        r = demo_py(demo, d)
        if not r.returncode:
            return 'demo passes patched'
        why = r.stderr.strip().splitlines()[-1:] or ['']
        env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'tests'], env=env, cwd=d, timeout=600)
        if r.returncode:
            bad = [x for x in r.stdout.splitlines() if x.startswith('FAILED')]
            return 'tests fail: ' + ' '.join(bad[:2])[:300]
        out = f'{VERIF}/seeded/{b["id"]}' if not own else f'/tmp/own/{b["id"]}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        return 'ok: ' + own + why[0][:100]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = set(sys.argv[2:])
    bugs = [b for b in bugs if not ids or b['id'] in ids]
    os.makedirs('/tmp/pl', exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(bugs, ex.map(plant, bugs)):
            print(b['id'], r, flush=True)


main()
