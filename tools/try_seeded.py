"""Runs checks against the planted bugs, each in a scratch copy ($SX_REPO).

usage: try_seeded.py [-a] [ID...]; -a: every check, not just the bug's own.
Development only: the registered checks run on /repo itself.
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    every = '-a' in args
    own = sorted(os.listdir('/tmp/own')) if os.path.isdir('/tmp/own') else []
    ids = [a for a in args if a != '-a'] or sorted(os.listdir(VERIF + '/seeded')) + own
    for i in ids:
        src = f'{VERIF}/seeded/{i}' if os.path.isdir(f'{VERIF}/seeded/{i}') else f'/tmp/own/{i}'
        meta = json.load(open(src + '/meta.json'))
        d = f'/tmp/try_{os.getpid()}_{i}'
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        try:
            subprocess.run(['git', 'apply', src + '/patch.diff'], cwd=d, check=True)
            props = [f'C{n:02d}' for n in range(1, 29)] if every else [meta['property']]
            for p in props:
                t = time.time()
                r = subprocess.run(['python3-vt', '-m', 'sx.runner', p], cwd=VERIF, capture_output=True, text=True,
                                   env=dict(os.environ, SX_REPO=d, PYTHONHASHSEED='0'))
                lines = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'incomplete' in x.lower()]
                if r.returncode or not every:
                    print(i, p, 'CAUGHT' if r.returncode == 1 and lines else f'MISSED rc={r.returncode}',
                          f'{time.time() - t:.0f}s', lines[:1] or r.stdout.strip().splitlines()[-1:], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
