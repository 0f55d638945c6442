"""Write and try out a planted bug.

usage: mkseed.py DEF.py [--no-check]   create seeded/<id> from a definition
       mkseed.py --try ID [--tier T]   run the property's check against it

DEF.py defines: id, prop, edits=[(file, old, new)], needs, breaks, demo (the
python body of the demonstration, which raises when the property is broken).
"""

import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = '''import os, sys
os.environ['VERIF_REPO'] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py2load
py2load.install()
import numpy as np
from math import *
from itertools import *


'''
SH = '''#!/bin/sh
# Run in the repository: exit 0 when the property holds for this history.
D=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def scratch():
    path = '/tmp/seedtry-%d' % os.getpid()
    subprocess.check_call(['cp', '-a', '/repo', path])
    subprocess.check_call(['git', '-C', path, 'checkout', '-q', '--', '.'])
    return path


def demo(d, repo):
    return subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=repo,
        capture_output=True, text=True, timeout=300)


def attempt(sid, tier='quick', only=None):
    d = os.path.join(ROOT, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    path = scratch()
    try:
        subprocess.check_call(['git', '-C', path, 'apply',
            os.path.join(d, 'patch.diff')])
        r = demo(d, path)
        print('demo with patch: rc', r.returncode,
            (r.stderr.strip().splitlines() or [''])[-1][:200])
        env = dict(os.environ, VERIF_REPO=path, VERIF_TIER=tier)
        env.setdefault('VERIF_FAIL_FAST', '1')
        r2 = subprocess.run(['./check', prop], cwd=ROOT, env=env,
            capture_output=True, text=True)
        lines = [x for x in r2.stdout.splitlines()
            if 'VIOLATION' in x or 'message' in x]
        print(sid, prop, 'CAUGHT' if r2.returncode == 1 else
            'MISSED rc=%d' % r2.returncode, lines[:1])
        if r2.returncode not in (0, 1):
            print(r2.stdout[-1500:], r2.stderr[-1500:])
        return r.returncode != 0, r2.returncode == 1
    finally:
        shutil.rmtree(path)


def create(path):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(ROOT, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    repo = scratch()
    try:
        for name, old, new in g['edits']:
            f = os.path.join(repo, name)
            text = open(f).read()
            if text.count(old) != 1:
                sys.exit('%s: %d matches of %r' % (name, text.count(old), old))
            open(f, 'w').write(text.replace(old, new))
        diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    finally:
        shutil.rmtree(repo)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + g['demo'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    shutil.copy(os.path.join(ROOT, 'vlib', 'py2load.py'), d)
    json.dump({'property': g['prop'], 'needs': g['needs'],
        'what_it_breaks': g['breaks']}, open(os.path.join(d, 'meta.json'),
        'w'), indent=1)
    r = demo(d, '/repo')
    print('demo on HEAD: rc', r.returncode, r.stderr.strip()[-500:])
    return g['id']


if __name__ == '__main__':
    if sys.argv[1] == '--try':
        for s in sys.argv[2:]:
            attempt(s)
    elif sys.argv[1] == '--all':
        for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
            attempt(s)
    else:
        for p in sys.argv[1:]:
            attempt(create(p))
