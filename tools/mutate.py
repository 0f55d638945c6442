#!/usr/bin/env python3
"""Plant small random changes in scratch copies of /repo and list those which
no check notices.

usage: mutate.py OUT.jsonl --files a.py,b.py --n 40 [--seed 1] [--scale .3]
                 [--jobs 4] [--checks C01,C02]

Works on /tmp/mut-<pid>, removed at the end.  Development tool; no check uses
it.
"""

import argparse
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize

CHECKS = [
    ('primitives/crp.py', 'C06 C10 C02 C13 C05'),
    ('primitives/', 'C01 C03 C04 C02 C05 C16 C17'),
    ('regressions/linreg.py', 'C22 C02 C30 C16 C17'),
    ('regressions/', 'C23 C02 C16 C17 C30'),
    ('factor/', 'C24 C02 C16 C17 C35'),
    ('kde/', 'C25 C02 C16 C17 C35'),
    ('knn/', 'C25 C02 C16 C17 C35'),
    ('mixtures/relevance.py', 'C14 C34'),
    ('mixtures/', 'C07 C10 C08 C05 C30 C12 C13 C16 C11 C34 C35'),
    ('crosscat/sampling.py', 'C09 C08 C07'),
    ('crosscat/state.py', 'C10 C09 C30 C12 C14 C15 C16 C11 C08 C13 C17 C29 C34 C35'),
    ('crosscat/engine.py', 'C18 C16 C17 C29 C35'),
    ('crosscat/lovecat.py', 'C29'),
    ('crosscat/loomcat.py', 'C29'),
    ('network/', 'C21 C20 C30 C14 C11 C35'),
    ('utils/parallel_map.py', 'C19 C18'),
    ('utils/general.py', 'C26 C06 C05 C04 C31 C17'),
    ('utils/entropy', 'C26'),
    ('utils/mvnormal.py', 'C24'),
    ('utils/sampling.py', 'C28 C17'),
    ('utils/config.py', 'C27 C10'),
    ('utils/data.py', 'C27 C22'),
    ('utils/validation.py', 'C27 C06'),
    ('utils/test.py', 'C31 C17'),
    ('utils/plots.py', 'C33'),
    ('utils/render.py', 'C33'),
    ('venturescript/', 'C32'),
    ('utils/', 'C27 C26'),
    ('dummy/', 'C31 C17'),
    ('uncorrelated/', 'C31 C17'),
    ('cgpm.py', 'C20 C18 C16 C30'),
]

SWAP = {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>',
    '<='], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['/'],
    '/': ['*'], '+=': ['-='], '-=': ['+='], '**': ['*'], '%': ['+'],
    'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'],
    'any': ['all'], 'all': ['any'], 'min': ['max'], 'max': ['min'],
    'sorted': ['list'], 'break': ['continue'], 'continue': ['break'],
    'in': ['not in'], 'keys': ['values'], 'targets': ['constraints'],
    'constraints': ['targets'], 'outputs': ['inputs'], 'append': ['extend'],
    'alpha': ['beta'], 'union': ['intersection'], 'intersection': ['union'],
    'cumsum': ['cumprod'], 'zeros': ['ones'], 'ones': ['zeros']}


def candidates(path):
    """[(line number, column, old, new)]"""
    src = open(path).read()
    lines = src.split('\n')
    out = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        toks = []
    prev = None
    for t in toks:
        (r, c), s = t.start, t.string
        line = lines[r - 1]
        bad = line.strip().startswith(('import', 'from', 'def ', 'class ',
            'raise', 'print', '@', 'assert')) or r < 20
        if bad or 'check_env_debug' in line or t.type == tokenize.STRING:
            prev = t
            continue
        if s in SWAP and t.type in (tokenize.OP, tokenize.NAME):
            if s == '*' and prev is not None and prev.string in '(,':
                continue
            if s == '**' and prev is not None and prev.string in '(,':
                continue
            if s == 'in' and 'for' in line:
                continue
            for n in SWAP[s]:
                out.append((r, c, s, n))
        elif s == 'not':
            nxt = line[c:]
            if nxt.startswith('not in'):
                out.append((r, c, 'not in', 'in'))
            elif prev is not None and prev.string == 'is':
                out.append((r, c, 'not ', ''))
            else:
                out.append((r, c, 'not ', ''))
        elif s == 'is' and not line[c:].startswith('is not'):
            out.append((r, c, 'is', 'is not'))
        elif t.type == tokenize.NUMBER and re.match(r'^\d+$', s):
            out.append((r, c, s, str(int(s) + 1)))
            if s == '1':
                out.append((r, c, s, '0'))
        elif t.type == tokenize.NUMBER and re.match(r'^\d*\.\d*$', s):
            out.append((r, c, s, repr(float(s) + 1)))
            if float(s):
                out.append((r, c, s, repr(float(s) / 2)))
        elif s == 'rng' and line[c:].startswith('rng=self.rng'):
            out.append((r, c, 'rng=self.rng', 'rng=None'))
        prev = t
    # Statements removed.
    for i, line in enumerate(lines):
        st = line.strip()
        if i < 20 or not st or st.startswith('#'):
            continue
        if re.match(r'^(self\.[\w.\[\]]+\(.*\)|del .*|[\w.\[\]]+\.(append|'
                r'update|extend|shuffle|sort)\(.*\)|self\.[\w.\[\]]+ [-+]?= '
                r'.*)$', st) and st.count('(') == st.count(')') and \
                st.count('[') == st.count(']') and not st.endswith(','):
            out.append((i + 1, len(line) - len(line.lstrip()), st, 'pass'))
    return out


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--files', required=True)
    p.add_argument('--n', type=int, default=40)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--scale', default='.3')
    p.add_argument('--jobs', default='4')
    p.add_argument('--checks', default=None)
    p.add_argument('--limit', type=float, default=400)
    a = p.parse_args()
    root = '/tmp/mut-%d' % os.getpid()
    os.makedirs(root)
    repo, ver = root + '/repo', root + '/verif'
    subprocess.check_call(['cp', '-a', '/repo', repo])
    subprocess.check_call(['git', 'clone', '-q', '/verif', ver])
    rng = random.Random(a.seed)
    pool = []
    for f in a.files.split(','):
        for m in candidates(os.path.join(repo, 'src', f)):
            pool.append((f,) + m)
    rng.shuffle(pool)
    try:
        for f, r, c, old, new in pool[:a.n]:
            path = os.path.join(repo, 'src', f)
            src = open(path).read()
            lines = src.split('\n')
            line = lines[r - 1]
            assert line[c:].startswith(old), (line, c, old)
            lines[r - 1] = line[:c] + new + line[c + len(old):]
            checks = a.checks.split(',') if a.checks else [x for k, x in
                CHECKS if k in f][0].split()
            open(path, 'w').write('\n'.join(lines))
            rec = {'file': f, 'line': r, 'old': line.strip(), 'new':
                lines[r - 1].strip(), 'killed': None}
            env = dict(os.environ, VERIF_REPO=repo, VERIF_FAIL_FAST='1')
            for pid in checks:
                try:
                    res = subprocess.run(['./check', pid, '--scale', a.scale,
                        '--jobs', a.jobs], cwd=ver, env=env,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        timeout=a.limit)
                except subprocess.TimeoutExpired:
                    rec['killed'] = pid + ' (timeout)'
                    break
                if res.returncode:
                    text = res.stdout.decode(errors='replace')
                    why = [x for x in text.split('\n') if x.startswith('  ')]
                    rec['killed'] = pid
                    rec['why'] = why[0][:160] if why else text[-200:]
                    break
            open(path, 'w').write(src)
            with open(a.out, 'a') as g:
                g.write(json.dumps(rec) + '\n')
            print(rec['killed'] or 'SURVIVED', f, r, '|', rec['old'], '|',
                rec['new'], flush=True)
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main()
