"""Builds /verif/seeded from tools/seed_defs.py, confirming each in a scratch copy.  mkseeds.py [id ...] [--check]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
sys.path.insert(0, os.path.join(V, 'tools'))
import seed_defs
import seed_defs2  # noqa: extends the list
import seed_defs3  # noqa
import seed_defs4  # noqa
import seed_defs5  # noqa
import seed_defs6  # noqa
BASE = 'c1c692b'
PY = {'cp': '/opt/veriftools/pyvenv/bin/python', 'pypy': '/opt/venv/bin/python'}
PRE = '''"""Demonstration: exit 0 when the behaviour is right. The compiler and the scientific libraries are stand-ins."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
os.environ['VERIF_REPO'] = os.getcwd()
sys.dont_write_bytecode = True
from vlib import env
env.setup()
import numpy as np
from vlib import ref, work, nbrt, gen
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def fresh():
    if os.path.exists(W):
        shutil.rmtree(W)
    sh('cp -a /repo %s' % W)


def original_lines(diff):
    """how many lines of the original repository the patch changes"""
    mine = set(sh('git -C /repo rev-list %s..HEAD' % BASE).stdout.split())
    ok = 0
    old = 0
    for line in diff.splitlines():
        if line.startswith('+++ b/'):
            bl = sh('git -C /repo blame -s -l --root HEAD -- %s' % line[6:].strip()).stdout.splitlines()
            old = 0
        m = re.match(r'@@ -(\d+)', line)
        if m:
            old = int(m.group(1))
            continue
        if line.startswith(('--- ', '+++ ', 'diff ', 'index ')) or not old:
            continue
        if line.startswith('-'):
            ok += bl[old - 1].split()[0].lstrip('^') not in mine
            old += 1
        elif line.startswith(' '):
            old += 1
    return ok


def build(d, check):
    out = os.path.join(V, 'seeded', d['id'])
    sh('git -C %s checkout -q -- .' % W)
    texts = {}
    for sub in d['subs']:
        f, a, b = sub if len(sub) == 3 else (d['file'],) + tuple(sub)
        f = os.path.join(W, f)
        t = texts.get(f) or open(f, newline='').read()
        for q in (a, a.replace('\n', '\r\n')):
            if q in t:
                texts[f] = t.replace(q, b if q == a else b.replace('\n', '\r\n'), 1)
                break
        else:
            return 'PATTERN NOT FOUND'
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    for x in ('vlib', 'shims'):
        shutil.copytree(os.path.join(V, 'lib', x), os.path.join(out, 'lib', x),
                        ignore=shutil.ignore_patterns('__pycache__', 'judge.py', 'runner.py'))
    open(os.path.join(out, 'demo.py'), 'w').write(PRE + d['demo'])
    open(os.path.join(out, 'demo.sh'), 'w').write(
        '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexec %s "$D/demo.py"\n' % PY[d['py']])
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']),
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % out, cwd=W, timeout=300)
    for f, t in texts.items():
        open(f, 'w', newline='').write(t)
    diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE).stdout
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    n = original_lines(diff.decode())
    r1 = sh('bash %s/demo.sh' % out, cwd=W, timeout=300)
    c = sh('%s -m py_compile %s' % (PY['pypy'], ' '.join(texts)))
    ts = sh('%s -m pytest -q -p no:cacheprovider tests/test_checks_utils.py 2>&1 | tail -1' % PY['pypy'], cwd=W).stdout.strip()
    ap = sh('git -C /repo apply --check %s/patch.diff' % out).returncode
    msg = '%-24s %s clean=%d patched=%d orig_lines=%d compile=%d apply=%d tests=%s' % (
        d['id'], d['property'], r0.returncode, r1.returncode, n, c.returncode, ap, ts[:12])
    good = r0.returncode == 0 and r1.returncode != 0 and n > 0 and c.returncode == 0 and ap == 0 and '22 passed' in ts
    if r0.returncode:
        msg += '\n   CLEAN: ' + r0.stdout[-300:]
    elif r1.returncode:
        msg += ' [' + (r1.stdout.strip().splitlines() or ['-'])[-1][:90] + ']'
    if check:
        r = sh('VERIF_REPO=%s ./check %s quick' % (W, d['property']), cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        msg += '\n      check exit=%d %s' % (r.returncode, (v or r.stdout.strip().splitlines()[-1:])[0][:170])
    sh('git -C %s checkout -q -- .' % W)
    return ('ok   ' if good else 'BAD  ') + msg


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    fresh()
    for d in seed_defs.S:
        if not a or d['id'] in a or d['property'] in a:
            print(build(d, '--check' in sys.argv), flush=True)
    shutil.rmtree(W)
