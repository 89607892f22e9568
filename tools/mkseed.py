#!/usr/bin/env python3
"""Create and confirm planted bugs: python3 tools/mkseed.py <definitions.py> [id ...].

The definitions file holds S(id, property, file, old, new, needs, breaks, demo) calls.  Each is
confirmed in a scratch copy: applies, tests pass, demo passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def S(id, prop, file, old, new, needs, breaks, demo):
    SEEDS.append((id, prop, file, old, new, needs, breaks, demo))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def one(id, prop, file, old, new, needs, breaks, demo):
    w = '/tmp/seedw'
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo %s' % w, '/')
    pairs = [(file, old, new)] if isinstance(old, str) else [(file if len(p) == 2 else p[0], p[-2], p[-1]) for p in old]
    for f, o, n in pairs:
        p = os.path.join(w, 'proadv', f)
        t = open(p).read()
        if t.count(o) != 1:
            return 'old text occurs %d times in %s' % (t.count(o), f)
        open(p, 'w').write(t.replace(o, n))
    diff = sh('git diff', w).stdout
    base = sh('git show f53ea2f:proadv/%s' % file, '/repo').stdout.splitlines()
    gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    if not gone or not any(l in base for l in gone):
        return 'touches no original line'
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider proadv/tests 2>&1 | tail -1' % w, w).stdout
    bad = sh('bash %s/demo.sh' % d, w)
    good = sh('bash %s/demo.sh' % d, '/repo')
    shutil.rmtree(w, ignore_errors=True)
    msg = []
    if 'failed' in t or 'error' in t:
        msg.append('tests: ' + t.strip())
    if bad.returncode == 0:
        msg.append('demo passes with the change')
    if good.returncode != 0:
        msg.append('demo fails without: ' + good.stderr[-300:])
    if msg:
        shutil.rmtree(d)
    return '; '.join(msg) or 'ok (%s)' % (bad.stderr.strip().splitlines() or ['?'])[-1][:100]


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'S': S})
    for s in SEEDS:
        if len(sys.argv) > 2 and s[0] not in sys.argv[2:]:
            continue
        print(s[0], s[1], one(*s))


main()
