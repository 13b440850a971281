#!/usr/bin/env python3
"""tools/mkseed.py ID…  Build and confirm seeded/<ID> from tools/seeds/<ID>.seed (development aid, not a check).

.seed format:  property: Cxx / needs: … / breaks: … then hunks (@@ path <<<< ==== >>>>) then '#demo' + python demo source.
Confirms in a scratch copy: tests still pass with the patch, demo exits 0 without and non-zero with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'selftest'))

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def parse(path):
    head, _, demo = open(path).read().partition('\n#demo\n')
    meta, hunks = {}, []
    lines = head.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('@@ '):
            j = lines.index('====', i)
            k = lines.index('>>>>', j)
            hunks.append((l[3:].strip(), '\n'.join(lines[i + 2:j]), '\n'.join(lines[j + 1:k])))
            i = k
        elif ': ' in l:
            a, _, b = l.partition(': ')
            meta[a] = b
        i += 1
    return meta, hunks, demo


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(sid):
    meta, hunks, demo = parse(os.path.join(HERE, 'seeds', sid + '.seed'))
    out = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(demo)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# runs in /repo: exit 0 when the behaviour is right\nd="$(cd "$(dirname "$0")" && pwd)"\n'
                't="$(mktemp -d)"\ntrap \'rm -rf "$t"\' EXIT\n'
                'REPO="$PWD" SCRATCH="$t" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    # patch against HEAD
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(d, 'repo')
        sh('git -C /repo worktree prune; git clone -q /repo %s' % w, '/')
        for p, a, b in hunks:
            f = os.path.join(w, p)
            s = open(f).read()
            if s.count(a) != 1:
                return '%s: hunk matches %d times in %s' % (sid, s.count(a), p)
            open(f, 'w').write(s.replace(a, b))
        open(os.path.join(out, 'patch.diff'), 'w').write(sh('git diff', w).stdout)
    finally:
        shutil.rmtree(d)
    # confirm on /repo, undone straight afterwards
    # only lines of the original repository count
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()[0]
    cur = None
    for l in open(os.path.join(out, 'patch.diff')).read().split('\n'):
        if l.startswith('--- a/'):
            cur = sh('git show %s:%s' % (base, l[6:]), '/repo').stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur:
            print(sid, 'NOTE: changes a line of a fix:', l)
    if sh('git status --porcelain', '/repo').stdout.strip():
        return '%s: /repo not clean' % sid
    r0 = sh(os.path.join(out, 'demo.sh'), '/repo')
    msg = []
    if r0.returncode != 0:
        msg.append('demo fails on the unchanged tree: ' + r0.stdout[-600:])
    try:
        a = sh('git apply %s' % os.path.join(out, 'patch.diff'), '/repo')
        if a.returncode:
            return '%s: patch does not apply %s' % (sid, a.stdout)
        r1 = sh(os.path.join(out, 'demo.sh'), '/repo')
        if r1.returncode == 0:
            msg.append('demo passes with the patch: ' + r1.stdout[-300:])
        tj = '/tmp/seedtest.json'
        sh('bash /opt/vp/build.sh; bash /opt/vp/test.sh %s' % tj, '/repo')
        o = json.load(open(tj))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = st - set(o['passed'])
        if miss:
            msg.append('tests broken: %s' % sorted(miss)[:4])
        c = sh('SA_EVIDENCE=/tmp/seedev python3 check.py %s' % meta['property'], ROOT)
        verdict = {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'exit %d' % c.returncode)
        if '-v' in sys.argv:
            print(c.stdout[-1500:])
    finally:
        sh('git checkout -- .', '/repo')
    return '%s (%s): %s %s' % (sid, meta['property'], 'VALID' if not msg else 'INVALID ' + ' | '.join(msg), verdict)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(
        f[:-5] for f in os.listdir(os.path.join(HERE, 'seeds')) if f.endswith('.seed'))
    for s in ids:
        print(build(s), flush=True)
