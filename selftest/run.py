#!/usr/bin/env python3
"""selftest/run.py [PROP…]: apply each variant to a scratch copy and compare the verdict of the check.

A variant file selftest/<PROP>.txt holds blocks:
  ## bad|quiet  name
  @@ path
  <<<<
  old text
  ====
  new text
  >>>>
Several @@ hunks per block are allowed.  `bad` must be reported, `quiet` must not.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def parse(path):
    out = []
    lines = open(path).read().split('\n')
    i = 0
    cur = None
    while i < len(lines):
        l = lines[i]
        if l.startswith('## '):
            _, kind, name = l.split(None, 2)
            cur = (kind, name, [])
            out.append(cur)
        elif l.startswith('@@ '):
            p = l[3:].strip()
        elif l == '<<<<':
            j = lines.index('====', i)
            k = lines.index('>>>>', j)
            cur[2].append((p, '\n'.join(lines[i + 1:j]), '\n'.join(lines[j + 1:k])))
            i = k
        i += 1
    return out


def one(prop, kind, name, hunks, tests):
    d = tempfile.mkdtemp(prefix='variant-')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests'))
        for p, a, b in hunks:
            f = os.path.join(repo, p)
            s = open(f).read()
            if s.count(a) < 1:
                return 'STALE', 'text not found in %s' % p
            open(f, 'w').write(s.replace(a, b, 1))
        env = dict(os.environ, SA_REPO=repo, SA_EVIDENCE=os.path.join(d, 'ev'))
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), prop], cwd=ROOT, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        want = 1 if kind == 'bad' else 0
        return ('OK' if r.returncode == want else 'WRONG(exit %d)' % r.returncode), r.stdout
    finally:
        shutil.rmtree(d)


def main():
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    files = sorted(f for f in os.listdir(HERE) if f.endswith('.txt'))
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for f in files:
        prop = f[:-4]
        if props and prop not in props:
            continue
        for kind, name, hunks in parse(os.path.join(HERE, f)):
            jobs.append((prop, kind, name, hunks))
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda j: one(*j, tests=False), jobs))
    bad = 0
    for j, (st, out) in zip(jobs, res):
        if st != 'OK' or '-v' in sys.argv:
            bad += st != 'OK'
            print(j[0], j[1], j[2], st)
            print('    ' + '\n    '.join(out.strip().split('\n')[-8:]))
    print('%d variants, %d not as expected' % (len(jobs), bad))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
