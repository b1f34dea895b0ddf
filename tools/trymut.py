#!/usr/bin/env python3
"""trymut.py ID[,ID] file old new [run.py args]: run a check against a scratch copy of /repo with one text change."""
import os, shutil, subprocess, sys, tempfile
ids, f, old, new, *rest = sys.argv[1:]
d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
try:
    subprocess.run(['cp', '-a', '/repo/hexrd', d], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'text not found'
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    for i in ids.split(','):
        r = subprocess.run(['python3', '/verif/run.py', i] + rest, env={**os.environ, 'VERIF_REPO': d}, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print(i, 'rc', r.returncode, *[l[:300] for l in lines[-6:]], sep='\n   ')
        if r.returncode == 3:
            print(r.stdout[-2000:], r.stderr[-2000:])
finally:
    shutil.rmtree(d)
