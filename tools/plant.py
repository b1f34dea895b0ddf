"""plant.py SPEC.py [ID...]: write seeded/<id>/ from the specs in SPEC.py (list BUGS of dicts id, prop, edits, needs, breaks, demo)
and confirm each: demo 0 on the clean tree, nonzero with the patch, stable tests pass, and whether the property's check catches it."""
import os, sys
if os.environ.get('IN_NS') != '1':   # work on a private copy of /repo
    os.environ['IN_NS'] = '1'
    os.execv('/verif/tools/ns.sh', ['ns.sh', sys.executable, *sys.argv])
import json, os, re, runpy, subprocess, sys
R, V = '/repo', '/verif'
sh = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
spec = runpy.run_path(sys.argv[1])['BUGS']
want = [a for a in sys.argv[2:] if not a.startswith('-')]
notests = '--notests' in sys.argv
sh('git', '-C', R, 'checkout', '--', '.')
for b in spec:
    if want and b['id'] not in want:
        continue
    d = f'{V}/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.py', 'w').write(b['demo'].lstrip())
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    demo = lambda: sh('bash', f'{d}/demo.sh', cwd=R)
    res = [b['id'], b['prop']]
    c = demo()
    res.append(f'clean={c.returncode}')
    if c.returncode:
        print(c.stdout[-500:], c.stderr[-1500:])
    try:
        for f, old, new in b['edits']:
            p = f'{R}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'old text found', s.count(old), 'times in', f); raise SystemExit(1)
            open(p, 'w').write(s.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
        c = demo()
        res.append(f'patched={c.returncode}')
        if c.returncode == 0 or '-v' in sys.argv:
            print(c.stdout[-500:], c.stderr[-1500:])
        else:
            print('  demo says:', (c.stderr or c.stdout).strip().splitlines()[-1][:150])
        q = sh('/opt/venv/bin/python', 'run.py', b['prop'], cwd=V)
        m = re.search(r'VIOLATION property=\S+', q.stdout)
        res.append(f'check={q.returncode} {"caught" if m else "MISSED"} ' + (re.search(r'quick: (\d+) runs', q.stdout) or [''])[0])
        if not notests:
            t = sh('bash', f'{V}/tools/baseline.sh')
            res.append('tests: ' + t.stdout.strip().splitlines()[-1][:120])
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    print('==', *res, flush=True)
