#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and the checks present."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
checks, na = [], []
for p in props.P:
    i = p['id']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if i in props.NA:
        na.append(dict(property=i, reason=props.NA[i]))
    elif not os.path.exists(f):
        na.append(dict(property=i, reason='not built yet: simulation applies, but this check is not finished'))
    else:
        g = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'LEVEL', 'ASSUME', 'RULE'):
                g[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(
            property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --tier thorough',
            technique='deterministic simulation with fault injection: ' + g.get('TECHNIQUE', 'seeded schedules over the real code'),
            level=g.get('LEVEL', 'exploration'),
            level_note='Seeded search over simulated executions of the real code; a pass means no violation in the runs made, not absence of one. Assumes: ' + '; '.join(g['ASSUME']) + '.'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
         notes='No hooks were needed in /repo: every seam is interposed from outside (threading/queue/time/multiprocessing replaced before import, LD_PRELOAD below the file system, sys.settrace for pre-emption points). '
               'run.py builds the disk seam in a temporary directory on each run and imports /repo directly. Exit codes: 0 held, 1 violation, 3 no answer.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
