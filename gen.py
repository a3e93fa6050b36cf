#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
import props, checks
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P.values():
        f.write(json.dumps(p) + '\n')
cs = []
for i in props.P:
    if i not in checks.PROPS: continue
    c = checks.PROPS[i]
    cs.append(dict(property=i, quick_cmd=f'python3 run.py check {i} quick', thorough_cmd=f'python3 run.py check {i} thorough', evidence_file=f'evidence/{i}.json',
                   technique=c.get('technique', 'stateless model checking of the implementation (bounded exhaustive exploration of operation histories and task schedules)'),
                   level='model_checking', level_note=c.get('note', 'Exhaustive within the stated bounds on the real code: ' + '; '.join(checks.ASSUME))))
na = [dict(property=i, reason=checks.NA.get(i, 'check not built yet')) for i in props.P if i not in checks.PROPS]
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=cs, not_applicable=na,
               hooks=dict(guard='none', enable='No hooks live in /repo: the checks build a mirror of /repo in which std, tokio, V8 and openworkers-core are replaced by instrumented stand-ins (engine/build.py).', source_commits=[]),
               notes='See DESIGN.md. Known findings and repairs: KNOWN_FINDINGS.txt.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
