#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the declarations in rules/."""
import sys, os, json
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(R, 'engine'))
import core, registry
ids = registry.ids()
checks = []; props = []
for i in ids:
    fn, m = registry.get(i)
    props.append(dict(id=i, title=m['title'], statement=m['statement'], quantifier=m['quantifier'], why_tests_cant=m['why'], anchors=m['anchors']))
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=m['technique'], level=m['level'], level_note=m.get('note', 'sound up to the trusted engine: every path of the named functions is covered by abstract states, callees by inlining or havoc; loops by joins')))
na = []
for m in sorted(registry.NA, key=lambda m: m['id']):
    props.append(dict(id=m['id'], title=m['title'], statement=m['statement'], quantifier=m['quantifier'], why_tests_cant=m['why'], anchors=m['anchors']))
    na.append(dict(property=m['id'], reason=m['reason']))
props.sort(key=lambda p: p['id'])
for p in props:
    assert len(p['title']) <= 80, p['id']
open(os.path.join(R, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(sys.version_info < (3, 8))" && clang --version >/dev/null && opt --version >/dev/null',
               checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
