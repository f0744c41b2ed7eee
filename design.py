#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between <!-- x --> and <!-- /x -->) from the declarations, the last evidence and seeded/."""
import sys, os, json, re
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(R, 'engine'), os.path.join(R, 'rules')]
import registry
out = []
for i in registry.ids():
    fn, m = registry.get(i); e = {}
    try: e = json.load(open(os.path.join(R, 'evidence', i + '.json')))
    except OSError: pass
    c = e.get('coverage', {})
    out.append('**%s %s.** %s' % (i, m['title'], m['statement'])); out.append('')
    out.append('* Technique: %s.' % m['technique'])
    for x in c.get('rules', []): out.append('* Rule: %s.' % x)
    if c: out.append('* %d obligations on this tree, %.0f s.' % (c['obligations'], e['wall_s']))
    out.append('* Beyond tests: %s' % m['why']); out.append('')
for m in sorted(registry.NA, key=lambda m: m['id']):
    out.append('**%s %s** (not applicable). %s' % (m['id'], m['title'], m['reason'])); out.append('')
s = open(os.path.join(R, 'DESIGN.md')).read()
def fill(tag, txt):
    global s
    s = re.sub('<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, txt, tag), s, flags=re.S)
fill('table', '\n'.join(out))
rows = ['| change | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m.get('caught_by', m['property']), m['needs'], m['what_it_breaks']))
fill('seeds', '\n'.join(rows))
open(os.path.join(R, 'DESIGN.md'), 'w').write(s)
