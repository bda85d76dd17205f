"""Writes DESIGN.md from the text below plus the seeded table (tools only)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
per = json.load(open(os.path.join(V, 'tools', 'design_props.json')))
caught = json.load(open(os.path.join(V, 'tools', 'seeding', 'results.json')))
out = [HEAD, '\n## 5. Property by property\n']
for p in props:
  d = per[p['id']]
  out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], d))
out.append('## 6. Planted bugs and what catches them\n')
out.append('Each lies in `seeded/<id>/` with its own demonstration. "caught by" is the result of the quick check of the named property (seed 1) on /repo with the patch applied; "first missed" marks the ones an earlier version of the check did not see, with what was changed.\n')
out.append('| planted bug | property | needs | quick check | note |\n|---|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
  sid = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
  r = caught.get(sid, {})
  out.append('| %s | %s | %s | %s | %s |' % (sid, j['property'], j['needs'].replace('|', '/'), r.get('result', 'not run'), r.get('note', '')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
