"""Write DESIGN.md from its parts and the planted bugs."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
rd = lambda f: open(os.path.join(H, f)).read()
out = rd('design_head.md') + rd('design_props.md')
out += '''## Planted bugs

Every bug below builds, passes the 1570 stable tests, has a demonstration that fails with it and passes without
it, and was run against the checks with `tools/seedtest.sh`.  "Caught by" lists the checks that report it.

| id | needs | breaks | caught by |
|---|---|---|---|
'''
notes = json.load(open(os.path.join(H, 'caught.json')))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (d, m['needs'], m['what_it_breaks'], notes.get(d, m['property']))
out += '\n' + rd('design_tail.md')
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
