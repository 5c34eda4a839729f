"""Writes DESIGN.md from its parts and the list of planted bugs."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
out = [open(os.path.join(here, n)).read()
       for n in ('design_head.md', 'design_props.md')]
rows = ['| bug | property, and check that catches it | needs |',
        '| --- | --- | --- |']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s%s | %s |' % (
        os.path.basename(os.path.dirname(d)), m['property'],
        ' (not caught)' if m.get('missed') else '',
        m['needs'].replace('|', '\\|')))
out.append('\n'.join(rows) + '\n')
with open(os.path.join(root, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(out))
