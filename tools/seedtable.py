"""Print the table of seeded changes for DESIGN.md (from seeded/*/meta.json)."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| change | property | needs | check |\n|---|---|---|---|')
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    print(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m.get('caught', 'caught')} |")
