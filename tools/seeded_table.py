"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json (documentation only, no check reads it)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}      # id: what missed it and what was done
for line in open(os.path.join(root, 'tools', 'seeded_notes.txt')):
    k, _, v = line.strip().partition(': ')
    if k: MISSED[k] = v
rows = ['| planted bug | property | needs | caught by | first result |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m, name = json.load(open(d)), os.path.basename(os.path.dirname(d))
    rows.append(f"| {name} | {m['property']} | {m['needs']} | quick {m['property']} | {MISSED.get(name, 'caught')} |")
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
block = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('@SEEDED@', block) if '@SEEDED@' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: block, s, flags=re.S)
open(p, 'w').write(s)
