# Keeps tools/catches.json (planted bug -> the entries whose violation caught it) and writes the table of DESIGN.md
# section 5 from it. Arguments: logs named catch-NAME.log of runs against planted bugs.
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cf = V + '/tools/catches.json'
c = json.load(open(cf)) if os.path.exists(cf) else {}
for p in sys.argv[1:]:
    name = re.match(r'catch-(.*)\.log$', os.path.basename(p)).group(1)
    if not os.path.isdir(f'{V}/seeded/{name}'): continue
    s = open(p, errors='replace').read()
    e = sorted(set(re.findall(r'violated in (C\d+V?_\w+)', s)))
    c[name] = e if 'VIOLATION' in s else []
for n in list(c):
    if not os.path.isdir(f'{V}/seeded/{n}'): del c[n]
json.dump(c, open(cf, 'w'), indent=0, sort_keys=True)
rows = ['| planted bug | what it breaks | caught by |', '|---|---|---|']
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    e = c.get(n)
    rows.append(f"| {n} | {m['what_it_breaks'].replace('|', '/')} | {'not run' if e is None else ', '.join(e) or 'missed'} |")
d = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
if a in d:
    d = d[:d.index(a) + len(a)] + '\n'.join(rows) + '\n' + d[d.index(b):]
    open(V + '/DESIGN.md', 'w').write(d)
print(len(c), 'results;', [n for n in c if not c[n]], 'not run:', [n for n in os.listdir(V + '/seeded') if n not in c])
