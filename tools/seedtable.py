"""Fill the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    f = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)),
        j['property'], f(j['what_it_breaks']), f(j['needs'])))
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read()
head = t[:t.index('<!-- seeds -->')]
open(p, 'w').write(head + '''<!-- seeds -->
Each is caught by the check of the property named (`tools/seeds.sh` runs the
demonstration without and with the change, the repository's tests and the check).

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
