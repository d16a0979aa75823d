"""Assembles DESIGN.md: fixed text below, per-property table, seeded table from seeded/*/meta.json + tools/seeded_results.json."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
TEXT = open(os.path.join(HERE, 'design_body.md')).read()
res = {}
try:
    res = json.load(open(os.path.join(HERE, 'seeded_results.json')))
except IOError:
    pass
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), res.get(i, 'not run yet')))
table = '\n'.join(['| change | property | what it breaks | caught by |', '|---|---|---|---|'] + rows) if rows else '(none yet)'
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(TEXT.replace('@SEEDED@', table))
