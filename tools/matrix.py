"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded."""
import os, json, re
os.chdir('/verif')
rows = sorted((m['property'], d, m['needs']) for d in os.listdir('seeded') for m in [json.load(open('seeded/%s/meta.json' % d))])
t = "| check | planted bug | manifests only with |\n|---|---|---|\n" + ''.join("| %s | %s | %s |\n" % r for r in rows)
s = open('DESIGN.md').read()
s = re.sub(r"\| check \| planted bug .*?\n\n", lambda _: t + "\n", s, flags=re.S)
open('DESIGN.md', 'w').write(s)
