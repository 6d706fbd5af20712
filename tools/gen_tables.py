"""Appends the generated tables (obligations per property) to stdout; used for DESIGN.md."""
import os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import warnings; warnings.simplefilter('ignore')
from sa import loader, oblig
repo = loader.Repo(os.environ.get('PEANO_REPO', '/repo'))
obs = oblig.load(repo)
res = oblig.run_all(repo.root if hasattr(repo, 'root') else '/repo', obs, 1, 'quick')
d = {}
for o in obs:
    for p in o.props: d.setdefault(p, []).append((o.name, res[o.name]['verdict']))
n = {}
for o in obs: n[res[o.name]['verdict']] = n.get(res[o.name]['verdict'], 0) + 1
print('%d obligations: %s. (`*` = normal forms differ, no valuation separates them; `?` = undecided)\n' % (len(obs), ', '.join('%d %s' % (v, k) for k, v in sorted(n.items()))))
for p in sorted(d):
    print('* **%s** (%d): %s' % (p, len(d[p]), ', '.join(x + {'PROVED': '', 'AGREES': '*'}.get(v, '?') for x, v in d[p])))
