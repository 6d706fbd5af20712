"""DESIGN.md = design/head.md + table of planted bugs + design/tail.md + obligation table"""
import glob, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(HERE, 'tools', 'design', n), encoding='utf-8').read()
rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
tab = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'tools', 'gen_tables.py')], capture_output=True, text=True).stdout
open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(rd('head.md') + '\nEach is caught by the check of the property it is listed under.\n\n' + '\n'.join(rows) + '\n' + rd('tail.md') + tab)
