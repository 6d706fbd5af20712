#!/usr/bin/env python3
"""
corpus_run.py FILE.py [-j N] [names...]: runs the checks on scratch copies of /repo with one edit each.
FILE.py defines ITEMS: list of dict(name, props='C06 C07' (checks to run), edits=[(file, old, new)], kind='bug'|'ok')
bug: at least one of the checks must report; ok: none may.  (A development tool; no registered check uses it.)
"""
import os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def one(it):
    d = tempfile.mkdtemp(prefix='corp')
    try:
        r = os.path.join(d, 'r')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', '*.egg-info', '.pytest_cache'))
        for f, old, new in it['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1: return it, 'NOEDIT', 'text not found: %r' % old[:60]
            s = s.replace(old, new, 1)
            try: compile(s, p, 'exec')
            except SyntaxError as ex: return it, 'NOEDIT', 'syntax: %s' % ex
            open(p, 'w').write(s)
        hits, txt = [], []
        for pr in it['props'].split():
            q = subprocess.run([os.path.join(HERE, 'bin/check'), pr], capture_output=True, text=True, env=dict(os.environ, PEANO_REPO=r, PEANO_EVIDENCE=os.path.join(d, 'ev')))
            if q.returncode == 1 and 'VIOLATION' in q.stdout: hits.append(pr); txt.append(q.stdout.strip().split('\n')[0][:230])
            elif q.returncode != 0: return it, 'BROKEN', (q.stdout + q.stderr)[-400:]
        return it, ' '.join(hits), ' / '.join(txt)
    finally: shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    j = 8
    if '-j' in a:
        i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    items = []
    for fn in [x for x in a if x.endswith('.py')]:
        sp = importlib.util.spec_from_file_location('corpus', fn); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        items += m.ITEMS
    names = [x for x in a if not x.endswith('.py')]
    if names: items = [i for i in items if any(n in i['name'] for n in names)]
    good = 0
    with ThreadPoolExecutor(j) as ex:
        for it, hit, txt in ex.map(one, items):
            bug = it.get('kind', 'bug') == 'bug'
            ok = bool(hit) == bug and hit not in ('NOEDIT', 'BROKEN')
            good += ok
            print('%-6s %-28s %s %s' % ('ok' if ok else ('MISSED' if bug else 'FALSE') if hit not in ('NOEDIT', 'BROKEN') else hit, it['name'], hit, txt if not ok or '-v' in sys.argv else ''), flush=True)
    print('%d of %d as expected' % (good, len(items)))


main()
