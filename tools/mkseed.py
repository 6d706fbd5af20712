"""Create and confirm a planted bug:  mkseed.py DEFS.py [ids]   (DEFS: list BUGS of dicts id, property, edits=[(file, old, new)], demo, needs, what)"""
import json, os, re, shutil, subprocess, sys, runpy
W = '/tmp/seedwork'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    for b in bugs:
        if ids and b['id'] not in ids: continue
        one(b)
def one(b):
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s' % W)
    sh('git checkout -q -- . && git clean -fdq', W)
    for f, old, new in b['edits']:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1: print(b['id'], 'EDIT does not apply (%d): %r' % (s.count(old), old)); return
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', W).stdout
    d = '/tmp/seedout/' + b['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = repository\nD="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 "$PY" "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, '/repo'); c = sh('bash %s/demo.sh' % d, W)
    if a.returncode or not c.returncode: print(b['id'], 'DEMO clean', a.returncode, 'bug', c.returncode, a.stderr[-400:]); return
    t = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider -p xdist -n 8 2>&1 | tail -3' % W, W)
    ok = a.returncode == 0 and c.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout and 'error' not in t.stdout
    print(b['id'], b['property'], 'demo clean', a.returncode, 'bug', c.returncode, '|', t.stdout.strip().splitlines()[-1:], 'OK' if ok else 'REJECTED', (a.stderr[-300:] if a.returncode else ''), c.stderr.strip().splitlines()[-1:] )
    if ok:
        dst = '/verif/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        # which checks catch it
        caught = []
        props = [b['property']]
        for p in props:
            r = sh('PEANO_REPO=%s VERIF_SEED=1 python3 bin/check %s' % (W, p), '/verif')
            if r.returncode == 1: caught.append(p)
            elif r.returncode: caught.append('%s:ERR%d' % (p, r.returncode)); print(r.stderr[-500:])
        print('   caught by:', caught)
    shutil.rmtree(W, ignore_errors=True)
main()
