import sys, time, traceback
sys.path.insert(0,'/verif')
from sa import terms as t, interp, loader, builtins_
sys.setrecursionlimit(20000)
root = '/repo'
pat = sys.argv[1] if len(sys.argv)>1 else ''
verbose = len(sys.argv)>2
repo = loader.Repo(root)
ok=bad=0
for fi in repo.all_functions():
    if not fi.module.name.startswith('peano'): continue
    if pat and pat not in fi.qual: continue
    t.reset_budget()
    t0=time.time()
    try:
        I = interp.Interp(repo)
        r = I.analyse(fi)
        ok+=1
        s = ' '.join('%s=%s'%(k, repr(v)[:3000 if verbose else 150]) for k,v in r.items())
        print('OK  %-45s %.2f %s'%(fi.qual, time.time()-t0, s))
    except Exception as e:
        bad+=1
        print('BAD %-45s %.2f %s %s'%(fi.qual, time.time()-t0, type(e).__name__, e))
        if verbose: traceback.print_exc()
print(ok,bad)
