"""AST mutants of /repo's library; usage: mut.py FILE[,FILE] [-j N] [-s STEP] [-f FUNC]  -> jsonl of outcomes"""
import ast, copy, json, os, sys, shutil, tempfile, time, random, subprocess, signal
sys.path.insert(0, os.environ.get('VERIF', '/verif'))
sys.setrecursionlimit(20000)
REPO = '/repo'

SWAP = {'entrance': 'exit', 'exit': 'entrance', 'spec1': 'spec2', 'spec2': 'spec1', 'lo': 'up', 'up': 'lo', 'x1': 'x2', 'pos1': 'pos2', 'pos2': 'pos1', 'cnum1': 'cnum2', 'first': 'last'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.Div: ast.Mult}

def skip(n):
    return isinstance(n, ast.Assert) or (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(('logging', 'logger', 'print')))))

def sites(fn):
    """yield (description, mutate(node_copy_by_path)) — sites as (path, op)"""
    out = []
    def walk(n, path):
        if skip(n) or isinstance(n, (ast.Raise,)): return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((path, 'cmp'))
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)): out.append((path, 'cmprev'))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN: out.append((path, 'bin'))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Sub)): out.append((path, 'swapop'))
        if isinstance(n, ast.BinOp): out.append((path, 'left')); out.append((path, 'right'))
        if isinstance(n, ast.UnaryOp): out.append((path, 'unary'))
        if isinstance(n, ast.BoolOp): out.append((path, 'bool')); out.append((path, 'booldrop'))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)): out.append((path, 'const'))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 4 and n.value: out.append((path, 'str'))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)): out.append((path, 'condT')) ; out.append((path, 'condF')); out.append((path, 'condN'))
        if isinstance(n, ast.comprehension) and n.ifs: out.append((path, 'ifsdrop'))
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load): out.append((path, 'attr'))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2: out.append((path, 'argswap'))
            if n.keywords: out.append((path, 'kwdrop'))
            if isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'sorted', 'set', 'tuple', 'list', 'abs') and n.args: out.append((path, 'unwrap'))
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'): out.append((path, 'minmax'))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords: out.append((path, 'mdrop'))
            if isinstance(n.func, ast.Name) and n.func.id == 'range' and n.args: out.append((path, 'range'))
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2: out.append((path, 'tupswap'))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp): out.append((path, 'idx'))
        if isinstance(n, (ast.Break, ast.Continue)): out.append((path, 'jump'))
        if (isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) and path and not isinstance(n, ast.FunctionDef): out.append((path, 'delete'))
        if isinstance(n, ast.For): out.append((path, 'forcut'))
        for f, v in ast.iter_fields(n):
            if f in ('decorator_list', 'annotation', 'returns', 'type_comment'): continue
            if isinstance(n, ast.FunctionDef) and f == 'args':
                for i, d in enumerate(v.defaults): walk(d, path + (('args', None), ('defaults', i)))
                continue
            if isinstance(v, ast.AST): walk(v, path + ((f, None),))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST): walk(x, path + ((f, i),))
    walk(fn, ())
    return out

def get(n, path):
    for f, i in path: n = getattr(n, f) if i is None else getattr(n, f)[i]
    return n
def put(n, path, v):
    p = get(n, path[:-1]); f, i = path[-1]
    if i is None: setattr(p, f, v)
    else: getattr(p, f)[i] = v

def mutate(fn, path, op):
    n = get(fn, path); new = None
    if op == 'cmp': n.ops = [CMP[type(n.ops[0])]()]
    elif op == 'cmprev': n.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(n.ops[0])]()]
    elif op == 'bin': n.op = BIN[type(n.op)]()
    elif op == 'swapop': n.left, n.right = n.right, n.left
    elif op == 'left': new = n.left
    elif op == 'right': new = n.right
    elif op == 'unary': new = n.operand
    elif op == 'bool': n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == 'booldrop': n.values = n.values[:-1]; new = n.values[0] if len(n.values) == 1 else n
    elif op == 'const': new = ast.Constant((not n.value) if isinstance(n.value, bool) else n.value + 1)
    elif op == 'str': new = ast.Constant(n.value + ' ')
    elif op == 'condT': n.test = ast.Constant(True)
    elif op == 'condF': n.test = ast.Constant(False)
    elif op == 'condN': n.test = ast.UnaryOp(ast.Not(), n.test)
    elif op == 'ifsdrop': n.ifs = n.ifs[:-1]
    elif op == 'attr': n.attr = SWAP[n.attr]
    elif op == 'argswap': n.args[0], n.args[1] = n.args[1], n.args[0]
    elif op == 'kwdrop': n.keywords = n.keywords[:-1]
    elif op == 'unwrap': new = n.args[0]
    elif op == 'minmax': n.func.id = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id]
    elif op == 'mdrop': new = n.func.value
    elif op == 'range': n.args[-1] = ast.BinOp(n.args[-1], ast.Sub(), ast.Constant(1))
    elif op == 'tupswap': n.elts = n.elts[::-1]
    elif op == 'idx': n.slice = ast.Constant(0)
    elif op == 'jump': new = ast.Pass()
    elif op == 'delete': new = ast.Pass()
    elif op == 'retnone': n.value = ast.Constant(None)
    elif op == 'forcut': n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
    if new is not None: put(fn, path, new)

def funcs(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef): out.append((n.name, n))
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef): out.append((n.name + '.' + m.name, m))
    return out

def variants(file, only=None):
    src = open(os.path.join(REPO, file)).read()
    tree = ast.parse(src)
    for q, f in funcs(tree):
        if only and only not in q: continue
        if q.split('.')[-1] in ('__str__', '__repr__', 'get_info', '_add_tree_stats', '_update_max_stats'): continue
        for path, op in sites(f):
            t2 = copy.deepcopy(tree)
            g = dict(funcs(t2))[q]
            orig = get(g, path)
            try: before = ast.unparse(orig); ln = getattr(orig, 'lineno', g.lineno)
            except Exception: before = '?'; ln = g.lineno
            try:
                mutate(g, path, op); ast.fix_missing_locations(t2)
                new = ast.unparse(t2); compile(new, file, 'exec')
            except Exception as e: continue
            yield dict(file=file, func=q, op=op, line=ln, before=before[:90]), new

BASE = None
def base_cover():
    """obligation -> functions"""
    p = '/tmp/mut/cover.json'
    if os.path.exists(p): return json.load(open(p))
    from sa import oblig, loader
    repo = loader.Repo(REPO)
    obs = oblig.load(repo)
    res = oblig.run_all(REPO, obs, 1, 'quick')
    cov = {}
    for o in obs:
        r = res[o.name]
        fs = set(r.get('inlined') or []) | ({o.target} if o.target else set()) | set(r.get('opaque') or [])
        if o.target:
            f = repo.func(o.target)
            if f: fs.add(f.qual)
        cov[o.name] = sorted(fs)
    json.dump(cov, open(p, 'w'))
    return cov

def job(a):
    info, new, cover, mode = a
    from sa import oblig, loader
    d = tempfile.mkdtemp(prefix='m_')
    t0 = time.time()
    try:
        for dp, dn, fn in os.walk(REPO):
            if '.git' in dp: continue
            for f in fn:
                if f.endswith('.py'):
                    r = os.path.relpath(os.path.join(dp, f), REPO)
                    os.makedirs(os.path.dirname(os.path.join(d, r)) or d, exist_ok=True)
                    shutil.copy(os.path.join(dp, f), os.path.join(d, r))
        open(os.path.join(d, info['file']), 'w').write(new)
        repo = loader.Repo(d)
        verd = {}
        last = info['func'].split('.')[-1]
        todo = [o for o in oblig.load(repo) if any(x == info['func'] or (x.split('.')[-1] == last and not last.startswith('__')) for x in cover.get(o.name, []))]
        todo.sort(key=lambda o: (o.target or '').split('.')[-1] != last)
        todo = todo[:14]
        hit = None
        for o in todo:
            r = oblig.decide(repo, o)
            verd[o.name] = r['verdict']
            if r['verdict'] == 'DIFFERS':
                hit = o.name
                if mode == 'first': break
        info['src'] = None if hit else new
        if hit is None:
            from sa import rules, rules_df, rules_zoo, rules_calls
            fs = []
            for p, l in rules.RULES.items():
                for name, fn in l:
                    if name.startswith('resolve-names') or name == 'no-result': continue
                    try: ff, _ = fn(repo)
                    except Exception as e: fs.append('ERR %s %s' % (name, e)); continue
                    fs += ['%s/%s' % (p, name) for _ in ff]
            if fs: hit = fs[0]
        info.update(hit=hit, verd=verd, secs=round(time.time() - t0, 1), new=None)
        return info
    except Exception as e:
        info.update(hit=None, err=repr(e)[:200]); return info
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    import multiprocessing as mp
    a = sys.argv[1:]
    def opt(k, dflt):
        if k in a: i = a.index(k); v = a[i + 1]; del a[i:i + 2]; return v
        return dflt
    j = int(opt('-j', '8')); step = int(opt('-s', '1')); only = opt('-f', None); outp = opt('-o', '/tmp/mut/out.jsonl')
    cover = base_cover()
    again = opt('-r', None)
    keys = None
    if again: keys = {(r['file'], r['func'], r['op'], r['line'], r['before']) for r in map(json.loads, open(again)) if not r.get('hit')}
    jobs = []
    for f in a[0].split(','):
        vs = list(variants(f, only))
        random.Random(7).shuffle(vs)
        if keys is not None: vs = [(i, n) for i, n in vs if (i['file'], i['func'], i['op'], i['line'], i['before']) in keys]
        jobs += [(i, n, cover, 'first') for i, n in vs[::step]]
    print(len(jobs), 'mutants', flush=True)
    with mp.Pool(j, maxtasksperchild=20) as pool, open(outp, 'w') as fo:
        srcs = {}
        for k, r in enumerate(pool.imap_unordered(job, jobs)):
            fo.write(json.dumps(r) + '\n'); fo.flush()
    rs = [json.loads(l) for l in open(outp)]
    print('caught', sum(1 for r in rs if r.get('hit')), 'of', len(rs))
if __name__ == '__main__': main()
