"""behaviour-preserving rewrites of /repo's functions, one at a time; every alarm is a false alarm (or a wrong rewrite)"""
import ast, copy, sys, os, random, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as mut
from mutate import funcs, REPO

def names_stored(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    return out
def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
def isgen(fn): return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))
def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(e.ops[0]) in m: return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)
def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield n, b
def pure(e):
    """no calls besides well known ones"""
    return all(not isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(e)) and all(not isinstance(n, ast.Call) or (isinstance(n.func, ast.Name) and n.func.id in ('len', 'range', 'tuple', 'list', 'set', 'abs', 'min', 'max', 'sum', 'zip', 'enumerate', 'Fraction', 'sorted', 'reversed')) for n in ast.walk(e))
def terminal(b): return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

R = {}
def rw(f): R[f.__name__] = f; return f

@rw
def rename(fn, r):
    loc = names_stored(fn) - params(fn)
    gl = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    loc -= gl
    if not loc: return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc: n.id = n.id + '_v'
    return True
@rw
def rettemp(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                b[i:i + 1] = [ast.Assign([ast.Name('result_', ast.Store())], s.value), ast.Return(ast.Name('result_', ast.Load()))]; ok = True
    return ok
@rw
def swapif(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ok = True
        elif isinstance(n, ast.IfExp): n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ok = True
    return ok
@rw
def early2else(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]; del b[i + 1:]; ok = True; break
    return ok
@rw
def else2early(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                b[i + 1:i + 1] = s.orelse; s.orelse = []; ok = True; break
    return ok
@rw
def guardcontinue(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body[-1]
            n.body[-1:] = [ast.If(neg(s.test), [ast.Continue()], [])] + s.body; ok = True
    return ok
@rw
def demorgan(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [neg(v) for v in n.test.values])); ok = True
    return ok
@rw
def flipcmp(fn, r):
    ok = False
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and pure(n):
            n.left, n.comparators = n.comparators[0], [n.left]; n.ops = [m[type(n.ops[0])]()]; ok = True
    return ok
@rw
def nestif(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            v = n.test.values
            n.test = v[0]; n.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])]; ok = True
    return ok
@rw
def anyall(fn, r):
    ok = False
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal ok
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                g = n.args[0]; ok = True
                return ast.UnaryOp(ast.Not(), ast.Call(ast.Name('all' if n.func.id == 'any' else 'any', ast.Load()), [ast.GeneratorExp(neg(g.elt), g.generators)], []))
            return n
    V().visit(fn); return ok
@rw
def gen2list(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'list', 'sum', 'max', 'min', 'sorted', 'set', 'frozenset'):
            for i, a in enumerate(n.args):
                if isinstance(a, ast.GeneratorExp): n.args[i] = ast.ListComp(a.elt, a.generators); ok = True
    return ok
def loopof(comp, sink):
    body = [sink]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs): body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return body
def compof(e):
    if isinstance(e, ast.ListComp): return e, None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'list') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp): return e.args[0], e.func.id
    return None, None
@rw
def comp2loop(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None:
                c, k = compof(s.value)
                if c is None: continue
                used = {x.id for q in ast.walk(fn) if q is not s for x in [q] if isinstance(x, ast.Name)}
                nm = 'acc%d_' % i
                loop = loopof(c, ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [c.elt], [])))
                v = ast.Name(nm, ast.Load())
                s.value = v if k != 'tuple' else ast.Call(ast.Name('tuple', ast.Load()), [v], [])
                b[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()))] + loop; ok = True
    return ok
@rw
def yield2from(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield):
                b[i] = ast.Expr(ast.YieldFrom(ast.GeneratorExp(s.body[0].value.value, [ast.comprehension(s.target, s.iter, [], 0)]))); ok = True
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                b[i] = ast.For(ast.Name('item_', ast.Store()), s.value.value, [ast.Expr(ast.Yield(ast.Name('item_', ast.Load())))], []); ok = True
    return ok
@rw
def append2comp(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, f = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(f, ast.For) and len(f.body) == 1 and not f.orelse:
                gens = [ast.comprehension(f.target, f.iter, [], 0)]; c = f.body
                while True:
                    if len(c) != 1: c = None; break
                    if isinstance(c[0], ast.If) and not c[0].orelse: gens[-1].ifs.append(c[0].test); c = c[0].body
                    elif isinstance(c[0], ast.For) and not c[0].orelse: gens.append(ast.comprehension(c[0].target, c[0].iter, [], 0)); c = c[0].body
                    else: break
                if c and isinstance(c[0], ast.Expr) and isinstance(c[0].value, ast.Call) and isinstance(c[0].value.func, ast.Attribute) and c[0].value.func.attr == 'append' and isinstance(c[0].value.func.value, ast.Name) and c[0].value.func.value.id == s.targets[0].id:
                    s.value = ast.ListComp(c[0].value.args[0], gens); b[i + 1] = ast.Pass(); ok = True
    return ok
@rw
def augassign(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Mult, ast.Sub, ast.FloorDiv)) and isinstance(s.value, (ast.Constant, ast.Name, ast.BinOp, ast.Call)):
                if isinstance(s.value, ast.Call) and not (isinstance(s.value.func, ast.Name) and s.value.func.id in ('len', 'abs', 'int', 'Fraction')): continue
                b[i] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)); ok = True
    return ok
@rw
def square(fn, r):
    ok = False
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            nonlocal ok
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and pure(n.left): ok = True; return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            if isinstance(n.op, ast.Sub) and isinstance(n.left, ast.Constant) : ok = True; return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
            return n
    V().visit(fn); return ok
@rw
def inline(fn, r):
    """inline locals assigned once from pure expressions and used once, in the next statement"""
    ok = False
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not isinstance(b[i + 1], (ast.For, ast.While, ast.If, ast.FunctionDef, ast.With, ast.Try)):
                nm = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                st = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store)]
                here = [x for x in ast.walk(b[i + 1]) if x in uses]
                incomp = any(u in list(ast.walk(c)) for c in ast.walk(b[i + 1]) if isinstance(c, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.Lambda)) for u in here)
                if len(uses) == 1 and len(st) == 1 and here and not incomp and pure(s.value):
                    class V(ast.NodeTransformer):
                        def visit_Name(self, x): return s.value if x is uses[0] else x
                    b[i + 1] = V().visit(b[i + 1]); del b[i]; ok = True; continue
            i += 1
    return ok
@rw
def argtemps(fn, r):
    """name the arguments of calls in simple statements"""
    ok = False; k = 0
    for n, b in list(blocks(fn)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and not (isinstance(s.value.func, ast.Attribute) and ast.unparse(s.value.func).startswith('logg')):
                new = []
                for j, a in enumerate(s.value.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Tuple)) and not isinstance(a, ast.Starred):
                        new.append(ast.Assign([ast.Name('arg%d_' % k, ast.Store())], a)); s.value.args[j] = ast.Name('arg%d_' % k, ast.Load()); k += 1
                    elif not isinstance(a, (ast.Name, ast.Constant)): break
                if new: b[i:i] = new; ok = True
    return ok
def writes(s): return {ast.unparse(x).split('.')[0].split('[')[0] for x in ast.walk(s) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store)}
def reads(s): return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
@rw
def reorder(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        i = 0
        while i < len(b) - 1:
            s, q = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute, ast.Tuple)) for t in x.targets) and pure(x.value) for x in (s, q)):
                ws, wq = {ast.unparse(t) for x in [s] for t in x.targets}, {ast.unparse(t) for t in q.targets}
                if not any(w in ast.unparse(q) for w in ws) and not any(w in ast.unparse(s.value) for w in wq) and 'next(' not in ast.unparse(s):
                    b[i], b[i + 1] = q, s; ok = True; i += 1
            i += 1
    return ok
@rw
def enum2range(fn, r):
    ok = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and isinstance(n.iter.args[0], ast.Attribute) and isinstance(n.target, ast.Tuple):
            x = n.iter.args[0]
            n.body.insert(0, ast.Assign([n.target.elts[1]], ast.Subscript(copy.deepcopy(x), ast.Name(n.target.elts[0].id, ast.Load()), ast.Load())))
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [x], [])], []); n.target = n.target.elts[0]; ok = True
    return ok
@rw
def unusedstuff(fn, r):
    fn.body.insert(1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and len(fn.body) > 1 else 0, ast.parse('_unused = None').body[0]); return True
@rw
def forwhile(fn, r):
    """for i in range(n) -> while with counter (no continue in the body)"""
    ok = False; k = 0
    for n, b in list(blocks(fn)):
        for i, s in reversed(list(enumerate(b))):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and pure(s.iter) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and not any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for z in s.body for x in ast.walk(z)):
                c, e = 'n%d_' % k, 'end%d_' % k; k += 1
                b[i:i + 1] = [ast.Assign([ast.Name(c, ast.Store())], ast.Constant(0)), ast.Assign([ast.Name(e, ast.Store())], s.iter.args[0]),
                    ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), [ast.Assign([s.target], ast.Name(c, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]; ok = True
    return ok
@rw
def ifexp2if(fn, r):
    ok = False
    for n, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value; b[i:i + 1] = [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]; ok = True; break
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                e = s.value; b[i] = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)]); ok = True
    return ok
@rw
def unpacktemp(fn, r):
    ok = False; k = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
            nm = 'pair%d_' % k; k += 1
            n.body.insert(0, ast.Assign([n.target], ast.Name(nm, ast.Load()))); n.target = ast.Name(nm, ast.Store()); ok = True
    return ok
@rw
def map2comp(fn, r):
    ok = False
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal ok
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'map' and len(n.args) == 2: ok = True; return ast.GeneratorExp(ast.Call(n.args[0], [ast.Name('m_', ast.Load())], []), [ast.comprehension(ast.Name('m_', ast.Store()), n.args[1], [], 0)])
            return n
    V().visit(fn); return ok
@rw
def innerhelper(fn, r):
    """last return expression moved to a nested function"""
    s = fn.body[-1]
    if isgen(fn) or not isinstance(s, ast.Return) or s.value is None or isinstance(s.value, (ast.Name, ast.Constant)): return False
    h = ast.FunctionDef('finish_', ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, None)
    fn.body[-1:] = [h, ast.Return(ast.Call(ast.Name('finish_', ast.Load()), [], []))]
    return True

# rewrites that need the whole module
W = {}
def wr(f): W[f.__name__] = f; return f
def find(tree, q):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == q: return tree, n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and n.name + '.' + m.name == q: return n, m
def freevars(stmts, fn):
    loc = names_stored(fn) | params(fn)
    rd = []
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in loc and x.id not in rd: rd.append(x.id)
    return rd
def addfn(owner, fn, new):
    owner.body.insert(owner.body.index(fn) + 1, new)
def decos(fn): return [ast.unparse(d) for d in fn.decorator_list]
def kind(owner, fn):
    if isinstance(owner, ast.Module): return 'mod'
    d = decos(fn)
    if 'staticmethod' in d: return 'static'
    if 'classmethod' in d: return 'cls'
    if d and any(x in ('property',) or 'cache' in x for x in d): return 'other'
    return 'self'
@wr
def extract_expr(tree, q, r):
    """the returned expression becomes a helper"""
    owner, fn = find(tree, q)
    k = kind(owner, fn)
    if k in ('other', 'static'): return False
    s = fn.body[-1]
    if isgen(fn) or not isinstance(s, ast.Return) or s.value is None or isinstance(s.value, (ast.Name, ast.Constant)): return False
    if 'super()' in ast.unparse(s.value): return False
    fv = freevars([s], fn)
    me = {'self': 'self', 'cls': 'cls', 'mod': None}[k]
    first = fn.args.args[0].arg if me and fn.args.args else None
    if me and first != me: return False
    fv = [x for x in fv if x != me]
    comp = {x.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)} | {a.arg for l in ast.walk(s) if isinstance(l, ast.Lambda) for a in l.args.args}
    fv = [x for x in fv if x not in comp]
    name = '_finish_' + fn.name.strip('_')
    args = ast.arguments([], [ast.arg(a) for a in ([me] if me else []) + fv], None, [], [], None, [])
    h = ast.FunctionDef(name, args, [ast.Return(s.value)], [ast.Name('classmethod', ast.Load())] if k == 'cls' else [], None, None)
    f = ast.Name(name, ast.Load()) if not me else ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load())
    fn.body[-1] = ast.Return(ast.Call(f, [ast.Name(a, ast.Load()) for a in fv], []))
    addfn(owner, fn, h); return True
@wr
def extract_body(tree, q, r):
    """the whole body becomes a helper with the same parameters"""
    owner, fn = find(tree, q)
    k = kind(owner, fn)
    if k in ('other', 'static') or 'super()' in ast.unparse(fn): return False
    if fn.name in ('__init__', '__new__'): return False
    me = {'self': 'self', 'cls': 'cls', 'mod': None}[k]
    a = fn.args
    if a.vararg or a.kwarg: return False
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if me and (not ps or ps[0] != me): return False
    name = '_do_' + fn.name.strip('_')
    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, []), fn.body, [ast.Name('classmethod', ast.Load())] if k == 'cls' else [], None, None)
    f = ast.Name(name, ast.Load()) if not me else ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load())
    call = ast.Call(f, [ast.Name(x, ast.Load()) for x in ps if x != me], [])
    fn.body = [ast.Expr(ast.YieldFrom(call))] if isgen(fn) else [ast.Return(call)]
    addfn(owner, fn, h); return True
@wr
def extract_cond(tree, q, r):
    """conditions of ifs become predicates"""
    owner, fn = find(tree, q)
    k = kind(owner, fn)
    if k not in ('self', 'mod'): return False
    me = 'self' if k == 'self' else None
    if me and (not fn.args.args or fn.args.args[0].arg != 'self'): return False
    ok = False; new = []
    for i, n in enumerate([x for x in ast.walk(fn) if isinstance(x, (ast.If,)) and isinstance(x.test, (ast.BoolOp, ast.Compare))]):
        s = ast.Expr(n.test)
        if any(isinstance(x, (ast.comprehension, ast.Lambda, ast.NamedExpr)) for x in ast.walk(n.test)): continue
        fv = [x for x in freevars([s], fn) if x != me]
        name = '_test%d_%s' % (i, fn.name.strip('_'))
        new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ([me] if me else []) + fv], None, [], [], None, []), [ast.Return(n.test)], [], None, None))
        f = ast.Name(name, ast.Load()) if not me else ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load())
        n.test = ast.Call(f, [ast.Name(x, ast.Load()) for x in fv], []); ok = True
    for h in new: addfn(owner, fn, h)
    return ok
@wr
def extract_loopbody(tree, q, r):
    """body of an innermost for without control flow or rebinding becomes a helper"""
    owner, fn = find(tree, q)
    k = kind(owner, fn)
    if k not in ('self', 'mod'): return False
    me = 'self' if k == 'self' else None
    if me and (not fn.args.args or fn.args.args[0].arg != 'self'): return False
    ok = False
    for i, n in enumerate([x for x in ast.walk(fn) if isinstance(x, ast.For)]):
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Assign, ast.AugAssign, ast.For, ast.FunctionDef, ast.comprehension, ast.Lambda)) for s in n.body for x in ast.walk(s)): continue
        fv = [x for x in freevars(n.body, fn) if x != me]
        name = '_step%d_%s' % (i, fn.name.strip('_'))
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ([me] if me else []) + fv], None, [], [], None, []), n.body, [], None, None)
        f = ast.Name(name, ast.Load()) if not me else ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load())
        n.body = [ast.Expr(ast.Call(f, [ast.Name(x, ast.Load()) for x in fv], []))]
        addfn(owner, fn, h); ok = True
    return ok
@wr
def extract_comp(tree, q, r):
    """first tuple/list comprehension of the function becomes a module level helper"""
    owner, fn = find(tree, q)
    done = False
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST) and compof(v)[0] is not None and not done:
                inner = {x.id for c in ast.walk(v) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                outer_comp = any(isinstance(c, ast.comprehension) for c in ast.walk(fn) if c not in list(ast.walk(v)))
                if outer_comp: continue
                fv = [x for x in freevars([ast.Expr(v)], fn) if x not in inner]
                name = '_collect_' + fn.name.strip('_')
                h = ast.FunctionDef(name, ast.arguments([], [ast.arg('this' if x == 'self' else x) for x in fv], None, [], [], None, []), [ast.Return(copy.deepcopy(v))], [], None, None)
                for x in ast.walk(h):
                    if isinstance(x, ast.Name) and x.id == 'self': x.id = 'this'
                ast.fix_missing_locations(h)
                if 'super' in ast.unparse(h) or '__' in ast.unparse(h.body[0]): continue
                setattr(n, f, ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in fv], []))
                tree.body.append(h); done = True
    return done
@wr
def reorder_methods(tree, q, r):
    owner, fn = find(tree, q)
    if not isinstance(owner, ast.ClassDef): return False
    if owner.body[[i for i, x in enumerate(owner.body) if isinstance(x, ast.FunctionDef)][0]] is not fn: return False
    fs = [x for x in owner.body if isinstance(x, ast.FunctionDef)]
    if any(not set(decos(x)) <= {'staticmethod', 'classmethod', 'property'} for x in fs): return False
    pos = [i for i, x in enumerate(owner.body) if isinstance(x, ast.FunctionDef)]
    for i, f in zip(pos, reversed(fs)): owner.body[i] = f
    return True

def variants(file, only=None):
    src = open(os.path.join(REPO, file)).read()
    tree = ast.parse(src)
    for q, f in funcs(tree):
        if only and only not in q: continue
        for name, fn in list(R.items()) + list(W.items()):
            t2 = copy.deepcopy(tree)
            g = dict(funcs(t2))[q]
            try:
                ok = fn(g, random.Random(1)) if name in R else fn(t2, q, random.Random(1))
                if not ok: continue
                ast.fix_missing_locations(t2)
                new = ast.unparse(t2); compile(new, file, 'exec')
            except Exception as e:
                print('SKIP', q, name, e); continue
            if KINDS and name not in KINDS: continue
            yield dict(file=file, func=q, op=name, line=f.lineno, before=''), new
KINDS = set()
if __name__ == '__main__':
    if '-k' in sys.argv: i = sys.argv.index('-k'); KINDS |= set(sys.argv[i + 1].split(',')); del sys.argv[i:i + 2]
    mut.variants = variants
    mut.main()
