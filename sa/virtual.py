"""
Views of the command-line script as analysable functions.

<main>: the code that turns parsed options into a call of run_search, as a function of the options
        (the options are read off the add_argument calls; `args.x` becomes the parameter x, `vars(args)` the
        dictionary of all of them); its result is the call of run_search.
<run>:  run_search with its observable actions as the produced values: every estimation it starts, and the gates it prints
        when only gates are asked for.
"""
import ast, copy
from .loader import FuncInfo

EST = 'estimate_dilation_sequence'


def options(mod):
    """[(dest, flags, keywords, node)] of all add_argument calls with constant flags"""
    out = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            fl = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if len(fl) != len(n.args) or not fl: continue
            kw = {k.arg: k.value for k in n.keywords}
            if 'dest' in kw and isinstance(kw['dest'], ast.Constant): d = kw['dest'].value
            else:
                lg = [f for f in fl if f.startswith('--')] or fl
                d = lg[0].lstrip('-').replace('-', '_')
            out.append((d, fl, kw, n))
    return out


def has_call(n, attr):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == attr for x in ast.walk(n))


def calls_of(n, attr):
    return [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == attr]


class Main(ast.NodeTransformer):
    def __init__(self, dests, argvars): self.d, self.av = dests, argvars

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id in self.av:
            if n.attr in self.d: return ast.copy_location(ast.Name(n.attr, ast.Load()), n)
            if n.attr == '__dict__': return self.all(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'vars' and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id in self.av: return self.all(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and len(n.args) == 1 and isinstance(n.args[0], ast.Dict) and not n.keywords: return n.args[0]
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and isinstance(n.func.value, ast.Dict): return n.func.value
        if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id in self.av and isinstance(n.args[1], ast.Constant) and n.args[1].value in self.d:
            return ast.copy_location(ast.Name(n.args[1].value, ast.Load()), n)
        return n

    def all(self, n):
        return ast.copy_location(ast.Dict([ast.Constant(x) for x in self.d], [ast.Name(x, ast.Load()) for x in self.d]), n)


def main_fn(mod, order):
    opts = options(mod)
    dests = [d for d, *_ in opts]
    if not dests: return None
    body = None
    for f in mod.functions.values():
        if has_call(f.node, 'parse_args') and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)): body = f.node.body
    if body is None:
        for s in mod.tree.body:
            if isinstance(s, ast.If) and '__name__' in ast.unparse(s.test) and has_call(s, 'parse_args'): body = s.body
        if body is None: return None
    body = copy.deepcopy(body)
    av = set()
    out = []
    pvars = set()
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'parse_args': av.add(s.targets[0].id); continue
            if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in ('ArgumentParser', 'add_argument_group', 'add_mutually_exclusive_group', 'add_argument'): pvars.add(s.targets[0].id); continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in mod.functions and has_call(mod.functions[v.func.id].node, 'add_argument'): continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (has_call(s, 'add_argument') or ast.unparse(s.value.func) in ('logging.basicConfig',) or (isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in pvars)): continue
        out.append(s)
    tr = Main(dests, av)
    res = []
    for s in out:
        s = tr.visit(s)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split('.')[-1] == 'run_search':
            s = ast.copy_location(ast.Return(s.value), s)
        res.append(s)
    ps = [p for p in order if p in dests] + [d for d in dests if d not in order]
    node = ast.FunctionDef(name='<main>', args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=res or [ast.Pass()], decorator_list=[], returns=None)
    node.lineno, node.col_offset = (out[0].lineno if out else 1), 0
    return FuncInfo(mod, None, ast.fix_missing_locations(node))


class Run(ast.NodeTransformer):
    def __init__(self, gates): self.gates, self.n, self.loc = gates, 0, {}

    def visit_FunctionDef(self, n): return n
    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def stmts(self, ss):
        out = []
        for s in ss:
            head = s if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return, ast.AugAssign)) else s.test if isinstance(s, ast.If) else None
            for c in (calls_of(head, EST) if head is not None else []):
                self.n += 1
                out.append(ast.copy_location(ast.Expr(ast.copy_location(ast.Yield(copy.deepcopy(c)), c)), s))
                # the result is irrelevant here: reported text is not compared
                if isinstance(s, ast.Assign) and s.value is c: s = ast.copy_location(ast.Assign(s.targets, ast.copy_location(ast.Constant(None), c)), s)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('print', 'pprint.pprint', 'pprint', 'sys.stdout.write'):
                if self.gates and ast.unparse(s.value.func) == 'print' and len(s.value.args) == 1 and not s.value.keywords:
                    y = ast.copy_location(ast.Expr(ast.copy_location(ast.Yield(s.value.args[0]), s)), s)
                    out.append(ast.copy_location(ast.If(ast.Name('output_gates', ast.Load()), [y], []), s))
                else: out.append(ast.copy_location(ast.Pass(), s))
                continue
            if isinstance(s, ast.Assert): continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list): setattr(n, f, self.stmts(v) or ([ast.Pass()] if f == 'body' else []))
        return n


def run_fn(mod):
    f = mod.functions.get('run_search')
    if f is None: return None
    node = copy.deepcopy(f.node)
    ps = [a.arg for a in node.args.args + node.args.kwonlyargs]
    t = Run('output_gates' in ps)
    node.body = t.stmts(node.body)
    if not t.n: return None
    node.name = '<run>'
    node.decorator_list = []
    return FuncInfo(mod, None, ast.fix_missing_locations(node))


MAIN_ORDER = ['dim', 'mult', 'div', 'facet_gated', 'gates', 'gates_file', 'max_cdist', 'finish_max_count', 'metric', 'upper_bound', 'rel_tol_inv', 'rel_tol_inv_mult', 'cache_max_size', 'group_by_gates', 'output_gates', 'verbose']


def get(repo, qual):
    mod, fn = qual.split(':')
    m = repo.modules.get(mod)
    if m is None: return None
    c = getattr(m, 'virtual_', None)
    if c is None: c = m.virtual_ = {}
    if fn not in c:
        c[fn] = main_fn(m, MAIN_ORDER) if fn == '<main>' else run_fn(m) if fn == '<run>' else None
    return c[fn]
