"""
C27: everything referred to exists and is called the way it is defined; the options of the command-line tool are declared
with their documented types; a search without result is not used as if there were one.

 resolve-names   imports of repository modules, names, attributes of repository classes (type checker, filtered to facts
                 about repository definitions)
 resolve-uses    an attribute name used anywhere must be defined somewhere (repository, language, library); a call by name
                 or method name that only repository definitions have must fit one of them
 options         declared options of the search tool
 no-result       the search's optional result is only used where it is known to be present
"""
from __future__ import annotations
import ast, builtins, collections, fractions, functools, heapq, importlib, itertools, logging, operator, os, re, shutil, subprocess, sys
from . import virtual
from .rules import Finding, rule
from .rules_df import src

EXT = set('append_formula solve get_model add_clause delete nof_vars nof_clauses accum_stats enum_models get_core propagate solve_limited conf_budget time time_accum clauses nv interrupt new'.split())
KNOWN_LIBS = {'quicktions', 'pysat', 'typing_extensions', '__future__'}


def stdlib_names():
    out = set()
    for o in (int, float, str, bytes, list, tuple, dict, set, frozenset, complex, bool, range, slice, object, type, Exception, KeyError, StopIteration, property, staticmethod, fractions.Fraction,
              collections.Counter, collections.defaultdict, collections.OrderedDict, collections.deque, itertools.chain, functools.lru_cache(int), logging.Logger, logging.LogRecord, collections.namedtuple('x', 'y')):
        out |= set(dir(o))
    f = lambda: (yield)
    out |= set(dir(f)) | set(dir(f())) | set(dir(''.join)) | set(dir(stdlib_names)) | set(dir(sys.stdout))
    import argparse, io
    out |= set(dir(argparse.ArgumentParser)) | set(dir(argparse.Namespace)) | set(dir(io.TextIOWrapper))
    return out


def imported_roots(m):
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names: out.add(a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module: out.add(n.module.split('.')[0])
    return out


def local_mods(repo): return {x.split('.')[0] for x in repo.modules} | {'peano', 'tests'}


def defined(repo):
    """attribute name -> (functions, is also data)"""
    fns, data, bases = {}, set(), set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        d = [ast.unparse(x) for x in s.decorator_list]
                        if any(x not in ('staticmethod', 'classmethod') for x in d): data.add(s.name)
                        else: fns.setdefault(s.name, []).append((s, 'static' if 'staticmethod' in d else 'method', n))
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): data.add(s.target.id)
                    elif isinstance(s, ast.Assign):
                        for z in s.targets:
                            for y in ast.walk(z):
                                if isinstance(y, ast.Name): data.add(y.id)
                    elif isinstance(s, ast.ClassDef): data.add(s.name)
                for b in n.bases: bases.add(ast.unparse(b).split('[')[0].split('.')[-1])
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)): data.add(n.attr)
            elif isinstance(n, ast.TypeAlias) and isinstance(n.name, ast.Name): data.add(n.name.id)
            elif isinstance(n, ast.Call):
                fn = ast.unparse(n.func)
                if fn.split('.')[-1] == 'add_argument':
                    for z in n.args + [k.value for k in n.keywords if k.arg == 'dest']:
                        if isinstance(z, ast.Constant) and isinstance(z.value, str): data.add(z.value.lstrip('-').replace('-', '_'))
                        else: data.add('*')
                if fn.split('.')[-1] in ('namedtuple', 'NamedTuple', 'make_dataclass', 'TypedDict'):
                    for y in ast.walk(n):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str): data |= set(re.findall(r'\w+', y.value))
                elif fn in ('setattr', 'object.__setattr__', 'hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant): data.add(str(n.args[1].value))
                elif fn == 'setattr' or fn.endswith('__dict__.update'): data.add('*')
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if s.decorator_list: data.add(s.name)
                else: fns.setdefault(s.name, []).append((s, 'func', None))
            elif isinstance(s, ast.ClassDef): data.add(s.name)
            else:
                for y in ast.walk(s):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): data.add(y.id)
                    elif isinstance(y, ast.alias): data.add((y.asname or y.name).split('.')[0])
    return fns, data, bases


def binds(fn, npos, kws, star, dstar, skip):
    """the call can fit the parameters of fn (skip: implicit first parameters)"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    po = [x.arg for x in a.posonlyargs]
    kwo = [x.arg for x in a.kwonlyargs]
    if skip > len(a.posonlyargs + a.args): return True if a.vararg else False
    if npos > len(pos) and not a.vararg: return 'takes %d positional arguments' % len(pos)
    for k in kws:
        if k in po or (k not in pos and k not in kwo):
            if not a.kwarg: return 'has no parameter %r' % k
        elif k in pos[:npos]: return 'gets %r twice' % k
    if not star and not dstar:
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else pos
        for p in req[npos:]:
            if p not in kws: return 'needs %r' % p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws: return 'needs %r' % x.arg
    return True


def call_shape(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    return sum(not isinstance(a, ast.Starred) for a in n.args), [k.arg for k in n.keywords if k.arg], star, any(k.arg is None for k in n.keywords)


def scopes(tree):
    """yield (node, names bound in enclosing functions, qualified name)"""
    def bound(fn):
        out = set()
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = fn.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn: out.add(n.name)
                elif isinstance(n, ast.alias): out.add((n.asname or n.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        return out

    def go(n, env, q, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                go_q = q + ('.' if q else '') + getattr(c, 'name', '<lambda>')
                yield c, env, q or '<module>'
                yield from go(c, env | bound(c), go_q, cls)
            elif isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                e = env | {y.id for y in ast.walk(c) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                yield c, e, q or '<module>'
                yield from go(c, e, q, cls)
            elif isinstance(c, ast.ClassDef):
                yield c, env, q or '<module>'
                yield from go(c, env, q + ('.' if q else '') + c.name, c)
            else:
                yield c, env, q or '<module>'
                yield from go(c, env, q, cls)
    yield from go(tree, set(), '', None)


def own_receiver(m, n, fns, data, mods):
    """in a file using foreign libraries: the receiver is a variable used elsewhere only through repository attributes"""
    if not isinstance(n.value, ast.Name): return False
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef) and f.lineno <= n.lineno <= f.end_lineno and any(a.arg == n.value.id for a in f.args.args):
            others = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n.value.id and x.attr != n.attr}
            return len(others) >= 2 and all(o in fns or o in data for o in others)
    return False


def loc(m, n, q): return '%s:%d %s' % (m.relpath, getattr(n, 'lineno', 0), q)


@rule('C27', 'resolve-uses')
def resolve_uses(repo):
    fns, data, bases = defined(repo)
    std = stdlib_names()
    local = local_mods(repo)
    wild = '*' in data or '__getattr__' in fns
    out, nat, ncall, nskip = [], 0, 0, 0
    for m in repo.modules.values():
        roots = imported_roots(m)
        foreign = {r for r in roots if r not in local and r not in KNOWN_LIBS and r not in sys.stdlib_module_names}
        mods = set()
        for r in roots & set(sys.stdlib_module_names):
            try: mods |= set(dir(importlib.import_module(r)))
            except Exception: pass
        # classes of imported stdlib modules
        for r in roots & set(sys.stdlib_module_names):
            try:
                for v in vars(importlib.import_module(r)).values():
                    if isinstance(v, type): mods |= set(dir(v))
            except Exception: pass
        for n, env, q in scopes(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                nat += 1
                if wild or (foreign and not own_receiver(m, n, fns, data, mods)): nskip += 1; continue
                if n.attr in fns or n.attr in data or n.attr in std or n.attr in mods or n.attr in EXT or n.attr in {x.split('.')[-1] for x in repo.modules}: continue
                out.append(Finding(loc(m, n, q), src(n), 'attribute %r is defined nowhere' % n.attr))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                nm = n.func.attr
                if nm in fns and nm not in data and nm not in std and nm not in EXT and nm not in mods and not (foreign and not nm in fns):
                    ncall += 1
                    sh = call_shape(n)
                    why = None
                    for f, kind, cls in fns[nm]:
                        w = binds(f, *sh, 1 if kind == 'method' else 0)
                        if w is not True and kind == 'method': 
                            w2 = binds(f, *sh, 0)     # Class.method(obj, ...)
                            if w2 is True and isinstance(n.func.value, (ast.Name, ast.Attribute)): w = True
                        if w is True: break
                        why = why or w
                    else: out.append(Finding(loc(m, n, q), src(n), 'no definition of %s accepts this call (%s)' % (nm, why)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in env:
                r = target(repo, m, n.func.id)
                if r is None: continue
                ncall += 1
                f, skip = r
                w = binds(f, *call_shape(n), skip)
                if w is not True: out.append(Finding(loc(m, n, q), src(n), '%s %s' % (n.func.id, w)))
    return out, dict(obligations=nat + ncall, failed=len(out), rule='attribute names exist; calls fit a definition', attributes=nat, calls=ncall, not_decided=nskip)


def target(repo, m, name):
    """(function node, implicit parameters) of a module-level function or class constructor"""
    for _ in range(4):
        if name in m.functions:
            f = m.functions[name]
            defs = [s for s in ast.walk(m.tree) if isinstance(s, ast.FunctionDef) and s.name == name]
            return (f.node, 0) if not f.node.decorator_list and len(defs) == 1 else None
        c = getattr(m, 'classes', {}).get(name)
        if c is not None: return ctor(repo, c)
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        k = modname(repo, m, s)
                        if k is None: return None
                        m, name = repo.modules[k], a.name
                        break
                else: continue
                break
        else: return None
    return None


def modname(repo, m, s):
    """key in repo.modules of the module a from-import reads"""
    base = s.module or ''
    for k in repo.modules:
        full = k
        if s.level:
            if full == base or full.split('.')[-1] == base.split('.')[-1] and base: return k
        elif full == base or 'peano.' + full == base or (base.startswith('peano.') and full == base[6:]): return k
    return None


def ctor(repo, c):
    if c.node.decorator_list or c.node.keywords: return None
    try: mro = repo.mro(c)
    except Exception: return None
    for k in mro:
        if '__new__' in k.methods: return k.methods['__new__'].node, 1
        if '__init__' in k.methods: return k.methods['__init__'].node, 1
        if k.node.decorator_list or any(ast.unparse(b).split('[')[0].split('.')[-1] not in set(repo_classes(repo)) | {'object', 'Generic', 'ABC', 'Protocol'} for b in k.node.bases): return None
    return None


def repo_classes(repo):
    out = {}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef): out.setdefault(n.name, n)
    return out


_MYPY = {}


def mypy(repo):
    root = repo.root
    if root in _MYPY: return _MYPY[root]
    exe = shutil.which('mypy') or '/opt/veriftools/pyvenv/bin/mypy'
    files = sorted(m.relpath for m in repo.modules.values() if not m.relpath.startswith('tests'))
    top = [f for f in files if '/' not in f] + sorted({f.split('/')[0] for f in files if '/' in f})
    try:
        p = subprocess.run([exe, '--config-file=', '--cache-dir=/dev/null', '--check-untyped-defs', '--ignore-missing-imports', '--no-site-packages', '--no-error-summary', '--show-error-codes', '--no-color-output', *top],
                           cwd=root, capture_output=True, text=True, timeout=300, env={k: v for k, v in os.environ.items() if not k.startswith('MYPY')})
        lines = p.stdout.splitlines() if p.returncode in (0, 1) else None
    except (OSError, subprocess.TimeoutExpired): lines = None
    out = None
    if lines is not None:
        out = []
        for l in lines:
            x = re.match(r'(.+?):(\d+): error: (.*?)  \[([\w-]+)\]$', l)
            if x: out.append((x.group(1), int(x.group(2)), x.group(3), x.group(4)))
    _MYPY[root] = out
    return out


def enclosing(m, line):
    best = '<module>'
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= (n.end_lineno or n.lineno): best = n.name if best == '<module>' or isinstance(n, ast.FunctionDef) else best
    return best


def line_src(m, line):
    best = None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.stmt) and n.lineno == line: best = n; break
    return src(best) if best is not None else 'line'


@rule('C27', 'resolve-names')
def resolve_names(repo):
    out = []
    nimp = 0
    local = local_mods(repo)
    by = {m.relpath: m for m in repo.modules.values()}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and (n.level or (n.module or '').split('.')[0] in local):
                nimp += len(n.names)
                guarded = any(isinstance(t, ast.Try) and n in list(ast.walk(t)) for t in ast.walk(m.tree))
                k = modname(repo, m, n)
                if k is None:
                    if n.level and not n.module or (n.module in ('peano', 'tests')): 
                        continue
                    if not guarded and not os.path.exists(os.path.join(repo.root, *(n.module or '').split('.')) + '.py') and not os.path.isdir(os.path.join(repo.root, *(n.module or '').split('.'))):
                        out.append(Finding('%s:%d <module>' % (m.relpath, n.lineno), src(n), 'module %s does not exist' % n.module))
                    continue
                t = repo.modules[k]
                have = toplevel(t)
                if t.relpath.endswith('__init__.py'): have |= {os.path.basename(x.relpath)[:-3] for x in repo.modules.values() if os.path.dirname(x.relpath) == os.path.dirname(t.relpath)}
                for a in n.names:
                    if a.name != '*' and a.name not in have and '*' not in have and not guarded:
                        out.append(Finding('%s:%d <module>' % (m.relpath, n.lineno), 'import %s from %s' % (a.name, t.relpath), '%s defines no %s' % (t.relpath, a.name)))
    ms = mypy(repo)
    cls = repo_classes(repo)
    attrs = {}
    for c, n in cls.items():
        attrs[c] = {y.attr for y in ast.walk(n) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)} | {y.name for y in n.body if isinstance(y, ast.FunctionDef)} | {y.target.id for y in n.body if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name)} | {z.id for y in n.body if isinstance(y, ast.Assign) for z in y.targets if isinstance(z, ast.Name)}
    sub = {c: {c} for c in cls}
    ch = True
    while ch:
        ch = False
        for c, n in cls.items():
            for b in n.bases:
                b = ast.unparse(b).split('[')[0].split('.')[-1]
                if b in sub and not sub[c] <= sub[b]: sub[b] |= sub[c]; ch = True
    for f, line, msg, code in ms or []:
        m = by.get(f.replace('\\', '/').removeprefix('./'))
        if m is None: continue
        hit = None
        if code in ('name-defined', 'used-before-def'): hit = msg
        elif code == 'attr-defined':
            x = re.match(r'"(?:type\[)?(\w+)(?:\[.*)?\]?" has no attribute "(\w+)"', msg)
            if x and x.group(1) in cls and not any(x.group(2) in attrs[s] for s in sub[x.group(1)]): hit = msg
            x = re.match(r'Module (?:"([\w.]+)" )?has no attribute "(\w+)"', msg)
            if x and (x.group(1) is None or x.group(1).split('.')[0] in local): hit = msg
        elif code == 'call-arg':
            x = re.search(r'"(\w+)"(?: of "(\w+)")?', msg.split(' for ')[-1] if ' for ' in msg else msg.split(' in call to ')[-1])
            if x and (x.group(2) in cls if x.group(2) else (x.group(1) in cls or any(x.group(1) in mm.functions for mm in repo.modules.values()))): hit = msg
        elif code == 'abstract': hit = msg
        if hit: out.append(Finding('%s:%d %s' % (m.relpath, line, enclosing(m, line)), line_src(m, line), re.sub(r'\s+', ' ', hit)))
    return out, dict(obligations=nimp + sum(len(list(ast.walk(m.tree))) for m in repo.modules.values()) // 20, failed=len(out), rule='imports, names, attributes and signatures resolve to repository definitions', imports=nimp, typechecker='mypy: %d diagnostics read' % len(ms) if ms is not None else 'not available')


def toplevel(m):
    have = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): have.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)): have.add(n.name)
        elif isinstance(n, ast.alias): have.add('*' if n.name == '*' else (n.asname or n.name).split('.')[0])
        elif isinstance(n, ast.FunctionDef) and n.name == '__getattr__': have.add('*')
    return have


INTS = ['dim', 'mult', 'div', 'max_cdist', 'finish_max_count', 'rel_tol_inv', 'rel_tol_inv_mult', 'cache_max_size']
FLAGS = ['facet_gated', 'group_by_gates', 'output_gates']
TEXTS = ['gates', 'gates_file', 'metric', 'upper_bound']
REQUIRED = ['dim', 'mult', 'div']


@rule('C27', 'options')
def options(repo):
    m = repo.modules.get('search')
    if m is None: return [], dict(obligations=0, failed=0, rule='options', note='no search script')
    opts = virtual.options(m)
    calls = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument']
    whole = len(calls) == len(opts) and not any(k is None for _, _, kw, _ in opts for k in kw)
    out = []
    w = lambda n: '%s:%d <module>' % (m.relpath, n.lineno)
    flags = {f for _, fl, _, _ in opts for f in fl}
    if whole and opts:
        for d in INTS + FLAGS + TEXTS + ['verbose']:
            spell = {'--' + d, '--' + d.replace('_', '-'), '--rel-tol-inv_mult' if d == 'rel_tol_inv_mult' else '--' + d}
            if not (flags & spell): out.append(Finding(w(opts[0][3]), 'option --%s' % d.replace('_', '-'), 'documented option is not declared'))
    known = {'--' + d.replace('_', '-'): d for d in INTS + FLAGS + TEXTS}
    for d, fl, kw, n in opts:
        o = next((known.get(f.replace('_', '-')) for f in fl if f.replace('_', '-') in known), None)
        if o is None: continue
        act = kw.get('action')
        act = act.value if isinstance(act, ast.Constant) else None if act is None else '?'
        typ = ast.unparse(kw['type']) if 'type' in kw else None
        default = kw.get('default')
        dv = default.value if isinstance(default, ast.Constant) else None if default is None else '?'
        if o in INTS:
            if act in ('store_true', 'store_false', 'count') or (act is None or act == 'store') and typ in (None, 'str', 'float', 'bool'): out.append(Finding(w(n), src(n), 'option %s must be read as an integer' % fl[0]))
        elif o in FLAGS:
            if act == 'store_false' or (act == 'store_true' and dv is True): out.append(Finding(w(n), src(n), 'flag %s must be off unless given' % fl[0]))
            if act in (None, 'store') and typ in (None, 'str', 'int', 'bool'): out.append(Finding(w(n), src(n), 'option %s must be a flag without argument' % fl[0]))
        else:
            if act in ('store_true', 'store_false', 'count') or typ in ('int', 'float', 'bool'): out.append(Finding(w(n), src(n), 'option %s must be read as text' % fl[0]))
        if o not in REQUIRED and isinstance(kw.get('required'), ast.Constant) and kw['required'].value is True: out.append(Finding(w(n), src(n), 'option %s is documented as optional' % fl[0]))
        if o not in REQUIRED + FLAGS and dv not in (None, '?') : out.append(Finding(w(n), src(n), 'option %s has no documented default' % fl[0]))
        if o == 'metric' and isinstance(kw.get('choices'), (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in kw['choices'].elts):
            miss = {'l1', 'l2', 'l2_squared', 'linf'} - {x.value for x in kw['choices'].elts}
            if miss: out.append(Finding(w(n), src(n), 'metric %s is not accepted' % sorted(miss)))
    return out, dict(obligations=len(opts), failed=len(out), rule='every documented option is declared with its documented kind', options=[d for d, *_ in opts])


@rule('C27', 'no-result')
def no_result(repo):
    ms = mypy(repo)
    m = repo.modules.get('search')
    out = []
    if m is not None:
        for f, line, msg, code in ms or []:
            if f.removeprefix('./') == m.relpath and code in ('union-attr', 'index', 'operator') and re.search(r'"dict\[.*\] \| None"|None.*dict\[', msg):
                out.append(Finding('%s:%d %s' % (m.relpath, line, enclosing(m, line)), line_src(m, line), 'the search may have no result here: ' + msg))
    n = len([1 for k in ast.walk(m.tree) if isinstance(k, (ast.Subscript, ast.Attribute))]) if m is not None else 0
    return out, dict(obligations=n, failed=len(out), rule='the optional result of a search is used only under a check')
