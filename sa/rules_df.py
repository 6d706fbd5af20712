"""
Rules over the events of sa/df.py.

C06 immutability, C07 memoisation, C08 hashing, C09 exactness, C10 ambient state, C28 one-shot iterables.
Every rule reports a construct only if the abstract values show the bad flow; a construct the
analysis does not understand stays silent.
"""
from __future__ import annotations
import ast
from . import df
from .rules import Finding, rule

CONT = df.CONT


def src(node, n=140):
    try:
        if isinstance(node, (ast.If, ast.For, ast.While)):
            return ast.unparse(node.test if not isinstance(node, ast.For) else node.iter)[:n]
        return ast.unparse(node)[:n].split('\n')[0]
    except Exception: return type(node).__name__


def where(e): return '%s:%d %s' % (e['fn'].module.relpath, getattr(e['node'], 'lineno', 0), e['fn'].qual)


def F(e, msg): return Finding(where(e), src(e['node']), msg)


class Ctx:
    """facts derived from the events that several rules need"""
    def __init__(self, repo):
        self.repo = repo
        self.p = df.program(repo)
        self.ev = self.p.events
        self.callers = {}
        for e in self.ev:
            if e['kind'] == 'rcall': self.callers.setdefault(e['target'].node, []).append(e)
        self._ctor = {}

    def of(self, *kinds): return [e for e in self.ev if e['kind'] in kinds]

    def in_ctor(self, fn, depth=0):
        """fn runs only while its object is being constructed"""
        if fn.node in self._ctor: return self._ctor[fn.node]
        if fn.ctor: return True
        if fn.parent is not None: return self.in_ctor(fn.parent, depth + 1)
        if depth > 6: return False
        self._ctor[fn.node] = False
        cs = [c for c in self.callers.get(fn.node, []) if c['fn'].node is not fn.node]
        r = bool(cs) and fn.cls is not None and all(self.in_ctor(c['fn'], depth + 1) and self.on_self(c, fn) for c in cs)
        self._ctor[fn.node] = r
        return r

    @staticmethod
    def on_self(c, fn):
        n = fn.pnames[0] if fn.pnames else None
        v = c['bind'].get(n)
        return v is not None and all(o[0] in ('param', 'newobj') and (o[0] == 'newobj' or o[1] == c['fn'].pnames[0]) for o in v.orig)

    def self_name(self, fn):
        while fn.parent is not None: fn = fn.parent
        return fn.pnames[0] if fn.cls is not None and fn.pnames else None


_ctx = {}


def ctx(repo):
    if id(repo) not in _ctx:
        _ctx.clear()
        _ctx[id(repo)] = Ctx(repo)
    return _ctx[id(repo)]


def cov(n, failed, **kw): return dict(obligations=n, failed=failed, **kw)


# -- C06 ------------------------------------------------------------------------------------------

def value_cls(c, names): return sorted(x for x in names if c.p.is_value(x))


def base_attr(a): return a[:-2] if a.endswith('[]') else a


def is_memo(c, cls, attr): return attr not in ('__dict__', '*') and c.p.memo_field(cls, base_attr(attr))


def container_kinds(v): return bool(v.kinds & CONT) or ('?' in v.kinds and not v.kinds & {'obj'})


@rule('C06', 'attributes of values are bound only during construction')
def c06_attr(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('attr'):
        obj, attr = e['obj'], e['attr']
        if obj is None: continue
        vc = value_cls(c, obj.cls)
        if not vc: continue
        n += 1
        if all(o[0] in ('newobj', 'fresh') for o in obj.orig) and obj.orig: continue
        if c.in_ctor(e['fn']) and any(o[0] == 'param' and o[1] == c.self_name(e['fn']) for o in obj.orig): continue
        if all(is_memo(c, x, attr) for x in vc) and not e.get('delete'): continue
        out.append(F(e, 'attribute %r of an existing %s is rebound' % (attr, ' / '.join(vc))))
    return out, cov(n, len(out), rule='every attribute store whose receiver may be a value is in its construction, on an object just created, or fills a memo slot')


def closure_origins(c, fn, o, depth=0):
    """origins of a variable of an enclosing function"""
    p = fn.parent
    while p is not None and p.qual != o[1]: p = p.parent
    if p is None or depth > 3: return set(), None
    if o[2] in p.pnames + p.kwonly: return {('param', o[2], 0)}, p
    v = p.envs.get(o[2])
    if v is None: return set(), p
    return set(v.orig), p


def mutation_target(c, e, fn, o):
    """why changing an object of this origin in place is visible outside, or None"""
    k = o[0]
    if k == 'attr':
        if not c.p.is_value(o[1]): return None
        if is_memo(c, o[1], o[2]): return None
        if c.in_ctor(fn): return None
        return 'container held by %s.%s' % (o[1], o[2])
    if k == 'param':
        if o[1] in (fn.vararg, fn.kwarg): return None
        sn = c.self_name(fn)
        if o[1] == sn:
            return None
        private = fn.info.name.startswith('_') and not fn.info.name.startswith('__')
        if private or fn.parent is not None or getattr(fn, 'module_level', False): return None
        if fn.ctor and fn.cls is not None and fn.cls.name.startswith('_'): return None
        return "the caller's argument %r%s" % (o[1], ' (element)' * bool(o[2]))
    return None


@rule('C06', 'containers of values and of callers are not changed in place')
def c06_mut(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('mut'):
        v, fn = e['cont'], e['fn']
        n += 1
        if not container_kinds(v) and not ('seq' in v.kinds and e['how'].startswith('.')): continue
        bad = None
        for o in sorted(v.orig, key=str):
            if o[0] == 'closure':
                os, p = closure_origins(c, fn, o)
                for q in os:
                    bad = bad or (mutation_target(c, e, p, q) if p is not None else None)
                continue
            bad = bad or mutation_target(c, e, fn, o)
        if bad is None and e.get('escaped') and not e.get('via'):
            bad = 'an object already handed out (line %s)' % ', '.join(str(getattr(x, 'lineno', x[1])) for x in e['escaped'])
        if bad: out.append(F(e, '%s changes %s in place' % (e['how'], bad)))
    return out, cov(n, len(out), rule='no in-place operation on a container that may be held by a value, was passed in by a caller of a public function, or was already yielded')


@rule('C06', 'values do not keep references to mutable arguments')
def c06_capture(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('attr'):
        fn, obj, v = e['fn'], e['obj'], e['val']
        if obj is None or not (fn.ctor or c.in_ctor(fn)): continue
        vc = value_cls(c, obj.cls)
        if not vc: continue
        n += 1
        if v.kinds & {'list', 'set', 'dict', 'iterable'} and any(o[0] == 'param' and o[2] == 0 and o[1] != c.self_name(fn) for o in v.orig):
            out.append(F(e, 'the caller\'s own mutable object is kept in %s.%s' % (vc[0], e['attr'])))
    return out, cov(n, len(out), rule='a constructor stores a copy or an immutable object, never the list / set / dict it was given')


# -- C18 / C13 / C10: objects with changing containers do not share them ---------------------------------

def home(c, cls):
    """property that owns a mutable class, by the module that defines it"""
    ci = c.repo.cls(cls)
    m = ci.module.relpath.rsplit('/', 1)[-1] if ci is not None else ''
    return {'_sat_adapters.py': 'C18', '_bounded_items_heap.py': 'C13'}.get(m, 'C10')


def shared_containers(prop):
    def run(repo):
        c = ctx(repo)
        changed = {}
        for e in c.of('mut'):
            for o in e['cont'].orig:
                if o[0] == 'attr' and not o[2].endswith('[]') and not c.p.is_value(o[1]): changed.setdefault((o[1], o[2]), e)
        out, n = [], 0
        for e in c.of('attr'):
            fn, obj, v = e['fn'], e['obj'], e['val']
            if obj is None or e.get('delete') or v is None: continue
            ks = sorted(k for k in changed if k[0] in obj.cls and k[1] == e['attr'] and home(c, k[0]) == prop)
            if not ks: continue
            n += 1
            if not v.kinds & CONT: continue
            me = {o[1] for o in obj.orig if o[0] == 'param'}
            for o in sorted(v.orig, key=str):
                if o[0] == 'attr' and not o[2].endswith('[]'):
                    # a container of the same object may move between its own fields
                    roots = {d if isinstance(d, str) else d[0] for d in v.deps}
                    if roots and roots <= me: continue
                    out.append(F(e, '%s.%s is changed in place (%s) and shares its container with %s.%s of another object' % (ks[0] + (where(changed[ks[0]]),) + (o[1], o[2]))))
                    break
                if o[0] in ('glob', 'class', 'cached'):
                    out.append(F(e, '%s.%s is changed in place (%s) and is shared by all objects' % (ks[0] + (where(changed[ks[0]]),))))
                    break
        return out, cov(n, len(out), rule='a field whose container some method changes in place is only ever bound to a container of its own', fields=sorted('%s.%s' % k for k in changed if home(c, k[0]) == prop))
    return run


for _p in ('C18', 'C13', 'C10'): rule(_p, 'containers that change are not shared between objects')(shared_containers(_p))


# one mutable object kept once per iteration while it goes on changing

CHANGE = {'add', 'append', 'update', 'extend', 'insert', 'discard', 'remove', 'pop', 'popitem', 'clear', 'setdefault', 'difference_update', 'intersection_update', 'appendleft'}
KEEP = {'append', 'add', 'appendleft', 'insert', 'push'}


def own(node):
    """nodes of a body without those of nested functions"""
    st = [node]
    while st:
        n = st.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if not isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): st.append(ch)


def bound_names(nodes):
    out = set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    return out


def parts(e):
    """objects a stored expression keeps a reference to"""
    if isinstance(e, ast.Name): return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)): return set().union(*map(parts, e.elts)) if e.elts else set()
    return set()


@rule('C20 C21 C22', 'what a search keeps per alternative is its own object')
def kept_while_changing(repo):
    out, n = [], 0
    for m in repo.modules.values():
        if m.relpath.startswith('tests') or '/tests/' in m.relpath: continue
        fns = [f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef)]
        for f in fns:
            # loops that only generate combinations reuse nothing; every loop of the function is looked at
            for L in [x for x in own(f) if isinstance(x, (ast.For, ast.While))]:
                inner = [y for st in L.body for y in own(st)]
                n += 1
                alias = {}
                for y in inner:
                    if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and isinstance(y.value, ast.Name):
                        alias.setdefault(y.targets[0].id, set()).add(y.value.id)
                bound = bound_names(inner) | (bound_names(ast.walk(L.target)) if isinstance(L, ast.For) else set())
                stores = {}
                for y in inner:
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): stores[y.id] = stores.get(y.id, 0) + 1

                def root(a, k=0):
                    # the object the name stands for, if it exists before the loop and is the same in every iteration
                    if a not in bound: return a
                    if k < 4 and len(alias.get(a, ())) == 1 and stores.get(a, 0) == 1: return root(next(iter(alias[a])), k + 1)
                    return None
                changed, kept = {}, {}
                for y in inner:
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute):
                        g = y.func
                        if g.attr in CHANGE and isinstance(g.value, ast.Name): changed.setdefault(root(g.value.id), y)
                        if g.attr in KEEP and isinstance(g.value, (ast.Name, ast.Attribute)):
                            for a in y.args:
                                for z in parts(a): kept.setdefault(root(z), y)
                    elif isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Subscript):
                        for z in parts(y.value): kept.setdefault(root(z), y)
                        if isinstance(y.targets[0].value, ast.Name): changed.setdefault(root(y.targets[0].value.id), y)
                    elif isinstance(y, ast.Yield) and y.value is not None:
                        for z in parts(y.value): kept.setdefault(root(z), y)
                for r in sorted(set(changed) & set(kept) - {None}):
                    if r in ('self', 'cls') or changed[r] is kept[r]: continue
                    q = next((fi.qual for fi in [repo_fn(repo, m, f)] if fi), f.name)
                    out.append(Finding('%s:%d %s' % (m.relpath, kept[r].lineno, q), src(kept[r]),
                                       'every iteration of the loop at line %d keeps the same object %r, which line %d goes on changing' % (L.lineno, r, changed[r].lineno)))
    seen, res = set(), []
    for f in out:
        if f.key not in seen: seen.add(f.key); res.append(f)
    return res, cov(n, len(res), rule='inside a loop, an object that exists before the loop is not both changed in place and stored (appended, put in a table, yielded) in each iteration')


def repo_fn(repo, m, node):
    for ci in m.classes.values():
        for fi in ci.methods.values():
            if fi.node is node: return fi
    return None


# -- C07 / C08: what a key or a hash determines -------------------------------------------------------

COMPONENTS = {
    'BaseMap': ('coords', 'time_rev'), 'Spec': ('base_map', 'pnum'), 'FacetDivSubset': ('dim', 'div', 'facet', 'cubes'), 'Link': ('entrance', 'exit'),
    'Path': ('proto', 'link', 'links'), 'Junction': ('delta_x', 'delta_t', 'spec1', 'spec2'), '_PiecePosition': ('dim', 'div', 'cnums', 'cubes'),
    'Curve': ('patterns', 'pnum'),
}


def components(c, cls):
    ci = c.repo.cls(cls)
    if ci is None: return None
    for x in c.repo.mro(ci):
        if x.name in COMPONENTS: return COMPONENTS[x.name]
    return None


def ctor_params(c, cls):
    ci = c.repo.cls(cls)
    for nm in ('__init__', '__new__'):
        m = c.repo.find_method(ci, nm)
        if m is not None:
            f = c.p.fns.get(m.node)
            return [n for n in f.pnames[1:] + f.kwonly], f
    return [], None


def field_ctor(c, cls, attr):
    ci = c.repo.cls(cls)
    if ci is None: return None
    for x in c.repo.mro(ci):
        v = c.p.field_ctor.get((x.name, attr))
        if v is not None: return v
    return None


def determined(c, cls, attr, depth=0):
    """the field is a function of the class's components"""
    comps = components(c, cls)
    if comps is None or attr in comps: return True
    if depth > 4: return False
    v = field_ctor(c, cls, attr)
    if v is None: return None
    _, cf = ctor_params(c, cls)
    sn = cf.pnames[0] if cf is not None else 'self'
    exact = set()
    for k in comps:
        w = field_ctor(c, cls, k)
        if w is not None: exact |= {p for p in w.cov if len(p) == 1}
    for d in v.deps:
        if d[0].startswith('<') or d[0] in ('cls',): continue
        if d[0] == sn:
            if len(d) == 1: continue
            if not determined(c, cls, d[1], depth + 1): return False
            continue
        if (d[0],) in exact: continue
        return False
    return True


def path_class(c, fn, path):
    """class of the object denoted by an access path, or None"""
    root = path[0]
    f = fn
    if root == c.self_name(fn) and fn.cls is not None: cls = {fn.cls.name}
    else:
        v = c.p.of_ann(f.anns.get(root), f.cls) if f.anns.get(root) is not None else f.argk.get(root)
        if v is None: return None
        cls = set(v.cls)
    for a in path[1:]:
        nxt = set()
        for k in cls:
            v = c.p.field(k, a)
            if v is not None: nxt |= v.cls
        cls = nxt
    return next(iter(cls)) if len(cls) == 1 else None


def covered(c, fn, path, covs):
    """path is determined by the paths in covs"""
    for k in covs:
        if path[:len(k)] == k: return True
        # k = owner + (field,): everything of the owner that the field determines
        owner = k[:-1]
        if len(k) > 1 and path[:len(owner)] == owner:
            cls = path_class(c, fn, owner)
            if cls is None: return True            # not understood: stay silent
            v = field_ctor(c, cls, k[-1])
            if v is None: continue
            ps, cf = ctor_params(c, cls)
            have = {p[0] for p in v.cov if len(p) == 1} | {p[0] for p in v.cov if len(p) == 2 and p[1] == '_key'}
            if set(ps) <= have: return True        # the field determines the whole object
            if len(path) > len(owner):
                w = field_ctor(c, cls, path[len(owner)])
                if w is not None and {d[0] for d in w.deps if not d[0].startswith('<')} <= have: return True
    # all components of a covered object, one by one
    cls = path_class(c, fn, path)
    if cls is not None:
        comps = components(c, cls)
        if comps and all(covered(c, fn, path + (a,), covs) for a in comps): return True
    if len(path) > 1:
        cls = path_class(c, fn, path[:-1])
        if cls is not None and components(c, cls) and path[-1] not in components(c, cls):
            v = field_ctor(c, cls, path[-1])
            if v is not None and determined(c, cls, path[-1]) and all(covered(c, fn, path[:-1] + (a,), covs) for a in components(c, cls)): return True
    return False


def sig(v, n=0):
    if v is None or n > 3: return None
    if v.path is not None: return v.path
    if v.items is not None and v.only('tuple'):
        t = tuple(sig(i, n + 1) for i in v.items)
        return ('tuple',) + t if all(x is not None for x in t) else None
    return None


def stored_fields(c):
    """(class, attr) bound or changed in place outside construction, with an event each"""
    out = {}
    for e in c.of('attr'):
        if c.in_ctor(e['fn']) or e['obj'] is None: continue
        if e['obj'].orig and all(o[0] in ('newobj',) for o in e['obj'].orig): continue
        for k in e['obj'].cls: out.setdefault((k, e['attr']), e)
    for e in c.of('mut'):
        if c.in_ctor(e['fn']): continue
        for o in e['cont'].orig:
            if o[0] == 'attr': out.setdefault((o[1], base_attr(o[2])), e)
    return out


def loop_key(e):
    """the key is (built from) the variable of a loop: value and key come from the same element"""
    t = e['node'].targets[0] if isinstance(e['node'], ast.Assign) else getattr(e['node'], 'target', None)
    if not isinstance(t, ast.Subscript): return False
    names = {x.id for x in ast.walk(t.slice) if isinstance(x, ast.Name)}
    def ids(x): return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
    got = set()
    for x in ast.walk(e['fn'].node):
        if isinstance(x, (ast.For, ast.comprehension)): got |= ids(x.target)
    while True:
        more = set()
        for x in ast.walk(e['fn'].node):
            if isinstance(x, ast.Assign) and ids(x.value) & got:
                for y in x.targets:
                    if isinstance(y, (ast.Name, ast.Tuple, ast.List)): more |= ids(y)
            elif isinstance(x, ast.NamedExpr) and ids(x.value) & got: more |= ids(x.target)
        if more <= got: break
        got |= more
    return bool(names & got)


def foreign(deps): return sorted({'.'.join(d) for d in deps if not d[0].startswith('<') and d[0] != 'cls'})


def shared_read(c, o):
    key = ('<class>', '%s.%s' % (o[1], base_attr(o[2]))) if o[0] == 'class' else ('<global>', o[2])
    if not hasattr(c, '_reads'):
        c._reads = set()
        for e in c.of('return', 'yield', 'cond'):
            v = e.get('val') or e.get('test')
            c._reads |= {d for d in v.deps if d[0] in ('<global>', '<class>')}
    return key in c._reads


@rule('C07', 'memo tables: the stored value depends only on the key')
def c07_tables(repo):
    c = ctx(repo)
    out, n = [], 0
    tables = {}
    looked = {(e['fn'].node, o) for e in c.of('lookup') for o in e['cont'].orig}
    for e in c.of('mut'):
        v, fn = e['cont'], e['fn']
        tabs = [o for o in v.orig if o[0] in ('class', 'glob') or (o[0] == 'attr' and is_memo(c, o[1], o[2]) and not c.in_ctor(fn) and (c.p.is_value(o[1]) or (fn.node, o) in looked))]
        if not tabs or getattr(fn, 'module_level', False): continue
        n += 1
        o = tabs[0]
        if not e['store'] or e['key'] is None:
            # evicting entries is harmless, filling or reordering something shared is not
            if any(x in e['how'] for x in ('.pop', '.popitem', '.clear', 'item deletion', '.move_to_end', '.discard', '.remove()')) and 'dict' in v.kinds: continue
            if o[0] == 'attr':
                if c.p.is_value(o[1]): out.append(F(e, 'the stored result %s.%s is changed in place (%s)' % (o[1], o[2], e['how'])))
            elif e['val'] is not None and not e.get('via'):
                bad = foreign(e['val'].deps)
                if bad and shared_read(c, o): out.append(F(e, 'the shared object %s.%s is filled with data that depends on %s' % (o[1], o[2], ', '.join(bad))))
            continue
        if o[0] == 'attr' and o[2].endswith('[]'):
            out.append(F(e, 'a stored result of %s.%s is changed in place' % (o[1], o[2])))
            continue
        tables.setdefault(o, []).append(e)
        allowed = set(e['key'].cov)
        sn = c.self_name(fn)
        if o[0] == 'attr' and sn: allowed.add((sn,))
        bad = sorted({'.'.join(d) for d in e['val'].deps if e['val'] is not None and not d[0].startswith('<') and d[0] != 'cls' and not covered(c, fn, d, allowed)})
        if bad and loop_key(e) and all(d in e['key'].deps or any(d[:len(k)] == k for k in e['key'].deps) for d in e['val'].deps if '.'.join(d) in bad): bad = []
        if bad:
            out.append(F(e, 'the value stored in %s depends on %s, which the key %s does not determine' % (o[1] + '.' + o[2], ', '.join(bad), src(e['node'])[:60])))
    # the key used to look up is the key used to store
    for o, es in tables.items():
        for e in es:
            s = sig(e['key'])
            if s is None: continue
            for l in c.of('lookup'):
                if l['fn'].node is not e['fn'].node or o not in l['cont'].orig: continue
                n += 1
                t = sig(l['key'])
                if t is not None and t != s: out.append(F(l, 'looks up %s but results are stored under %s' % (t, s)))
    return out, cov(n, len(out), tables=[str(o) for o in tables], rule='dependence of the stored value is included in what the key determines injectively; lookups use the stored key')


@rule('C07', 'memo slots of an object depend on that object only')
def c07_slots(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('attr'):
        fn, obj = e['fn'], e['obj']
        if obj is not None and 'class' in obj.kinds and 'obj' not in obj.kinds and obj.cls:
            n += 1
            bad = foreign(e['val'].deps)
            for k in sorted(obj.cls):
                if bad and shared_read(c, ('class', k, e['attr'])):
                    out.append(F(e, 'the class attribute %s.%s keeps a result that depends on %s' % (k, e['attr'], ', '.join(bad))))
            continue
        if obj is None or fn.ctor or c.in_ctor(fn): continue
        vc = [k for k in value_cls(c, obj.cls) if is_memo(c, k, e['attr'])]
        if not vc: continue
        if obj.orig and all(o[0] in ('newobj', 'fresh') for o in obj.orig): continue
        n += 1
        root = obj.path
        if root is None: continue
        bad = sorted({'.'.join(d) for d in e['val'].deps if not d[0].startswith('<') and d[0] != 'cls' and d[:len(root)] != root})
        if bad: out.append(F(e, 'the result kept in %s.%s depends on %s, not only on the object itself' % (vc[0], e['attr'], ', '.join(bad))))
        elif e['val'].kinds & {'iter'}: out.append(F(e, 'a one-shot iterator is kept in %s.%s' % (vc[0], e['attr'])))
    return out, cov(n, len(out), rule='a memo slot filled outside the constructor has no dependence on other arguments')


@rule('C07', 'memoised functions read only what their arguments are compared by')
def c07_functions(repo):
    c = ctx(repo)
    out, n = [], 0
    changed = stored_fields(c)
    for f in c.p.fns.values():
        if not (f.cached or f in c.p.wrapped): continue
        n += 1
        E = dict(fn=f, node=f.node)
        w = '%s:%d %s' % (f.module.relpath, f.node.lineno, f.qual)
        r = f.summary.ret
        deps = set(r.deps) if r is not None else set()
        taint = set(r.taint) if r is not None else set()
        if f.is_gen or (r is not None and 'iter' in r.kinds):
            out.append(Finding(w, f.qual, 'memoised function returns a one-shot iterator, which is empty the second time'))
        for d in sorted(deps):
            for i in range(2, len(d) + 1):
                cls = path_class(c, f, d[:i - 1])
                if cls is None: continue
                n += 1
                if components(c, cls) is not None and determined(c, cls, d[i - 1]) is False:
                    out.append(Finding(w, '%s reads %s' % (f.qual, '.'.join(d)), 'memoised result depends on %s.%s, which does not take part in comparing the arguments' % (cls, d[i - 1])))
                ks = [x.name for x in c.repo.mro(c.repo.cls(cls))] if c.repo.cls(cls) else []
                for k in ks:
                    if (k, d[i - 1]) in changed and not is_memo(c, k, d[i - 1]):
                        out.append(Finding(w, '%s reads %s' % (f.qual, '.'.join(d)), 'memoised result depends on %s.%s, which changes (%s)' % (k, d[i - 1], where(changed[(k, d[i - 1])]))))
                        break
        for e in c.of('globstore'):
            if ('<global>', e['name']) in deps: out.append(F(e, 'rebinds the module variable %s, on which the memoised result of %s depends' % (e['name'], f.qual)))
        if taint: out.append(Finding(w, f.qual, 'memoised result depends on %s' % ', '.join(sorted(taint))))
    return out, cov(n, len(out), rule='every access path the result depends on ends in a component of the argument\'s equality or in a field fixed by the constructor; no iterator is memoised')


@rule('C06 C07', 'memoised results are not changed by their users')
def c07_results(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('mut'):
        n += 1
        for o in e['cont'].orig:
            if o[0] == 'cached' and container_kinds(e['cont']):
                out.append(F(e, 'the memoised result of %s is changed in place (%s)' % (o[1], e['how'])))
                break
    return out, cov(n, len(out), rule='no in-place operation on what a memoised function returned')


# -- C08 ------------------------------------------------------------------------------------------------

@rule('C08', 'hash values depend only on the compared components')
def c08_hash(repo):
    c = ctx(repo)
    out, n = [], 0
    for cls in sorted(COMPONENTS):
        ci = c.repo.cls(cls)
        if ci is None: continue
        m = c.repo.find_method(ci, '__hash__')
        eq = c.repo.find_method(ci, '__eq__')
        if eq is None:
            continue
        w = '%s:%d %s' % (ci.module.relpath, ci.node.lineno, cls)
        if m is None:
            if '__hash__' not in ci.consts: out.append(Finding(w, 'class %s' % cls, 'defines __eq__ but no __hash__: its values can no longer be members of sets or keys'))
            continue
        f = c.p.fns[m.node]
        n += 1
        r = f.summary.ret
        if r is None: continue
        wh = '%s:%d %s' % (f.module.relpath, f.node.lineno, f.qual)
        if 'object address' in r.taint or any('ambient' in t for t in r.taint):
            out.append(Finding(wh, f.qual, 'hash depends on %s' % ', '.join(sorted(r.taint))))
        for d in sorted(r.deps):
            if d[0] != f.pnames[0] or len(d) < 2: continue
            n += 1
            if determined(c, cls, d[1]) is False:
                out.append(Finding(wh, '%s.%s' % (cls, d[1]), 'hash depends on %s, which is not a function of the components compared by __eq__ (%s)' % (d[1], ', '.join(COMPONENTS[cls]))))
    return out, cov(n, len(out), rule='every field the hash reads is a component of the comparison or computed from components in the constructor')


@rule('C08', 'dataclass values compare all their fields')
def c08_dataclass(repo):
    c = ctx(repo)
    out, n = [], 0
    for ci in c.repo.classes.values():
        if not ci.is_dataclass or ci.name not in ('CurvePoint', '_CubeNode'): continue
        n += 1
        w = '%s:%d %s' % (ci.module.relpath, ci.node.lineno, ci.name)
        for d in ci.node.decorator_list:
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg in ('eq', 'order') and isinstance(k.value, ast.Constant) and k.value.value is False and k.arg == 'eq':
                        out.append(Finding(w, 'class ' + ci.name, 'values are compared by identity'))
        for s in ci.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split('.')[-1] == 'field':
                for k in s.value.keywords:
                    if k.arg in ('compare', 'hash') and isinstance(k.value, ast.Constant) and k.value.value is False and k.arg == 'compare':
                        out.append(Finding(w, ast.unparse(s), 'this component takes no part in comparisons'))
    return out, cov(n, len(out), rule='no field of a compared dataclass is excluded')


# -- C09 ------------------------------------------------------------------------------------------------

EXACT_MODULES = ('peano/', 'search.py')


def exact_scope(fn):
    m = fn.module.relpath
    if not (m.startswith('peano/') or m == 'search.py'): return False
    if m.endswith('zoo.py') or fn.info.name in ('__str__', '__repr__', '__format__'): return False
    return True


class Parents:
    def __init__(self): self.maps = {}

    def of(self, fn):
        f = fn
        while f.parent is not None: f = f.parent
        k = id(f.node)
        if k not in self.maps:
            m = {}
            for x in ast.walk(f.node):
                for y in ast.iter_child_nodes(x): m[id(y)] = x
            self.maps[k] = m
        return self.maps[k]

    def chain(self, fn, node):
        m = self.of(fn)
        n = node
        while id(n) in m:
            n = m[id(n)]
            yield n


PAR = Parents()


def is_output_call(n):
    if not isinstance(n, ast.Call): return False
    f = n.func
    if isinstance(f, ast.Name): return f.id in ('print', 'pprint')
    if isinstance(f, ast.Attribute):
        t = ast.unparse(f.value)
        return (f.attr in df.LOGMETH and 'log' in t.lower()) or f.attr in ('pprint', 'warn') or t in ('sys.stderr', 'sys.stdout')
    return False


def in_output(fn, node): return any(is_output_call(x) for x in PAR.chain(fn, node))


def float_src(v, n=0):
    """why the value (or a part of it) may be a binary float"""
    if v is None: return None
    if 'float' in v.kinds and not (v.src and all(s[0] == 'ann' for s in v.src)):
        s = sorted((x for x in v.src if x[0] != 'ann'), key=str)
        return '%s at %s:%s' % s[0] if s and len(s[0]) == 3 else 'a float'
    if n < 2:
        for i in v.items or ():
            r = float_src(i, n + 1)
            if r: return r
        if v.elem is not None: return float_src(v.elem, n + 1)
    return None


def exact_literal(v):
    from fractions import Fraction
    if v is None or v.const is None or not v.only('float'): return False
    try: return Fraction(float(v.const)) == Fraction(v.const)
    except ValueError: return False


def ann_float(c, g, n):
    a = g.anns.get(n)
    return a is not None and 'float' in c.p.of_ann(a, g.cls).kinds


@rule('C09', 'no binary floating point reaches a result, a comparison or a stored value')
def c09_float(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('return', 'yield', 'cmp', 'attr', 'construct', 'rcall', 'fracfloat', 'mut'):
        fn = e['fn']
        if not exact_scope(fn) or in_output(fn, e['node']): continue
        k = e['kind']
        if getattr(fn, 'module_level', False) and k in ('return', 'yield'): continue
        n += 1
        if k in ('return', 'yield'):
            if fn.info.name.startswith('_log') or 'info' in fn.info.name or 'stat' in fn.info.name: continue
            r = float_src(e['val'])
            if r: out.append(F(e, 'hands out a floating-point value (%s)' % r))
        elif k == 'cmp':
            l, r = e['left'], e['right']
            if e['op'] in ('Is', 'IsNot', 'In', 'NotIn'): continue
            for v, w in ((l, r), (r, l)):
                s = float_src(v) if 'float' in v.kinds else None
                if s and not exact_literal(v) and (w.kinds & {'int', 'frac', 'float', '?'}):
                    out.append(F(e, 'a decision compares a floating-point value (%s)' % s))
                    break
        elif k == 'attr':
            if e['attr'] in df.STATS or (e['obj'] is not None and any('Stat' in x for x in e['obj'].cls)): continue
            r = float_src(e['val'])
            if r: out.append(F(e, 'stores a floating-point value (%s) in .%s' % (r, e['attr'])))
        elif k == 'mut':
            if e.get('via') or e['val'] is None: continue
            if any(o[0] == 'attr' and base_attr(o[2]) in df.STATS for o in e['cont'].orig): continue
            if not any(o[0] == 'attr' for o in e['cont'].orig): continue
            r = float_src(e['val'])
            if r: out.append(F(e, 'stores a floating-point value (%s)' % r))
        elif k == 'construct':
            if not c.p.is_value(e['cls']): continue
            for v in list(e['args']) + list(e['kw'].values()):
                r = float_src(v)
                if r:
                    out.append(F(e, 'builds %s from a floating-point value (%s)' % (e['cls'], r)))
                    break
        elif k == 'rcall':
            g = e['target']
            for nm, v in e['bind'].items():
                if ann_float(c, g, nm) or nm in ('self', 'cls'): continue
                if not (c.p.of_ann(g.anns.get(nm), g.cls).kinds & {'frac', 'int'}): continue
                r = float_src(v) if 'float' in v.kinds else None
                if r: out.append(F(e, 'passes a floating-point value (%s) as %s of %s' % (r, nm, g.qual)))
        elif k == 'fracfloat':
            if all('float' not in v.kinds or exact_literal(v) for v in e['args']): continue
            out.append(F(e, 'converts a binary floating-point value to a fraction'))
    return out, cov(n, len(out), rule='no value that may be a float (int/int, float(), math.*, float literals) reaches a return, yield, comparison, field, value constructor or rational parameter outside log and screen output')


@rule('C09', 'rational quantities are not rounded or truncated')
def c09_round(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('round', 'floor', 'negpow', 'fracpow'):
        fn = e['fn']
        if not exact_scope(fn) or in_output(fn, e['node']): continue
        n += 1
        geometry = fn.module.relpath.endswith('subsets.py')      # grid cell of a point: exact floor, checked by C24
        if e['kind'] == 'round':
            v = e['val']
            if v is None: continue
            if e['what'] == 'math.isqrt':
                out.append(F(e, 'an integer square root truncates'))
            elif e['what'] == 'limit_denominator':
                out.append(F(e, 'replaces a fraction by an approximation'))
            elif 'frac' in v.kinds and not geometry and not (v.kinds & {'int', 'str', '?'}):
                out.append(F(e, '%s of a rational quantity loses its fractional part' % e['what']))
            elif 'float' in v.kinds and not (v.src and all(s[0] == 'ann' for s in v.src)):
                out.append(F(e, '%s of a floating-point value (%s)' % (e['what'], float_src(v))))
        elif e['kind'] == 'floor' and e['op'] in ('//', 'divmod'):
            l, r = e['left'], e['right']
            if geometry: continue
            for v in (l, r):
                if v.only('frac'):
                    out.append(F(e, 'truncating division of a rational quantity'))
                    break
        elif e['kind'] == 'negpow':
            out.append(F(e, 'a negative power of an integer is a floating-point number'))
    return out, cov(n, len(out), rule='int(), round(), floor, // and limit_denominator are not applied to fractions (the exact grid cell in subsets.py excepted) nor to floats other than the documented float parameter')


# -- C10 --------------------------------------------------------------------------------------------------

def pure_output(c, fn, body):
    """statements that only log, print or count"""
    for s in body:
        if isinstance(s, (ast.Pass,)): continue
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): continue
            if isinstance(s.value, ast.Call) and is_output_call(s.value): continue
            if isinstance(s.value, ast.Call) and helper_output(c, fn, s.value): continue
            return False
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if all(stat_target(t) for t in ts): continue
            return False
        if isinstance(s, ast.If):
            if pure_output(c, fn, s.body) and pure_output(c, fn, s.orelse): continue
            return False
        if isinstance(s, (ast.For, ast.While)):
            if pure_output(c, fn, s.body): continue
            return False
        return False
    return True


def helper_output(c, fn, call):
    """a call of a helper of this repository that only logs"""
    for e in c.ev:
        if e['kind'] == 'rcall' and e['node'] is call:
            g = e['target']
            if isinstance(g.node, ast.Lambda): return False
            return pure_output(c, g, [s for s in g.node.body if not (isinstance(s, ast.Return) and s.value is None)])
    return False


def stat_target(t):
    s = ast.unparse(t)
    return any(('.%s' % x) in s or s.startswith(x) for x in df.STATS) or any('.%s.' % x in s for x in ('stats',))


def stat_obj(v):
    return v is not None and (any('Stat' in x for x in v.cls) or any(o[0] == 'attr' and base_attr(o[2]) in df.STATS for o in v.orig))


@rule('C10', 'statistics, logging state and ambient sources stay out of results')
def c10_taint(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('cond', 'return', 'yield', 'attr', 'mut'):
        fn = e['fn']
        if not (fn.module.relpath.startswith('peano/')) or fn.module.relpath.endswith('zoo.py'): continue
        k = e['kind']
        n += 1
        name = fn.info.name
        if k == 'cond':
            t = e['test'].taint
            if not t: continue
            if e['what'] in ('if', 'for', 'while') and pure_output(c, fn, e['body']) and pure_output(c, fn, e['orelse']): continue
            if e['what'] in ('filter', 'conditional expression') and (in_output(fn, e['node']) or 'info' in name or 'stat' in name): continue
            if e['what'] == 'conditional expression': continue       # its value carries the taint
            if 'info' in name or 'stat' in name: continue
            out.append(F(e, 'control flow depends on %s' % ', '.join(sorted(t))))
        elif k in ('return', 'yield'):
            t = {x for x in e['val'].taint if not x.startswith('arg: ')}
            for i in e['val'].items or (): t |= {x for x in i.taint if not x.startswith('arg: ')}
            if not t or 'info' in name or 'stat' in name or 'log' in name: continue
            if name.startswith('_') and not name.startswith('__'): continue      # seen at the callers
            out.append(F(e, 'the result depends on %s' % ', '.join(sorted(t))))
        elif k == 'attr':
            t = e['val'].taint
            if not t or e['attr'] in df.STATS or stat_obj(e['obj']): continue
            out.append(F(e, 'stores a value that depends on %s in .%s' % (', '.join(sorted(t)), e['attr'])))
        elif k == 'mut':
            v = e['val']
            if v is None or not v.taint or e.get('via'): continue
            if stat_obj(e['cont']): continue
            if any(o[0] == 'attr' for o in e['cont'].orig):
                out.append(F(e, 'puts a value that depends on %s into the object\'s state' % ', '.join(sorted(v.taint))))
    return out, cov(n, len(out), rule='values tainted by statistics, cache information, logging level, clocks, random numbers, environment or addresses decide only log / counter statements and flow only there')


STATEFUL = ('Estimator', 'GatesGenerator', 'PathsGenerator', 'CubePathTree')


@rule('C10', 'nothing is carried over between unrelated calls')
def c10_state(repo):
    c = ctx(repo)
    out, n = [], 0
    # reads of shared state that reach a result
    reads = set()
    for e in c.of('return', 'yield', 'cond'):
        v = e.get('val') or e.get('test')
        reads |= {d for d in v.deps if d[0] in ('<global>', '<class>')}
    for e in c.of('mut'):
        fn = e['fn']
        if getattr(fn, 'module_level', False) or not fn.module.relpath.startswith('peano/'): continue
        for o in e['cont'].orig:
            if o[0] not in ('class', 'glob'): continue
            n += 1
            if 'dict' in e['cont'].kinds and (e['store'] or not e['val']): continue       # memo table: C07
            key = ('<class>', '%s.%s' % (o[1], base_attr(o[2]))) if o[0] == 'class' else ('<global>', o[2])
            if key in reads: out.append(F(e, 'changes the shared object %s.%s, on which later results depend (%s)' % (o[1], o[2], e['how'])))
    for e in c.of('attr'):
        if e['obj'] is not None and 'class' in e['obj'].kinds:
            n += 1
            for k in e['obj'].cls:
                if ('<class>', '%s.%s' % (k, e['attr'])) in reads: out.append(F(e, 'rebinds the class attribute %s.%s, on which later results depend' % (k, e['attr'])))
    for e in c.of('globstore'):
        n += 1
        if ('<global>', e['name']) in reads: out.append(F(e, 'rebinds the module variable %s, on which later results depend' % e['name']))
    # mutable default arguments
    for f in c.p.fns.values():
        if isinstance(f.node, ast.Lambda) or not f.module.relpath.startswith('peano/'): continue
        a = f.node.args
        ds = list(zip([x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else [], a.defaults))
        ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nm, d in ds:
            mutable = isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in ('list', 'dict', 'set', 'defaultdict', 'Counter', 'deque'))
            if not mutable: continue
            n += 1
            if (nm, 0) in f.summary.mut:
                out.append(Finding('%s:%d %s' % (f.module.relpath, f.node.lineno, f.qual), '%s=%s' % (nm, ast.unparse(d)), 'the default argument is changed in place and shared by all calls'))
    # state of the generators and of the estimator
    inits = {}
    for e in c.of('attr'):
        if e['obj'] is None: continue
        for k in e['obj'].cls: inits.setdefault((k, e['attr']), []).append(e)
    for (k, attr), es in sorted(inits.items()):
        if k not in STATEFUL or attr in df.STATS: continue
        n += 1
        inc = [e for e in es if c.in_ctor(e['fn'])]
        outc = [e for e in es if not c.in_ctor(e['fn'])]
        # rebinding an attribute set up by the constructor from a method
        for e in outc:
            sn = c.self_name(e['fn'])
            roots = {d for d in e['val'].deps if not d[0].startswith('<') and d[0] not in (sn, 'cls')}
            public = not e['fn'].info.name.startswith('_')
            if e['val'].only('none') or not roots and not e['val'].taint and is_memo(c, k, attr) and not any(o[0] == 'fresh' for o in e['val'].orig): continue
            fresh = all(o[0] in ('fresh', 'gen') for o in e['val'].orig) and e['val'].orig
            if fresh and not e['ctrl'] and not inc: continue          # (re)initialised when the public operation starts
            if fresh and not e['ctrl'] and public: continue
            out.append(F(e, 'keeps %s.%s from one call to the next' % (k, attr)))
        muts = [e for e in c.of('mut') if ('attr', k, attr) in e['cont'].orig and not c.in_ctor(e['fn'])]
        if not muts: continue
        reset = [e for e in outc if all(o[0] == 'fresh' for o in e['val'].orig) and e['val'].orig and not e['ctrl']]
        if reset: continue
        for e in muts:
            if e['store'] and e['key'] is not None:
                sn = c.self_name(e['fn'])
                if all(d[0].startswith('<') or covered(c, e['fn'], d, set(e['key'].cov) | {(sn,)}) for d in e['val'].deps): continue
            elif 'dict' in e['cont'].kinds and e['val'] is None: continue
            out.append(F(e, 'changes %s.%s, which is never reset: later calls see data of earlier ones' % (k, attr)))
            break
    return out, cov(n, len(out), rule='class- and module-level containers are only keyed memo tables; no mutable default is changed; state of estimator and generators changed by a method is a memo or is reset unconditionally when the operation starts')


# -- C28 ---------------------------------------------------------------------------------------------------

@rule('C28', 'one-shot iterables are traversed at most once')
def c28_reuse(repo):
    c = ctx(repo)
    out = []
    n = sum(1 for f in c.p.fns.values() for a in f.anns if (f.qual, a) in df.ITERABLE or 'iterable' in c.p.of_ann(f.anns.get(a), f.cls).kinds)
    n += len({o for e in c.ev for v in (e.get('val'), e.get('cont')) if isinstance(v, df.AV) for o in v.orig if o[0] == 'gen'})
    for e in c.of('reuse'):
        o = e['origin']
        what = 'the iterable argument %r' % o[1] if o[0] == 'param' else 'the iterator created at line %d' % o[1]
        out.append(F(e, '%s, already traversed at line %s, is traversed again' % (what, e['first'])))
    for e in c.of('index'):
        out.append(F(e, 'len(), indexing or reversal of something that may be a one-shot iterator'))
    return out, cov(n, len(out), rule='on every path each iterator (created here or passed in as an iterable) is traversed once; length and indexing only after materialising')


@rule('C28', 'iterables are not kept unmaterialised')
def c28_store(repo):
    c = ctx(repo)
    out, n = [], 0
    for e in c.of('attr'):
        v = e['val']
        if e['obj'] is None or not e['obj'].cls: continue
        n += 1
        if v.kinds & {'iter'} or ('iterable' in v.kinds and any(o[0] == 'param' for o in v.orig)):
            out.append(F(e, 'a possibly one-shot iterator is kept in .%s' % e['attr']))
    for e in c.of('mut'):
        v = e['val']
        if v is None or not e['store'] or not any(o[0] in ('attr', 'class', 'glob') for o in e['cont'].orig): continue
        n += 1
        if v.kinds & {'iter'}: out.append(F(e, 'a one-shot iterator is kept in a table'))
    return out, cov(n, len(out), rule='fields and tables hold materialised containers')
