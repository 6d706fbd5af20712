"""
Flow-sensitive dataflow analysis of the repository's functions.

Every function is interpreted abstractly over its syntax tree (nothing is run):
an abstract value AV records what kind of object an expression may be, where a
container or object came from (origin), which inputs it depends on (deps), which
inputs it determines injectively (cov) and which ambient sources it carries
(taint).  Loops are iterated until stable, branches are joined, calls of
repository functions use summaries; three passes over the program let the
summaries, field tables and argument kinds settle, and the last pass records
events.  The rules (sa/rules_*.py) read the events.
"""
from __future__ import annotations
import ast
import builtins as _bi
from . import types as ty

E = frozenset()
CONT = {'list', 'dict', 'set', 'deque'}          # mutable containers
STATS = {'stats', 'sum_stats', 'max_stats'}
VALUE_CLASSES = {
    'BaseMap', 'Spec', 'Subset', 'Point', 'FacetDivSubset', 'Link', 'Proto', 'Path', 'Pattern', 'FuzzyCurve', 'Curve',
    'PathFuzzyCurve', 'Junction', 'RegularJunction', 'AutoJunction', 'CurvePoint', '_PiecePosition', '_CurvePiece',
    '_CurvePiecePair', 'BoundedItem', '_BoundedPair', '_CubeNode', '_CubePath',
}
MUTATORS = {
    'append': 'list deque', 'extend': 'list deque', 'insert': 'list', 'pop': 'list dict set deque', 'remove': 'list set',
    'clear': 'list dict set deque', 'sort': 'list', 'reverse': 'list', 'add': 'set', 'discard': 'set', 'update': 'dict set',
    'setdefault': 'dict', 'popitem': 'dict', 'appendleft': 'deque', 'popleft': 'deque', 'extendleft': 'deque',
    'difference_update': 'set', 'intersection_update': 'set', 'symmetric_difference_update': 'set',
    '__setitem__': 'list dict', '__delitem__': 'list dict', 'rotate': 'deque', 'subtract': 'dict', 'move_to_end': 'dict',
}
CONT_METHODS = set(MUTATORS) | {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'union', 'intersection', 'difference',
                                'issubset', 'issuperset', 'isdisjoint', 'most_common', 'elements'}
STR_METHODS = {'split', 'strip', 'lstrip', 'rstrip', 'join', 'lower', 'upper', 'format', 'islower', 'isupper', 'isdigit', 'startswith',
               'endswith', 'replace', 'encode', 'splitlines', 'partition', 'rpartition', 'rsplit', 'title', 'find', 'zfill', 'isalpha'}
ITER_BUILTINS = {'enumerate', 'zip', 'map', 'filter', 'reversed', 'iter'}
LOSSY = {'hash', 'id', 'len', 'sum', 'min', 'max', 'abs', 'round', 'any', 'all', 'type', 'set', 'frozenset', 'sorted', 'next', 'divmod', 'isinstance'}
LOGMETH = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'}


class AV:
    __slots__ = ('kinds', 'cls', 'elem', 'items', 'orig', 'deps', 'cov', 'taint', 'path', 'fns', 'const', 'src')

    def __init__(self, kinds=E, cls=E, elem=None, items=None, orig=E, deps=E, cov=E, taint=E, path=None, fns=E, const=None, src=E):
        self.kinds = frozenset(kinds)
        self.cls, self.elem, self.items, self.orig = frozenset(cls), elem, items, frozenset(orig)
        self.deps, self.cov, self.taint, self.path, self.fns, self.const = frozenset(deps), frozenset(cov), frozenset(taint), path, frozenset(fns), const
        self.src = frozenset(src)      # sources of float values

    def but(self, **kw):
        d = {s: getattr(self, s) for s in AV.__slots__}
        d.update(kw)
        return AV(**d)

    def key(self):
        return (self.kinds, self.cls, self.elem.key() if self.elem else None, tuple(i.key() for i in self.items) if self.items is not None else None,
                self.orig, self.deps, self.cov, self.taint, self.path, self.fns, self.const, self.src)

    def __eq__(self, o): return isinstance(o, AV) and self.key() == o.key()
    def __hash__(self): return hash(self.key())

    def may(self, k): return k in self.kinds or '?' in self.kinds
    def only(self, *ks): return bool(self.kinds) and self.kinds <= set(ks)
    def numeric(self): return bool(self.kinds & {'int', 'frac', 'float', 'bool'})


UNK = AV({'?'})
NONE = AV({'none'})


def depth_cut(a, n=4):
    if a is None: return None
    if n == 0: return a.but(elem=None, items=None)
    e = depth_cut(a.elem, n - 1)
    it = tuple(depth_cut(i, n - 1) for i in a.items) if a.items is not None else None
    if e is a.elem and it == a.items: return a
    return a.but(elem=e, items=it)


def join(a, b):
    if a is None: return b
    if b is None or a is b: return a
    if a == b: return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y) for x, y in zip(a.items, b.items))
    ea, eb = element(a, raw=True), element(b, raw=True)
    return depth_cut(AV(a.kinds | b.kinds, a.cls | b.cls, join(ea, eb), items, a.orig | b.orig, a.deps | b.deps, a.cov & b.cov,
                        a.taint | b.taint, a.path if a.path == b.path else None, a.fns | b.fns, a.const if a.const == b.const else None, a.src | b.src))


def element(a, raw=False):
    """AV of an element of a container"""
    e = a.elem
    if a.items is not None:
        for i in a.items: e = join(e, i)
    if e is None:
        if raw: return None
        e = AV({'?'})
    if raw: return e
    ds = a.deps
    o = e.orig | frozenset(deeper(x) for x in a.orig if x[0] in ('param', 'attr', 'glob', 'cached', 'class', 'esc'))
    return e.but(deps=e.deps | ds, orig=o, taint=e.taint | a.taint, path=None, cov=E)


def deeper(o):
    if o[0] == 'param': return ('param', o[1], min(o[2] + 1, 4))
    if o[0] in ('attr', 'class'): return (o[0], o[1], o[2] if o[2].endswith('[]') else o[2] + '[]')
    return o


class Summary:
    def __init__(self):
        self.ret = None            # AV relative to the parameters
        self.yld = None
        self.mut = {}              # (param, depth) -> description of the mutated place
        self.consumed = {}         # param -> node   (iterated at least once)
        self.captured = {}         # param -> attr   (stored by reference in a field)
        self.statp = {}            # param -> bool: flows only into statistics/log output
        self.cond = E              # params that decide a branch / flow to results


class Fn:
    """a function to analyse"""
    def __init__(self, info, parent=None):
        self.info, self.parent = info, parent
        self.node, self.module, self.cls = info.node, info.module, info.cls
        self.nested = {}
        a = self.node.args
        self.pnames = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg, self.kwarg = a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg
        self.anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.kwarg: self.anns[a.kwarg.arg] = None
        self.is_gen = info.is_generator() if not isinstance(self.node, ast.Lambda) else False
        self.summary = Summary()
        self.argk = {}             # param -> AV joined over the call sites (kinds only)
        self.envs = {}             # name -> AV joined over all bindings (for closures)
        self.qual = (parent.qual + '.' if parent else '') + info.qual if parent else info.qual
        self.ctor = self.cls is not None and info.name in ('__init__', '__new__', '__post_init__', '__setstate__')
        self.cached = any(('lru_cache' in d or d.split('.')[-1].split('(')[0] in ('cache', 'cached_property')) for d in info.decorators)

    @property
    def where(self): return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qual)

    def public(self): return not self.info.name.startswith('_') and self.parent is None


class Program:
    def __init__(self, repo, modules=None):
        self.repo = repo
        self.fns = {}              # FunctionDef node -> Fn
        self.by_name = {}          # method name -> [Fn]
        self.fields = {}           # (class, attr) -> AV
        self.class_fields = {}     # (class, attr) -> AV stored on the class object itself
        self.field_ctor = {}       # (class, attr) -> AV stored in the constructor (deps relative to its parameters)
        self.field_init = {}       # (class, attr) -> list of ast value nodes assigned in constructors
        self.events = []
        self.passes = 0
        self.modenv = {}
        mods = [m for n, m in sorted(repo.modules.items()) if (modules is None or n in modules)]
        self.mods = mods
        for m in mods:
            for f in m.functions.values(): self.add(f)
            for c in m.classes.values():
                for cc in [c] + list(c.nested.values()):
                    for f in cc.methods.values(): self.add(f)
        self.wrapped = set()       # Fn objects wrapped by lru_cache(...)(f) at run time

    def add(self, info, parent=None):
        f = Fn(info, parent)
        self.fns[info.node] = f
        self.by_name.setdefault(f.info.name, []).append(f)
        from .loader import FuncInfo, own_nodes
        for n in own_nodes(info.node):
            if isinstance(n, ast.FunctionDef):
                sub = FuncInfo(info.module, None, n, outer=info)
                f.nested[n.name] = self.add(sub, f)
        return f

    def run(self, passes=4):
        for i in range(passes):
            self.last = i == passes - 1
            self.pno = i
            self.events = []
            self._seen = set()
            for m in self.mods: self.module_level(m)
            for f in list(self.fns.values()):
                if f.parent is None: Analysis(self, f).go()
            for f in list(self.fns.values()):
                if f.parent is not None: Analysis(self, f).go()
        return self

    def module_level(self, m):
        """top-level statements of a module (constants, scripts)"""
        import types as pt
        body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        node = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=body or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
        key = ('mod', m.name)
        f = self.modenv.get(key)
        if f is None:
            from .loader import FuncInfo
            info = FuncInfo(m, None, node)
            f = Fn(info)
            f.module_level = True
            self.modenv[key] = f
        Analysis(self, f).go()

    def glob(self, module, name):
        f = self.modenv.get(('mod', module.name))
        return f.envs.get(name) if f else None

    def subclasses(self, name):
        return [c for c in self.repo.classes.values() if any(x.name == name for x in self.repo.mro(c))]

    def methods(self, cls, name):
        """possible targets of a method call on a (static) class: the inherited one and overrides in subclasses"""
        out = []
        c = self.repo.cls(cls)
        if c is None: return out
        m = self.repo.find_method(c, name)
        if m is not None: out.append(self.fns.get(m.node))
        for s in self.subclasses(cls):
            if name in s.methods:
                g = self.fns.get(s.methods[name].node)
                if g not in out: out.append(g)
        return [x for x in out if x is not None]

    def is_value(self, name):
        c = self.repo.cls(name)
        if c is None: return False
        return name in VALUE_CLASSES or any(x.name in VALUE_CLASSES for x in self.repo.mro(c))

    def event(self, kind, fn, node, **kw):
        if not self.last: return
        k = (kind, fn.node, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), kw.get('sub'))
        if k in self._seen: return
        self._seen.add(k)
        kw.update(kind=kind, fn=fn, node=node)
        self.events.append(kw)

    def memo_field(self, cls, attr):
        """private field that is initialised with None or an empty container (or not at all) in the constructors: a memo slot"""
        if not attr.startswith('_'): return False
        inits = []
        c = self.repo.cls(cls)
        if c is None: return False
        for x in self.repo.mro(c): inits += self.field_init.get((x.name, attr), [])
        for v in inits:
            if isinstance(v, ast.Constant) and v.value is None: continue
            if isinstance(v, (ast.Dict, ast.List, ast.Set)) and not (getattr(v, 'keys', None) or getattr(v, 'elts', None)): continue
            if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in ('dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'WeakValueDictionary', 'Counter') \
                    and not [a for a in v.args if not isinstance(a, ast.Name)]: continue
            return False
        return True

    def field(self, cls, attr):
        """AV of a field, looked up over the class, its bases and its subclasses"""
        c = self.repo.cls(cls)
        out = None
        if c is None: return None
        for x in self.repo.mro(c) + self.subclasses(cls):
            v = self.fields.get((x.name, attr))
            if v is not None: out = join(out, v)
            a = x.annots.get(attr)
            if a is not None: out = join(out, self.of_ann(a, x))
            t = ty.ATTR.get((x.name, attr))
            if t is not None and (v is None or '?' in v.kinds):
                out = join(out.but(kinds=out.kinds - {'?'}) if out is not None else None, self.of_type(t))
        return out

    def has_field(self, cls, attr):
        c = self.repo.cls(cls)
        if c is None: return False
        for x in self.repo.mro(c) + self.subclasses(cls):
            if (x.name, attr) in self.fields or attr in x.annots or attr in x.consts or attr in x.methods or (x.name, attr) in ty.ATTR: return True
            for b in x.base_names():
                if not isinstance(b, str): return True
        return False

    # -- annotations --------------------------------------------------------
    def of_ann(self, a, owner=None, param=False):
        """AV described by an annotation; Iterable -> kind 'iterable' (may be one-shot)"""
        if a is None: return UNK
        if isinstance(a, ast.Constant):
            if a.value is None: return NONE
            if isinstance(a.value, str):
                try: return self.of_ann(ast.parse(a.value, mode='eval').body, owner, param)
                except SyntaxError: return UNK
            return UNK
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return join(self.of_ann(a.left, owner, param), self.of_ann(a.right, owner, param))
        if isinstance(a, ast.Attribute): return self.of_ann(ast.Name(id=a.attr), owner, param)
        if isinstance(a, ast.Name):
            n = a.id
            if n in ('int', 'bool', 'str', 'float'): return AV({n}, src={('ann', 'float')} if n == 'float' else E)
            if n == 'Fraction': return AV({'frac'})
            if n in ('list', 'dict', 'set', 'tuple'): return AV({n})
            if n in ('Counter', 'defaultdict', 'OrderedDict'): return AV({'dict'})
            if n in ('Iterable', 'Iterator', 'Generator'): return AV({'iterable'})
            if n == 'Self' and owner is not None: return AV({'obj'}, {owner.name})
            t = ty.ALIASES.get(n)
            if t is not None: return self.of_type(t)
            if owner is not None and owner.name == 'BoundedItemsHeap' and n == 'T': return AV({'obj'}, {'BoundedItem'})
            c = self.repo.cls(n)
            if c is not None: return AV({'obj'}, {c.name}, elem=self.cls_elem(c.name))
            return UNK
        if isinstance(a, ast.Subscript):
            b = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, 'id', None)
            args = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            sub = lambda i: self.of_ann(args[i], owner) if i < len(args) else None
            if b in ('Iterable', 'Iterator', 'Generator'): return AV({'iterable'}, elem=sub(0))
            if b in ('Sequence', 'Collection'): return AV({'seq'}, elem=sub(0))
            if b in ('list', 'List', 'deque'): return AV({'list'}, elem=sub(0))
            if b in ('set', 'frozenset', 'Set', 'MutableSet'): return AV({'set'}, elem=sub(0))
            if b in ('dict', 'Dict', 'Mapping', 'defaultdict'): return AV({'dict'}, elem=sub(1), items=None)
            if b in ('tuple', 'Tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis: return AV({'tuple'}, elem=sub(0))
                return AV({'tuple'}, items=tuple(self.of_ann(x, owner) for x in args))
            if b in ('ClassVar', 'Final', 'Optional'):
                v = sub(0)
                return join(v, NONE) if b == 'Optional' else v
            if b == 'Callable' and len(args) == 2: return AV({'fn'}, elem=sub(1))
            if b and self.repo.cls(b): return AV({'obj'}, {b}, elem=self.cls_elem(b))
        return UNK

    def cls_elem(self, n):
        if n == 'Point': return AV({'frac'})
        if n == 'Proto': return AV({'tuple', 'none'}, elem=AV({'int'}))
        return None

    def of_type(self, t):
        if t is None: return UNK
        if t == ty.I: return AV({'int'})
        if t == ty.Q: return AV({'frac'})
        if t == ty.B: return AV({'bool'})
        if t == ty.S: return AV({'str'})
        if t == 'none': return NONE
        k = t[0]
        if k == 'seq': return AV({'seq'}, elem=self.of_type(t[1]) if t[1] else None)
        if k == 'cls': return AV({'obj'}, {t[1]}, elem=self.cls_elem(t[1]))
        if k == 'opt': return join(self.of_type(t[1]), NONE)
        if k == 'tuple': return AV({'tuple'}, items=tuple(self.of_type(x) for x in t[1]))
        if k == 'set': return AV({'set'}, elem=self.of_type(t[1]) if t[1] else None)
        if k == 'dict': return AV({'dict'}, elem=self.of_type(t[2]) if t[2] else None)
        return UNK


class State:
    __slots__ = ('env', 'consumed', 'escaped', 'ctrl', 'ctaint', 'narrow')

    def __init__(self, env, consumed=None, escaped=None, ctrl=E, ctaint=E):
        self.env, self.consumed, self.escaped, self.ctrl, self.ctaint = env, consumed or {}, escaped or {}, ctrl, ctaint

    def copy(self): return State(dict(self.env), dict(self.consumed), dict(self.escaped), self.ctrl, self.ctaint)


def gen_ids(a, n=0):
    if a is None or n > 3: return []
    out = [o for o in a.orig if o[0] == 'gen']
    out += gen_ids(a.elem, n + 1)
    for i in a.items or (): out += gen_ids(i, n + 1)
    return out


def live_ids(env):
    out = set()
    def go(a, n=0):
        if a is None or n > 4: return
        out.update(a.orig)
        go(a.elem, n + 1)
        for i in a.items or (): go(i, n + 1)
    for v in env.values(): go(v)
    return out


def jstate(a, b):
    if a is None: return b
    if b is None: return a
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        env[k] = join(x, y) if x is not None and y is not None else (x or y)
    cons = {}
    for s in (a, b):
        if s.consumed:
            lv = live_ids(s.env)
            for k, v in s.consumed.items():
                if k in lv or k[0] == 'param': cons.setdefault(k, v)
    esc = dict(a.escaped); esc.update(b.escaped)
    return State(env, cons, esc, a.ctrl | b.ctrl if a.ctrl != b.ctrl else a.ctrl, a.ctaint & b.ctaint)


class Analysis:
    def __init__(self, prog, fn):
        self.p, self.f = prog, fn
        self.repo = prog.repo
        self.module = fn.module
        self.new = Summary()
        self.breaks, self.conts, self.rets = [], [], []
        self.depth = 0

    # -- entry -------------------------------------------------------------
    def go(self):
        f = self.f
        env = {}
        names = f.pnames + f.kwonly
        for i, n in enumerate(names):
            ann = f.anns.get(n)
            v = self.p.of_ann(ann, f.cls, True) if ann is not None else None
            if i == 0 and f.cls is not None and not f.info.is_static():
                if f.info.is_classm() or f.info.name == '__new__':
                    v = AV({'class'}, {f.cls.name})
                else:
                    v = AV({'obj'}, {f.cls.name}, elem=self.p.cls_elem(f.cls.name))
            ak = f.argk.get(n)
            if v is None:
                v = ak.but(orig=E, path=None, deps=E, cov=E, const=None) if ak is not None else UNK
                if f.info.name in ('__rmul__', '__mul__') and n in ('base_map', 'bm', 'cube_map') and not v.cls: v = AV({'obj'}, {'BaseMap'})
                if n == 'other' and f.cls is not None and not v.cls: v = AV({'obj'}, {f.cls.name}, elem=self.p.cls_elem(f.cls.name))
                if v.kinds >= {'?'} and n in ty_names: v = ty_names[n](self.p)
            elif ak is not None:
                extra = ak.kinds & {'int', 'frac', 'float'}
                if v.kinds & {'frac'} and extra: v = v.but(kinds=v.kinds | extra, src=v.src | ak.src)
                v = v.but(fns=v.fns | ak.fns)
                if v.elem is not None and ak.elem is not None and v.elem.kinds & {'frac'}:
                    v = v.but(elem=v.elem.but(kinds=v.elem.kinds | (ak.elem.kinds & {'int', 'float'})))
            if (f.qual, n) in ITERABLE and v.kinds & {'seq', 'list', 'tuple', 'set', '?'}:
                v = v.but(kinds=(v.kinds - {'seq', 'list', 'tuple', 'set', '?'}) | {'iterable'})
            if f.info.name.startswith('ratio_') and f.cls is None:
                # metric functions are called with integers by the estimator
                if v.kinds & {'frac'}: v = v.but(kinds=v.kinds | {'int'})
                if v.elem is not None and v.elem.kinds & {'frac'}: v = v.but(elem=v.elem.but(kinds=v.elem.kinds | {'int'}))
            env[n] = v.but(orig={('param', n, 0)}, deps={(n,)}, cov={(n,)}, path=(n,),
                             taint={x if x.startswith('arg: ') else 'arg: ' + x for x in ak.taint} if ak is not None else E)
        if f.vararg: env[f.vararg] = AV({'tuple'}, orig={('fresh', id(f.node), 'va')}, deps={(f.vararg,)}, cov={(f.vararg,)}, path=(f.vararg,))
        if f.kwarg: env[f.kwarg] = AV({'dict'}, orig={('fresh', id(f.node), 'kw')}, deps={(f.kwarg,)}, cov={(f.kwarg,)}, path=(f.kwarg,))
        st = State(env)
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, st)
            self.new.ret = v
        else:
            end = self.block(f.node.body, st)
        f.summary = self.new
        return self.new

    def note(self, name, v):
        self.f.envs[name] = join(self.f.envs.get(name), v.but(path=None, cov=E)) if name in self.f.envs else v.but(path=None, cov=E)

    def ev_event(self, kind, node, **kw): self.p.event(kind, self.f, node, **kw)

    # -- statements ----------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None: return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr): self.ev(c, st)
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets: self.bind(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                a = self.p.of_ann(s.annotation, self.f.cls)
                if v.elem is None and v.items is None and v.kinds & CONT and (a.elem is not None): v = v.but(elem=a.elem)
                if v.kinds <= {'?'} and a.kinds and '?' not in a.kinds: v = v.but(kinds=a.kinds - {'iterable'} or v.kinds, cls=a.cls, elem=v.elem or a.elem)
            self.bind(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        old = self.ev(t, st)
        v = self.ev(s.value, st)
        if isinstance(s.op, ast.Add) and v.kinds & {'iter', 'iterable'}: self.consume(v, s, st)
        inplace = isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and old.kinds & CONT
        r = self.binop(s.op, old, v, s, st)
        if isinstance(t, ast.Name):
            if inplace:
                self.mutate(old, s, st, 'augmented assignment to %s' % t.id, v)
                n = old.but(elem=join(old.elem, element(v, raw=True)), items=None, deps=old.deps | v.deps | st.ctrl, taint=old.taint | v.taint, path=None)
                self.setvar(t.id, n, st)
            else:
                self.setvar(t.id, r.but(deps=r.deps | st.ctrl), st)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st)
            if inplace: self.mutate(old, s, st, 'augmented assignment to .%s' % t.attr, v)
            else: self.attr_store(t, obj, r, s, st)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, st)
            if inplace: self.mutate(old, s, st, 'augmented assignment to an element', v)
            self.mutate(c, s, st, 'item assignment', r, key=self.ev(t.slice, st), store=True)
            self.absorb(t.value, r, st)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, st), s, st, 'item deletion', None)
            elif isinstance(t, ast.Attribute):
                self.attr_store(t, self.ev(t.value, st), NONE, s, st, delete=True)
            elif isinstance(t, ast.Name): st.env.pop(t.id, None)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        v = v.but(deps=v.deps | st.ctrl)
        self.ev_event('return', s, val=v, ctaint=st.ctaint)
        self.new.ret = join(self.new.ret, v)
        self.fin_state = st
        return None

    def s_Raise(self, s, st):
        for c in (s.exc, s.cause):
            if c is not None: self.ev(c, st)
        return None

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        return self.narrow(s.test, st, True) or st

    def s_Pass(self, s, st): return st
    def s_Global(self, s, st):
        self.globals = getattr(self, 'globals', set()) | set(s.names)
        return st
    def s_Nonlocal(self, s, st): return st
    def s_Import(self, s, st):
        if getattr(self.f, 'module_level', False): return st
        for a in s.names:
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[a.asname or full] = AV({'module'}, const=full) if full in self.repo.modules else AV({'ext'}, const=full)
        return st

    def s_ImportFrom(self, s, st):
        if getattr(self.f, 'module_level', False) or s.level: return st
        for a in s.names:
            m = self.repo.modules.get(s.module)
            if m is None: st.env[a.asname or a.name] = AV({'ext'}, const='%s.%s' % (s.module, a.name), taint=amb('%s.%s' % (s.module, a.name)))
        return st

    def s_TypeAlias(self, s, st): return st
    def s_ClassDef(self, s, st): return st

    def s_Break(self, s, st):
        if self.breaks: self.breaks[-1].append(st)
        return None

    def s_Continue(self, s, st):
        if self.conts: self.conts[-1].append(st)
        return None

    def s_FunctionDef(self, s, st):
        g = self.f.nested.get(s.name)
        if g is None: return st
        for d in s.decorator_list: self.ev(d, st)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]: self.ev(d, st)
        self.setvar(s.name, AV({'fn'}, fns={s}), st)
        return st

    def s_If(self, s, st):
        t = self.ev(s.test, st)
        self.ev_event('cond', s, test=t, body=s.body, orelse=s.orelse, what='if')
        a, b = st.copy(), st.copy()
        a = self.narrow(s.test, a, True)
        b = self.narrow(s.test, b, False)
        c0, t0 = st.ctrl, st.ctaint
        add = t.deps
        for x in (a, b):
            if x is not None: x.ctrl, x.ctaint = c0 | add, t0 | t.taint
        a = self.block(s.body, a) if a is not None else None
        b = self.block(s.orelse, b) if b is not None else None
        r = jstate(a, b)
        if r is not None:
            # after a branch that always leaves, what follows depends on the test as well
            r.ctrl = c0 if (a is not None and b is not None) else c0 | add
            r.ctaint = t0
        return r

    def loop(self, st, step, orelse, entered=False):
        """step(state) -> (state at the end of the body, state when leaving)"""
        out = None
        cur = st
        last = None
        for k in range(3):
            self.breaks.append([]); self.conts.append([])
            end, leave = step(cur.copy())
            brs, cns = self.breaks.pop(), self.conts.pop()
            for c in cns: end = jstate(end, c)
            last = end
            for b in brs: out = jstate(out, b)
            normal = leave
            nxt = jstate(cur.copy(), end)
            if end is None or (nxt.env == cur.env and nxt.consumed == cur.consumed and nxt.escaped == cur.escaped): cur = nxt; break
            cur = nxt
        # leaving the loop normally
        self.breaks.append([]); self.conts.append([])
        lv = self.leave_state(last if entered and last is not None else cur)
        self.breaks.pop(); self.conts.pop()
        if orelse and lv is not None: lv = self.block(orelse, lv)
        r = jstate(lv, out)
        if r is not None: r.ctrl, r.ctaint = st.ctrl, st.ctaint
        return r

    def leave_state(self, cur): return cur.copy()

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.consume(it, s.iter, st)
        el = self.iter_elem(it)
        self.ev_event('cond', s, test=it.but(taint=it.taint), body=s.body, orelse=[], what='for')
        c0, t0 = st.ctrl, st.ctaint
        # elements of a container are different objects in every iteration; those used up before the loop stay used up
        own = [o for o in gen_ids(el) if o not in st.consumed]

        def step(x):
            x.ctrl, x.ctaint = c0 | it.deps, t0 | it.taint
            for o in own: x.consumed.pop(o, None)
            self.bind(s.target, el, x, s)
            return self.block(s.body, x), None
        st2 = self.loop(st, step, s.orelse)
        return st2

    def s_While(self, s, st):
        c0, t0 = st.ctrl, st.ctaint

        def step(x):
            t = self.ev(s.test, x)
            self.ev_event('cond', s, test=t, body=s.body, orelse=[], what='while')
            x = self.narrow(s.test, x, True)
            if x is None: return None, None
            x.ctrl, x.ctaint = c0 | t.deps, t0 | t.taint
            return self.block(s.body, x), None
        forever = isinstance(s.test, ast.Constant) and s.test.value
        save = self.leave_state
        if forever: self.leave_state = lambda cur: None
        else: self.leave_state = lambda cur: self.narrow(s.test, cur.copy(), False)
        r = self.loop(st, step, s.orelse, entered=True)   # the pass through an unentered while loop is not followed
        self.leave_state = save
        return r

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None: self.bind(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        before = st.copy()
        a = self.block(s.body, st)
        mid = jstate(before.copy(), a.copy() if a is not None else None)
        outs = [self.block(s.orelse, a) if a is not None and s.orelse else a]
        for h in s.handlers:
            x = mid.copy()
            if h.type is not None: self.ev(h.type, x)
            if h.name: x.env[h.name] = UNK
            outs.append(self.block(h.body, x))
        r = None
        for o in outs: r = jstate(r, o)
        if s.finalbody:
            r2 = self.block(s.finalbody, (r or mid).copy())
            if r is not None: r = r2
        return r

    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        out = st.copy()
        for c in s.cases:
            x = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: x.env[n.name] = UNK
            out = jstate(out, self.block(c.body, x))
        return out

    # -- narrowing -------------------------------------------------------------
    def narrow(self, test, st, pos):
        if st is None: return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.narrow(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for v in test.values: st = self.narrow(v, st, pos)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            v = st.env.get(n)
            if v is None: return st
            names = [getattr(x, 'attr', getattr(x, 'id', None)) for x in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])]
            ks, cs = set(), set()
            for nm in names:
                if nm in ('str', 'int', 'list', 'tuple', 'dict', 'set', 'float', 'bool'): ks.add(nm)
                elif nm == 'Fraction': ks.add('frac')
                elif nm in ('Sequence', 'Sized', 'Collection'): ks.add('seq')
                elif nm and self.repo.cls(nm): ks.add('obj'); cs.add(nm)
                else: return st
            if pos:
                st.env[n] = v.but(kinds=ks, cls=cs or v.cls & set() or cs, elem=v.elem if ks & {'list', 'tuple', 'set', 'seq', 'dict'} else (
                    self.p.cls_elem(next(iter(cs))) if len(cs) == 1 else None))
            else:
                left = v.kinds - (ks - {'obj', 'seq'})
                cl = v.cls - cs
                if v.cls and not cl: left = left - {'obj'}
                if left: st.env[n] = v.but(kinds=left, cls=cl)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            n = test.left.id
            v = st.env.get(n)
            if v is not None and isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == pos
                if isnone: st.env[n] = AV({'none'}, deps=v.deps, taint=v.taint, cov=v.cov)
                elif v.kinds - {'none'}: st.env[n] = v.but(kinds=v.kinds - {'none'})
        return st

    # -- binding -------------------------------------------------------------------
    def setvar(self, n, v, st):
        if n in getattr(self, 'globals', ()): self.ev_event('globstore', self.f.node, name=n, val=v, sub=n)
        st.env[n] = v
        self.note(n, v)

    def bind(self, t, v, st, node):
        v = v.but(deps=v.deps | st.ctrl) if not st.ctrl <= v.deps else v
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.kinds & {'iter', 'iterable'}: self.consume(v, node, st)
            if v.items is not None and len(v.items) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.items): self.bind(e, x.but(taint=x.taint | v.taint, deps=x.deps | (v.deps if not x.deps else E)), st, node)
            else:
                x = self.iter_elem(v)
                for e in t.elts:
                    if isinstance(e, ast.Starred): self.bind(e.value, AV({'list'}, elem=x, orig={self.fresh(e, st)}, deps=x.deps), st, node)
                    else: self.bind(e, x, st, node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            self.attr_store(t, self.ev(t.value, st), v, node, st)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.mutate(c, node, st, 'item assignment', v, key=k, store=True)
            self.absorb(t.value, v, st, k)

    def absorb(self, target, v, st, key=None):
        """an element was put into the container denoted by `target`"""
        n = target
        chain = 0
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value; chain += 1
        if isinstance(n, ast.Name) and n.id in st.env and chain == (0 if isinstance(target, ast.Name) else chain):
            c = st.env[n.id]
            if isinstance(target, ast.Name):
                kd = key.deps if key is not None else E
                self.setvar(n.id, depth_cut(c.but(elem=join(c.elem, v.but(path=None, cov=E)), items=None, deps=c.deps | v.deps | kd | st.ctrl, taint=c.taint | v.taint,
                                                  kinds=c.kinds)), st)
            elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name):
                inner = c.elem
                if inner is not None:
                    self.setvar(n.id, depth_cut(c.but(elem=inner.but(elem=join(inner.elem, v.but(path=None, cov=E)), items=None), items=None,
                                                      deps=c.deps | v.deps | st.ctrl, taint=c.taint | v.taint)), st)
            elif isinstance(target, ast.Attribute) and c.kinds & {'obj'}:
                self.setvar(n.id, c.but(deps=c.deps | v.deps | st.ctrl), st)

    def fresh(self, node, st):
        o = ('fresh', node.lineno if hasattr(node, 'lineno') else 0, getattr(node, 'col_offset', 0), type(node).__name__)
        st.consumed.pop(o, None)
        st.escaped.pop(o, None)
        return o

    # -- mutation, attribute stores, consumption --------------------------------------
    def attr_store(self, t, obj, v, node, st, delete=False):
        attr = t.attr
        classes = set(obj.cls)
        f = self.f
        for c in classes:
            for o in (obj.orig or {None}):
                pass
        self.ev_event('attr', node, obj=obj, attr=attr, val=v, ctaint=st.ctaint, delete=delete, ctrl=st.ctrl)
        # escape: a container stored in a field
        if isinstance(t.value, ast.Name) and t.value.id in st.env and obj.kinds & {'obj'}:
            o = st.env[t.value.id]
            if ('param', t.value.id, 0) not in o.orig or not f.ctor:
                st.env[t.value.id] = o.but(deps=o.deps | v.deps | st.ctrl)
        for o in v.orig:
            if o[0] == 'param' and o[2] == 0: self.new.captured.setdefault(o[1], attr)
        if classes and 'class' in obj.kinds and 'obj' not in obj.kinds:
            for c in classes:
                k = (c, attr)
                self.p.class_fields[k] = join(self.p.class_fields.get(k), strip(v)) if k in self.p.class_fields else strip(v)
        elif classes:
            vv = v.but(path=None, cov=E, orig=E, deps=E)
            for c in classes:
                k = (c, attr)
                self.p.fields[k] = join(self.p.fields.get(k), strip(vv)) if k in self.p.fields else strip(vv)
                if f.ctor or st is not None and any(o[0] == 'newobj' for o in obj.orig):
                    self.p.field_ctor[k] = join(self.p.field_ctor.get(k), v.but(path=None, orig=E, elem=None, items=None)) if k in self.p.field_ctor and self.p.pno == getattr(self, '_pf', {}).get(k) else v.but(path=None, orig=E, elem=None, items=None)
                    src = node.value if isinstance(node, (ast.Assign, ast.AnnAssign)) else None
                    if src is not None:
                        lst = self.p.field_init.setdefault(k, [])
                        if not any(x is src for x in lst): lst.append(src)

    def mutate(self, c, node, st, how, v=None, key=None, store=False):
        self.ev_event('mut', node, cont=c, how=how, val=v, key=key, store=store, escaped=[o for o in c.orig if o in st.escaped], ctaint=st.ctaint, ctrl=st.ctrl)
        for o in c.orig:
            if o[0] == 'param': self.new.mut.setdefault((o[1], o[2]), '%s line %d: %s' % (self.f.qual, getattr(node, 'lineno', 0), how))

    def consume(self, v, node, st, why='iterated'):
        """the (possibly one-shot) iterable is traversed"""
        if not v.kinds & {'iter', 'iterable', '?'}: return
        if v.kinds & {'?'} and not v.kinds & {'iter', 'iterable'}:
            # unknown kind: only remember that a parameter is traversed
            for o in v.orig:
                if o[0] == 'param' and o[2] == 0: self.new.consumed.setdefault(o[1], node)
            return
        for o in v.orig:
            if o[0] == 'param' and o[2] == 0: self.new.consumed.setdefault(o[1], node)
            if o[0] in ('param', 'gen') and (o[0] == 'gen' or o[2] == 0):
                if o in st.consumed:
                    self.ev_event('reuse', node, first=st.consumed[o], origin=o, sub=str(o), why=why)
                else:
                    st.consumed[o] = getattr(node, 'lineno', 0)

    def gen(self, node, st, elem=None, deps=E, taint=E):
        o = ('gen', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st.consumed.pop(o, None)
        return AV({'iter'}, elem=elem, orig={o}, deps=deps, taint=taint)

    def iter_elem(self, v):
        e = element(v)
        if v.kinds & {'obj'}:
            for c in v.cls:
                x = self.p.cls_elem(c)
                if x is not None: e = join(e, x) if '?' not in e.kinds else x.but(deps=e.deps, orig=e.orig)
        if v.only('str'): e = AV({'str'}, deps=v.deps, taint=v.taint)
        return e.but(deps=e.deps | v.deps, taint=e.taint | v.taint)

    # -- expressions ---------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            deps = E
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr): deps |= self.ev(c, st).deps
            return UNK.but(deps=deps)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None: return NONE
        if isinstance(v, bool): return AV({'bool'}, const=repr(v))
        if isinstance(v, int): return AV({'int'}, const=repr(v))
        if isinstance(v, float):
            self.ev_event('floatlit', e)
            return AV({'float'}, src={('lit', self.f.qual, e.lineno)}, const=repr(v))
        if isinstance(v, str): return AV({'str'}, const=repr(v))
        return AV({'other'})

    def e_JoinedStr(self, e, st):
        d, t = E, E
        for x in ast.walk(e):
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, st)
                d |= v.deps; t |= v.taint
        return AV({'str'}, deps=d, taint=t)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env: return st.env[n]
        f = self.f.parent
        while f is not None:
            if n in f.envs or n in f.pnames + f.kwonly or n in f.nested:
                if n in f.nested: return AV({'fn'}, fns={f.nested[n].node})
                v = f.envs.get(n)
                if n in f.pnames + f.kwonly:
                    pv = self.p.of_ann(f.anns.get(n), f.cls)
                    if n in ('self',) and f.cls: pv = AV({'obj'}, {f.cls.name})
                    v = join(v, pv) if v is not None else pv
                return v.but(orig={('closure', f.qual, n)}, deps={('<' + f.qual + '>', n)}, path=None, cov=E)
            f = f.parent
        r = self.repo.resolve(self.module, n)
        if r is not None:
            k, x = r
            if k == 'func': return AV({'fn'}, fns={x.node})
            if k == 'class': return AV({'class'}, {x.name})
            if k == 'module': return AV({'module'}, const=x.name)
            if k == 'ext': return AV({'ext'}, const=x)
            if k == 'const':
                mod, val = x
                v = self.p.glob(mod, n)
                if v is not None: return v.but(orig={('glob', mod.name, n)} if v.kinds & CONT else E, deps={('<global>', n)}, path=('<global>', n), cov=E)
        if getattr(self.f, 'module_level', False) and not hasattr(_bi, n):
            return UNK
        if n == '__debug__': return AV({'bool'}, taint={'ambient __debug__'})
        return AV({'builtin'}, const=n)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            el, d, t = None, E, E
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, st)
                if isinstance(x, ast.Starred):
                    self.consume(v, x, st)
                    v = self.iter_elem(v)
                el = join(el, v); d |= v.deps; t |= v.taint
            return AV({'tuple'}, elem=el, deps=d, taint=t)
        its = [self.ev(x, st) for x in e.elts]
        d, c, t = E, E, E
        for i in its: d |= i.deps; c |= i.cov; t |= i.taint
        return AV({'tuple'}, items=tuple(i.but(path=i.path) for i in its), deps=d, cov=c, taint=t)

    def e_List(self, e, st):
        v = self.e_Tuple(e, st)
        return v.but(kinds={'list'}, orig={self.fresh(e, st)}, items=v.items if v.items is not None and len(v.items) <= 6 else None,
                     elem=v.elem if v.items is None or len(v.items) <= 6 else element(v, raw=True))

    def e_Set(self, e, st):
        v = self.e_Tuple(e, st)
        return v.but(kinds={'set'}, orig={self.fresh(e, st)}, elem=element(v, raw=True), items=None, cov=E)

    def e_Dict(self, e, st):
        el, d, t = None, E, E
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            d |= v.deps; t |= v.taint
            if k is None: v = element(v)
            else:
                kv = self.ev(k, st)
                d |= kv.deps; t |= kv.taint
            el = join(el, v.but(path=None, cov=E))
        return AV({'dict'}, elem=el, orig={self.fresh(e, st)}, deps=d, taint=t)

    def comp(self, e, st, kind):
        x = st.copy()
        conds = []
        first = True
        deps, taint = E, E
        def rec(i):
            nonlocal deps, taint
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    k, v = self.ev(e.key, x), self.ev(e.value, x)
                    deps |= k.deps; taint |= k.taint
                    return v
                return self.ev(e.elt, x)
            g = e.generators[i]
            it = self.ev(g.iter, x)
            self.consume(it, g.iter, x)
            deps |= it.deps; taint |= it.taint
            el = self.iter_elem(it)
            own = [o for o in gen_ids(el) if o not in x.consumed]
            self.bind(g.target, el, x, e)
            for c in g.ifs:
                t = self.ev(c, x)
                self.ev_event('cond', c, test=t, body=[], orelse=[], what='filter')
                deps |= t.deps; taint |= t.taint
                self.narrow(c, x, True)
            r = rec(i + 1)
            # second iteration: re-evaluate what happens inside the loop
            for o in own: x.consumed.pop(o, None)
            self.bind(g.target, el, x, e)
            return join(r, rec2(i + 1))
        def rec2(i):
            if i < len(e.generators):
                g = e.generators[i]
                it = self.ev(g.iter, x)
                self.consume(it, g.iter, x)
                el = self.iter_elem(it)
                for o in gen_ids(el): x.consumed.pop(o, None)
                self.bind(g.target, el, x, e)
                for c in g.ifs: self.ev(c, x)
                return rec2(i + 1)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, x)
                return self.ev(e.value, x)
            return self.ev(e.elt, x)
        el = rec(0)
        st.consumed = x.consumed
        st.escaped = x.escaped
        for n in x.env:
            # comprehension targets stay local, everything else is unchanged
            pass
        el = el.but(path=None, cov=E)
        d, t = el.deps | deps, el.taint | taint
        if kind == 'iter': return self.gen(e, st, el, d, t)
        return AV({kind}, elem=el, orig={self.fresh(e, st)}, deps=d, taint=t)

    def e_ListComp(self, e, st): return self.comp(e, st, 'list')
    def e_SetComp(self, e, st): return self.comp(e, st, 'set')
    def e_DictComp(self, e, st): return self.comp(e, st, 'dict')
    def e_GeneratorExp(self, e, st): return self.comp(e, st, 'iter')

    def e_Lambda(self, e, st):
        x = st.copy()
        for a in e.args.args: x.env[a.arg] = UNK
        v = self.ev(e.body, x)
        return AV({'fn'}, deps=v.deps - {(a.arg,) for a in e.args.args}, taint=v.taint, fns={e}, elem=v)

    def e_IfExp(self, e, st):
        t = self.ev(e.test, st)
        self.ev_event('cond', e, test=t, body=[], orelse=[], what='conditional expression')
        a, b = self.narrow(e.test, st.copy(), True), self.narrow(e.test, st.copy(), False)
        v = self.ev(e.body, a)
        w = self.ev(e.orelse, b)
        j = jstate(a, b)
        st.consumed, st.escaped = j.consumed, j.escaped
        r = join(v, w)
        return r.but(deps=r.deps | t.deps, taint=r.taint | t.taint, cov=E)

    def e_BoolOp(self, e, st):
        r = None
        d, t = E, E
        x = st.copy()
        for i, v in enumerate(e.values):
            a = self.ev(v, x)
            d |= a.deps; t |= a.taint
            if i < len(e.values) - 1: self.truth(a, v, st)
            r = join(r, a)
            x = self.narrow(v, x, isinstance(e.op, ast.And)) or x
        st.consumed, st.escaped = x.consumed, x.escaped
        return r.but(deps=d, taint=t, cov=E, path=None)

    def truth(self, v, node, st):
        pass

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            self.truth(v, e.operand, st)
            return AV({'bool'}, deps=v.deps, taint=v.taint)
        if isinstance(e.op, ast.USub) and v.const is not None and v.const.lstrip('-').isdigit():
            return v.but(const=v.const[1:] if v.const.startswith('-') else '-' + v.const)
        if v.kinds & {'obj'}: return self.call_method(v, '__invert__' if isinstance(e.op, ast.Invert) else '__neg__', [], {}, e, st)
        k = set(v.kinds)
        if 'bool' in k: k = k - {'bool'} | {'int'}
        return AV(k, deps=v.deps, taint=v.taint, cov=v.cov, src=v.src)

    def e_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), e, st)

    def binop(self, op, a, b, e, st):
        d, t = a.deps | b.deps, a.taint | b.taint
        src = a.src | b.src
        ka, kb = a.kinds, b.kinds
        num = {'int', 'frac', 'float', 'bool'}
        if ka & {'obj'} or kb & {'obj'}:
            r = None
            nm = {ast.Mult: 'mul', ast.Add: 'add', ast.Sub: 'sub', ast.Pow: 'pow', ast.Div: 'truediv'}.get(type(op))
            if nm:
                if kb & {'obj'}:
                    for c in b.cls:
                        for m in self.p.methods(c, '__r%s__' % nm):
                            # Spec * BaseMap etc.: the left operand's own method goes first for base maps and specs
                            r = join(r, self.call_fn(m, [b, a], {}, e, st))
                if ka & {'obj'}:
                    for c in a.cls:
                        for m in self.p.methods(c, '__%s__' % nm):
                            if c == 'BaseMap' and kb & {'obj'} and not b.cls & {'BaseMap'}: continue
                            r = join(r, self.call_fn(m, [a, b], {}, e, st))
            if r is not None: return r.but(deps=r.deps | d, taint=r.taint | t, path=None)
            if not (ka & num or kb & num): return UNK.but(deps=d, taint=t)
        if isinstance(op, ast.Div):
            self.ev_event('div', e, left=a, right=b)
            ks = set()
            if ka & {'int', 'bool'} and kb & {'int', 'bool'}: ks.add('float'); src = src | {('div', self.f.qual, getattr(e, 'lineno', 0))}
            if 'float' in ka | kb: ks.add('float')
            if 'frac' in ka | kb: ks.add('frac')
            if not ks: ks = {'?'}
            return AV(ks, deps=d, taint=t, src=src)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if isinstance(op, ast.Mod) and ka & {'str'}: return AV({'str'}, deps=d, taint=t)
            self.ev_event('floor', e, left=a, right=b, op='//' if isinstance(op, ast.FloorDiv) else '%')
            ks = set()
            if 'float' in ka | kb: ks.add('float')
            if isinstance(op, ast.Mod) and 'frac' in ka | kb: ks.add('frac')
            if ka & {'int', 'bool', 'frac'}: ks.add('int')
            return AV(ks or {'?'}, deps=d, taint=t, src=src)
        if isinstance(op, ast.Pow):
            neg = b.const is not None and b.const.startswith('-')
            ks = set()
            if 'float' in ka | kb: ks.add('float')
            if 'frac' in ka: ks.add('frac')
            if ka & {'int', 'bool'}:
                if neg: ks.add('float'); src = src | {('negpow', self.f.qual, getattr(e, 'lineno', 0))}
                else: ks.add('int')
            if neg and ka & {'int'}: self.ev_event('negpow', e, left=a, right=b)
            if '?' in ka and not ks: ks.add('?')
            if 'frac' in kb: self.ev_event('fracpow', e, left=a, right=b)
            return AV(ks or {'?'}, deps=d, taint=t, src=src)
        if isinstance(op, (ast.Add, ast.Mult)) and (ka | kb) & {'list', 'tuple', 'str', 'seq'} and not (ka & num and kb & num):
            for v in (a, b):
                if v.kinds & {'iter', 'iterable'} : pass
            ks = (ka | kb) & {'list', 'tuple', 'str', 'seq'}
            if 'list' in ks: orig = {self.fresh(e, st)}
            else: orig = E
            ea = element(a, raw=True) if ka & {'list', 'tuple', 'seq'} else None
            eb = element(b, raw=True) if kb & {'list', 'tuple', 'seq'} else None
            el = join(ea, eb)
            return AV(ks, elem=el, orig=orig, deps=d, taint=t, cov=a.cov | b.cov if isinstance(op, ast.Add) and not isinstance(e, ast.AugAssign) else E)
        if (ka | kb) & {'set', 'dict'} and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return AV((ka | kb) & {'set', 'dict'}, elem=join(element(a, raw=True), element(b, raw=True)), orig={self.fresh(e, st)}, deps=d, taint=t)
        ks = set()
        for x in (ka & num) or {'?'}:
            for y in (kb & num) or {'?'}:
                if 'float' in (x, y): ks.add('float')
                elif 'frac' in (x, y): ks.add('frac')
                elif '?' in (x, y): ks.add('?')
                elif isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)) and (x, y) == ('bool', 'bool'): ks.add('bool')
                else: ks.add('int')
        return AV(ks, deps=d, taint=t, src=src)

    def e_Compare(self, e, st):
        vs = [self.ev(e.left, st)] + [self.ev(c, st) for c in e.comparators]
        d, t = E, E
        for v in vs: d |= v.deps; t |= v.taint
        for op, l, r in zip(e.ops, vs, vs[1:]):
            if isinstance(op, (ast.In, ast.NotIn)):
                self.consume(r, e, st, 'membership test')
                if r.orig: self.ev_event('lookup', e, cont=r, key=l)
            elif isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                for x, y in ((l, r), (r, l)):
                    if x.kinds & {'obj'} and isinstance(op, (ast.Eq, ast.NotEq)):
                        for c in x.cls:
                            for m in self.p.methods(c, '__eq__'):
                                if self.f.info.name != '__eq__': self.call_fn(m, [x, y], {}, e, st)
            self.ev_event('cmp', e, op=type(op).__name__, left=l, right=r, sub=type(op).__name__)
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and any(v.only('none') for v in vs):
            return AV({'bool'}, deps=d, taint=t)
        return AV({'bool'}, deps=d, taint=t)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(e.target, v, st, e)
        return v

    def e_Starred(self, e, st): return self.ev(e.value, st)
    def e_Await(self, e, st): return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        v = v.but(deps=v.deps | st.ctrl)
        self.ev_event('yield', e, val=v, ctaint=st.ctaint)
        self.new.yld = join(self.new.yld, v.but(path=None))
        self.escape(v, e, st)
        return UNK

    def escape(self, v, node, st, depth=0):
        for o in v.orig:
            if o[0] == 'fresh': st.escaped[o] = getattr(node, 'lineno', 0)
        if depth < 2:
            for i in v.items or (): self.escape(i, node, st, depth + 1)

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.consume(v, e, st)
        x = self.iter_elem(v)
        self.ev_event('yield', e, val=x, ctaint=st.ctaint)
        self.new.yld = join(self.new.yld, x)
        return UNK

    def e_Slice(self, e, st):
        d, t = E, E
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                v = self.ev(x, st)
                d |= v.deps; t |= v.taint
        return AV({'slice'}, deps=d, taint=t)

    def e_Subscript(self, e, st):
        c = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        d, t = c.deps | k.deps, c.taint | k.taint
        if c.kinds & {'iter', 'iterable'}: self.ev_event('index', e, val=c)
        if isinstance(e.ctx, ast.Load) and c.orig: self.ev_event('lookup', e, cont=c, key=k)
        if isinstance(e.slice, ast.Slice):
            ks = c.kinds & {'list', 'tuple', 'str', 'seq'}
            if c.kinds & {'obj'}: ks = ks | {'tuple'}
            el = element(c, raw=True)
            if el is None and c.kinds & {'obj'}: el = self.iter_elem(c)
            if el is not None: el = el.but(orig=el.orig | frozenset(deeper(x) for x in c.orig if x[0] in ('param', 'attr', 'glob', 'cached', 'class')))
            return AV(ks or {'?'}, elem=el, orig={self.fresh(e, st)} if 'list' in ks else E, deps=d, taint=t)
        if c.items is not None and k.const is not None:
            try: i = int(k.const)
            except ValueError: i = None
            if i is not None and -len(c.items) <= i < len(c.items):
                x = c.items[i]
                return x.but(deps=x.deps | k.deps | (c.deps if not x.deps else E), taint=x.taint | t, path=None)
        x = self.iter_elem(c)
        if c.only('str'): return AV({'str'}, deps=d, taint=t)
        return x.but(deps=x.deps | d, taint=x.taint | t, path=None, cov=E)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr_(o, e.attr, e, st)

    def getattr_(self, o, attr, e, st):
        d, t = o.deps, o.taint
        if attr in ('level', 'handlers', 'disabled') and 'logg' in ast.unparse(e)[:60]: t = t | {'logging level'}
        if attr in STATS: t = t | {'statistics .%s' % attr}
        if 'module' in o.kinds and o.const:
            m = self.repo.modules.get(o.const)
            if m is not None:
                r = self.repo.resolve(m, attr)
                if r is None:
                    sub = self.repo.modules.get(o.const + '.' + attr)
                    if sub is not None: return AV({'module'}, const=sub.name)
                    return UNK
                k, x = r
                if k == 'func': return AV({'fn'}, fns={x.node})
                if k == 'class': return AV({'class'}, {x.name})
                if k == 'const':
                    v = self.p.glob(x[0], attr)
                    if v is not None: return v.but(orig={('glob', x[0].name, attr)} if v.kinds & CONT else E, deps={('<global>', attr)}, path=('<global>', attr), cov=E)
                return UNK
        if 'ext' in o.kinds and o.const == 'math' and attr == 'inf': return AV({'inf'})
        if 'ext' in o.kinds and o.const: return AV({'ext'}, const=o.const + '.' + attr, taint=amb(o.const + '.' + attr))
        if 'class' in o.kinds and o.cls:
            for c in o.cls:
                ci = self.repo.cls(c)
                if ci is None: continue
                m = self.repo.find_method(ci, attr)
                if m is not None: return AV({'fn'}, {c}, fns={m.node}, const='unbound' if not m.is_classm() else 'classm')
                k = self.repo.find_const(ci, attr)
                if k is not None or attr in ci.annots:
                    v = self.p.of_ann(ci.annots.get(attr), ci) if attr in ci.annots else UNK
                    val = k[1] if k is not None else None
                    if isinstance(val, (ast.Dict, ast.DictComp)): v = v.but(kinds={'dict'})
                    elif isinstance(val, (ast.List, ast.ListComp)): v = v.but(kinds={'list'})
                    elif isinstance(val, (ast.Set, ast.SetComp)): v = v.but(kinds={'set'})
                    elif isinstance(val, ast.Call): v = v.but(kinds={ {'dict': 'dict', 'set': 'set', 'list': 'list', 'defaultdict': 'dict', 'Counter': 'dict', 'OrderedDict': 'dict'}.get(ast.unparse(val.func).split('.')[-1], '?')})
                    if isinstance(val, ast.Call) and 'namedtuple' in ast.unparse(val.func): return AV({'ntclass'})
                    return v.but(orig={('class', c, attr)}, deps={('<class>', c + '.' + attr)}, path=None, cov=E, taint=t)
                if attr in ci.nested: return AV({'class'}, {attr})
                for x in self.repo.mro(ci):
                    cf = self.p.class_fields.get((x.name, attr))
                    if cf is not None: return mark(cf, ('class', x.name, attr), frozenset({('<class>', x.name + '.' + attr)})).but(taint=t)
            return UNK.but(deps=d)
        if o.kinds & {'obj'} and o.cls:
            r = None
            for c in o.cls:
                ms = self.p.methods(c, attr)
                if ms:
                    if ms[0].info.is_property():
                        for m in ms: r = join(r, self.call_fn(m, [o], {}, e, st))
                    else:
                        r = join(r, AV({'fn'}, o.cls, elem=o, fns={m.node for m in ms}, const='bound'))
                    if not self.p.fields.get((c, attr)): continue
                    if not ms[0].info.is_property() and r is not None: continue
                v = self.p.field(c, attr)
                ci = self.repo.cls(c)
                shared = ci is not None and not any((x.name, attr) in self.p.fields for x in self.repo.mro(ci) + self.p.subclasses(c)) and not ci.is_dataclass \
                    and (self.repo.find_const(ci, attr) is not None or any((x.name, attr) in self.p.class_fields for x in self.repo.mro(ci)))
                if shared: v = None
                if v is None:
                    k = self.repo.find_const(ci, attr) if ci else None
                    if k is None and shared: k = True
                    if k is not None:
                        cav = self.getattr_(AV({'class'}, {c}), attr, e, st)
                        r = join(r, cav)
                        continue
                    if ci is not None and attr in ci.nested: return AV({'class'}, {attr})
                    v = UNK
                vv = mark(v, ('attr', c, attr), d)
                step = c + '.' + attr
                path = o.path + (attr,) if o.path is not None else None
                if o.path is not None:
                    nd = frozenset({path}) | frozenset(x for x in d if x != o.path)
                    self.p.pathcls = getattr(self.p, 'pathcls', {})
                    self.p.pathcls.setdefault((self.f.node, path), set()).add(c)
                    cov = frozenset({path}) if o.cov >= {o.path} else E
                else:
                    nd, cov = d, E
                r = join(r, vv.but(deps=nd, path=path, cov=cov, taint=t))
            return r if r is not None else UNK.but(deps=d, taint=t)
        if attr in ('numerator', 'denominator') and o.kinds & {'frac', 'int', '?'}: return AV({'int'}, deps=d, taint=t)
        # unknown receiver: fields of that name in value classes
        cs = sorted({c for (c, a) in list(self.p.fields) + list(ty.ATTR) if a == attr and self.repo.cls(c)})
        if o.kinds & {'?'} and cs and attr not in CONT_METHODS and attr not in STR_METHODS and not self.p.by_name.get(attr):
            r = None
            path = o.path + (attr,) if o.path is not None else None
            for c in cs:
                v = self.p.field(c, attr)
                if v is not None: r = join(r, mark(v, ('attr', c, attr), d))
            if r is not None:
                return r.but(deps=frozenset({path}) | frozenset(x for x in d if x != o.path) if path else d, path=path, taint=t,
                             cov=frozenset({path}) if path and o.cov >= {o.path} else E)
        ms = self.p.by_name.get(attr)
        if o.kinds & {'?', 'iter'} and ms and attr not in CONT_METHODS and attr not in STR_METHODS:
            if all(m.info.is_property() for m in ms):
                r = None
                for m in ms: r = join(r, self.call_fn(m, [o], {}, e, st))
                return r
            return AV({'fn'}, elem=o, fns={m.node for m in ms if m.cls is not None}, const='bound')
        return AV({'?'}, deps=d | (frozenset({o.path + (attr,)}) if o.path else E), taint=t, elem=None, path=o.path + (attr,) if o.path else None,
                  cov=frozenset({o.path + (attr,)}) if o.path and o.cov >= {o.path} else E)

    # -- calls ------------------------------------------------------------------------------
    def args(self, e, st):
        pos, kw = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                self.consume(v, a, st)
                star = join(star, self.iter_elem(v)) if star is not None else self.iter_elem(v)
                pos.append(('*', self.iter_elem(v), a))
            else: pos.append(('', self.ev(a, st), a))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None: kw['**'] = v
            else: kw[k.arg] = v
        return pos, kw

    def e_Call(self, e, st):
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            return self.super_call(e, fn.attr, st)
        if isinstance(fn, ast.Attribute):
            o = self.ev(fn.value, st)
            return self.method_call(e, o, fn.attr, st)
        target = self.ev(fn, st)
        pos, kw = self.args(e, st)
        return self.apply(target, pos, kw, e, st)

    def plain(self, pos): return [v for s, v, _ in pos]

    def apply(self, target, pos, kw, e, st):
        args = self.plain(pos)
        d, t = E, E
        for v in args + list(kw.values()): d |= v.deps; t |= v.taint
        if target.fns:
            r = None
            for n in target.fns:
                if isinstance(n, ast.Lambda):
                    r = join(r, target.elem or UNK)
                    continue
                g = self.p.fns.get(n)
                if g is None: continue
                a = pos
                if target.const == 'bound' and not g.info.is_static():
                    a = [('', target.elem if not g.info.is_classm() else AV({'class'}, target.elem.cls), None)] + pos
                elif target.const == 'classm': a = [('', AV({'class'}, target.cls), None)] + pos
                elif g.info.name == '__new__': pass
                r = join(r, self.call_fn(g, a, kw, e, st, tagged=True))
            if r is not None: return r.but(taint=r.taint | target.taint, deps=r.deps | target.deps if target.const != 'bound' else r.deps)
        if 'class' in target.kinds and target.cls:
            r = None
            for c in target.cls: r = join(r, self.construct(c, pos, kw, e, st))
            return r
        if 'builtin' in target.kinds: return self.builtin(target.const, pos, kw, e, st)
        if 'ext' in target.kinds: return self.external(target.const, pos, kw, e, st)
        if 'ntclass' in target.kinds: return AV({'tuple'}, deps=d, taint=t, elem=None, cov=E)
        if 'fn' in target.kinds and target.elem is not None and target.const != 'bound':
            self.ev_event('call', e, name='<callable>', args=args, kw=kw, ctaint=st.ctaint)
            return target.elem.but(deps=d | target.deps | target.elem.deps, taint=t | target.taint, path=None)
        self.ev_event('call', e, name=ast.unparse(e.func) if isinstance(e, ast.Call) else '?', args=args, kw=kw, ctaint=st.ctaint)
        return UNK.but(deps=d | target.deps, taint=t | target.taint)

    def super_call(self, e, name, st):
        pos, kw = self.args(e, st)
        f = self.f
        cls = f.cls or (f.parent.cls if f.parent else None)
        if cls is None: return UNK
        m = self.repo.find_method(cls, name, after=cls)
        if m is not None:
            g = self.p.fns.get(m.node)
            selfn = f.pnames[0] if f.pnames else None
            sv = st.env.get(selfn) if selfn else None
            a = pos if name == '__new__' else [('', sv or UNK, None)] + pos
            return self.call_fn(g, a, kw, e, st, tagged=True)
        d, t = E, E
        for _, v, _ in pos: d |= v.deps; t |= v.taint
        for v in kw.values(): d |= v.deps
        if name == '__new__':
            nt = [b for x in self.repo.mro(cls) for b in x.base_names() if not isinstance(b, str)]
            if nt:
                # the fields of a named tuple keep what they are given
                obj = AV({'obj'}, {cls.name}, orig={('newobj', e.lineno, e.col_offset)})
                for i, (_, v, n) in enumerate(pos[1:]): self.ev_event('attr', e, obj=obj, attr='field %d' % i, val=v, ctaint=st.ctaint, delete=False, ctrl=st.ctrl, sub=i)
                for k, v in kw.items(): self.ev_event('attr', e, obj=obj, attr=k, val=v, ctaint=st.ctaint, delete=False, ctrl=st.ctrl, sub=k)
                return AV({'obj'}, {cls.name}, elem=self.p.cls_elem(cls.name), orig={('newobj', e.lineno, e.col_offset)}, deps=d)
            for _, v, n in pos[1:]: self.consume(v, e, st)
            return AV({'obj'}, {cls.name}, elem=self.p.cls_elem(cls.name), orig={('newobj', e.lineno, e.col_offset)}, deps=d)
        return UNK.but(deps=d, taint=t)

    def construct(self, c, pos, kw, e, st):
        ci = self.repo.cls(c)
        args = self.plain(pos)
        d, t = E, E
        for v in args + list(kw.values()): d |= v.deps; t |= v.taint
        self.ev_event('construct', e, cls=c, args=args, kw=kw, ctaint=st.ctaint)
        interned = False
        covs = E
        for v in args + list(kw.values()): covs |= v.cov
        if ci is not None:
            init = self.repo.find_method(ci, '__init__')
            new = self.repo.find_method(ci, '__new__')
            obj = AV({'obj'}, {c}, orig={self.fresh(e, st)})
            if init is not None: self.call_fn(self.p.fns[init.node], [('', obj, None)] + pos, kw, e, st, tagged=True)
            if new is not None:
                self.call_fn(self.p.fns[new.node], [('', AV({'class'}, {c}), None)] + pos, kw, e, st, tagged=True)
                s = self.p.fns[new.node].summary
                if s.ret is not None and any(o[0] in ('class', 'glob') for o in s.ret.orig): interned = True
            if init is None and new is None:
                # dataclass / named tuple / tuple subclass: fields keep references
                if ci.is_dataclass:
                    names = []
                    for x in reversed(self.repo.mro(ci)): names += [n for n in x.annots if n not in names]
                    vals = dict(zip(names, args)); vals.update({k: v for k, v in kw.items() if k in names})
                    for n, v in vals.items():
                        k = (c, n)
                        self.p.fields[k] = join(self.p.fields.get(k), strip(v)) if k in self.p.fields else strip(v)
                        self.escape(v, e, st, 2)
                elif any(b == 'tuple' for x in self.repo.mro(ci) for b in x.base_names() if isinstance(b, str)):
                    for s_, v, n in pos: self.consume(v, n or e, st)
        o = ('interned', c) if interned else self.fresh(e, st)
        return AV({'obj'}, {c}, elem=self.p.cls_elem(c), orig={o}, deps=d, taint=t, cov=E)

    def call_fn(self, g, pos, kw, e, st, tagged=False):
        """apply the summary of a repository function"""
        if not tagged: pos = [('', v, None) for v in pos]
        s = g.summary
        names = list(g.pnames)
        bindv = {}
        extra_star = None
        for i, (tag, v, n) in enumerate(pos):
            if tag == '*':
                for nm in names[i:]: bindv.setdefault(nm, v)
                break
            if i < len(names): bindv[names[i]] = v
        for k, v in kw.items():
            if k == '**':
                el = element(v)
                for nm in names + g.kwonly: bindv.setdefault(nm, AV({'?'}, deps=el.deps, taint=el.taint))
            elif k in names + g.kwonly: bindv[k] = v
        if self.p.pno < 99:
            for nm, v in bindv.items():
                if nm in ('self', 'cls'): continue
                k = AV(v.kinds, v.cls, strip(v.elem) if v.elem else None, tuple(strip(i) for i in v.items) if v.items is not None else None, fns=v.fns, src=v.src,
                       taint=v.taint)
                g.argk[nm] = join(g.argk.get(nm), depth_cut(k, 3)) if nm in g.argk else depth_cut(k, 3)
        args = [v for _, v, _ in pos]
        self.ev_event('rcall', e, target=g, bind=bindv, ctaint=st.ctaint, sub=g.qual)
        # consumption of one-shot iterables
        for nm in s.consumed:
            if nm in bindv: self.consume(bindv[nm], e, st, 'traversed by %s' % g.qual)
        for nm in s.captured:
            if nm in bindv:
                v = bindv[nm]
                if v.kinds & {'iter', 'iterable'} and nm not in s.consumed: self.consume(v, e, st, 'kept by %s' % g.qual)
                self.escape(v, e, st, 2)
                for o in v.orig:
                    if o[0] == 'param' and o[2] == 0: self.new.captured.setdefault(o[1], s.captured[nm])
        # mutation of arguments
        for (nm, dep), how in s.mut.items():
            if nm in bindv:
                v = bindv[nm]
                for _ in range(dep): v = element(v)
                if v.kinds & {'obj'} and not v.kinds & CONT: continue
                self.ev_event('mut', e, cont=v, how='passed to %s, which changes it in place (%s)' % (g.qual, how), val=None, key=None, store=False,
                              escaped=[o for o in v.orig if o in st.escaped], ctaint=st.ctaint, sub=nm, ctrl=st.ctrl, via=g)
                for o in v.orig:
                    if o[0] == 'param': self.new.mut.setdefault((o[1], o[2]), how)
        alld, allt = E, E
        if g.is_gen:
            y = s.yld
            el = subst(y, bindv, g) if y is not None else None
            r = self.gen(e, st, el, el.deps if el is not None else E, el.taint if el is not None else E)
        else:
            r = subst(s.ret, bindv, g) if s.ret is not None else None
            ann = getattr(g.node, 'returns', None)
            if r is None:
                r = self.p.of_ann(ann, g.cls) if ann is not None else UNK
                ds = E
                for v in bindv.values(): ds |= v.deps
                r = r.but(deps=ds)
            elif '?' in r.kinds and ann is not None:
                a = self.p.of_ann(ann, bindv.get('self') and None or g.cls)
                if '?' not in a.kinds: r = r.but(kinds=(r.kinds - {'?'}) | (a.kinds - {'iterable'} or {'?'}), cls=r.cls | a.cls, elem=join(r.elem, a.elem))
            if ann is not None and isinstance(ann, ast.Name) and ann.id == 'Self':
                sv = bindv.get(g.pnames[0]) if g.pnames else None
                if sv is not None and sv.cls: r = r.but(cls=sv.cls)
            fo = {('gen', e.lineno, e.col_offset) if o[0] == 'gen' else o for o in r.orig}
            r = r.but(orig={(('fresh', e.lineno, e.col_offset, 'ret') if o[0] in ('fresh', 'newobj') else o) for o in fo})
            for o in r.orig:
                if o[0] == 'gen' or o[0] == 'fresh':
                    st.consumed.pop(o, None); st.escaped.pop(o, None)
        if g.cached or g in self.p.wrapped:
            r = r.but(orig={('cached', g.qual)}, elem=r.elem.but(orig={('cached', g.qual)}) if r.elem is not None else None)
        return r

    def call_method(self, o, name, args, kw, e, st):
        r = None
        for c in o.cls:
            for m in self.p.methods(c, name):
                r = join(r, self.call_fn(m, [o] + args, kw, e, st))
        return r if r is not None else UNK.but(deps=o.deps)

    def method_call(self, e, o, attr, st):
        # logging
        if attr in LOGMETH and ('logger' in ast.unparse(e.func.value) or 'logging' in ast.unparse(e.func.value) or o.const in ('logging', 'logging.getLogger')):
            for a in e.args: self.ev(a.value if isinstance(a, ast.Starred) else a, st)
            for k in e.keywords: self.ev(k.value, st)
            return NONE
        if 'module' in o.kinds or 'ext' in o.kinds or 'class' in o.kinds or 'builtin' in o.kinds:
            if 'builtin' in o.kinds:
                pos, kw = self.args(e, st)
                d = E
                for v in self.plain(pos): d |= v.deps
                if o.const == 'object' and attr == '__setattr__' and len(pos) >= 3:
                    nm = pos[1][1].const
                    self.ev_event('attr', e, obj=pos[0][1], attr=nm.strip("'\"") if nm else '?', val=pos[2][1], ctaint=st.ctaint, delete=False, ctrl=st.ctrl)
                    return NONE
                if o.const == 'object' and attr == '__new__':
                    cl = pos[0][1].cls if pos else E
                    return AV({'obj'}, cl, orig={('newobj', e.lineno, e.col_offset)})
                if o.const in ('dict', 'list', 'set', 'tuple', 'frozenset') and attr in MUTATORS and pos:
                    self.mutate(pos[0][1], e, st, '%s.%s' % (o.const, attr), None)
                return UNK.but(deps=d)
            target = self.getattr_(o, attr, e.func, st)
            pos, kw = self.args(e, st)
            if 'class' in o.kinds and attr == '__new__' and not target.fns:
                return AV({'obj'}, o.cls, orig={('newobj', e.lineno, e.col_offset)})
            if 'class' in o.kinds and target.const == 'unbound' and target.fns:
                return self.apply(target.but(const=None), pos, kw, e, st)
            return self.apply(target, pos, kw, e, st)
        if o.kinds & {'obj'} and o.cls:
            known = any(self.p.methods(c, attr) for c in o.cls)
            if known or not (o.kinds & CONT):
                target = self.getattr_(o, attr, e.func, st)
                if attr == 'cache_info': target = UNK
                if target.fns or 'fn' in target.kinds:
                    if attr in ('ratio_func',):
                        pass
                    pos, kw = self.args(e, st)
                    return self.apply(target, pos, kw, e, st)
                if 'class' in target.kinds or 'ntclass' in target.kinds:
                    pos, kw = self.args(e, st)
                    return self.apply(target, pos, kw, e, st)
        return self.cont_method(e, o, attr, st)

    def cont_method(self, e, o, attr, st):
        pos, kw = self.args(e, st)
        args = self.plain(pos)
        d, t = o.deps, o.taint
        for v in args + list(kw.values()): d |= v.deps; t |= v.taint
        fv = e.func.value
        if attr in ('isEnabledFor', 'getEffectiveLevel', 'hasHandlers'): return AV({'?'}, taint={'logging level'})
        if attr in ('cache_info', 'cache_parameters'): return UNK.but(deps=d, taint=t | {'cache information'})
        if attr in MUTATORS and (o.kinds & (set(MUTATORS[attr].split())) or (o.kinds & {'?'} and not self.p.by_name.get(attr)) or (o.kinds & {'seq'})):
            val = args[-1] if args else None
            if attr in ('pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'discard', 'popleft', 'rotate'): val = None
            self.mutate(o, e, st, '.%s()' % attr, val, key=args[0] if attr == 'setdefault' and args else None, store=attr == 'setdefault')
            if attr in ('append', 'add', 'insert', 'appendleft'):
                if args: self.absorb(fv, args[-1], st)
                return NONE
            if attr in ('extend', 'update', 'extendleft') and args:
                for v in args: self.consume(v, e, st)
                self.absorb(fv, self.iter_elem(args[0]), st)
                return NONE
            if attr == 'setdefault':
                if len(args) > 1: self.absorb(fv, args[1], st)
                r = element(o)
                return join(r, args[1]) if len(args) > 1 else r
            if attr in ('pop', 'popitem', 'popleft'):
                r = self.iter_elem(o)
                return r.but(deps=r.deps | d, taint=r.taint | t, path=None)
            return NONE
        if o.kinds & {'dict'} or (o.kinds & {'?'} and attr in ('items', 'keys', 'values', 'get')):
            el = element(o)
            if attr == 'get':
                if args: self.ev_event('lookup', e, cont=o, key=args[0])
                r = el if len(args) < 2 else join(el, args[1])
                return join(r, NONE).but(deps=d | r.deps, taint=t | r.taint, path=None)
            if attr == 'items': return AV({'view'}, elem=AV({'tuple'}, items=(UNK.but(deps=o.deps), el), deps=o.deps), deps=d, taint=t)
            if attr == 'values': return AV({'view'}, elem=el, deps=d, taint=t)
            if attr == 'keys': return AV({'view'}, deps=d, taint=t)
        if attr == 'copy' and o.kinds & (CONT | {'?'}):
            el = element(o, raw=True)
            if el is not None: el = element(o)
            else: el = AV({'?'}, orig=frozenset(deeper(x) for x in o.orig if x[0] in ('param', 'attr', 'glob', 'cached', 'class'))) if any(x[0] in ('param', 'attr', 'glob', 'cached', 'class') for x in o.orig) else None
            return AV(o.kinds - {'none'}, elem=el, orig={self.fresh(e, st)}, deps=d, taint=t)
        if attr in ('union', 'intersection', 'difference', 'symmetric_difference') and o.kinds & {'set', '?'}:
            for v in args: self.consume(v, e, st)
            return AV({'set'}, elem=element(o, raw=True), orig={self.fresh(e, st)}, deps=d, taint=t)
        if attr in STR_METHODS:
            if attr == 'join' and args: self.consume(args[0], e, st)
            k = {'split': 'list', 'rsplit': 'list', 'splitlines': 'list', 'islower': 'bool', 'isupper': 'bool', 'startswith': 'bool', 'endswith': 'bool', 'find': 'int', 'isdigit': 'bool'}.get(attr, 'str')
            return AV({k}, elem=AV({'str'}) if k == 'list' else None, orig={self.fresh(e, st)} if k == 'list' else E, deps=d, taint=t)
        if attr in ('index', 'count', '__len__'): return AV({'int'}, deps=d, taint=t)
        if attr == 'limit_denominator': self.ev_event('round', e, what='limit_denominator', val=o)
        if attr in ('as_integer_ratio',): return AV({'tuple'}, items=(AV({'int'}), AV({'int'})), deps=d, taint=t)
        # unknown receiver: methods of that name
        ms = [m for m in self.p.by_name.get(attr, []) if m.cls is not None]
        if ms and o.kinds & {'?', 'none', 'iter', 'iterable'}:
            r = None
            for m in ms:
                sv = o if not m.info.is_static() else None
                a = ([('', o, None)] if sv is not None else []) + pos
                r = join(r, self.call_fn(m, a, kw, e, st, tagged=True))
            return r.but(deps=r.deps | o.deps)
        if o.path is not None or o.kinds & {'?'}: self.ev_event('call', e, name='.' + attr, args=args, kw=kw, ctaint=st.ctaint)
        return UNK.but(deps=d, taint=t)

    def builtin(self, n, pos, kw, e, st):
        args = self.plain(pos)
        d, t, cv, src = E, E, E, E
        for v in args + list(kw.values()): d |= v.deps; t |= v.taint; cv |= v.cov; src |= v.src
        a0 = args[0] if args else None
        R = lambda k, **x: AV({k}, deps=d, taint=t, **x)
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted'):
            k = 'set' if n == 'frozenset' else 'list' if n == 'sorted' else n
            el = None
            if a0 is not None:
                self.consume(a0, e, st)
                el = self.iter_elem(a0)
                if '?' in el.kinds and len(el.kinds) == 1 and not el.orig: el = el
                el = el.but(orig=el.orig)
            its = a0.items if a0 is not None and n in ('list', 'tuple') and a0.items is not None else None
            return AV({k}, elem=el, items=its, orig={self.fresh(e, st)} if k in CONT else E, deps=d, taint=t, cov=cv if n in ('list', 'tuple') else E)
        if n == 'dict':
            el = element(a0) if a0 is not None else None
            for v in kw.values(): el = join(el, v)
            return AV({'dict'}, elem=el, orig={self.fresh(e, st)}, deps=d, taint=t)
        if n in ITER_BUILTINS:
            el = None
            if n in ('map', 'filter'):
                for v in args[1:]: self.consume(v, e, st)
                if n == 'filter' and len(args) > 1: el = self.iter_elem(args[1])
                elif n == 'map' and args and args[0].fns:
                    el = self.apply(args[0], [('', self.iter_elem(v), None) for v in args[1:]], {}, e, st)
            else:
                for v in args: self.consume(v, e, st)
                if n == 'enumerate' and a0 is not None: el = AV({'tuple'}, items=(AV({'int'}, deps=a0.deps), self.iter_elem(a0)), deps=d)
                elif n == 'zip': el = AV({'tuple'}, items=tuple(self.iter_elem(v) for v in args) if not any(s == '*' for s, _, _ in pos) else None,
                                         elem=join_all([self.iter_elem(v) for v in args]) if any(s == '*' for s, _, _ in pos) else None, deps=d)
                elif a0 is not None: el = self.iter_elem(a0)
            if n == 'reversed' and a0 is not None and a0.kinds & {'iter', 'iterable'}: self.ev_event('index', e, val=a0)
            if n == 'iter' and a0 is not None and a0.kinds & {'iter', 'iterable'}: pass
            return self.gen(e, st, el, d, t)
        if n == 'range': return AV({'range'}, elem=AV({'int'}, deps=d), deps=d, taint=t)
        if n in ('sum', 'min', 'max', 'any', 'all'):
            if len(args) == 1 or n in ('sum', 'any', 'all'):
                if a0 is not None: self.consume(a0, e, st)
                el = self.iter_elem(a0) if a0 is not None else UNK
                if n in ('any', 'all'): return R('bool')
                if n == 'sum':
                    ks = el.kinds & {'int', 'frac', 'float', 'bool', '?'}
                    ks = {('int' if k == 'bool' else k) for k in ks} or {'?'}
                    return AV(ks, deps=d, taint=t, src=el.src)
                r = el
                for v in kw.values(): r = join(r, v) if v.kinds & {'int', 'frac', 'float', 'none'} else r
                return r.but(deps=d | r.deps, taint=t | r.taint, path=None, cov=E)
            r = join_all(args)
            return r.but(deps=d, taint=t, path=None, cov=E)
        if n == 'len':
            if a0 is not None and a0.kinds & {'iter', 'iterable'}: self.ev_event('index', e, val=a0)
            return R('int')
        if n == 'next':
            self_it = a0
            r = self.iter_elem(a0) if a0 is not None else UNK
            if a0 is not None:
                for o in a0.orig:
                    if o[0] == 'param': self.new.consumed.setdefault(o[1], e)
            for v in args[1:]: r = join(r, v)
            return r.but(deps=d | r.deps, taint=t, path=None, cov=E)
        if n == 'abs': return AV((a0.kinds & {'int', 'frac', 'float', '?'} or {'int'}) if a0 else {'?'}, deps=d, taint=t, src=src)
        if n in ('int', 'round'):
            self.ev_event('round', e, what=n, val=a0 if a0 is not None else UNK)
            return AV({'int'}, deps=d, taint=t, src=src)
        if n == 'float':
            if a0 is not None and a0.const is not None and a0.const.strip("'\"").lstrip('+-').lower() in ('inf', 'infinity'): return AV({'inf'})
            self.ev_event('float', e, val=a0)
            return AV({'float'}, deps=d, taint=t, src={('float', self.f.qual, e.lineno)})
        if n in ('bool',): return AV({'bool'}, deps=d, taint=t, cov=cv if a0 is not None and not a0.kinds & {'int', 'frac', 'str', 'list', 'tuple'} else E)
        if n in ('str', 'repr', 'format', 'chr'): return R('str')
        if n == 'hash':
            if a0 is not None and a0.kinds & {'str'}: t = t | {'hash of a string'}
            if a0 is not None and a0.kinds & {'obj'}:
                for c in a0.cls:
                    for m in self.p.methods(c, '__hash__'): d |= self.call_fn(m, [a0], {}, e, st).deps
            return AV({'int'}, deps=d, taint=t)
        if n == 'id': return AV({'int'}, deps=d, taint=t | {'object address'})
        if n == 'divmod':
            self.ev_event('floor', e, left=args[0], right=args[1] if len(args) > 1 else UNK, op='divmod')
            return AV({'tuple'}, items=(AV({'int'}, deps=d), AV({'int'}, deps=d)), deps=d)
        if n == 'isinstance' or n == 'hasattr' or n == 'callable' or n == 'issubclass': return R('bool')
        if n == 'getattr':
            nm = args[1].const if len(args) > 1 else None
            if nm and a0 is not None: return self.getattr_(a0, nm.strip("'\""), e, st)
            o = E
            if a0 is not None and a0.kinds & {'obj'}: o = frozenset(('attr', c, '*') for c in a0.cls)
            return UNK.but(deps=d, taint=t, orig=o)
        if n == 'setattr':
            nm = args[1].const if len(args) > 1 else None
            self.ev_event('attr', e, obj=a0, attr=nm.strip("'\"") if nm else '?', val=args[2] if len(args) > 2 else UNK, ctaint=st.ctaint, delete=False, ctrl=st.ctrl)
            return NONE
        if n == 'delattr':
            self.ev_event('attr', e, obj=a0, attr='?', val=NONE, ctaint=st.ctaint, delete=True, ctrl=st.ctrl)
            return NONE
        if n == 'type' and len(args) == 1:
            if a0.cls: return AV({'class'}, a0.cls, deps=frozenset(('<type>',)) and E)
            return UNK
        if n == 'print': return NONE
        if n == 'pow': return self.binop(ast.Pow(), args[0], args[1], e, st) if len(args) >= 2 else UNK
        if n == 'vars' and a0 is not None: return AV({'dict'}, orig=frozenset(('attr', c, '__dict__') for c in a0.cls), deps=d, taint=t)
        if n == 'open': return AV({'iter'}, elem=AV({'str'}), orig={('gen', e.lineno, e.col_offset)})
        if n == 'super': return UNK
        self.ev_event('call', e, name=n, args=args, kw=kw, ctaint=st.ctaint)
        return UNK.but(deps=d, taint=t)

    def external(self, n, pos, kw, e, st):
        args = self.plain(pos)
        d, t, src = E, E, E
        for v in args + list(kw.values()): d |= v.deps; t |= v.taint; src |= v.src
        t = t | amb(n)
        base = n.split('.')[-1]
        a0 = args[0] if args else None
        if base == 'Fraction':
            fl = any('float' in v.kinds for v in args)
            if fl: self.ev_event('fracfloat', e, args=args)
            return AV({'frac'}, deps=d, taint=t, src=src if fl else E, cov=a0.cov if len(args) == 1 else E)
        if n.startswith('itertools.'):
            el = None
            if base in ('product', 'zip_longest'):
                rep = kw.get('repeat')
                for s, v, a in pos: self.consume(v, e, st)
                if any(s == '*' for s, _, _ in pos):
                    el = AV({'tuple'}, elem=join_all([self.iter_elem(v) for v in args]), deps=d)
                elif rep is not None: el = AV({'tuple'}, elem=join_all([self.iter_elem(v) for v in args]), deps=d)
                else: el = AV({'tuple'}, items=tuple(self.iter_elem(v) for v in args), deps=d)
            elif base in ('combinations', 'permutations', 'combinations_with_replacement'):
                if a0 is not None: self.consume(a0, e, st)
                el = AV({'tuple'}, elem=self.iter_elem(a0) if a0 is not None else None, deps=d)
            elif base in ('count',): el = AV({'int'})
            elif base == 'tee':
                if a0 is not None: self.consume(a0, e, st)
                return UNK.but(deps=d)
            else:
                for v in args: self.consume(v, e, st)
                el = join_all([self.iter_elem(v) for v in args]) if args else None
                if base == 'from_iterable' and el is not None:
                    self.consume(el, e, st)
                    el = self.iter_elem(el)
            return self.gen(e, st, el, d, t)
        if base in ('defaultdict', 'OrderedDict', 'Counter'):
            if base == 'Counter' and a0 is not None: self.consume(a0, e, st)
            el = None
            if base == 'defaultdict' and a0 is not None and a0.const in ('list', 'dict', 'set'): el = AV({a0.const})
            if base == 'defaultdict' and a0 is not None and a0.const == 'int': el = AV({'int'})
            if base == 'Counter': el = AV({'int'})
            return AV({'dict'}, elem=el, orig={self.fresh(e, st)}, deps=d, taint=t)
        if base == 'deque':
            if a0 is not None: self.consume(a0, e, st)
            return AV({'list', 'deque'}, elem=self.iter_elem(a0) if a0 is not None else None, orig={self.fresh(e, st)}, deps=d, taint=t)
        if base == 'namedtuple': return AV({'ntclass'})
        if base in ('heappush', 'heappop', 'heapify', 'heapreplace', 'heappushpop'):
            if a0 is not None:
                self.mutate(a0, e, st, base, args[1] if len(args) > 1 else None)
                if len(args) > 1 and isinstance(e, ast.Call) and e.args: self.absorb(e.args[0], args[1], st)
                r = self.iter_elem(a0)
                return r if base != 'heappush' else NONE
        if base in ('copy', 'deepcopy') and n.startswith('copy'):
            if a0 is None: return UNK
            if base == 'copy' and a0.kinds & {'obj'}: return a0.but(orig={('newobj', e.lineno, e.col_offset)}, path=None)
            el = element(a0, raw=True)
            if base == 'copy' and el is not None: el = element(a0)
            elif el is not None: el = strip(el)
            return a0.but(orig={('newobj' if a0.kinds & {'obj'} else 'fresh', e.lineno, e.col_offset, 'copy')}, path=None, elem=el, items=None)
        if n == 'math.inf': return AV({'inf'})
        if n.startswith('math.'):
            if base == 'isqrt': self.ev_event('round', e, what='math.isqrt', val=a0 if a0 is not None else UNK)
            if base in ('gcd', 'lcm', 'comb', 'factorial', 'prod', 'isqrt', 'perm'):
                return AV({'int'} if base != 'prod' else (self.iter_elem(a0).kinds if a0 is not None else {'?'}), deps=d, taint=t, src=src)
            if base in ('floor', 'ceil', 'trunc'):
                self.ev_event('round', e, what='math.' + base, val=a0 if a0 is not None else UNK)
                return AV({'int'}, deps=d, taint=t, src=src)
            self.ev_event('float', e, val=a0)
            return AV({'float'}, deps=d, taint=t, src={('math', self.f.qual, e.lineno)})
        if base in ('lru_cache', 'cache'):
            return AV({'cachewrap'}, const='wrap', fns=E) if not (a0 is not None and a0.fns) else self.wrap(a0)
        if base == 'partial' and a0 is not None: return AV({'fn'}, elem=None, deps=d, taint=t)
        if base in ('asdict', 'astuple'): return AV({'dict'}, orig={self.fresh(e, st)}, deps=d, taint=t)
        if base == 'reduce' and len(args) > 1: self.consume(args[1], e, st)
        if base in ('Decimal', 'sqrt') or n.startswith('numpy') or n.startswith('decimal'):
            self.ev_event('float', e, val=a0)
            return AV({'float'}, deps=d, taint=t, src={('inexact ' + n, self.f.qual, e.lineno)})
        self.ev_event('call', e, name=n, args=args, kw=kw, ctaint=st.ctaint)
        return UNK.but(deps=d, taint=t)

    def wrap(self, a0):
        for n in a0.fns:
            g = self.p.fns.get(n)
            if g is not None: self.p.wrapped.add(g)
        return a0


def _wrap_call(self, e, st):
    pass


_old_apply = Analysis.apply


def _apply(self, target, pos, kw, e, st):
    if 'cachewrap' in target.kinds and pos:
        return self.wrap(pos[0][1])
    return _old_apply(self, target, pos, kw, e, st)


Analysis.apply = _apply


def amb(n):
    """ambient sources"""
    for p in ('random', 'secrets', 'time', 'datetime', 'uuid', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'numpy.random', 'sys.argv', 'sys.flags',
              'platform', 'socket', 'threading.get_ident', 'gc', 'tracemalloc', 'resource', 'psutil', 'os.cpu_count', 'multiprocessing.cpu_count'):
        if n == p or n.startswith(p + '.'): return frozenset({'ambient ' + n})
    return E


def join_all(vs):
    r = None
    for v in vs: r = join(r, v)
    return r if r is not None else UNK


def strip(a):
    if a is None: return None
    return AV(a.kinds, a.cls, strip(a.elem), tuple(strip(i) for i in a.items) if a.items is not None else None, fns=a.fns, src=a.src, const=None)


def mark(a, o, deps, n=0):
    """value read from a field: origins point at the field"""
    el = a.elem
    if n < 3:
        oo = (o[0], o[1], o[2] if o[2].endswith('[]') else o[2] + '[]')
        el = mark(el, oo, deps, n + 1) if el is not None else None
        its = tuple(mark(i, oo, deps, n + 1) for i in a.items) if a.items is not None else None
    else: its = a.items
    return AV(a.kinds, a.cls, el, its, {o}, deps, E, a.taint, None, a.fns, None, a.src)


def subst(a, bindv, g, n=0):
    """summary value in terms of the caller's arguments"""
    if a is None: return None
    orig, deps, cov, taint = set(), set(), set(), {x for x in a.taint if not x.startswith('arg: ')}
    kinds, cls, elem_extra = set(a.kinds), set(a.cls), None
    for o in a.orig:
        if o[0] == 'param':
            v = bindv.get(o[1])
            if v is None: continue
            for _ in range(o[2]): v = element(v)
            orig |= v.orig
            if o[2] == 0 and '?' in kinds and '?' not in v.kinds and len(a.orig) == 1: kinds, cls = set(v.kinds), set(v.cls)
        else: orig.add(o)
    path = None
    for p in a.deps:
        v = bindv.get(p[0])
        if v is None:
            if p[0].startswith('<') or p[0] in g.pnames: deps |= set() if p[0] in g.pnames else {p}
            continue
        if v.path is not None and len(p) > 1: deps.add(v.path + p[1:]); deps |= {x for x in v.deps if x != v.path}
        else: deps |= v.deps
        taint |= v.taint if len(p) == 1 else {x for x in v.taint}
    for p in a.cov:
        v = bindv.get(p[0])
        if v is None: continue
        if v.path is not None and v.path in v.cov: cov.add(v.path + p[1:])
        elif len(p) == 1: cov |= v.cov
    if a.path is not None:
        v = bindv.get(a.path[0])
        if v is not None and v.path is not None: path = v.path + a.path[1:]
    el = subst(a.elem, bindv, g, n + 1) if a.elem is not None and n < 4 else None
    its = tuple(subst(i, bindv, g, n + 1) for i in a.items) if a.items is not None and n < 4 else None
    return AV(kinds, cls, el, its, orig, deps, cov, taint, path, a.fns, None, a.src)


# parameters documented as iterables: one-shot iterators are accepted there, whatever the annotation says
ITERABLE = {
    ('Proto.__new__', 'cubes'), ('Path.__init__', 'links'), ('PathsGenerator.__init__', 'links'), ('FacetDivSubset.__init__', 'cubes'),
    ('Point.argmul_intersect', 'bms'), ('Subset.argmul_intersect', 'bms'), ('FacetDivSubset.argmul_intersect', 'bms'), ('BoundedItemsHeap._extend', 'items'),
    ('CubePathTree.grow', 'start'), ('CubePathTree.grow', 'finish'), ('CurveSATAdapter._make_junc_var', 'curves'), ('BaseMap.__new__', 'coords'),
    ('_PiecePosition.__init__', 'cnums'), ('_PiecePosition.__init__', 'cubes'), ('Estimator.estimate_dilation_sequence', 'curves'),
    ('Pattern.__new__', 'specs'), ('FuzzyCurve.__init__', 'patterns'), ('FuzzyCurve._changed', 'patterns'), ('FuzzyCurve.get_deep_spec', 'cnums'),
    ('FuzzyCurve._gen_junctions_from_base', 'base_juncs'), ('PathFuzzyCurve.init_from_paths', 'base_maps_group'), ('get_lcm', 'xs'),
    ('ratio_linf', 'dv'), ('ratio_l1', 'dv'), ('ratio_l2', 'dv'), ('ratio_l2_squared', 'dv'),
}


# parameter names with a fixed meaning throughout the library, for unannotated parameters
ty_names = {
    'link': lambda p: AV({'obj', 'none'}, {'Link'}), 'parent': lambda p: AV({'obj', 'none'}, {'Path'}), 'base_map': lambda p: AV({'obj'}, {'BaseMap'}),
    'bm': lambda p: AV({'obj'}, {'BaseMap'}), 'cube_map': lambda p: AV({'obj'}, {'BaseMap'}), 'dim': lambda p: AV({'int'}), 'div': lambda p: AV({'int'}),
    'mult': lambda p: AV({'int'}), 'next_link': lambda p: AV({'obj'}, {'Link'}), 'pnum': lambda p: AV({'int'}), 'cnum': lambda p: AV({'int'}),
}


_cache = {}


def program(repo):
    k = id(repo)
    if k not in _cache:
        _cache.clear()
        _cache[k] = Program(repo).run()
    return _cache[k]
