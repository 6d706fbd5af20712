"""
Resolved view of the repository's source: modules, classes (with MRO over repo
classes), functions, imports, annotations.  Everything is read with `ast`; no
repository code is imported or run.
"""
from __future__ import annotations
import ast
import os


class AnalysisBroken(Exception):
    """the analysis cannot be carried out at all (missing anchor, unparsable file)"""


class FuncInfo:
    __slots__ = ('module', 'cls', 'node', 'name', 'decorators', 'outer')

    def __init__(self, module, cls, node, outer=None):
        self.module, self.cls, self.node = module, cls, node
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.outer = outer

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self):
        return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qual)

    def is_static(self): return 'staticmethod' in self.decorators
    def is_classm(self): return 'classmethod' in self.decorators
    def is_property(self): return any(d in ('property', 'cached_property', 'functools.cached_property') for d in self.decorators)

    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


def own_nodes(fn):
    """nodes of a function body without nested function / class bodies"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name = module, node, node.name
        self.outer = outer
        self.methods, self.consts, self.annots, self.types = {}, {}, {}, {}
        self.nested = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = FuncInfo(module, self, st)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots[st.target.id] = st.annotation
                if st.value is not None:
                    self.consts[st.target.id] = st.value
            elif isinstance(st, ast.TypeAlias):
                self.types[st.name.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.nested[st.name] = ClassInfo(module, st, self)
        self.is_dataclass = any(d.split('(')[0].split('.')[-1] == 'dataclass' for d in self.decorators)
        self.dc_frozen = any('frozen=True' in d for d in self.decorators)
        self.base_exprs = node.bases

    def base_names(self):
        out = []
        for b in self.base_exprs:
            if isinstance(b, ast.Subscript): b = b.value
            if isinstance(b, ast.Name): out.append(b.id)
            elif isinstance(b, ast.Attribute): out.append(b.attr)
            elif isinstance(b, ast.Call) and ast.unparse(b.func).split('.')[-1] == 'namedtuple':
                out.append(b)
        return out


class ModuleInfo:
    def __init__(self, repo, relpath):
        self.repo, self.relpath = repo, relpath
        path = os.path.join(repo.root, relpath)
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                self.tree = ast.parse(self.text, relpath)
            except SyntaxError as e:
                raise AnalysisBroken('%s does not parse: %s' % (relpath, e))
        self.name = relpath[:-3].replace('/', '.')
        if self.name.endswith('.__init__'): self.name = self.name[:-9]
        self.functions, self.classes, self.consts, self.imports, self.types = {}, {}, {}, {}, {}
        self.toplevel = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.functions[st.name] = FuncInfo(self, None, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
            elif isinstance(st, ast.TypeAlias):
                self.types[st.name.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0], st)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    pkg = self.name.split('.')
                    if not self.relpath.endswith('__init__.py'): pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - (st.level - 1)]
                    mod = '.'.join(pkg + ([mod] if mod else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = ('from', (mod, a.name), st)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(getattr(st, 'orelse', []))
            self.toplevel.append(st)


class Repo:
    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}
        files = []
        for base, dirs, fs in os.walk(root):
            dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('tests', '__pycache__', 'build', 'dist') and not d.endswith('.egg-info'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    files.append(os.path.relpath(os.path.join(base, f), root))
        for rel in files:
            m = ModuleInfo(self, rel)
            self.modules[m.name] = m
        self.classes = {}
        for m in self.modules.values():
            if m.name.startswith('peano'):
                for c in m.classes.values():
                    self.classes.setdefault(c.name, c)
        self._mro = {}

    def lib(self):
        return [m for n, m in sorted(self.modules.items()) if n.startswith('peano')]

    def cls(self, name):
        return self.classes.get(name)

    def mro(self, cls):
        """linearised repo classes (C3 is not needed: the repository uses simple hierarchies)"""
        r = self._mro.get(cls.name)
        if r is None:
            r = [cls]
            for b in cls.base_names():
                if isinstance(b, str):
                    bc = self.resolve_class(cls.module, b)
                    if bc is not None:
                        for x in self.mro(bc):
                            if x not in r: r.append(x)
            self._mro[cls.name] = r
        return r

    def resolve_class(self, module, name):
        if name in module.classes: return module.classes[name]
        imp = module.imports.get(name)
        if imp and imp[0] == 'from':
            m = self.modules.get(imp[1][0])
            if m is not None:
                if imp[1][1] in m.classes: return m.classes[imp[1][1]]
                return self.resolve_class(m, imp[1][1]) if m is not module else None
        return None

    def resolve(self, module, name):
        """('func'|'class'|'const'|'module'|'ext', info)"""
        seen = set()
        while True:
            if (module.name, name) in seen: return None
            seen.add((module.name, name))
            if name in module.functions: return 'func', module.functions[name]
            if name in module.classes: return 'class', module.classes[name]
            if name in module.consts: return 'const', (module, module.consts[name])
            imp = module.imports.get(name)
            if imp is None: return None
            if imp[0] == 'module':
                if imp[1] in self.modules: return 'module', self.modules[imp[1]]
                return 'ext', imp[1]
            mod, nm = imp[1]
            if mod + '.' + nm in self.modules: return 'module', self.modules[mod + '.' + nm]
            if mod in self.modules:
                module, name = self.modules[mod], nm
                continue
            return 'ext', mod + '.' + nm

    def find_method(self, cls, name, after=None):
        """method looked up through the MRO; after: start behind that class (super())"""
        m = self.mro(cls)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods: return c.methods[name]
        return None

    def find_const(self, cls, name):
        for c in self.mro(cls):
            if name in c.consts: return c, c.consts[name]
        return None

    def func(self, qual):
        """'Class.method' or 'module:function' or 'function'"""
        if ':' in qual:
            mod, fn = qual.split(':')
            m = self.modules.get(mod)
            if m is None: return None
            if fn.startswith('<'):
                from . import virtual
                return virtual.get(self, qual)
            if '.' in fn:
                c, f = fn.split('.')
                c = m.classes.get(c)
                return c.methods.get(f) if c else None
            return m.functions.get(fn)
        if '.' in qual:
            c, f = qual.rsplit('.', 1)
            c = self.classes.get(c)
            if c is None: return None
            return self.find_method(c, f)
        for m in self.lib():
            if qual in m.functions: return m.functions[qual]
        return None

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                for n in c.nested.values():
                    yield from n.methods.values()
