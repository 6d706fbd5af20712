"""
C29: the catalogue (peano/zoo.py) as a table.

The table entries are literal data: they are read off the syntax tree by constant folding
(assignments, list edits, comprehensions, helper functions of the module), the notation is read by
the conventions of C26, and the well-formedness rules are evaluated on the folded data.  Nothing of
the repository is executed.  An entry that is not foldable is not judged (reported as skipped).
"""
import ast, re
from fractions import Fraction
from .rules import rule, Finding

LETTERS = 'ijklmn'


class NoFold(Exception):
    pass


class Rec:
    """opaque or structured result of a constructor"""
    def __init__(self, kind, fields, node=None): self.kind, self.f, self.node, self.src = kind, fields, node, []
    def __repr__(self): return '%s(%s)' % (self.kind, self.f)


class Opaque:
    """value that does not matter for the rules"""
    def __init__(self, what): self.what = what


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception): pass
class Cnt(Exception): pass


STR_M = {'split', 'replace', 'join', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'format', 'swapcase', 'count', 'index', 'find', 'startswith', 'endswith', 'splitlines', 'isdigit', 'isupper', 'islower', 'zfill', 'partition'}
LIST_M = {'append', 'extend', 'insert', 'pop', 'reverse', 'copy', 'index', 'count', 'remove', 'clear', 'sort'}
DICT_M = {'items', 'keys', 'values', 'get', 'update', 'copy', 'setdefault', 'pop'}
SAFE = {'list': list, 'tuple': tuple, 'range': range, 'len': len, 'zip': zip, 'enumerate': enumerate, 'str': str, 'int': int, 'reversed': reversed,
        'sorted': sorted, 'dict': dict, 'set': set, 'min': min, 'max': max, 'sum': sum, 'map': None, 'abs': abs, 'bool': bool, 'isinstance': None, 'all': all, 'any': any}


class Folder:
    def __init__(self, repo, mod):
        self.repo, self.mod = repo, mod
        self.steps = 0
        self.called = []
        self.glob = None

    def globals(self):
        if self.glob is None:
            self.glob = {}
            for s in self.mod.tree.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    try: self.stmt(s, self.glob)
                    except NoFold: pass
        return self.glob

    def tick(self):
        self.steps += 1
        if self.steps > 200000: raise NoFold('too long')

    # ---- statements
    def block(self, ss, env):
        for s in ss: self.stmt(s, env)

    def stmt(self, s, env):
        self.tick()
        k = type(s).__name__
        if k == 'Expr': self.ev(s.value, env)
        elif k == 'Assign':
            v = self.ev(s.value, env)
            for t in s.targets: self.assign(t, v, env)
        elif k == 'AnnAssign':
            if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
        elif k == 'AugAssign':
            cur = self.ev(ast.copy_location(_load(s.target), s.target), env)
            v = self.ev(s.value, env)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.seq(v)); return
            self.assign(s.target, self.bin(s.op, cur, v), env)
        elif k == 'Return': raise Ret(self.ev(s.value, env) if s.value else None)
        elif k == 'If': self.block(s.body if self.ev(s.test, env) else s.orelse, env)
        elif k == 'For':
            done = True
            for x in self.seq(self.ev(s.iter, env)):
                self.assign(s.target, x, env)
                try: self.block(s.body, env)
                except Brk: done = False; break
                except Cnt: continue
            if done: self.block(s.orelse, env)
        elif k == 'Pass': pass
        elif k == 'Break': raise Brk
        elif k == 'Continue': raise Cnt
        elif k == 'FunctionDef': env[s.name] = ('fn', s, env)
        elif k == 'Assert': pass
        elif k in ('Import', 'ImportFrom'): pass
        else: raise NoFold('statement ' + k)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.seq(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]; r = len(t.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs) - r]] + vs[len(vs) - r:]
            if len(vs) != len(t.elts): raise NoFold('unpack')
            for x, y in zip(t.elts, vs): self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, env)
            if not isinstance(c, (list, dict)): raise NoFold('item assignment')
            try: c[self.index(t.slice, env)] = v
            except Exception: raise NoFold('item assignment')
        else: raise NoFold('target')

    def seq(self, v):
        if isinstance(v, (list, tuple, str, range, dict, set, frozenset)): return list(v)
        if hasattr(v, '__iter__') and not isinstance(v, (Rec, Opaque)): return list(v)
        raise NoFold('not a sequence')

    def index(self, e, env):
        if isinstance(e, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return slice(g(e.lower), g(e.upper), g(e.step))
        return self.ev(e, env)

    # ---- expressions
    def ev(self, e, env):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise NoFold('expression ' + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env): return e.value

    def e_Name(self, e, env):
        n = e.id
        while env is not None:
            if n in env: return env[n]
            env = env.get('#outer')
        g = self.globals()
        if n in g: return g[n]
        f = self.mod.functions.get(n)
        if f is not None: return ('fn', f.node, None)
        r = self.repo.resolve(self.mod, n)
        if r is not None:
            k, x = r
            if k == 'class': return ('class', x.name)
            if k == 'func' and x.module.name == self.mod.name: return ('fn', x.node, None)
            if k == 'ext' and str(x).split('.')[-1] == 'Fraction': return ('class', 'Fraction')
            return Opaque(n)
        if n in SAFE: return ('builtin', n)
        return Opaque(n)

    def e_Tuple(self, e, env): return tuple(self.elts(e, env))
    def e_List(self, e, env): return self.elts(e, env)
    def e_Set(self, e, env): return set(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += self.seq(self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, env))
            else: d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None or isinstance(x, (Rec, Opaque)): raise NoFold('f-string')
                out.append(str(x))
        return ''.join(out)

    def e_Subscript(self, e, env):
        c = self.ev(e.value, env)
        i = self.index(e.slice, env)
        if isinstance(c, Opaque): return c
        if not isinstance(c, (list, tuple, str, dict, range)): raise NoFold('subscript')
        try: return c[i]
        except Exception: raise NoFold('subscript')

    def e_Attribute(self, e, env):
        c = self.ev(e.value, env)
        if isinstance(c, Rec) and e.attr in c.f: return c.f[e.attr]
        if isinstance(c, tuple) and len(c) == 2 and c[0] == 'class': return ('cmeth', c[1], e.attr)
        if isinstance(c, (str, list, dict, tuple)) and not (isinstance(c, tuple) and c and c[0] in ('fn', 'builtin', 'cmeth')): return ('meth', c, e.attr)
        return Opaque(e.attr)

    def bin(self, op, a, b):
        for v in (a, b):
            if isinstance(v, (Opaque, Rec)): return Opaque('arith')
        try:
            k = type(op).__name__
            if k == 'Add': return a + b
            if k == 'Sub': return a - b
            if k == 'Mult': return a * b
            if k == 'Div':
                if isinstance(a, int) and isinstance(b, int): return Opaque('float')
                return a / b
            if k == 'Pow': return a ** b
            if k == 'Mod': return a % b
            if k == 'FloorDiv': return a // b
            if k == 'BitXor': return a ^ b
        except Exception: raise NoFold('arithmetic')
        raise NoFold('operator')

    def e_BinOp(self, e, env): return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(v, (Opaque, Rec)): return Opaque('arith')
        k = type(e.op).__name__
        try: return -v if k == 'USub' else (not v) if k == 'Not' else +v if k == 'UAdd' else ~v
        except Exception: raise NoFold('arithmetic')

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            if isinstance(l, (Opaque, Rec)) or isinstance(r, (Opaque, Rec)): raise NoFold('condition')
            k = type(op).__name__
            try: ok = {'Eq': lambda: l == r, 'NotEq': lambda: l != r, 'Lt': lambda: l < r, 'LtE': lambda: l <= r, 'Gt': lambda: l > r, 'GtE': lambda: l >= r,
                       'In': lambda: l in r, 'NotIn': lambda: l not in r, 'Is': lambda: l is r, 'IsNot': lambda: l is not r}[k]()
            except Exception: raise NoFold('condition')
            if not ok: return False
            l = r
        return True

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            if isinstance(v, (Opaque, Rec)): raise NoFold('condition')
            if bool(v) != isinstance(e.op, ast.And): return v
        return v

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        if isinstance(c, (Opaque, Rec)): raise NoFold('condition')
        return self.ev(e.body if c else e.orelse, env)

    def e_Lambda(self, e, env): return ('fn', e, env)

    def comp(self, e, env, emit):
        def go(i, env):
            if i == len(e.generators): emit(env); return
            g = e.generators[i]
            for x in self.seq(self.ev(g.iter, env)):
                env2 = {'#outer': env}
                self.assign(g.target, x, env2)
                if all(self.ev(c, env2) for c in g.ifs): go(i + 1, env2)
        go(0, {'#outer': env})

    def e_ListComp(self, e, env):
        out = []
        self.comp(e, env, lambda v: out.append(self.ev(e.elt, v)))
        return out
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env): return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        d = {}
        self.comp(e, env, lambda v: d.__setitem__(self.ev(e.key, v), self.ev(e.value, v)))
        return d

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.seq(self.ev(a.value, env))
            else: args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict): raise NoFold('**')
                kw.update(v)
            else: kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, e):
        if isinstance(f, Opaque): return Opaque(f.what)
        if not isinstance(f, tuple): raise NoFold('call')
        k = f[0]
        if k == 'builtin':
            n = f[1]
            if any(isinstance(a, Opaque) for a in args): return Opaque(n)
            if n == 'map':
                return [self.call(args[0], list(xs), {}, e) for xs in zip(*[self.seq(a) for a in args[1:]])]
            if n == 'isinstance':
                ts = args[1] if isinstance(args[1], tuple) and args[1] and isinstance(args[1][0], tuple) else (args[1],)
                m = {'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'int': int}
                if not all(isinstance(t, tuple) and t[0] == 'builtin' and t[1] in m for t in ts): raise NoFold('isinstance')
                return isinstance(args[0], tuple(m[t[1]] for t in ts))
            if n not in SAFE or SAFE[n] is None: raise NoFold(n)
            if n in ('sorted', 'min', 'max') and kw.get('key'): raise NoFold('key')
            try: r = SAFE[n](*args, **kw)
            except Exception: raise NoFold(n)
            return list(r) if n in ('zip', 'enumerate', 'reversed', 'sorted') else r
        if k == 'meth':
            c, n = f[1], f[2]
            ok = STR_M if isinstance(c, str) else LIST_M if isinstance(c, list) else DICT_M if isinstance(c, dict) else {'index', 'count'}
            if n not in ok or any(isinstance(a, Opaque) for a in args) and isinstance(c, str): raise NoFold(n)
            try: r = getattr(c, n)(*args, **kw)
            except Exception: raise NoFold(n)
            return list(r) if n in ('items', 'keys', 'values') else r
        if k == 'class':
            n = f[1]
            if n == 'Fraction':
                try: return Fraction(*args)
                except Exception: return Opaque('Fraction')
            ci = self.repo.cls(n)
            if n in ('CurveInfo', 'SpecValue') or (ci is not None and ci.module.name == self.mod.name):
                names = list(ci.annots) if ci is not None else []
                d = dict(zip(names, args)); d.update(kw)
                return Rec(n, d, e)
            return Rec(n, {'#args': args, '#kw': kw}, e)
        if k == 'cmeth':
            return Rec('%s.%s' % (f[1], f[2]), {'#args': args, '#kw': kw}, e)
        if k == 'fn':
            node, outer = f[1], f[2]
            self.depth = getattr(self, 'depth', 0) + 1
            if self.depth > 20: raise NoFold('recursion')
            try:
                a = node.args
                ps = [x.arg for x in a.posonlyargs + a.args]
                env = {'#outer': outer} if outer is not None else {}
                dn = a.defaults
                for p, d in zip(ps[len(ps) - len(dn):], dn): env[p] = self.ev(d, outer or {})
                for p, d in zip(a.kwonlyargs, a.kw_defaults):
                    if d is not None: env[p.arg] = self.ev(d, outer or {})
                if len(args) > len(ps):
                    if a.vararg is None: raise NoFold('arguments')
                    env[a.vararg.arg] = tuple(args[len(ps):])
                elif a.vararg is not None: env[a.vararg.arg] = ()
                for p, v in zip(ps, args): env[p] = v
                for q, v in kw.items(): env[q] = v
                if isinstance(node, ast.Lambda): return self.ev(node.body, env)
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                    return self.gen(node, env)
                try: self.block(node.body, env)
                except Ret as r:
                    if isinstance(r.v, Rec): r.v.src.append(node.name)
                    return r.v
                return None
            finally: self.depth -= 1
        raise NoFold('call')

    def gen(self, node, env):
        """generator function: the list of its values"""
        out = []
        env['#yield'] = out
        try: self.block(node.body, env)
        except Ret: pass
        return out

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value else None
        x = env
        while '#yield' not in x: x = x['#outer']
        x['#yield'].append(v)

    def e_YieldFrom(self, e, env):
        v = self.seq(self.ev(e.value, env))
        x = env
        while '#yield' not in x: x = x['#outer']
        x['#yield'].extend(v)


def _load(t):
    import copy
    n = copy.copy(t); n.ctx = ast.Load()
    return n


# ---------------------------------------------------------------------------- notation (C26)
class Bad(Exception):
    pass


def parse_chain(code):
    """-> dim, div, cubes"""
    groups = [g.strip('()') for g in re.findall(r'\w|\(\w+\)', code)]
    ls = {c.lower() for g in groups for c in g}
    dim = len(ls)
    if ls != set(LETTERS[:dim]): raise Bad('chain code %r does not use the first %d letters' % (code, dim))
    cube, cubes = [0] * dim, [(0,) * dim]
    for g in groups:
        d = [0] * dim
        for c in g: d[LETTERS.index(c.lower())] = 1 if c.islower() else -1
        cube = [a + b for a, b in zip(cube, d)]
        cubes.append(tuple(cube))
    lo = [min(c[j] for c in cubes) for j in range(dim)]
    cubes = [tuple(a - b for a, b in zip(c, lo)) for c in cubes]
    div = 1 + max(x for c in cubes for x in c)
    return dim, div, cubes


def parse_spec(text):
    text = text.strip()
    b = text.lstrip('0123456789')
    pn = text[:len(text) - len(b)]
    pn = int(pn) if pn else 0
    b = b.strip()
    rev = b.endswith('~')
    if rev: b = b[:-1]
    m = {}
    for k, l in enumerate(b):
        if l.lower() not in LETTERS: raise Bad('spec %r: unknown letter %r' % (text, l))
        i = LETTERS.index(l.lower())
        if i in m: raise Bad('spec %r: letter %r twice' % (text, l))
        m[i] = (k, l != l.lower())
    if set(m) != set(range(len(b))): raise Bad('spec %r is not a signed permutation of the first letters' % text)
    return pn, tuple(m[i] for i in range(len(m))), rev


def mul(a, b):
    """(coords, rev) composition"""
    return tuple((b[0][k][0], f != b[0][k][1]) for k, f in a[0]), a[1] != b[1]


def act(m, x): return tuple(1 - x[k] if f else x[k] for k, f in m[0])


def parse_gate(text):
    out = []
    for s in text.strip().split('->'):
        s = s.strip().strip('()')
        try: out.append(tuple(Fraction(c.strip()) for c in s.split(',')))
        except (ValueError, ZeroDivisionError): raise Bad('gate %r is not a point' % text)
    if len(out) != 2: raise Bad('gate %r has no entrance -> exit' % text)
    return tuple(out)


def gates_of(pats, dim, div):
    """exact entrance and exit of every pattern"""
    G = div ** dim
    res = []
    ident = (tuple((k, False) for k in range(dim)), False)
    for p in range(len(pats)):
        ends = []
        for last in (False, True):
            cur, pn, seen, digits = ident, p, {}, []
            while (cur, pn) not in seen:
                seen[cur, pn] = len(digits)
                cubes, specs = pats[pn]
                i = -1 if (last != cur[1]) else 0
                c = cubes[i]
                digits.append(tuple(div - 1 - c[k] if f else c[k] for k, f in cur[0]))
                sp = specs[i]
                cur, pn = mul(cur, (sp[1], sp[2])), sp[0]
            s = seen[cur, pn]
            per = len(digits) - s
            pt = []
            for j in range(dim):
                v = sum(Fraction(d[j], div ** (q + 1)) for q, d in enumerate(digits[:s]))
                w = sum(Fraction(d[j], div ** (q + 1)) for q, d in enumerate(digits[s:]))
                pt.append(v + w / div ** s * Fraction(div ** per, div ** per - 1))
            ends.append(tuple(pt))
        res.append(tuple(ends))
    return res


def judge(rec):
    """-> list of complaints about one catalogue entry (folded CurveInfo)"""
    cv = rec.f.get('curve')
    if not (isinstance(cv, Rec) and cv.kind == 'Curve.parse'): raise NoFold('curve is not given by Curve.parse')
    args = cv.f['#args'] + list(cv.f['#kw'].values())
    if len(args) != 1: raise NoFold('Curve.parse arguments')
    out, pats = [], []
    tab = args[0]
    if not isinstance(tab, (list, tuple)) or not tab: raise NoFold('patterns')
    grid = None
    for pn, row in enumerate(tab):
        if not (isinstance(row, (list, tuple)) and len(row) == 2 and isinstance(row[0], str)): raise NoFold('pattern')
        code, specs = row
        if isinstance(specs, str): specs = specs.split(',')
        if not (isinstance(specs, (list, tuple)) and all(isinstance(s, str) for s in specs)): raise NoFold('specs')
        try: dim, div, cubes = parse_chain(code)
        except Bad as ex: return ['pattern %d: %s' % (pn, ex)]
        if grid is None: grid = (dim, div)
        if (dim, div) != grid: out.append('pattern %d lives in another grid than pattern 0' % pn)
        if len(cubes) != div ** dim or len(set(cubes)) != len(cubes): out.append('pattern %d: the prototype %r does not visit every cube of the %d^%d grid exactly once' % (pn, code, div, dim))
        if len(specs) != div ** dim: out.append('pattern %d: %d specs for %d cubes' % (pn, len(specs), div ** dim))
        sp = []
        for s in specs:
            try: q = parse_spec(s)
            except Bad as ex: out.append('pattern %d: %s' % (pn, ex)); continue
            if len(q[1]) != dim: out.append('pattern %d: spec %r has dimension %d instead of %d' % (pn, s.strip(), len(q[1]), dim))
            if q[0] >= len(tab): out.append('pattern %d: spec %r names pattern %d of %d' % (pn, s.strip(), q[0], len(tab)))
            sp.append(q)
        pats.append((cubes, sp))
    if out: return out
    dim, div = grid
    gates = gates_of(pats, dim, div)
    for pn, (cubes, specs) in enumerate(pats):
        prev = None
        for i, (c, s) in enumerate(zip(cubes, specs)):
            a, b = gates[s[0]]
            if s[2]: a, b = b, a
            a, b = (tuple((x + y) / div for x, y in zip(c, act((s[1],), z))) for z in (a, b))
            if prev is not None and prev != a: out.append('pattern %d: fractions %d and %d do not share a point' % (pn, i - 1, i))
            prev = b
    rec_g = rec.f.get('gates')
    if isinstance(rec_g, (list, tuple)):
        want = []
        for g in rec_g:
            if not (isinstance(g, Rec) and g.kind == 'Link.parse_gates' and len(g.f['#args']) == 1 and isinstance(g.f['#args'][0], str)): want = None; break
            try: want.append(parse_gate(g.f['#args'][0]))
            except Bad as ex: out.append(str(ex)); want = None; break
        if want is not None:
            if len(want) != len(gates): out.append('%d recorded gates for %d patterns' % (len(want), len(gates)))
            for pn, (w, g) in enumerate(zip(want, gates)):
                if w != g: out.append('recorded gate of pattern %d differs from the gate of the curve' % pn)
    return out


def catalogue(mod):
    """functions of the module that produce one entry each"""
    out = []
    for n, f in mod.functions.items():
        nd = f.node
        if n.startswith('_') or n == 'get_all_curves': continue
        a = nd.args
        need = len(a.posonlyargs + a.args) - len(a.defaults) + sum(d is None for d in a.kw_defaults)
        if need: continue
        ann = ast.unparse(nd.returns) if nd.returns is not None else None
        if ann is not None and ann.split('.')[-1].strip('\'"') != 'CurveInfo': continue
        if ann is None and not any(isinstance(r, ast.Return) and isinstance(r.value, ast.Call) and ast.unparse(r.value.func).split('.')[-1] == 'CurveInfo' for r in ast.walk(nd)): continue
        out.append(f)
    return out


def zoo(repo):
    return repo.modules.get('peano.zoo')


@rule('C29', 'catalogue entries are well formed')
def c29_entries(repo):
    m = zoo(repo)
    out, n, skipped, checked = [], 0, [], []
    if m is None: return out, dict(obligations=0, rule='no catalogue module')
    done = set()
    jobs = [(f.node.name, f.node) for f in catalogue(m)]
    lst = m.functions.get('get_all_curves')
    recs = []
    for name, nd in jobs:
        try:
            r = Folder(repo, m).call(('fn', nd, None), [], {}, nd)
            if not isinstance(r, Rec) or r.kind != 'CurveInfo': raise NoFold('no CurveInfo')
            recs.append((name, nd, r))
        except (NoFold, RecursionError) as ex: skipped.append('%s (%s)' % (name, ex))
    if lst is not None:
        try:
            for r in Folder(repo, m).seq(Folder(repo, m).call(('fn', lst.node, None), [], {}, lst.node)):
                if isinstance(r, Rec) and r.kind == 'CurveInfo': recs.append((r.src[-1] if r.src else 'get_all_curves', m.functions[r.src[-1]].node if r.src and r.src[-1] in m.functions else lst.node, r))
        except (NoFold, RecursionError) as ex: skipped.append('get_all_curves (%s)' % ex)
    seen = set()
    for name, nd, r in recs:
        n += 1
        try: bad = judge(r)
        except (NoFold, RecursionError) as ex: skipped.append('%s (%s)' % (name, ex)); continue
        if name not in checked: checked.append(name)
        for b in bad:
            if (name, b) in seen: continue
            seen.add((name, b))
            node = r.node if r.node is not None else nd
            out.append(Finding('%s:%d %s' % (m.relpath, node.lineno, name), ast.unparse(node)[:200], 'catalogue entry %s: %s' % (name, b)))
    return out, dict(obligations=n, entries=checked, skipped=skipped, failed=len(out),
                     rule='constant folding of every catalogue entry; one grid, every cube once, as many specs as cubes, signed permutations, existing patterns, common end points of consecutive fractions, recorded gates')


@rule('C29', 'every catalogue entry is in the list of all curves')
def c29_list(repo):
    m = zoo(repo)
    out = []
    if m is None: return out, dict(obligations=0, rule='no catalogue module')
    lst = m.functions.get('get_all_curves')
    if lst is None: return out, dict(obligations=0, rule='no list function')
    entries = catalogue(m)
    listed, how = None, None
    try:
        F = Folder(repo, m)
        rs = [r for r in F.seq(F.call(('fn', lst.node, None), [], {}, lst.node))]
        if not all(isinstance(r, Rec) for r in rs): raise NoFold('entries')
        listed = {x for r in rs for x in r.src}
        how = 'folded list'
        anon = False
    except (NoFold, RecursionError):
        # names mentioned by the functions reachable from the list function
        how, listed, todo = 'names reachable from get_all_curves', set(), [lst.node]
        anon = False
        consts = {t.id: s.value for s in m.tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        while todo:
            for x in ast.walk(todo.pop()):
                if isinstance(x, ast.Name) and x.id not in listed:
                    listed.add(x.id)
                    if x.id in m.functions: todo.append(m.functions[x.id].node)
                    if x.id in consts: todo.append(consts[x.id])
                    if x.id in ('globals', 'vars', 'getattr', 'dir', 'locals'): anon = True
        # registering decorators
        if any(f.decorators for f in entries): anon = True
    if not anon:
        for f in entries:
            nd = f.node
            if nd.name in listed: continue
            out.append(Finding('%s:%d %s' % (m.relpath, nd.lineno, nd.name), 'def %s' % nd.name, 'the entry %s is not part of get_all_curves()' % nd.name))
    return out, dict(obligations=len(entries), failed=len(out), how=how, rule='every public function returning a CurveInfo without required arguments contributes to get_all_curves')
