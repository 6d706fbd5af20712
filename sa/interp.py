"""
Value-graph construction (gated SSA with loop summaries) over the syntax tree.

A function body is abstracted into canonical terms (sa.terms): the value it
returns, the stream it yields, the final contents of what it mutates.  There is
no path enumeration: branches are joined with `ite`, loops are summarised by
solving their recurrences (or kept as a canonical fixpoint term `mu`), calls are
either inlined or kept as uninterpreted operations, as the obligation demands.
"""
from __future__ import annotations
import ast
from fractions import Fraction
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, num, const, mk, lift
from . import types as ty
from .loader import FuncInfo, ClassInfo, own_nodes

t.CLS_ELEM.update(ty.ELEM)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values that are not terms
class Ref:
    """mutable object created or owned by the analysed code; contents live in the state's store"""
    __slots__ = ('id',)
    def __init__(self, i): self.id = i
    def __repr__(self): return 'Ref%d' % self.id


class FuncV:
    def __init__(self, fi, frame=None, self_v=None, cls=None):
        self.fi, self.frame, self.self_v, self.cls = fi, frame, self_v, cls


class ClassV:
    def __init__(self, ci): self.ci = ci


class ExtV:
    def __init__(self, name): self.name = name


class ModV:
    def __init__(self, mi): self.mi = mi


class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class BoundB:
    """builtin method bound to a receiver (lvalue path kept for in-place operations)"""
    def __init__(self, recv, name, lv): self.recv, self.name, self.lv = recv, name, lv


class StarV:
    def __init__(self, v): self.v = v


class PartialV:
    def __init__(self, fn, args, kw): self.fn, self.args, self.kw = fn, args, kw


SHAPES: dict = {}


class LV(tuple):
    sk = None


class State:
    __slots__ = ('frames', 'store', 'pc', 'dead', 'out', 'esc')

    def __init__(self):
        self.frames, self.store, self.pc, self.dead = {}, {}, TRUE, False
        self.out = {}       # frame id -> yielded stream
        self.esc = frozenset()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.store = dict(self.store)
        s.pc, s.dead = self.pc, self.dead
        s.out = dict(self.out)
        s.esc = self.esc
        return s


class Obj:
    """store entry of an object: base term (opaque part) + overriding fields"""
    __slots__ = ('cls', 'base', 'fields', 'exact', 'seqv')

    def __init__(self, cls, base, fields=(), exact=False, seqv=None):
        self.cls, self.base, self.fields, self.exact, self.seqv = cls, base, dict(fields), exact, seqv

    def with_(self, **kw):
        o = Obj(self.cls, self.base, self.fields, self.exact, self.seqv)
        for k, v in kw.items(): setattr(o, k, v)
        return o


class Ctx:
    """exit lists of the function / loop being executed"""
    __slots__ = ('rets', 'brks', 'conts', 'frame', 'fi')
    def __init__(self, frame, fi): self.rets, self.brks, self.conts, self.frame, self.fi = [], [], [], frame, fi


MAXDEPTH = 14
CUR = [None]


def unk(tag):
    f = t.fresh('unk')
    return mk('unk', str(tag), f.args[0])


def has_op(x, op, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(x, T): return isinstance(x, tuple) and any(has_op(y, op, seen) for y in x)
    if x.op == op: return True
    if id(x) in seen: return False
    seen.add(id(x))
    return any(has_op(y, op, seen) for y in x.args)


def has_unk(x):
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple): st.extend(y); continue
        if not isinstance(y, T) or y in seen: continue
        seen.add(y)
        if y.op == 'unk': return y.args[0]
        st.extend(y.args)
    return None


class Interp:
    def __init__(self, repo, opaque=(), overrides=None, exact_self=True, opaque_names=(), inline_over=()):
        self.comp_loops = {}
        self.repo = repo
        self.opaque = set(opaque)           # qualified names kept uninterpreted
        self.overrides = overrides or {}    # qualified name -> FuncInfo (specification body)
        self.next_id = 0
        self.depth = 0
        self.stack = []
        self.used_opaque = set()
        self.inlined = set()
        self.mut_cache = {}
        self.notes = []
        self.claims = []
        self.kwkeys = ()
        self.direct, self.enter, self.raised, self.propframes = None, False, [], set()
        self.pcs, self.dropped = [], []   # raises inside helpers: the conditions under which they happen
        self.trial = 0
        self.quick = False
        self.demoted = {}
        self.in_try = 0
        self.unroll = 1
        self._memo = {}
        self._lvs = {}
        CUR[0] = self

    # -------------------------------------------------------------- memo tables (validated by C06/C07)
    def memo_attrs(self, ci):
        r = self._memo.get(ci.name)
        if r is None:
            r = set()
            for c in self.repo.mro(ci):
                if c.name in ty.MUTABLE: continue
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                        for x in tg:
                            sub = isinstance(x, ast.Subscript)
                            y = x.value if sub else x
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self' \
                                    and m.name not in ('__init__', '__new__'):
                                r.add(y.attr)
            self._memo[ci.name] = r
        return r

    def is_memo(self, x):
        if not isinstance(x, T): return False
        if x.op == 'classvar': return True
        if x.op == 'attr':
            c = self.cls_of_t(x.args[0])
            return c is not None and x.args[1] in self.memo_attrs(c)
        return False

    def arg_lv(self, v):
        return getattr(self, '_lvs', {}).get(id(v))

    # -------------------------------------------------------------- store helpers
    def new_ref(self, st, content):
        self.next_id += 1
        r = Ref(self.next_id)
        st.store[r.id] = content
        return r

    def kind(self, st, v):
        if isinstance(v, Ref):
            c = st.store[v.id]
            return 'obj' if isinstance(c, Obj) else c[0]
        return None

    def term(self, st, v):
        """immutable term of a value"""
        if isinstance(v, T): return v if type(v) is T else v.real()
        if isinstance(v, Ref):
            c = st.store[v.id]
            if isinstance(c, Obj): return self.obj_term(st, c)
            k, s = c
            if k == 'list': return s
            if k == 'set': return t.setof(s)
            if k == 'dict': return self.mkdict(s)
            if k == 'kw': return self.mkdict(t.lit([mk('kv', const(n), self.term(st, x)) for n, x in sorted(s.items())]))
            raise Unsupported('ref kind ' + k)
        if isinstance(v, FuncV): return self.lam(st, v)
        if isinstance(v, ClassV): return mk('class', v.ci.name)
        if isinstance(v, ExtV): return mk('ext', v.name)
        if isinstance(v, (tuple, list)):
            return t.lit([self.term(st, x) for x in v])
        if isinstance(v, BoundB):
            return mk('bound', self.term(st, v.recv), v.name)
        if v is None: return NONE
        raise Unsupported('value %r' % (v,))

    def mkdict(self, s):
        # a dict that only wraps an opaque one is that dict
        if s.op == 'cat' and len(s.args) == 1 and s.args[0].op == 'elem' and s.args[0].args[0] is TRUE \
                and s.args[0].args[1].op == 'dbase':
            return s.args[0].args[1].args[0]
        return t.dictof(s)

    def obj_term(self, st, o):
        if o.base is not None and not o.fields:
            return o.base
        fs = tuple((k, self.term(st, v)) for k, v in sorted(o.fields.items()))
        if o.base is not None:
            # attributes rewritten with their own value disappear
            fs = tuple((k, v) for k, v in fs if not (v.op == 'attr' and v.args[0] is o.base and v.args[1] == k))
            if not fs: return o.base
            return mk('with', o.base, fs, ty=('cls', o.cls.name))
        return self.mknew(o.cls, fs, o.seqv)

    def mknew(self, ci, fs, seqv=None):
        if seqv is not None: fs = (('__seq__', seqv),) + tuple(f for f in fs if f[0] != '__seq__')
        fs = tuple(sorted(fs))
        # eta: rebuilding a value from its own parts
        prim = PRIMARY.get(ci.name)
        if prim:
            d = dict(fs)
            if all(p in d for p in prim):
                b = None
                for p in prim:
                    v = d[p]
                    if v.op == 'attr' and v.args[1] == p and v.args[0].ty == ('cls', ci.name) and (b is None or b is v.args[0]): b = v.args[0]
                    else: b = False; break
                if b: return b
        r = mk('new', ci.name, fs, ty=('cls', ci.name))
        return r

    def lam(self, st, f):
        """a closure as a term"""
        fi = f.fi
        ps = [p for p in fi.params()]
        if f.self_v is not None: ps = ps[1:]
        fr = [t.fresh('p', self.param_ty(fi, p)) for p in ps]
        s2 = st.copy()
        self.trial += 1
        try:
            r = self.call_func(s2, f, list(fr), {}, force_inline=True)
            body = self.term(s2, r)
        finally:
            self.trial -= 1
        return t.close('lam', {x: i for i, x in enumerate(fr)}, num(len(fr)), body)

    def param_ty(self, fi, name):
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name: return ty.of_ann(x.annotation, self.repo, fi.cls)
        return None

    # -------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """state: a if c else b"""
        if c is TRUE: return a
        if c is FALSE: return b
        r = State()
        r.pc = t.or_(a.pc, b.pc)
        r.esc = a.esc | b.esc
        r.store = {}
        for k in set(a.store) | set(b.store):
            x, y = a.store.get(k), b.store.get(k)
            if x is None: r.store[k] = y
            elif y is None: r.store[k] = x
            elif x is y: r.store[k] = x
            else: r.store[k] = self.merge_content(c, a, x, b, y)
        for fid in set(a.frames) | set(b.frames):
            if fid not in a.frames: r.frames[fid] = b.frames[fid]; continue
            if fid not in b.frames: r.frames[fid] = a.frames[fid]; continue
            fa, fb = a.frames[fid], b.frames[fid]
            d = {}
            for n in set(fa) | set(fb):
                if n not in fa: d[n] = fb[n]
                elif n not in fb: d[n] = fa[n]
                else: d[n] = self.merge_val(c, a, fa[n], b, fb[n], r)
            r.frames[fid] = d
        for fid in set(a.out) | set(b.out):
            x, y = a.out.get(fid), b.out.get(fid)
            r.out[fid] = x if y is None else y if x is None else self.merge_seq(c, x, y)
        return r

    def merge_seq(self, c, x, y):
        if x is y: return x
        return t.cat_ite(c, x, y)

    def merge_content(self, c, a, x, b, y):
        if isinstance(x, Obj) and isinstance(y, Obj):
            fields = {}
            base = x.base if x.base is y.base else (t.ite(c, x.base, y.base) if x.base is not None and y.base is not None else None)
            if (x.base is None) != (y.base is None): raise Unsupported('merge of different objects')
            for k in set(x.fields) | set(y.fields):
                u = x.fields.get(k); v = y.fields.get(k)
                if u is None and x.base is None: fields[k] = v; continue
                if v is None and y.base is None: fields[k] = u; continue
                if u is None: u = self.attr_of_term(x.base, k, x.cls)
                if v is None: v = self.attr_of_term(y.base, k, y.cls)
                fields[k] = self.merge_val(c, a, u, b, v, None)
            seqv = x.seqv if x.seqv is y.seqv else t.ite(c, x.seqv, y.seqv)
            return Obj(x.cls, base, fields, x.exact and y.exact, seqv)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
            if x[0] == 'kw':
                if x[1] == y[1]: return x
                d = {}
                for k in set(x[1]) | set(y[1]):
                    if k in x[1] and k in y[1]: d[k] = self.merge_val(c, a, x[1][k], b, y[1][k], None)
                    else: raise Unsupported('kwargs differ between branches')
                return ('kw', d)
            return (x[0], self.merge_seq(c, x[1], y[1]))
        raise Unsupported('merge of different containers')

    def merge_val(self, c, a, u, b, v, r):
        if u is v: return u
        if isinstance(u, T) and isinstance(v, T): return t.ite(c, u, v)
        if isinstance(u, Ref) and isinstance(v, Ref):
            if u.id == v.id: return u
            if r is not None:
                ku, kv = self.kind(a, u), self.kind(b, v)
                if ku == kv:
                    # two different containers: from here on one container with joined contents
                    content = self.merge_content(c, a, a.store[u.id], b, b.store[v.id])
                    return self.new_ref(r, content)
        if isinstance(u, FuncV) and isinstance(v, FuncV) and u.fi is v.fi and u.frame == v.frame: return u
        if isinstance(u, (ClassV, ExtV, ModV)) and type(u) is type(v):
            if getattr(u, 'ci', None) is getattr(v, 'ci', None) and getattr(u, 'name', None) == getattr(v, 'name', None): return u
        return t.ite(c, self.term(a, u), self.term(b, v))

    # -------------------------------------------------------------- running a function
    def analyse(self, fi, self_cls=None, arg_types=None, arg_terms=None):
        """summary of a function: dict of named outputs (terms)"""
        st = State()
        ctx_args = []
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args, kw = [], {}
        owner = self_cls or fi.cls
        refs = {}
        pos = list(names)
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            n = x.arg
            if i == 0 and fi.cls is not None and not fi.is_static() and n in ('self', 'cls'):
                if fi.is_classm() or n == 'cls':
                    v = ClassV(owner)
                else:
                    v = self.new_ref(st, Obj(owner, t.var('self', ('cls', owner.name)), exact=False))
                    refs['self'] = v
            else:
                key = 'arg%d' % (i,) if False else n
                aty = (arg_types or {}).get(n) or ty.of_ann(x.annotation, self.repo, owner)
                tm = (arg_terms or {}).get(n)
                if tm is None: tm = t.var(key, aty)
                v = self.wrap_arg(st, tm, aty)
                if isinstance(v, Ref): refs[n] = v
            kw[n] = v
        if a.vararg:
            kw['*'] = t.var(a.vararg.arg, ('seq', None))
        frame = self.new_frame(st)
        env = st.frames[frame]
        for n, v in kw.items():
            if n != '*': env[n] = v
        if a.vararg: env[a.vararg.arg] = t.var(a.vararg.arg, ('seq', None))
        if a.kwarg: env[a.kwarg.arg] = t.var(a.kwarg.arg, ('dict', 'str', None))
        if a.kwarg and self.kwkeys: env[a.kwarg.arg] = self.new_ref(st, ('kw', {k: t.var(k, 'bool' if k == 'std' else 'int') for k in self.kwkeys if k not in kw}))
        self.propframes.add(frame)
        ret, fin = self.run_body(st, fi, frame, owner)
        res = {}
        if fi.is_generator():
            res['yield'] = self.term(fin, ret)
        else:
            res['return'] = self.term(fin, ret)
        for n, r in refs.items():
            c = fin.store[r.id]
            if isinstance(c, Obj):
                for k, v in c.fields.items():
                    if c.cls.name not in ty.MUTABLE and k in self.memo_attrs(c.cls) and fi.name not in ('__init__', '__new__'): continue
                    tv = self.term(fin, v)
                    if tv.op == 'attr' and tv.args[1] == k and tv.args[0] is c.base: continue
                    res['%s.%s' % (n, k)] = tv
                if c.base is not t.var(n, c.base.ty) and c.base.op != 'var':
                    res['%s' % n] = c.base
            elif c[0] in ('list', 'set', 'dict'):
                tv = self.term(fin, r)
                if tv is not t.var(n):
                    res['%s[]' % n] = tv
        return res

    def wrap_arg(self, st, tm, aty):
        if isinstance(aty, tuple) and aty[0] == 'opt': inner = aty[1]
        else: inner = aty
        if isinstance(inner, tuple) and inner[0] == 'cls' and inner[1] in ty.MUTABLE and not (isinstance(aty, tuple) and aty[0] == 'opt'):
            ci = self.repo.cls(inner[1])
            if ci: return self.new_ref(st, Obj(ci, tm))
        return tm

    def new_frame(self, st):
        self.next_id += 1
        st.frames[self.next_id] = {}
        return self.next_id

    def run_body(self, st, fi, frame, owner=None):
        """-> (value, final state).  frame env must be set up."""
        ctx = Ctx(frame, fi)
        gen = fi.is_generator()
        if gen: st.out[frame] = t.cat([])
        body = fi.node.body
        saved_pc = st.pc
        st.pc = TRUE
        env = st.frames[frame]
        env['__owner__'] = owner
        if isinstance(fi.node, ast.Lambda):
            v = self.ev(st, fi.node.body, ctx)
            fin = st
            fin.pc = saved_pc
            return v, fin
        self.pcs.append(saved_pc)
        try: self.block(body, st, ctx)
        finally: self.pcs.pop()
        exits = list(ctx.rets)
        self.raised = []
        if self.stack and frame in self.propframes:
            # raises of a helper called by a statement are exits of the caller
            self.raised = [x for x in exits if isinstance(x[1], T) and x[1].op == 'raise']
            exits = [x for x in exits if not (isinstance(x[1], T) and x[1].op == 'raise')]
            if not exits and st.dead and self.raised:
                pc, v, s2 = self.raised.pop()
                s2 = s2.copy(); s2.pc = saved_pc; s2.dead = False
                return v, s2
        if not st.dead:
            exits.append((st.pc, NONE, st))
        if not exits:
            raise Unsupported('no exit')
        pc, v, fin = exits[-1]
        vals = v
        for pc2, v2, s2 in reversed(exits[:-1]):
            vals = self.merge_ret(pc2, s2, v2, fin, vals)
            merged = self.merge(pc2, s2, fin)
            if isinstance(vals, tuple):   # ('ref', ...) joined lazily
                vals = self.new_ref(merged, vals[1])
            fin = merged
        fin.pc = saved_pc
        fin.dead = False
        if gen:
            vals = fin.out.pop(frame)
        return vals, fin

    def merge_ret(self, c, s2, v2, fin, acc):
        if v2 is acc: return acc
        if isinstance(v2, Ref) and isinstance(acc, Ref):
            if v2.id == acc.id: return acc
            k1, k2 = self.kind(s2, v2), self.kind(fin, acc)
            if k1 == k2:
                return ('ref', self.merge_content(c, s2, s2.store[v2.id], fin, fin.store[acc.id]))
        if isinstance(v2, FuncV) or isinstance(acc, FuncV):
            if isinstance(v2, FuncV) and isinstance(acc, FuncV) and v2.fi is acc.fi: return acc
        return t.ite(c, self.term(s2, v2), self.term(fin, acc))

    # -------------------------------------------------------------- statements
    def block(self, stmts, st, ctx):
        for s in stmts:
            if st.dead: return
            self.stmt(s, st, ctx)

    def adopt(self, st, src):
        st.frames, st.store, st.pc, st.dead, st.out, st.esc = src.frames, src.store, src.pc, src.dead, src.out, src.esc

    def stmt(self, s, st, ctx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement ' + type(s).__name__)
        m(s, st, ctx)

    def s_Pass(self, s, st, ctx): pass
    def s_Assert(self, s, st, ctx): pass
    def s_Import(self, s, st, ctx):
        for a in s.names: st.frames[ctx.frame][a.asname or a.name] = ExtV(a.name)
    def s_ImportFrom(self, s, st, ctx):
        for a in s.names: st.frames[ctx.frame][a.asname or a.name] = ExtV((s.module or '') + '.' + a.name)
    def s_Global(self, s, st, ctx): raise Unsupported('global')
    def s_Nonlocal(self, s, st, ctx):
        st.frames[ctx.frame].setdefault('__nonlocal__', set()).update(s.names)

    def s_Expr(self, s, st, ctx):
        v = s.value
        if isinstance(v, ast.Constant): return
        if isinstance(v, ast.Yield):
            x = self.ev(st, v.value, ctx) if v.value is not None else NONE
            st.out[ctx.frame] = t.concat(st.out[ctx.frame], t.lit([self.term(st, x)]))
            return
        if isinstance(v, ast.YieldFrom):
            x = self.stream(st, self.ev(st, v.value, ctx))
            st.out[ctx.frame] = t.concat(st.out[ctx.frame], x)
            return
        self.evd(st, v, ctx)

    def evd(self, st, e, ctx, tail=False):
        """the expression of a statement; a call that may raise leaves the function from here"""
        if not isinstance(e, ast.Call) or self.in_try or ctx.frame not in self.propframes: return self.ev(st, e, ctx)
        self.direct = id(e)
        self.raised = []
        v = self.ev(st, e, ctx)
        rs, self.raised = self.raised, []
        for pc, r, s2 in rs:
            s2 = s2.copy()
            if ctx.frame in s2.out: s2.out[ctx.frame] = t.concat(s2.out[ctx.frame], t.lit([r]))
            ctx.rets.append((t.and_(st.pc, pc), r, s2))
            st.pc = t.and_(st.pc, t.not_(pc))
        if not tail and isinstance(v, T) and has_op(v, 'raise'): raise Unsupported('raise inside a helper')
        return v

    def s_Return(self, s, st, ctx):
        v = self.evd(st, s.value, ctx, tail=True) if s.value is not None else NONE
        ctx.rets.append((st.pc, v, st.copy()))
        st.dead = True

    def s_Raise(self, s, st, ctx):
        e = s.exc
        name = 'reraise'
        if isinstance(e, ast.Call): e = e.func
        if isinstance(e, ast.Attribute): name = e.attr
        elif isinstance(e, ast.Name): name = e.id
        if self.stack and not self.in_try and ctx.frame not in self.propframes:
            # a failing precondition of a helper: the path does not return
            pc = st.pc
            for x in self.pcs: pc = t.and_(x, pc)
            self.dropped.append(pc)
            st.dead = True
            return
        r = mk('raise', name)
        s2 = st.copy()
        if ctx.frame in s2.out:
            s2.out[ctx.frame] = t.concat(s2.out[ctx.frame], t.lit([r]))
        ctx.rets.append((st.pc, r, s2))
        st.dead = True

    def s_Break(self, s, st, ctx):
        ctx.brks.append((st.pc, st.copy())); st.dead = True

    def s_Continue(self, s, st, ctx):
        ctx.conts.append((st.pc, st.copy())); st.dead = True

    def s_If(self, s, st, ctx):
        c = self.cond(st, s.test, ctx)
        if c is TRUE: return self.block(s.body, st, ctx)
        if c is FALSE: return self.block(s.orelse, st, ctx)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = t.and_(st.pc, c), t.and_(st.pc, t.not_(c))
        # branches already excluded by the path condition are not analysed
        if a.pc is FALSE and b.pc is not FALSE:
            self.block(s.orelse, st, ctx); return
        if b.pc is FALSE and a.pc is not FALSE:
            self.block(s.body, st, ctx); return
        self.block(s.body, a, ctx)
        self.block(s.orelse, b, ctx)
        if a.dead and b.dead: self.adopt(st, a)
        elif a.dead: self.adopt(st, b)
        elif b.dead: self.adopt(st, a)
        else: self.adopt(st, self.merge(c, a, b))

    def s_With(self, s, st, ctx):
        for it in s.items:
            v = self.ev(st, it.context_expr, ctx)
            if it.optional_vars is not None: self.assign(st, it.optional_vars, v, ctx)
        self.block(s.body, st, ctx)

    def s_Try(self, s, st, ctx):
        if s.finalbody: raise Unsupported('finally')
        if len(s.handlers) != 1: raise Unsupported('several handlers')
        h = s.handlers[0]
        name = ast.unparse(h.type).split('.')[-1] if h.type is not None else 'any'
        b = st.copy()
        a = st.copy()
        before = st
        self.in_try += 1
        try: self.block(s.body, a, ctx)
        finally: self.in_try -= 1
        if a.dead: raise Unsupported('try body ends')
        vals = []
        for k, v in a.frames[ctx.frame].items():
            if k.startswith('__'): continue
            old = before.frames[ctx.frame].get(k)
            if old is not v: vals.append(self.term(a, v))
        c = mk('raises', name, tuple(sorted(vals, key=t.sortkey)), ty='bool')
        b.pc = t.and_(st.pc, c)
        a.pc = t.and_(a.pc, t.not_(c))
        if h.name: b.frames[ctx.frame][h.name] = unk('exception')
        self.block(h.body, b, ctx)
        self.block(s.orelse, a, ctx)
        if a.dead and b.dead: self.adopt(st, a)
        elif a.dead: self.adopt(st, b)
        elif b.dead: self.adopt(st, a)
        else: self.adopt(st, self.merge(c, b, a))

    def s_FunctionDef(self, s, st, ctx):
        fi = FuncInfo(ctx.fi.module, None, s, outer=ctx.fi)
        st.frames[ctx.frame][s.name] = FuncV(fi, ctx.frame)

    def s_ClassDef(self, s, st, ctx): raise Unsupported('local class')

    def s_Delete(self, s, st, ctx):
        for tg in s.targets:
            if isinstance(tg, ast.Name): st.frames[ctx.frame].pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                base = self.ev(st, tg.value, ctx)
                lv = self.lvalue(st, tg.value, ctx)
                if isinstance(tg.slice, ast.Slice): raise Unsupported('del slice')
                i = self.term(st, self.ev(st, tg.slice, ctx))
                self.mutate(st, lv, base, lambda c, k: self.del_item(c, k, i))
            else: raise Unsupported('del')

    def del_item(self, c, k, i):
        if k == 'list': return mk('lpop', c, i, ty=c.ty)
        if k == 'dict': return t.cat(t.pieces(c) + [t.elem(TRUE, mk('ddel', i))])
        raise Unsupported('del item')

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None: return
        self.do_assign(st, [s.target], s.value, ctx, ann=ty.of_ann(s.annotation, self.repo, ctx.fi.cls))

    def s_Assign(self, s, st, ctx):
        self.do_assign(st, s.targets, s.value, ctx)

    def do_assign(self, st, targets, value, ctx, ann=None):
        if len(targets) == 1 and isinstance(targets[0], (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
                and len(targets[0].elts) == len(value.elts) and not any(isinstance(e, ast.Starred) for e in targets[0].elts + value.elts):
            vs = [self.ev(st, e, ctx) for e in value.elts]
            for e, v in zip(targets[0].elts, vs): self.assign(st, e, v, ctx)
            return
        v = self.evd(st, value, ctx)
        for tg in targets: self.assign(st, tg, v, ctx, ann)

    def assign(self, st, tg, v, ctx, ann=None):
        if isinstance(tg, ast.Name):
            if isinstance(v, T) and isinstance(v.ty, tuple) and v.ty[0] == 'cls' and v.ty[1] in ty.MUTABLE and v.op not in ('ite',):
                ci = self.repo.cls(v.ty[1])
                if ci: v = self.new_ref(st, Obj(ci, v))
            if isinstance(v, T) and v.ty is None and ann is not None and v.op not in ('ite', 'unk', 'const'): v.ty = ann
            env = st.frames[ctx.frame]
            if tg.id in env.get('__nonlocal__', ()):
                f = self.outer_frame(st, ctx, tg.id)
                st.frames[f][tg.id] = v
            else:
                env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, (tuple, list)):
                vt = None
            else:
                vt = self.stream(st, v)
            n = len(tg.elts)
            for i, e in enumerate(tg.elts):
                if star and i == star[0]:
                    self.assign(st, e.value, self.new_ref(st, ('list', t.slice_(vt, num(i), num(i - n + 1) if i - n + 1 else None))), ctx)
                    continue
                k = i if not star or i < star[0] else i - n
                self.assign(st, e, v[k] if vt is None else t.at(vt, num(k)), ctx)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(st, tg.value, ctx)
            if tg.attr in ty.STATS: return
            if tg.attr == '_inv_cache' and not (ctx.fi is not None and ctx.fi.name == 'get_inverse' and isinstance(tg.value, ast.Name) and tg.value.id == 'self'): self.claim(st, base, tg.attr, v)
            self.set_attr(st, base, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            lv = self.lvalue(st, tg.value, ctx)
            base = self.ev(st, tg.value, ctx)
            if self.is_stats(tg.value): return
            if isinstance(tg.slice, ast.Slice):
                if tg.slice.lower is None and tg.slice.upper is None and tg.slice.step is None:
                    s_ = self.stream(st, v)
                    self.mutate(st, lv, base, lambda c, k: s_)
                    return
                raise Unsupported('slice assignment')
            if isinstance(base, T) and base.op == 'attr' and base.args[1] in ty.STATS: return
            i = self.term(st, self.ev(st, tg.slice, ctx))
            val = self.term(st, v)
            if isinstance(base, T) and base.op == 'attr' and base.args[1] == '_mul_cache' and not (ctx.fi is not None and ctx.fi.name == '__mul__' and ast.unparse(tg.value) == 'self._mul_cache'): self.claim(st, base.args[0], '_mul_cache', val, i)
            self.mutate(st, lv, base, lambda c, k: self.set_item(c, k, i, val))
        elif isinstance(tg, ast.Starred):
            self.assign(st, tg.value, v, ctx)
        else: raise Unsupported('assignment target')

    def set_item(self, c, k, i, val):
        if k == 'dict': return t.cat(t.pieces(c) + [t.elem(TRUE, mk('kv', i, val))])
        if k == 'list':
            if t._is_lit(c) and i.op == 'num' and i.args[0].denominator == 1 and -len(c.args) <= i.args[0] < len(c.args):
                its = [p.args[1] for p in c.args]
                its[int(i.args[0])] = val
                return t.lit(its)
            if i.op == 'num' and i.args[0] < 0: i = t.add(t.length(c), i)
            return t.setidx(c, i, val)
        raise Unsupported('item assignment')

    def s_AugAssign(self, s, st, ctx):
        if self.is_stats(s.target): return
        op = type(s.op).__name__
        tg = s.target
        cur = self.ev(st, self.load(tg), ctx)
        v = self.ev(st, s.value, ctx)
        k = self.kind(st, cur)
        if k == 'list' and op == 'Add':
            x = self.stream(st, v)
            self.mutate(st, None, cur, lambda c, kk: t.concat(c, x)); return
        if k == 'set' and op == 'BitOr':
            x = self.stream(st, v)
            self.mutate(st, None, cur, lambda c, kk: t.concat(c, x)); return
        if isinstance(tg, ast.Subscript) and not isinstance(tg.slice, ast.Slice):
            bk = self.kind(st, self.ev(st, tg.value, ctx))
            base = self.ev(st, tg.value, ctx)
            bt = self.term(st, base) if not isinstance(base, T) else base
            if bk == 'dict' or (bk is None and isinstance(bt.ty, tuple) and bt.ty[0] == 'dict'):
                lv = self.lvalue(st, tg.value, ctx)
                i = self.term(st, self.ev(st, tg.slice, ctx))
                if op == 'Add' and self.is_counter(bt):
                    x = self.term(st, v)
                    self.mutate(st, lv, base, lambda c, kk: t.cat(t.pieces(c) + [t.elem(TRUE, mk('inc', i, x))]))
                    return
        nv = self.binop(st, op, cur, v)
        self.assign(st, tg, nv, ctx)

    def is_counter(self, d):
        def f(x):
            if x.op == 'dictof':
                for p in x.args[0].args if x.args[0].op == 'cat' else []:
                    if p.op == 'elem' and p.args[1].op == 'ddefault': return True
            return False
        return f(d)

    def load(self, tg):
        import copy
        n = copy.copy(tg)
        n.ctx = ast.Load()
        return n

    def is_stats(self, e):
        while True:
            if isinstance(e, ast.Attribute):
                if e.attr in ty.STATS: return True
                e = e.value
            elif isinstance(e, ast.Subscript): e = e.value
            elif isinstance(e, ast.Call): e = e.func
            else: return False

    # -------------------------------------------------------------- lvalues / mutation
    def lvalue(self, st, e, ctx):
        """path of a container expression: ('name', n) | ('attr', baseV, attr) | ('item', lv, baseV, idx)"""
        r = self.lvalue_(st, e, ctx)
        if r is None: return None
        r = LV(r)
        k = (ctx.fi, id(e))
        if k not in SHAPES: SHAPES[k] = (self.shape(ctx.fi, e), e)
        r.sk = SHAPES[k][0]
        return r

    def lvalue_(self, st, e, ctx):
        if isinstance(e, ast.Name): return ('name', e.id, ctx)
        if isinstance(e, ast.Attribute): return ('attr', self.ev(st, e.value, ctx), e.attr)
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            return ('item', self.lvalue(st, e.value, ctx), self.ev(st, e.value, ctx), self.term(st, self.ev(st, e.slice, ctx)))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'setdefault' and len(e.args) == 2:
            return ('item', self.lvalue(st, e.func.value, ctx), self.ev(st, e.func.value, ctx), self.term(st, self.ev(st, e.args[0], ctx)))
        return None

    def shape(self, fi, e, depth=0, seen=()):
        """(kind, shape of the elements) of a container expression, from how the code builds it"""
        if depth > 6 or e is None: return None
        d = depth + 1
        def join(a, b):
            if a is None: return b
            if b is None: return a
            return (a[0], join(a[1], b[1])) if a[0] == b[0] else a
        if isinstance(e, ast.List):
            r = None
            for x in e.elts: r = join(r, self.shape(fi, x, d, seen))
            return ('list', r)
        if isinstance(e, ast.ListComp): return ('list', self.shape(fi, e.elt, d, seen))
        if isinstance(e, ast.GeneratorExp): return ('list', self.shape(fi, e.elt, d, seen))
        if isinstance(e, ast.Dict):
            r = None
            for x in e.values: r = join(r, self.shape(fi, x, d, seen))
            return ('dict', r)
        if isinstance(e, ast.DictComp): return ('dict', self.shape(fi, e.value, d, seen))
        if isinstance(e, (ast.Set, ast.SetComp)): return ('set', None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult): return self.shape(fi, e.left, d, seen)
        if isinstance(e, ast.Lambda): return self.shape(fi, e.body, d, seen)
        if isinstance(e, ast.Name):
            if e.id in ('list', 'dict', 'set'): return (e.id, None)
            if e.id == 'deque': return ('list', None)
            if e.id in ('Counter', 'defaultdict', 'OrderedDict'): return ('dict', None)
            if (e.id, 'n') in seen or fi is None: return None
            seen = seen + ((e.id, 'n'),)
            r = None
            for n in ast.walk(fi.node):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
                for x in tg:
                    if isinstance(x, ast.Name) and x.id == e.id: r = join(r, self.shape(fi, n.value, d, seen))
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == e.id and not isinstance(x.slice, ast.Slice):
                        z = self.shape(fi, n.value, d, seen)
                        if z is not None: r = join(r, ('dict', z) if r is None else (r[0], z))
                if isinstance(n, (ast.For, ast.comprehension)):
                    if isinstance(n.target, ast.Name) and n.target.id == e.id:
                        z = self.shape(fi, n.iter, d, seen)
                        if z: r = join(r, z[1])
                    elif isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[1], ast.Name) and n.target.elts[1].id == e.id \
                            and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items':
                        z = self.shape(fi, n.iter.func.value, d, seen)
                        if z: r = join(r, z[1])
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                    if n.func.attr == 'setdefault' and len(n.args) == 2: r = join(r, ('dict', self.shape(fi, n.args[1], d, seen)))
                    if n.func.attr == 'append' and n.args: r = join(r, ('list', self.shape(fi, n.args[0], d, seen)))
            if r is None and fi.outer is not None: return self.shape(fi.outer, e, d, seen)
            return r
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and fi is not None and fi.cls is not None:
            if (e.attr, 'a') in seen: return None
            seen = seen + ((e.attr, 'a'),)
            r = None
            for c in self.repo.mro(fi.cls):
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
                        for x in tg:
                            sub = isinstance(x, ast.Subscript)
                            y = x.value if sub else x
                            if isinstance(y, ast.Attribute) and y.attr == e.attr and isinstance(y.value, ast.Name) and y.value.id == 'self':
                                z = self.shape(m, n.value, d, seen)
                                if z is not None: r = join(r, ('dict', z) if sub else z)
            return r
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            z = self.shape(fi, e.value, d, seen)
            return z[1] if z else None
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm == 'defaultdict': return ('dict', self.shape(fi, e.args[0], d, seen) if e.args else None)
            if nm in ('Counter', 'dict', 'OrderedDict'): return ('dict', None)
            if nm in ('list', 'tuple', 'sorted'):
                z = self.shape(fi, e.args[0], d, seen) if e.args else None
                return ('list', z[1] if z else None)
            if nm == 'deque': return ('list', None)
            if nm in ('set', 'frozenset'): return ('set', None)
            if nm == 'setdefault' and len(e.args) == 2: return self.shape(fi, e.args[1], d, seen)
            if nm in ('values',) and isinstance(f, ast.Attribute):
                z = self.shape(fi, f.value, d, seen)
                return ('list', z[1]) if z else None
            if nm == 'get' and isinstance(f, ast.Attribute):
                z = self.shape(fi, f.value, d, seen)
                return z[1] if z else None
        return None

    def mutate(self, st, lv, base, f, hint=None):
        """replace the contents of a container by f(contents, kind)"""
        if hint is None and lv is not None and getattr(lv, 'sk', None): hint = lv.sk[0]
        if isinstance(base, Ref):
            c = st.store[base.id]
            if isinstance(c, Obj):
                raise Unsupported('in-place operation on object')
            if base.id in st.esc: raise Unsupported('container changed after it was stored elsewhere')
            st.store[base.id] = (c[0], f(c[1], c[0]))
            return
        if isinstance(base, T) and self.is_memo(base): return
        if isinstance(base, T):
            if lv is None: raise Unsupported('in-place operation on a value')
            kind, content = self.open_container(base, hint)
            new = f(content, kind)
            if lv[0] == 'attr':
                self.set_attr(st, lv[1], lv[2], self.close_container(st, kind, new))
                return
            if lv[0] == 'name':
                # a container held only by this local name (fresh value); a parameter changed
                # in place is an observable effect and is recorded as such
                _, n, ctx = lv
                fr = ctx.frame if n in st.frames[ctx.frame] else self.outer_frame(st, ctx, n)
                if fr is None: raise Unsupported('in-place operation on ' + n)
                if not self.fresh(base) and not self.owned(ctx.fi, n) and not (base.op.startswith('m:') and self.returns_fresh(base.op[2:])): raise Unsupported('in-place operation on a value that may be shared')
                st.frames[fr][n] = self.close_container(st, kind, new)
                return
            if lv[0] == 'item':
                # nested container inside another one
                _, lv2, base2, idx = lv
                k2 = self.kind(st, base2)
                if k2 == 'dict' or (k2 is None and isinstance(base2, T) and self.dictlike(base2)):
                    ent = self.nested_entry(content, new, idx, kind)
                    self.mutate(st, lv2, base2, lambda c, k: t.cat(t.pieces(c) + ent), 'dict')
                else:
                    val = self.close_t(kind, new)
                    self.mutate(st, lv2, base2, lambda c, k: self.set_item(c, k, idx, val), 'list')
                return
        raise Unsupported('in-place operation')

    def returns_fresh(self, name):
        """every function of that name returns a container it has just built"""
        fs = [m for c in self.repo.classes.values() for m in c.methods.values() if m.node.name == name]
        if not fs: return False
        for m in fs:
            if any(d.split('.')[-1] in ('cache', 'lru_cache', 'cached_property') for d in m.decorators): return False
            rets = [n for n in ast.walk(m.node) if isinstance(n, ast.Return)]
            if not rets: return False
            for n in rets:
                e = n.value
                if isinstance(e, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)): continue
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'set', 'dict', 'sorted'): continue
                if isinstance(e, ast.Name) and self.owned(m, e.id) and not any(isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == e.id for x in ast.walk(m.node)): continue
                return False
        return True

    def owned(self, fi, name):
        """every assignment to the name builds a new container (of new containers)"""
        def new(e, inner=False):
            if isinstance(e, ast.Set): return True
            if isinstance(e, (ast.List, ast.Dict, ast.Set)):
                return all(new(x) or not isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) for x in getattr(e, 'elts', []))
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)): return inner or new(e.elt, True)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'dict', 'set'):
                if inner: return True
                if len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)): return new(e.args[0])
                if len(e.args) == 1 and isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id == 'map' and ast.unparse(e.args[0].args[0]) in ('list', 'set', 'dict'): return True
                return e.func.id != 'tuple'
            return False
        k = 0
        if fi.node.args.kwarg is not None and fi.node.args.kwarg.arg == name: k = 1
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign): tg = n.targets
            elif isinstance(n, ast.AnnAssign) and n.value is not None: tg = [n.target]
            elif isinstance(n, (ast.For, ast.comprehension)): tg = [n.target]
            else: continue
            for x in tg:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                        if x is not y or isinstance(n, (ast.For, ast.comprehension)) or not new(n.value): return False
                        k += 1
        return k > 0

    def fresh(self, x):
        return x.op in ('cat', 'setidx', 'dictof', 'setof', 'sorted', 'scatter', 'overwrite', 'hpush', 'hdel', 'lpop', 'linsert', 'mu', 'fresh') or (x.op == 'ite' and self.fresh(x.args[1]) and self.fresh(x.args[2]))

    def dictlike(self, x):
        return x.op == 'dictof' or (isinstance(x.ty, tuple) and x.ty[0] == 'dict')

    def nested_entry(self, content, new, idx, kind):
        """entries describing d[idx] changed from content to new"""
        suffix = t.strip_prefix(new, content)
        if suffix is not None:
            out = []
            for p in suffix:
                out.extend(t._map_piece(p, lambda e: [t.elem(TRUE, mk('upd', kind, idx, e))]))
            return out
        return [t.elem(TRUE, mk('kv', idx, self.close_t(kind, new)))]

    def close_t(self, kind, c):
        if kind == 'list': return c
        if kind == 'set': return t.setof(c)
        if kind == 'dict': return self.mkdict(c)
        raise Unsupported(kind)

    def close_container(self, st, kind, c):
        return self.new_ref(st, (kind, c))

    def open_container(self, x, hint=None):
        """(kind, contents stream) of an immutable term used as container"""
        if x.op == 'dictof': return 'dict', x.args[0]
        if x.op == 'setof': return 'set', t._unbag(x.args[0])
        if x.op == 'ite':
            ka, ca = self.open_container(x.args[1], hint)
            kb, cb = self.open_container(x.args[2], hint)
            if ka == kb: return ka, t.ite(x.args[0], ca, cb)
            raise Unsupported('in-place operation on ite')
        k = None
        if x.op in ('cat', 'setidx', 'sorted', 'scatter', 'overwrite'): return 'list', x
        if isinstance(x.ty, tuple):
            k = {'dict': 'dict', 'set': 'set', 'seq': 'list', 'tuple': 'list'}.get(x.ty[0])
        if k is None and x.op == 'dget' and len(x.args) > 2 and x.args[2] in ('list', 'dict', 'set'): k = x.args[2]
        if k is None: k = hint
        if k == 'dict': return k, t.cat([t.elem(TRUE, mk('dbase', x))])
        if k == 'set': return k, t.cat([t._splice(x)])
        if k == 'list': return k, (x if x.ty is not None else t.cat([t._splice(x)]))
        raise Unsupported('in-place operation on ' + x.op)

    def claim(self, st, base, name, v, key=None):
        """a value stored in a memo slot of a base map: recorded together with what the slot means"""
        try:
            x, v = self.term(st, base), self.term(st, v)
            if x.ty != BMT or (v.op == 'const' and v.args[0] is None): return
            if name == '_inv_cache': w = bm_inv(x)
            elif name == '_mul_cache' and key is not None:
                ci = self.repo.cls('BaseMap')
                w = bm_mul(x, self.mknew(ci, (('coords', t.at(key, num(0))), ('time_rev', t.at(key, num(1))))))
            else: return
            if v.fv or w.fv: return
            self.claims.append((x, name, v, w))
        except (Unsupported, KeyError, AttributeError): pass

    def set_attr(self, st, base, name, v):
        if isinstance(base, Ref):
            o = st.store[base.id]
            if isinstance(o, Obj):
                f = dict(o.fields); f[name] = v
                st.store[base.id] = o.with_(fields=f)
                return
        if isinstance(base, T) and isinstance(base.ty, tuple) and base.ty[0] == 'cls' and name.startswith('_'):
            # lazily cached attribute of a value (checked by C06/C07): no observable effect
            self.notes.append('cached attribute %s.%s' % (base.ty[1], name))
            return
        raise Unsupported('attribute assignment on a value')

    # -------------------------------------------------------------- loops
    def s_For(self, s, st, ctx):
        it = self.ev(st, s.iter, ctx)
        stream = self.stream(st, it)
        n_unroll = 0

        def body(e, st2, ctx2):
            self.assign(st2, s.target, e, ctx2)
            self.block(s.body, st2, ctx2)
        self.loop_pieces(t.pieces(stream), body, st, ctx, s)
        if s.orelse:
            raise Unsupported('for-else')

    def loop_pieces(self, ps, body, st, ctx, node):
        """run body for every element of the stream; break leaves all pieces"""
        brks = []
        if LAZY[0] and any(p.op == 'for' and any(q.op != 'elem' for q in t.pieces(p.args[2])) for p in ps):
            whole = mk('cat', *ps)

            def step(f, st2, ctx2):
                body(mk('at', whole, f), st2, ctx2)
            self.loop(st, ctx, mk('len', whole, ty='int'), step, brks)
            self.join_breaks(st, brks)
            return
        for p in ps:
            if st.dead: break
            self.one_piece(p, body, st, ctx, brks)
        self.join_breaks(st, brks)

    def join_breaks(self, st, brks):
        for pc, s2 in reversed(brks):
            s2 = s2.copy()
            s2.pc = pc
            if st.dead: self.adopt(st, s2)
            else:
                # the break happened under pc
                self.adopt(st, self.merge(pc, s2, st))

    def one_piece(self, p, body, st, ctx, brks):
        if p.op == 'elem':
            g, e = p.args
            def run(s):
                c2 = Ctx(ctx.frame, ctx.fi); c2.rets = ctx.rets
                body(e, s, c2)
                for pc, s2 in c2.conts:
                    if s.dead:
                        self.adopt(s, s2)
                    else: self.adopt(s, self.merge(pc, s2, s))
                brks.extend(c2.brks)
            if g is TRUE: run(st)
            else:
                a, b = st.copy(), st.copy()
                a.pc, b.pc = t.and_(st.pc, g), t.and_(st.pc, t.not_(g))
                run(a)
                if a.dead: self.adopt(st, b)
                else: self.adopt(st, self.merge(g, a, b))
            return
        if p.op == 'for':
            n = p.args[1]
            bvs = t._bvs(p) or {t.bv(p.args[0])}
            inner = p.args[2]

            def iteration(f, st2, ctx2):
                mp = {b: f for b in bvs}
                ib = []
                for q in t.pieces(t.subst(inner, mp)):
                    if st2.dead: break
                    self.one_piece(q, body, st2, ctx2, ib)
                ctx2.brks.extend(ib)
            self.loop(st, ctx, n, iteration, brks)
            return
        raise Unsupported('loop over ' + p.op)

    def slots_of(self, st, frames=None):
        d = {}
        for fid, env in st.frames.items():
            for n, v in env.items():
                if n.startswith('__'): continue
                d['env', fid, n] = v
        for i, c in st.store.items():
            if isinstance(c, Obj):
                d['base', i] = c.base
                for k, v in c.fields.items(): d['fld', i, k] = v
            else: d['cont', i] = c
        for fid, o in st.out.items(): d['out', fid] = o
        return d

    def read_slot(self, st, key):
        k = key[0]
        if k == 'env': return st.frames[key[1]].get(key[2])
        if k == 'base': return st.store[key[1]].base
        if k == 'fld':
            o = st.store[key[1]]
            v = o.fields.get(key[2])
            if v is None and o.base is not None: v = self.attr_of_term(o.base, key[2], o.cls)
            return v
        if k == 'cont': return st.store[key[1]]
        if k == 'out': return st.out.get(key[1])

    def write_slot(self, st, key, v):
        k = key[0]
        if k == 'env': st.frames[key[1]][key[2]] = v
        elif k == 'base': st.store[key[1]] = st.store[key[1]].with_(base=v)
        elif k == 'fld':
            o = st.store[key[1]]
            f = dict(o.fields); f[key[2]] = v
            st.store[key[1]] = o.with_(fields=f)
        elif k == 'cont': st.store[key[1]] = v
        elif k == 'out': st.out[key[1]] = v

    def slot_term(self, st, key):
        v = self.read_slot(st, key)
        if v is None: return None
        if key[0] == 'cont':
            if v[0] == 'kw': return self.term(st, Ref(key[1]))
            return v[1]
        return self.term(st, v)

    def changed(self, before, after):
        a, b = self.slots_of(before), self.slots_of(after)
        out = []
        for k, v in b.items():
            if k in a:
                if a[k] is not v:
                    if isinstance(a[k], tuple) and isinstance(v, tuple) and a[k][0] == v[0] and a[k][1] is v[1]: continue
                    if isinstance(a[k], Ref) and isinstance(v, Ref) and a[k].id == v.id: continue
                    out.append(k)
            elif k[0] == 'env' and k[1] in before.frames:
                out.append(k)      # first assigned inside the loop
            elif k[0] == 'fld' and k[1] in before.store:
                out.append(k)
        return out

    def havoc(self, st, keys, init):
        """fresh state variables for the modified slots -> {key: T}"""
        sv = {}
        for k in keys:
            v0 = init.get(k)
            if k[0] == 'cont':
                c = st.store[k[1]]
                if c[0] == 'kw': raise Unsupported('kwargs changed in a loop')
                et = None if c[0] != 'list' or not isinstance(c[1], T) else self.demoted[k] if k in self.demoted else etype(c[1])
                if et is EMPTY: et = None
                f = t.fresh('S', ('seq', et))
                st.store[k[1]] = (c[0], f)
                sv[k] = f
                continue
            if v0 is None:
                f = t.fresh('S')
                if k[0] == 'env': st.frames[k[1]].pop(k[2], None)
                else: self.write_slot(st, k, f)
                sv[k] = f
                continue
            cur = self.read_slot(st, k)
            if isinstance(cur, Ref):
                kd = self.kind(st, cur)
                if kd == 'obj' and k in self.demoted:
                    f = sv[k] = t.fresh('S', self.demoted[k])
                    self.write_slot(st, k, f)
                    continue
                if kd == 'obj':
                    o = st.store[cur.id]
                    f = t.fresh('S', ('cls', o.cls.name))
                    self.write_slot(st, k, self.new_ref(st, Obj(o.cls, f)))
                    sv[k] = f
                    continue
                et = None if kd != 'list' else self.demoted[k] if k in self.demoted else etype(v0)
                if et is EMPTY: et = None
                f = t.fresh('S', ('seq', et))
                sv[k] = f
                nr = self.new_ref(st, (kd, f))
                self.write_slot(st, k, nr)
                continue
            if k[0] == 'out':
                f = t.fresh('S', ('seq', None))
            else:
                ty_ = v0.ty if v0 is not NONE else None
                if (isinstance(ty_, str) or isinstance(ty_, tuple) and ty_[0] == 'cls') and k in self.demoted: ty_ = self.demoted[k]
                f = t.fresh('S', ty_)
            sv[k] = f
            self.write_slot(st, k, f)
        return sv

    def wrong_sort(self, keys, sv, nxt, bval):
        """state variables whose assumed sort an iteration does not keep"""
        bad = {}
        for k in keys:
            f = sv[k]
            if isinstance(f.ty, tuple) and f.ty[0] == 'seq' and f.ty[1] is not None and k[0] != 'out':
                for v in (nxt.get(k), bval.get(k)):
                    if v is not None and v is not f and True:
                        for y in ite_leaves(v):
                            e = etype(y)
                            j = f.ty[1] if e is EMPTY else tjoin(e, bad.get(k, f.ty[1]))
                            if j != f.ty[1]: bad[k] = j
                continue
            if isinstance(f.ty, tuple) and f.ty[0] == 'cls':
                for v in (nxt.get(k), bval.get(k)):
                    if v is None: continue
                    for y in ite_leaves(v):
                        if y is f or vtype(y) == f.ty or y.op in ('new', 'with') or y.op.startswith(('make:', 'fx:')) or isinstance(y.ty, tuple) and y.ty[0] == 'cls': continue
                        bad[k] = ('opt', f.ty) if y.ty == ('opt', f.ty) and bad.get(k, 0) is not None or y is NONE else None
                continue
            if not isinstance(f.ty, str) or f.ty == 'str': continue
            for v in (nxt.get(k), bval.get(k)):
                if v is None: continue
                for y in ite_leaves(v):
                    if y is f or y.ty == f.ty or t.is_booltree(y) and f.ty == 'bool': continue
                    if f.ty == 'int' and t.is_int(y): continue
                    if f.ty == 'num' and t.is_num(y): continue
                    n = 'num' if f.ty in ('int', 'num') and (y.ty in ('num', 'int') or y.op in ('poly', 'num')) else None
                    if k not in bad or n is None: bad[k] = n
        return {k: v for k, v in bad.items() if self.demoted.get(k, 0) != v}

    def blur(self, st, keys):
        s2 = st.copy()
        self.havoc(s2, keys, {k: self.slot_term(st, k) for k in keys})
        for k in keys:
            if k[0] == 'env' and k[1] in s2.frames and k[2] not in s2.frames[k[1]]: s2.frames[k[1]][k[2]] = t.fresh('S')
        return s2

    def value_of_slot(self, st, k, like):
        """term of a slot at the end of an iteration; container slots give their contents stream"""
        v = self.read_slot(st, k)
        if v is None: return None
        if k[0] == 'cont': return v[1]
        if isinstance(v, Ref) and like == 'stream':
            c = st.store[v.id]
            if not isinstance(c, Obj): return c[1] if c[0] != 'kw' else self.term(st, v)
        return self.term(st, v)

    def loop(self, st, ctx, n, iteration, brks, while_test=None):
        """for f < n: iteration(f)   (n None: while loop, test evaluated by while_test(state))"""
        f = t.fresh('i', 'int')
        # 1. which slots change: trial runs to a fixpoint
        keys = []
        for _ in range(8):
            s0 = st.copy()
            init = {k: self.slot_term(st, k) for k in keys}
            self.havoc(s0, keys, init)
            quick = self.quick
            for mode in ((True, False) if not quick else (True,)):
                s1 = s0.copy()
                s1.pc = TRUE
                c2 = Ctx(ctx.frame, ctx.fi)
                self.trial += 1
                self.quick = mode
                try:
                    if while_test is not None:
                        tc = while_test(s1)
                    iteration(f, s1, c2)
                    break
                except (Unsupported, KeyError, AttributeError) as e:
                    if not mode or quick: raise
                finally:
                    self.trial -= 1
                    self.quick = quick
            ends = [s1] if not s1.dead else []
            ends += [x for _, x in c2.conts] + [x for _, x in c2.brks] + [x for _, _, x in c2.rets]
            new = []
            for e in ends:
                for k in self.changed(s0, e):
                    if k[0] in ('cont', 'base', 'fld') and k[1] not in st.store: continue
                    if k not in keys and k not in new: new.append(k)
            if not new: break
            keys += new
        else:
            raise Unsupported('loop state does not stabilise')
        if self.quick:
            # inside a trial run only the set of changed slots matters
            for pc, x in c2.brks: brks.append((t.fresh('q', 'bool'), self.blur(st, keys)))
            for pc, v, x in c2.rets: ctx.rets.append((t.fresh('q', 'bool'), v, self.blur(st, keys)))
            if s1.dead and not c2.conts and not (n is not None or while_test is not None): st.dead = True
            else: self.adopt(st, self.blur(st, keys))
            return
        # slots must exist before the loop to carry state; others are loop-local
        init = {}
        kinds = {}
        for k in keys:
            v = self.read_slot(st, k)
            if k[0] == 'cont': kinds[k] = v[0]
            elif isinstance(v, Ref): kinds[k] = self.kind(st, v)
            else: kinds[k] = None
            if isinstance(v, Ref) and kinds[k] not in ('obj', None) and k[0] != 'cont':
                c = st.store[v.id]
                init[k] = c[1] if c[0] != 'kw' else self.slot_term(st, k)
            else:
                init[k] = self.slot_term(st, k)
        # 2. one symbolic iteration
        s0 = st.copy()
        sv = self.havoc(s0, keys, init)
        s0.pc = TRUE
        test = TRUE
        s1 = s0.copy()
        if while_test is not None:
            test = while_test(s1)
        c2 = Ctx(ctx.frame, ctx.fi)
        if test is FALSE:
            return
        pre = s1.copy()
        s1.pc = TRUE
        iteration(f, s1, c2)
        normal = s1 if not s1.dead else None
        for pc, x in c2.conts:
            if normal is None: normal = x.copy(); normal.dead = False
            else: normal = self.merge(pc, x, normal)
        if normal is None and not c2.brks and not c2.rets:
            raise Unsupported('loop without end')
        like = {k: ('stream' if kinds[k] not in (None, 'obj') else None) for k in keys}
        nxt = {}
        kind_next = {}
        for k in keys:
            if normal is None: nxt[k] = sv[k]; continue
            v = self.value_of_slot(normal, k, like[k])
            if v is None: v = sv[k]
            nxt[k] = v
            rv = self.read_slot(normal, k)
            if kinds[k] is None and isinstance(rv, Ref): kind_next[k] = self.kind(normal, rv)
        brk = FALSE
        for pc, x in c2.brks: brk = t.or_(brk, pc)
        ret = FALSE
        for pc, _, x in c2.rets: ret = t.or_(ret, pc)
        bval = {k: None for k in keys}
        if c2.brks:
            for k in keys:
                acc = None
                for pc, x in reversed(c2.brks):
                    v = self.value_of_slot(x, k, like[k])
                    if v is None: v = sv[k]
                    acc = v if acc is None else t.ite(pc, v, acc)
                bval[k] = acc
        wrong = self.wrong_sort(keys, sv, nxt, bval)
        if wrong:
            saved = dict(self.demoted)
            self.demoted.update(wrong)
            try: return self.loop(st, ctx, n, iteration, brks, while_test)
            finally: self.demoted = saved
        rval = None
        rslot = {k: None for k in keys}
        if c2.rets:
            for pc, v, x in reversed(c2.rets):
                tv = self.term(x, v)
                rval = tv if rval is None else t.ite(pc, tv, rval)
            for k in keys:
                acc = None
                for pc, _, x in reversed(c2.rets):
                    v = self.value_of_slot(x, k, like[k])
                    if v is None: v = sv[k]
                    acc = v if acc is None else t.ite(pc, v, acc)
                rslot[k] = acc
        # 3. counted while loops are for loops
        if while_test is not None and n is None:
            n, f, sv, nxt, init, brk, ret, bval, rval, rslot, test = self.counted(n, f, sv, nxt, init, brk, ret, bval, rval, rslot, test, keys)
        live = [k for k in keys if init[k] is not None]
        local = [k for k in keys if init[k] is None]
        # loop-local names: value after the loop = last iteration's (approximation: state variable never read before assignment)
        S = {k: sv[k] for k in keys}
        ex = t.or_(brk, ret)
        ini = {k: (init[k] if init[k] is not None else NONE) for k in keys}
        solved = {}   # key -> closed form as function of f  (term containing fresh f)
        if n is not None:
            solved = self.solve(keys, S, ini, nxt, f, local)
        inv_keys = [k for k in keys if k not in solved]
        subm = {S[k]: solved[k] for k in solved}
        cl = lambda x: t.subst(x, subm) if x is not None else None

        def unsolved_in(x):
            return [k for k in inv_keys if S[k] in x.fv] if x is not None else []

        if n is not None and ex is FALSE:
            fin = {}
            for k in keys:
                if k in solved:
                    fin[k] = t.subst(solved[k], {f: n})
                else:
                    fin[k] = self.mu(f, n, None, inv_keys, S, ini, {x: cl(nxt[x]) for x in inv_keys}, FALSE, S[k], None)
            self.finish(st, keys, fin, kinds, kind_next)
            return
        exc, brkc, retc = cl(ex), cl(brk), cl(ret)
        if n is not None and not unsolved_in(exc):
            # exit condition in closed form: existential over the index
            E = t.exists({f: 0}, n, exc)
            F = t.close('first', {f: 0}, n, exc, f) if E is not FALSE else ZERO
            if F.ty is None: F.ty = 'int'

            def at_first(x):
                return t.subst(cl(x), {f: F})

            def search(x):
                x = cl(x)
                if f not in x.fv: return x
                return t.first_({f: 0}, n, exc, x, NONE)
            fin = {}
            need_mu = [k for k in inv_keys]
            for k in keys:
                if k in solved: fin[k] = t.subst(solved[k], {f: n})
                else: fin[k] = self.mu(f, n, None, inv_keys, S, ini, {x: cl(nxt[x]) for x in inv_keys}, FALSE, S[k], None)
            if brk is not FALSE:
                Ebrk = E if ret is FALSE else t.and_(E, self.firstval(f, n, exc, brkc))
                sb = st.copy()
                bv_ = {}
                for k in keys:
                    b = cl(bval[k])
                    if unsolved_in(b):
                        bv_[k] = self.mu(f, n, None, inv_keys, S, ini, {x: cl(nxt[x]) for x in inv_keys}, exc, b, None)
                    else: bv_[k] = self.firstval(f, n, exc, b)
                self.finish(sb, keys, bv_, kinds, kind_next)
                brks.append((t.and_(st.pc, Ebrk), sb))
            if ret is not FALSE:
                Eret = E if brk is FALSE else t.and_(E, self.firstval(f, n, exc, retc))
                sr = st.copy()
                rv_ = {}
                for k in keys:
                    b = cl(rslot[k])
                    if unsolved_in(b):
                        rv_[k] = self.mu(f, n, None, inv_keys, S, ini, {x: cl(nxt[x]) for x in inv_keys}, exc, b, None)
                    else: rv_[k] = self.firstval(f, n, exc, b)
                self.finish(sr, keys, rv_, kinds, kind_next)
                rv = cl(rval)
                if unsolved_in(rv):
                    val = self.mu(f, n, None, inv_keys, S, ini, {x: cl(nxt[x]) for x in inv_keys}, exc, rv, None)
                else: val = self.firstval(f, n, exc, rv)
                ctx.rets.append((t.and_(st.pc, Eret), val, sr))
            # continue: no exit happened
            base_pc = st.pc
            self.finish(st, keys, fin, kinds, kind_next)
            st.pc = t.and_(base_pc, t.not_(E))
            if st.pc is FALSE: st.dead = True
            return
        # general fixpoint
        nx = {x: cl(nxt[x]) for x in inv_keys}
        test_ = cl(test)
        tf = t.not_(test_) if n is None else t.not_(t.lt(f, n))
        stop = t.or_(tf, exc)

        def M(res):
            return self.mu(f, n, None, inv_keys, S, ini, nx, stop, cl(res), tf, uses_f=True)
        fin = {}
        for k in keys:
            own = S[k] if k in inv_keys else solved[k]
            if while_test is not None:
                pv = self.value_of_slot(pre, k, like[k])
            fin[k] = M(own)
        base_pc = st.pc
        if brk is FALSE and ret is FALSE:
            self.finish(st, keys, fin, kinds, kind_next)
            return
        if ret is not FALSE:
            R = t.truthy(self.boolmu(M(t.and_(t.not_(tf), retc))))
            sr = st.copy()
            self.finish(sr, keys, {k: M(rslot[k] if rslot[k] is not None else S[k]) for k in keys}, kinds, kind_next)
            ctx.rets.append((t.and_(base_pc, R), M(rval), sr))
        else:
            R = FALSE
        # normal or break exit
        res = {}
        for k in keys:
            own = S[k] if k in inv_keys else solved[k]
            v = own
            if brk is not FALSE:
                v = t.ite(t.and_(t.not_(tf), brkc), cl(bval[k]) if bval[k] is not None else own, own)
            res[k] = M(v)
        self.finish(st, keys, res, kinds, kind_next)
        st.pc = t.and_(base_pc, t.not_(R))
        if st.pc is FALSE: st.dead = True

    def boolmu(self, x):
        if x.ty is None: x.ty = 'bool'
        return x

    def firstval(self, f, n, c, v):
        if f not in v.fv: return v
        if v.op == 'ite' and f not in v.args[0].fv:
            return t.ite(v.args[0], self.firstval(f, n, c, v.args[1]), self.firstval(f, n, c, v.args[2]))
        if t.is_boolop(v):
            # boolean at the first index
            r = t.close('first', {f: 0}, n, c, v)
            if r.ty is None: r.ty = 'bool'
            return r
        r = t.close('first', {f: 0}, n, c, v)
        if r.ty is None: r.ty = v.ty
        return r

    def finish(self, st, keys, fin, kinds, kind_next):
        for k in keys:
            v = fin[k]
            if k[0] == 'cont':
                st.store[k[1]] = (kinds[k], v)
            elif kinds[k] == 'obj' and k in self.demoted: self.write_slot(st, k, v)
            elif kinds[k] == 'obj':
                cur = self.read_slot(st, k)
                o = st.store[cur.id]
                self.write_slot(st, k, self.new_ref(st, Obj(o.cls, v)))
            elif kinds[k] in ('list', 'set', 'dict'):
                self.write_slot(st, k, self.new_ref(st, (kinds[k], v)))
            else:
                self.write_slot(st, k, v)

    def counted(self, n, f, sv, nxt, init, brk, ret, bval, rval, rslot, test, keys):
        """while i < N: ...; i += 1   ->   for loop"""
        same = (n, f, sv, nxt, init, brk, ret, bval, rval, rslot, test)
        cand = None
        for k in keys:
            if init[k] is None: continue
            if nxt[k] is t.add(sv[k], ONE) and test.op in ('gt0',) and sv[k] in test.fv:
                p = test.args[0]
                N = t.add(p, sv[k])
                if N.op != 'ite' and not any(sv[x] in N.fv for x in keys):
                    cand = (k, N)
        if cand is None: return same
        k, N = cand
        i0 = init[k]
        cnt = t.sub(N, i0)
        f = t.fresh('i', 'int')
        rep = {sv[k]: t.add(i0, f)}
        sb = lambda x: t.subst(x, rep) if x is not None else None
        nxt = {x: (sb(v) if x != k else v) for x, v in nxt.items()}
        return (cnt, f, sv, nxt, init, sb(brk), sb(ret), {x: sb(v) for x, v in bval.items()}, sb(rval), {x: sb(v) for x, v in rslot.items()}, TRUE)

    def s_While(self, s, st, ctx):
        if s.orelse: raise Unsupported('while-else')

        def test(s1): return self.cond(s1, s.test, Ctx(ctx.frame, ctx.fi))

        def iteration(f, s1, c2): self.block(s.body, s1, c2)
        brks = []
        c0 = test(st.copy())
        if c0 is FALSE: return
        self.loop(st, ctx, None, iteration, brks, while_test=test)
        self.join_breaks(st, brks)

    # ---- solving recurrences
    def solve(self, keys, S, init, nxt, f, local):
        solved = {}
        progress = True
        while progress:
            progress = False
            sub = {S[k]: v for k, v in solved.items()}
            for k in keys:
                if k in solved: continue
                nx = t.subst(nxt[k], sub) if sub else nxt[k]
                others = [j for j in keys if j not in solved and j != k and S[j] in nx.fv]
                if others: continue
                r = closed_form(S[k], init[k], nx, f)
                if r is not None:
                    solved[k] = r
                    progress = True
        return solved

    def mu(self, f, n, _a, keys, S, init, nxt, stop, res, tf, uses_f=False):
        """canonical fixpoint term: iterate from init until stop, value res there"""
        if n is not None:
            stop2 = t.or_(t.not_(t.lt(f, n)), stop)
        else:
            stop2 = stop
        slots = {k: S[k] for k in keys}
        slots['#i'] = f
        ini = dict(init); ini['#i'] = ZERO
        nx = dict(nxt); nx['#i'] = t.add(f, ONE)
        # dependency closure
        need = []
        todo = [k for k in slots if slots[k] in res.fv or slots[k] in stop2.fv]
        while todo:
            k = todo.pop()
            if k in need: continue
            need.append(k)
            todo += [j for j in slots if slots[j] in nx[k].fv and j not in need]
        if not need: return res
        # colour refinement -> canonical order
        col = {k: ini[k].dig if isinstance(ini[k], T) else b'' for k in need}
        import hashlib
        for _ in range(len(need) + 1):
            mp = {slots[k]: mk('var', 'col:' + col[k].hex()) for k in need}
            new = {}
            rs = shallow_subst(res, mp).dig
            ss = shallow_subst(stop2, mp).dig
            for k in need:
                me = dict(mp); me[slots[k]] = mk('var', 'me')
                h = hashlib.blake2b(digest_size=10)
                h.update(col[k]); h.update(shallow_subst(nx[k], me).dig)
                h.update(shallow_subst(stop2, me).dig); h.update(shallow_subst(res, me).dig)
                new[k] = h.digest()
            col = new
        order = sorted(need, key=lambda k: (col[k], str(k)))
        inv = {slots[k]: i for i, k in enumerate(order)}
        r = t.close('mu', inv, tuple(ini[k] for k in order), stop2, tuple(nx[k] for k in order), res)
        if r.ty is None: r.ty = res.ty
        return r

    # -------------------------------------------------------------- conditions / streams
    def cond(self, st, e, ctx):
        return t.truthy(self.bterm(st, self.ev(st, e, ctx)))

    def bterm(self, st, v):
        if isinstance(v, Ref):
            c = st.store[v.id]
            if isinstance(c, Obj): return TRUE
            if c[0] == 'kw': return const(bool(c[1]))
            return t.gt(t.length(self.term(st, v)), ZERO)
        if isinstance(v, (FuncV, ClassV, ExtV)): return TRUE
        return self.term(st, v)

    def stream(self, st, v):
        """sequence of elements obtained by iterating over v"""
        if isinstance(v, Ref):
            c = st.store[v.id]
            if isinstance(c, Obj):
                return self.iter_obj(st, v, c)
            if c[0] == 'list': return c[1]
            x = self.term(st, v)
        elif isinstance(v, (tuple, list)): return self.term(st, v)
        else: x = self.term(st, v)
        return lift(self.stream_t, [x])

    def iter_obj(self, st, v, c):
        if c.seqv is not None: return c.seqv
        return self.stream_t(self.term(st, v))

    def stream_t(self, x):
        if x.op == 'new':
            d = dict(x.args[1])
            if '__seq__' in d: return d['__seq__']
            nt = self.nt_fields(x.args[0])
            if nt: return t.lit([d[f] for f in nt])
        if x.op == 'dictof' or (isinstance(x.ty, tuple) and x.ty[0] == 'dict'):
            return self.dict_keys(x)
        if x.op == 'setof':
            ps = x.args[0].args
            if all(p.op == 'elem' for p in ps) and len(ps) <= 1: return t.cat(list(ps))
            return mk('setiter', x, ty=('seq', x.ty[1] if isinstance(x.ty, tuple) else None))
        if isinstance(x.ty, tuple) and x.ty[0] == 'set':
            return mk('setiter', x, ty=('seq', x.ty[1]))
        if x.ty == ('cls', 'Pattern'):
            return t.lit([self.attr_of_term(x, 'proto'), self.attr_of_term(x, 'specs')])
        return x

    def nt_fields(self, cname):
        ci = self.repo.cls(cname)
        if ci is None: return None
        for c in self.repo.mro(ci):
            for b in c.base_names():
                if isinstance(b, ast.Call): return namedtuple_fields(b)
        return None

    def dict_keys(self, d):
        es = dict_entries(d)
        if es is not None and keys_distinct(es): return t.map_stream(es, lambda e: [t.elem(TRUE, e.args[0])])
        return mk('keys', d, ty=('seq', d.ty[1] if isinstance(d.ty, tuple) and len(d.ty) > 1 else None))

    def dict_items(self, d):
        es = dict_entries(d)
        if es is not None and keys_distinct(es): return t.map_stream(es, lambda e: [t.elem(TRUE, t.lit([e.args[0], e.args[1]]))])
        dt = d.ty if isinstance(d.ty, tuple) and len(d.ty) > 2 else (None, None, None)
        return mk('items', d, ty=('seq', ('tuple', (dt[1], dt[2]))))

    def dict_values(self, d):
        es = dict_entries(d)
        if es is not None and keys_distinct(es): return t.map_stream(es, lambda e: [t.elem(TRUE, e.args[1])])
        it = self.dict_items(d)
        return t.map_stream(it, lambda e: [t.elem(TRUE, t.at(e, ONE))])

    # -------------------------------------------------------------- expressions
    def ev(self, st, e, ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(st, e, ctx)

    def e_Constant(self, st, e, ctx):
        v = e.value
        if isinstance(v, float):
            return mk('float', repr(v), ty='num')
        if v is Ellipsis: raise Unsupported('...')
        return const(v)

    def e_Name(self, st, e, ctx):
        return self.name(st, e.id, ctx)

    def name(self, st, n, ctx):
        env = st.frames[ctx.frame]
        if n in env: return env[n]
        fi, fr = ctx.fi, ctx.frame
        # enclosing function frames
        p = env.get('__parent__')
        while p is not None:
            if p in st.frames:
                if n in st.frames[p]: return st.frames[p][n]
                p = st.frames[p].get('__parent__')
            else: break
        mod = fi.module
        return self.modname(st, mod, n, fi)

    def outer_frame(self, st, ctx, n):
        p = st.frames[ctx.frame].get('__parent__')
        while p is not None and p in st.frames:
            if n in st.frames[p]: return p
            p = st.frames[p].get('__parent__')
        raise Unsupported('nonlocal ' + n)

    def modname(self, st, mod, n, fi):
        r = self.repo.resolve(mod, n)
        if r is None:
            # class-level name of the specification module falls back to repo classes
            ci = self.repo.cls(n)
            if ci is not None and getattr(mod, 'is_spec', False): return ClassV(ci)
            if getattr(mod, 'is_spec', False):
                f = self.repo.func(n)
                if f is not None: return FuncV(f)
                home = self.repo.modules.get(mod.name.split('.')[-1])
                if home is not None: return self.modname(st, home, n, fi)
            return ExtV(n)
        k, x = r
        if k == 'func': return FuncV(x)
        if k == 'class': return ClassV(x)
        if k == 'module': return ModV(x)
        if k == 'ext': return ExtV(x)
        if k == 'const':
            m2, node = x
            return self.const_value(st, m2, node, n)
        raise Unsupported(n)

    def const_value(self, st, m2, node, n):
        if isinstance(node, ast.Constant): return const(node.value) if not isinstance(node.value, float) else mk('float', repr(node.value))
        if isinstance(node, ast.Call) and ast.unparse(node.func).endswith('getLogger'): return ExtV('logger')
        if isinstance(node, ast.Call) and ast.unparse(node.func).endswith('namedtuple'):
            return ExtV('namedtuple:' + ','.join(namedtuple_fields(node)))
        if isinstance(node, (ast.Dict, ast.List, ast.Set)) and not ast.unparse(node).strip('{}[]'):
            return mk('classvar', m2.name, n)
        fr = self.new_frame(st)
        fake = FuncInfo(m2, None, ast.parse('def _c(): pass').body[0])
        try:
            return self.ev(st, node, Ctx(fr, fake))
        finally:
            st.frames.pop(fr, None)

    def e_Tuple(self, st, e, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            ps = []
            for x in e.elts:
                if isinstance(x, ast.Starred): ps += t.pieces(self.stream(st, self.ev(st, x.value, ctx)))
                else: ps.append(t.elem(TRUE, self.term(st, self.ev(st, x, ctx))))
            return t.cat(ps)
        vs = [self.ev(st, x, ctx) for x in e.elts]
        if any(isinstance(v, (Ref, FuncV, ClassV)) for v in vs):
            return tuple(vs)
        return t.lit([self.term(st, v) for v in vs])

    def e_List(self, st, e, ctx):
        ps = []
        for x in e.elts:
            if isinstance(x, ast.Starred): ps += t.pieces(self.stream(st, self.ev(st, x.value, ctx)))
            else: ps.append(t.elem(TRUE, self.esc_term(st, self.ev(st, x, ctx))))
        return self.new_ref(st, ('list', t.cat(ps)))

    def esc_term(self, st, v):
        """value stored inside another container: later in-place changes would be lost"""
        if isinstance(v, Ref) and not isinstance(st.store[v.id], Obj):
            st.esc = st.esc | {v.id}
        return self.term(st, v)

    def e_Set(self, st, e, ctx):
        return self.new_ref(st, ('set', t.lit([self.term(st, self.ev(st, x, ctx)) for x in e.elts])))

    def e_Dict(self, st, e, ctx):
        ps = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.term(st, self.ev(st, v, ctx))
                es = dict_entries(d)
                if es is None: ps.append(t.elem(TRUE, mk('dbase', d)))
                else: ps += t.pieces(es)
                continue
            kk = self.term(st, self.ev(st, k, ctx))
            ps.append(t.elem(TRUE, mk('kv', kk, self.esc_term(st, self.ev(st, v, ctx)))))
        return self.new_ref(st, ('dict', t.cat(ps)))

    def e_JoinedStr(self, st, e, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(const(v.value))
            else:
                x = self.term(st, self.ev(st, v.value, ctx))
                if v.format_spec is not None: parts.append(mk('fmt', x, ast.unparse(v.format_spec)))
                else: parts.append(strof(x))
        return strcat(parts)

    def e_FormattedValue(self, st, e, ctx): return strof(self.term(st, self.ev(st, e.value, ctx)))

    def e_NamedExpr(self, st, e, ctx):
        v = self.ev(st, e.value, ctx)
        self.assign(st, e.target, v, ctx)
        return v

    def e_IfExp(self, st, e, ctx):
        c = self.cond(st, e.test, ctx)
        if c is TRUE: return self.ev(st, e.body, ctx)
        if c is FALSE: return self.ev(st, e.orelse, ctx)
        a = self.ev(st, e.body, ctx)
        b = self.ev(st, e.orelse, ctx)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id: return a
        if isinstance(a, FuncV) and isinstance(b, FuncV) or isinstance(a, (BoundB,)) or isinstance(b, BoundB):
            return CondV(c, a, b)
        return t.ite(c, self.term(st, a), self.term(st, b))

    def e_BoolOp(self, st, e, ctx):
        vals = [self.ev(st, x, ctx) for x in e.values]
        ts = [self.bterm(st, v) for v in vals]
        allb = all(t.is_boolop(x) or x.ty == 'bool' for x in ts)
        if isinstance(e.op, ast.And):
            r = ts[-1]
            for x in reversed(ts[:-1]): r = t.ite(t.truthy(x), r, x if not t.is_boolop(x) else FALSE)
            return r
        r = ts[-1]
        for x in reversed(ts[:-1]): r = t.ite(t.truthy(x), x if not t.is_boolop(x) else TRUE, r)
        return r

    def e_UnaryOp(self, st, e, ctx):
        v = self.ev(st, e.operand, ctx)
        if isinstance(e.op, ast.Not): return t.not_(t.truthy(self.bterm(st, v)))
        x = self.term(st, v)
        if isinstance(e.op, ast.USub): return self.neg(x)
        if isinstance(e.op, ast.UAdd): return x
        if isinstance(e.op, ast.Invert): return self.invert(st, v, x)
        raise Unsupported('unary')

    def neg(self, x):
        return t.neg(x)

    def cls_of(self, st, v):
        """repo class of a value, or None"""
        if isinstance(v, Ref):
            c = st.store[v.id]
            return c.cls if isinstance(c, Obj) else None
        x = v if isinstance(v, T) else None
        if x is None: return None
        return self.cls_of_t(x)

    def cls_of_t(self, x):
        ty_ = x.ty
        if isinstance(ty_, tuple) and ty_[0] == 'opt': ty_ = ty_[1]
        if isinstance(ty_, tuple) and ty_[0] == 'cls': return self.repo.cls(ty_[1])
        if x.op == 'ite':
            a, b = self.cls_of_t(x.args[1]), self.cls_of_t(x.args[2])
            if a is b: return a
            if a is None and x.args[1] is NONE: return b
            if b is None and x.args[2] is NONE: return a
        return None

    def invert(self, st, v, x):
        ci = self.cls_of(st, v)
        if ci is None: return mk('invert', x, ty=x.ty)
        if ci.name == 'BaseMap' and 'BaseMap.__invert__' in self.opaque: return bm_trev(x)
        return self.call_method(st, v, '__invert__', [], {})

    def e_BinOp(self, st, e, ctx):
        a = self.ev(st, e.left, ctx)
        b = self.ev(st, e.right, ctx)
        if isinstance(e.op, ast.Mod):
            x = self.term(st, a)
            if x.ty == 'str' or (x.op == 'const' and isinstance(x.args[0], str)):
                if x.op == 'const': return pct_format(x.args[0], b, self, st)
                return mk('pct', x, self.term(st, b), ty='str')
        return self.binop(st, type(e.op).__name__, a, b)

    def binop(self, st, op, a, b):
        ka, kb = self.kind(st, a), self.kind(st, b)
        if ka == 'set' or kb == 'set' or (isinstance(a, T) and isinstance(a.ty, tuple) and a.ty[0] == 'set'):
            x, y = self.term(st, a), self.term(st, b)
            if op == 'BitOr': return t.setof(t.cat(set_stream(x) + set_stream(y)))
            return mk('set' + op, x, y, ty=x.ty)
        if op in ('Add', 'Mult') and (ka == 'list' or kb == 'list'):
            # list arithmetic makes a new list
            x, y = self.term(st, a), self.term(st, b)
            r = lift(lambda u, v: self.binop_t(op, u, v), [x, y])
            return self.new_ref(st, ('list', r))
        x, y = self.term(st, a), self.term(st, b)
        ca, cb = self.cls_of(st, a) or self.cls_of_t(x), self.cls_of(st, b) or self.cls_of_t(y)
        if op in ('Mult', 'Pow') and (ca is not None or cb is not None):
            r = self.obj_mult(st, op, a, x, ca, b, y, cb)
            if r is not None: return r
        return lift(lambda u, v: self.binop_t(op, u, v), [x, y]) if op in ('Add', 'Mult', 'BitOr', 'BitAnd', 'BitXor') else self.binop_t(op, x, y)

    def seqlike(self, x):
        return x.op in ('cat', 'setidx', 'scatter') or (isinstance(x.ty, tuple) and x.ty[0] in ('seq', 'tuple')) or \
            (isinstance(x.ty, tuple) and x.ty[0] == 'cls' and x.ty[1] in ('Point', 'Proto', 'Pattern'))

    def strlike(self, x):
        return x.ty in ('str', ('opt', 'str')) or x.op in ('strcat', 'str', 'join') or (x.op == 'const' and isinstance(x.args[0], str))

    def binop_t(self, op, x, y):
        if op == 'Add':
            if self.strlike(x) or self.strlike(y): return strcat([x, y])
            if self.seqlike(x) or self.seqlike(y): return t.concat(self.stream_t(x), self.stream_t(y))
            return t.add(x, y)
        if op == 'Sub': return t.sub(x, y)
        if op == 'Mult':
            if self.strlike(x) or self.strlike(y): return mk('strrep', x, y, ty='str')
            if self.seqlike(x): return t.repeat(x, y)
            if self.seqlike(y): return t.repeat(y, x)
            return t.mul(x, y)
        if op == 'Div': return t.div(x, y)
        if op == 'FloorDiv': return t.floordiv(x, y)
        if op == 'Mod': return t.mod(x, y)
        if op == 'Pow': return t.power(x, y)
        boolish = lambda z: t.is_boolop(z) or z.ty == 'bool'
        if op == 'BitXor':
            if boolish(x) and boolish(y): return t.xor_(x, y)
            return mk('bitxor', *sorted([x, y], key=t.sortkey))
        if op == 'BitAnd':
            if boolish(x) and boolish(y): return t.and_(x, y)
            return mk('bitand', *sorted([x, y], key=t.sortkey))
        if op == 'BitOr':
            if boolish(x) and boolish(y): return t.or_(x, y)
            if self.dictlike(x): return mk('dictor', x, y, ty=x.ty)
            return mk('bitor', *sorted([x, y], key=t.sortkey))
        return mk('bin' + op, x, y)

    def obj_mult(self, st, op, a, x, ca, b, y, cb):
        na, nb = ca.name if ca else None, cb.name if cb else None
        if op == 'Pow':
            if na == 'BaseMap' and 'BaseMap.__pow__' in self.opaque:
                if y.op == 'num' and y.args[0] == -1: return bm_inv(x)
                if y is ONE: return x
                return mk('bmpow', x, y, ty=('cls', 'BaseMap'))
            if ca is not None and self.repo.find_method(ca, '__pow__'):
                return self.call_method(st, a, '__pow__', [b], {})
            return None
        if na == 'BaseMap' and nb == 'BaseMap' and 'BaseMap.__mul__' in self.opaque:
            return bm_mul(x, y)
        if na == 'BaseMap' and nb is not None and nb != 'BaseMap':
            m = self.repo.find_method(cb, '__rmul__')
            if m is None: return None
            if 'act' in self.opaque and nb != 'Spec':
                return lift(lambda p, q: act_on(p, q, ('cls', nb)), [x, y])
            return self.call_method(st, b, '__rmul__', [a], {})
        if ca is not None and self.repo.find_method(ca, '__mul__') is not None:
            return self.call_method(st, a, '__mul__', [b], {})
        if cb is not None and self.repo.find_method(cb, '__rmul__') is not None:
            if na == 'Spec' and 'act' in self.opaque and nb != 'Spec':
                return lift(lambda p, q: mk('act', p, q, ty=('cls', nb)), [x, y])
            return self.call_method(st, b, '__rmul__', [a], {})
        return None

    def e_Compare(self, st, e, ctx):
        vals = [self.ev(st, e.left, ctx)] + [self.ev(st, x, ctx) for x in e.comparators]
        r = TRUE
        for i, op in enumerate(e.ops):
            r = t.and_(r, self.compare(st, type(op).__name__, vals[i], vals[i + 1]))
        return r

    def compare(self, st, op, a, b):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (isinstance(a, (ClassV, ExtV, FuncV)) or isinstance(b, (ClassV, ExtV, FuncV))):
            x, y = self.term(st, a), self.term(st, b)
            r = t.eq(x, y)
            return r if op in ('Is', 'Eq') else t.not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            return r if op == 'In' else t.not_(r)
        x, y = self.term(st, a), self.term(st, b)
        if op in ('Is', 'Eq'):
            if op == 'Is' and (x is NONE or y is NONE): return t.isnone(y if x is NONE else x)
            return self.equal(st, a, b, x, y)
        if op in ('IsNot', 'NotEq'):
            if op == 'IsNot' and (x is NONE or y is NONE): return t.not_(t.isnone(y if x is NONE else x))
            return t.not_(self.equal(st, a, b, x, y))
        ca = self.cls_of(st, a) or self.cls_of_t(x)
        return {'Lt': t.lt, 'Gt': t.gt, 'LtE': t.le, 'GtE': t.ge}[op](self.numv(x), self.numv(y))

    def numv(self, x): return x

    def equal(self, st, a, b, x, y):
        return self.eq_t(x, y)

    def eq_t(self, x, y):
        return t.eq(x, y)

    def contains(self, st, a, b):
        x = self.term(st, a)
        if isinstance(b, Ref):
            c = st.store[b.id]
            if not isinstance(c, Obj):
                if c[0] == 'list': return lift(lambda u: in_seq(u, c[1]), [x])
                if c[0] == 'set': return lift(lambda u: in_seq(u, c[1]), [x])
                if c[0] == 'kw':
                    if x.op == 'const': return const(x.args[0] in c[1])
                    raise Unsupported('in kwargs')
                return lift(lambda u: in_dict(u, self.mkdict(c[1])), [x])
        y = self.term(st, b)
        if self.is_memo(y): return FALSE

        def f(u, v):
            if v.op == 'dictof' or (isinstance(v.ty, tuple) and v.ty[0] == 'dict'): return in_dict(u, v)
            if v.op == 'setof': return in_seq(u, t._unbag(v.args[0]))
            if v.op == 'cat': return in_seq(u, v)
            return mk('in', u, v, ty='bool')
        return lift(f, [x, y])

    def e_Starred(self, st, e, ctx): return StarV(self.ev(st, e.value, ctx))

    def e_Lambda(self, st, e, ctx):
        fi = FuncInfo(ctx.fi.module, None, e, outer=ctx.fi)
        return FuncV(fi, ctx.frame)

    # comprehensions
    def comp(self, st, e, ctx, mkelem):
        s2 = st.copy()
        fr = self.new_frame(s2)
        s2.frames[fr]['__parent__'] = ctx.frame
        s2.frames[fr]['__owner__'] = s2.frames[ctx.frame].get('__owner__')
        cx = Ctx(fr, ctx.fi)

        def gen(k):
            if k == len(e.generators):
                return [t.elem(TRUE, mkelem(s2, cx))]
            g = e.generators[k]
            it = self.stream(s2, self.ev(s2, g.iter, cx))

            def each(x):
                self.assign(s2, g.target, x, cx)
                c = TRUE
                for i in g.ifs: c = t.and_(c, self.cond(s2, i, cx))
                if c is FALSE: return []
                saved = dict(s2.frames[fr])
                r = t.guard_pieces(c, gen(k + 1))
                s2.frames[fr] = saved
                return r
            return t.pieces(t.map_stream(it, each))
        r = t.cat(gen(0))
        if any(k[0] in ('base', 'fld', 'cont') or (k[0] == 'env' and k[1] != fr) for k in self.changed(st, s2)):
            return self.comp_loop(st, e, ctx)
        return r

    def comp_loop(self, st, e, ctx):
        """a comprehension whose elements change something: the loop it stands for"""
        body = self.comp_loops.get(id(e))
        if body is None:
            acc = ast.Name('__acc', ast.Load())
            if isinstance(e, ast.DictComp): s = ast.Assign([ast.Subscript(acc, e.key, ast.Store())], e.value)
            else: s = ast.Expr(ast.Call(ast.Attribute(acc, 'add' if isinstance(e, ast.SetComp) else 'append', ast.Load()), [e.elt], []))
            for g in reversed(e.generators):
                for c in reversed(g.ifs): s = ast.If(c, [s], [])
                s = ast.For(g.target, g.iter, [s], [])
            ast.copy_location(s, e); ast.fix_missing_locations(s)
            body = self.comp_loops[id(e)] = (e, s)
        fr = self.new_frame(st)
        st.frames[fr]['__parent__'] = ctx.frame
        st.frames[fr]['__owner__'] = st.frames[ctx.frame].get('__owner__')
        kind = 'dict' if isinstance(e, ast.DictComp) else 'set' if isinstance(e, ast.SetComp) else 'list'
        ref = st.frames[fr]['__acc'] = self.new_ref(st, (kind, t.cat([])))
        self.block([body[1]], st, Ctx(fr, ctx.fi))
        return st.store[ref.id][1]

    def e_ListComp(self, st, e, ctx):
        return self.new_ref(st, ('list', self.comp(st, e, ctx, lambda s, c: self.term(s, self.ev(s, e.elt, c)))))

    def e_GeneratorExp(self, st, e, ctx):
        return self.comp(st, e, ctx, lambda s, c: self.term(s, self.ev(s, e.elt, c)))

    def e_SetComp(self, st, e, ctx):
        return self.new_ref(st, ('set', self.comp(st, e, ctx, lambda s, c: self.term(s, self.ev(s, e.elt, c)))))

    def e_DictComp(self, st, e, ctx):
        return self.new_ref(st, ('dict', self.comp(st, e, ctx, lambda s, c: mk('kv', self.term(s, self.ev(s, e.key, c)), self.term(s, self.ev(s, e.value, c))))))

    # subscripts
    def e_Subscript(self, st, e, ctx):
        b = self.ev(st, e.value, ctx)
        if isinstance(b, (ClassV, ExtV)): return b
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            lo = self.term(st, self.ev(st, sl.lower, ctx)) if sl.lower is not None else None
            up = self.term(st, self.ev(st, sl.upper, ctx)) if sl.upper is not None else None
            if lo is NONE: lo = None
            if up is NONE: up = None
            s_ = self.stream(st, b)
            isl = self.kind(st, b) == 'list'
            if sl.step is not None:
                k = self.term(st, self.ev(st, sl.step, ctx))
                if k.op == 'num' and k.args[0] == -1 and lo is None and up is None: r = t.reversed_(s_)
                elif k is ONE: r = t.slice_(s_, lo, up)
                else: return mk('stepslice', s_, lo or NONE, up or NONE, k)
            elif lo is None and up is None: r = s_
            else: r = t.slice_(s_, lo, up)
            return self.new_ref(st, ('list', r)) if isl else r
        if isinstance(b, tuple):
            i = self.term(st, self.ev(st, e.slice, ctx))
            if i.op == 'num': return b[int(i.args[0])]
        i = self.term(st, self.ev(st, e.slice, ctx))
        if self.kind(st, b) == 'kw':
            if i.op == 'const': return st.store[b.id][1][i.args[0]]
            raise Unsupported('kwargs index')
        return self.index(st, b, i)

    def index(self, st, b, i):
        if isinstance(b, Ref):
            c = st.store[b.id]
            if isinstance(c, Obj):
                if c.seqv is not None: return t.at(c.seqv, i)
                x = self.term(st, b)
            elif c[0] == 'list': return t.at(c[1], i)
            else: x = self.term(st, b)
        else: x = self.term(st, b)
        return lift(self.index_t, [x, i])

    def index_t(self, x, i):
        if x.op == 'dictof' or (isinstance(x.ty, tuple) and x.ty[0] == 'dict'):
            return dict_get(x, i)
        if x.op == 'dget': 
            return t.at(x, i) if not (i.op == 'const') else dict_get(x, i)
        x = self.stream_t(x) if x.op == 'new' or x.ty == ('cls', 'Pattern') else x
        return t.at(x, i)

    # attributes
    def e_Attribute(self, st, e, ctx):
        b = self.ev(st, e.value, ctx)
        return self.getattr(st, b, e.attr, e.value, ctx)

    def getattr(self, st, b, name, node=None, ctx=None):
        if isinstance(b, ModV): return self.modname(st, b.mi, name, None)
        if isinstance(b, ExtV): return ExtV(b.name + '.' + name)
        if isinstance(b, ClassV):
            m = self.repo.find_method(b.ci, name)
            if m is not None:
                if m.is_classm(): return FuncV(m, None, b, b.ci)
                return FuncV(m, None, None, b.ci)
            c = self.repo.find_const(b.ci, name)
            if c is not None:
                if isinstance(c[1], ast.Call) and ast.unparse(c[1].func).endswith('namedtuple'):
                    return ExtV('namedtuple:' + ','.join(namedtuple_fields(c[1])))
                if isinstance(c[1], (ast.Dict, ast.List, ast.Set)) or isinstance(c[1], ast.Call):
                    # class-level mutable constant: a cache shared by all instances (see C07)
                    return mk('classvar', b.ci.name, name, ty=ty.of_ann(b.ci.annots.get(name), self.repo, b.ci))
                return self.const_value(st, c[0].module, c[1], name)
            if name in b.ci.nested: return ClassV(b.ci.nested[name])
            if name == '__name__': return const(b.ci.name)
            return BoundB(b, name, None)
        if isinstance(b, SuperV):
            m = self.repo.find_method(self.dyn_cls(st, b), name, after=b.cls)
            if m is not None: return FuncV(m, None, b.obj, b.cls)
            return BoundB(b, name, None)
        if isinstance(b, Ref):
            c = st.store[b.id]
            if isinstance(c, Obj):
                if name == '__class__': return ClassV(c.cls)
                if name in c.fields: return c.fields[name]
                m = self.repo.find_method(c.cls, name)
                if m is not None:
                    if m.is_property(): return self.call_method(st, b, name, [], {})
                    return self.bind(m, b, c.cls)
                cc = self.class_attr(st, c.cls, name)
                if cc is not None: return cc
                if c.base is not None: return self.wrap_field(self.attr_of_term(c.base, name, c.cls))
                if c.seqv is not None: return BoundB(b, name, None)
                raise Unsupported('attribute %s not set' % name)
            lv = self.lvalue(st, node, ctx) if node is not None else None
            return BoundB(b, name, lv)
        if isinstance(b, CondV):
            raise Unsupported('attribute of conditional callable')
        x = self.term(st, b)
        ci = self.cls_of_t(x)
        if ci is not None and x.op != 'ite':
            if name == '__class__': return ClassV(ci)
            m = self.repo.find_method(ci, name)
            if m is not None:
                if m.is_property(): return self.call_method(st, x, name, [], {})
                return self.bind(m, x, ci)
            cc = self.class_attr(st, ci, name)
            if cc is not None: return cc
            if ci.name in ('Point', 'Proto', 'Pattern') and name in LISTM:
                return BoundB(x, name, None)
            if any(name in c.methods and not c.methods[name].is_property() and ci in self.repo.mro(c) for c in self.repo.classes.values()):
                return FieldOrMethod(x, name, None)      # only subclasses define it
            return self.attr_of_term(x, name, ci)
        if ci is not None:
            m = self.repo.find_method(ci, name)
            if m is not None and not m.is_property():
                return self.bind(m, x, ci)
            return lift(lambda y: self.term(st, self.getattr(st, y, name)), [x])
        if x.op == 'ite' and not self.strlike(x):
            leaves = ite_leaves(x)
            if any(self.cls_of_t(y) is not None for y in leaves):
                return lift(lambda y: self.term(st, self.getattr(st, y, name)) if y is not NONE and y is not t.BOT else t.BOT, [x])
        lv = self.lvalue(st, node, ctx) if node is not None else None
        if self.builtin_method(x, name):
            return BoundB(x, name, lv)
        if isinstance(x.ty, tuple) and x.ty[0] in ('seq', 'dict', 'set', 'tuple') or x.op in ('cat', 'dictof', 'setof'):
            nt = name
            if x.op == 'cat' and name not in LISTM: pass
            return BoundB(x, name, lv)
        if x.ty in ('num', 'int') and name in ('numerator', 'denominator'):
            return mk(name, x, ty='int') if not (t.is_int(x)) else (x if name == 'numerator' else ONE)
        return FieldOrMethod(x, name, lv)

    def builtin_method(self, x, name):
        return self.strlike(x) or name in ('items', 'values', 'keys', 'append', 'add', 'extend', 'format', 'strip', 'split', 'join', 'lower', 'upper', 'islower', 'isupper', 'startswith', 'endswith', 'lstrip', 'rstrip', 'copy', 'pop', 'setdefault', 'update')

    def wrap_field(self, x): return x

    def class_attr(self, st, ci, name):
        c = self.repo.find_const(ci, name)
        if c is not None and not ci.is_dataclass:
            if isinstance(c[1], ast.Call) and ast.unparse(c[1].func).endswith('namedtuple'):
                return ExtV('namedtuple:' + ','.join(namedtuple_fields(c[1])))
            if isinstance(c[1], (ast.Dict, ast.List, ast.Set, ast.Call)):
                return mk('classvar', ci.name, name, ty=ty.of_ann(ci.annots.get(name), self.repo, ci))
            return self.const_value(st, c[0].module, c[1], name)
        for k in self.repo.mro(ci):
            if name in k.nested: return ClassV(k.nested[name])
        return None

    def dyn_cls(self, st, b):
        o = b.obj
        if isinstance(o, Ref) and isinstance(st.store[o.id], Obj): return st.store[o.id].cls
        if isinstance(o, ClassV): return o.ci
        if isinstance(o, T):
            c = self.cls_of_t(o)
            if c is not None: return c
        return b.cls

    def bind(self, m, obj, ci):
        if m.is_static(): return FuncV(m, None, None, ci)
        if m.is_classm(): return FuncV(m, None, ClassV(ci), ci)
        return FuncV(m, None, obj, ci)

    def attr_of_term(self, x, name, ci=None):
        def f(x):
            if x is NONE or x is t.BOT: return t.BOT
            if x.op == 'new':
                d = dict(x.args[1])
                if name in d: return d[name]
                if name == 'cubes' and '__seq__' in d: return d['__seq__']
                raise Unsupported('attribute %s of new %s' % (name, x.args[0]))
            if x.op == 'with':
                d = dict(x.args[1])
                if name in d: return d[name]
                return self.attr_of_term(x.args[0], name, ci)
            c = self.cls_of_t(x) or ci
            at_ = None
            if c is not None:
                for k in self.repo.mro(c):
                    at_ = ty.ATTR.get((k.name, name))
                    if at_ is not None: break
                    if name in k.annots:
                        at_ = ty.of_ann(k.annots[name], self.repo, k)
                        break
            r = norm_attr(x, name, c, at_, self)
            if r is not None: return r
            if c is not None and name in self.memo_attrs(c) and not (isinstance(at_, tuple) and at_[0] == 'dict'):
                return NONE      # cold cache
            return mk('attr', x, name, ty=at_)
        return lift(f, [x])

    # -------------------------------------------------------------- calls
    def e_Call(self, st, e, ctx):
        fn = e.func
        direct, self.direct = self.direct == id(e), None
        # logging and statistics have no effect on results (C10 checks the converse)
        if self.is_stats(fn): return unk('stats')
        if isinstance(fn, ast.Name) and fn.id == 'super':
            env = st.frames[ctx.frame]
            me = env.get('self', env.get('cls'))
            if me is None:
                ps = ctx.fi.params()
                me = env.get(ps[0]) if ps else None
            return SuperV(ctx.fi.cls, me)
        f = self.ev(st, fn, ctx)
        if isinstance(f, ExtV) and is_logger(f.name): return NONE
        if isinstance(f, FieldOrMethod):
            return self.opaque_method(st, f, e, ctx)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value, ctx)
                s_ = v if isinstance(v, tuple) else self.stream(st, v)
                if isinstance(s_, tuple): args += list(s_)
                elif t._is_lit(s_): args += [p.args[1] for p in s_.args]
                else: args.append(StarV(s_))
            else:
                v = self.ev(st, a, ctx)
                if isinstance(v, T) and isinstance(f, ExtV) and f.name.split('.')[-1].startswith('heap') and isinstance(a, (ast.Attribute, ast.Subscript)):
                    self._lvs[id(v)] = self.lvalue(st, a, ctx)
                args.append(v)
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(st, k.value, ctx)
                if self.kind(st, v) == 'kw': kw.update(st.store[v.id][1])
                else:
                    x = self.term(st, v)
                    es = const_entries(x)
                    if es is not None and all(isinstance(k_, str) for k_, _, _ in es):
                        for k_, g_, v_ in es:
                            if g_ is TRUE: kw[k_] = v_
                        rest = [t.elem(g_, mk('kv', const(k_), v_)) for k_, g_, v_ in es if g_ is not TRUE]
                        if rest: kw['**'] = mk('dictof', t.cat(rest), ty=x.ty)
                    else: kw['**'] = x
            else: kw[k.arg] = self.ev(st, k.value, ctx)
        self.enter = direct and isinstance(f, FuncV)
        self.raised = []
        try: return self.call(st, f, args, kw, ctx, e)
        finally: self.enter = False

    def call(self, st, f, args, kw, ctx=None, node=None):
        if isinstance(f, CondV):
            a = self.term(st, self.call(st, f.a, list(args), dict(kw), ctx, node))
            b = self.term(st, self.call(st, f.b, list(args), dict(kw), ctx, node))
            return t.ite(f.c, a, b)
        if isinstance(f, PartialV):
            k2 = dict(f.kw); k2.update(kw)
            return self.call(st, f.fn, list(f.args) + list(args), k2, ctx, node)
        if isinstance(f, FuncV): return self.call_func(st, f, args, kw)
        if isinstance(f, ClassV): return self.construct(st, f.ci, args, kw)
        from . import builtins_ as B
        if isinstance(f, ExtV): return B.call_ext(self, st, f.name, args, kw, ctx)
        if isinstance(f, BoundB): return B.call_bound(self, st, f, args, kw, ctx)
        if isinstance(f, T):
            ts = [self.argterm(st, a) for a in args] + [mk('kw', k, self.term(st, v)) for k, v in sorted(kw.items())]
            if f.op == 'ext': return B.call_ext(self, st, f.args[0], args, kw, ctx)
            if f.op == 'class': 
                return self.construct(st, self.repo.cls(f.args[0]), args, kw)
            if f.op == 'ite':
                return lift(lambda g: self.term(st, self.call(st, g, args, kw, ctx, node)) if g.op == 'lam' else mk('call', g, *ts), [f])
            if f.op == 'lam' and not kw and int(f.args[1].args[0]) == len(ts) and not any(isinstance(a, StarV) for a in args):
                mp = {b: ts[b.args[1]] for b in t._bvs(f)}
                return t.subst(f.args[2], mp)
            rt = None
            if f.op == 'attr' and f.args[1] == 'ratio_func': rt = 'num'
            if f.op == 'attr' and f.args[1] in ('next_func', 'prev_func'): rt = ('seq', ('tuple', (ty.CUBE, None)))
            return t.app('call', [f] + ts, rt)
        raise Unsupported('call of %r' % (f,))

    def argterm(self, st, a):
        if isinstance(a, StarV): return mk('star', a.v)
        return self.term(st, a)

    def opaque_method(self, st, f, e, ctx):
        args = [self.ev(st, a, ctx) for a in e.args if not isinstance(a, ast.Starred)]
        ts = [self.term(st, a) for a in args]
        ks = [mk('kw', k.arg or '**', self.term(st, self.ev(st, k.value, ctx))) for k in sorted(e.keywords, key=lambda k: k.arg or '')]
        # a method of a value of unknown class: resolve by name when the repository has one class defining it
        cands = {}
        for ci in self.repo.classes.values():
            if f.name in ci.methods: cands[ci.name] = ci.methods[f.name]
        if cands and not any(isinstance(a, ast.Starred) for a in e.args):
            fis = list(cands.values())
            npos = 1 + len(args)
            fit = [z for z in fis if z.node.args.vararg or (len(z.node.args.args) >= npos
                   and all(k.arg is None or z.node.args.kwarg or k.arg in [y.arg for y in z.node.args.args + z.node.args.kwonlyargs] for k in e.keywords)
                   and npos + sum(1 for k in e.keywords if k.arg) >= len(z.node.args.args) - len(z.node.args.defaults))]
            fis = fit or fis
            fi = fis[0]
            bound = self.bind_args(st, fi, [f.x] + args, {k.arg: self.ev(st, k.value, ctx) for k in e.keywords if k.arg}, partial=True)
            rt = ty.of_ann(fi.node.returns, self.repo, fi.cls)
            if isinstance(rt, tuple) and rt[0] == 'cls' and len(fis) > 1: rt = None
            return t.app('m:' + f.name, [f.x] + [self.term(st, v) for n, v in bound], rt)
        return t.app('m:' + f.name, [f.x] + ts + ks)

    # repo functions
    def bind_args(self, st, fi, args, kw, partial=False):
        """[(param, value)] for all parameters except the receiver, defaults filled in"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        kwx = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: out[k] = v
            else: kwx[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defs[x.arg] = d
        order = names + [x.arg for x in a.kwonlyargs]
        res = []
        for n in order:
            if n in out: res.append((n, out[n]))
            elif n in defs:
                fr = self.new_frame(st)
                try: dv = self.ev(st, defs[n], Ctx(fr, FuncInfo(fi.module, fi.cls, fi.node, fi.outer)))
                finally: st.frames.pop(fr, None)
                if '**' in kwx and not isinstance(dv, Ref):
                    k_ = const(n)
                    dv = lift(lambda d: t.ite(in_dict(k_, d), dict_get(d, k_), self.term(st, dv)), [kwx['**']])
                res.append((n, dv))
            elif '**' in kwx: res.append((n, dict_get(kwx['**'], const(n))))
            elif partial: continue
            else: raise Unsupported('missing argument %s of %s' % (n, fi.qual))
        if '**' in kwx:
            es = const_entries(kwx['**'])
            if es is not None and all(k_ in order and k_ not in out for k_, _, _ in es): del kwx['**']
        if a.vararg: res.append(('*' + a.vararg.arg, extra))
        elif extra: raise Unsupported('too many arguments for ' + fi.qual)
        if a.kwarg: res.append(('**' + a.kwarg.arg, kwx))
        elif kwx and set(kwx) != {'**'}: raise Unsupported('unexpected keyword for ' + fi.qual)
        if partial: res = [(n, v) for n, v in res[1:] if not n.startswith('*')]
        return res

    def is_opaque(self, fi, recv_exact):
        if fi.qual in self.opaque: return True
        if fi.cls is not None:
            for c in self.repo.mro(fi.cls):
                if c.name + '.' + fi.name in self.opaque: return True
        return False

    def overridden_below(self, ci, name):
        for c in self.repo.classes.values():
            if c is not ci and ci in self.repo.mro(c) and name in c.methods: return True
        return False

    def call_func(self, st, f, args, kw, force_inline=False):
        fi = f.fi
        enter, self.enter = self.enter, False
        recv = f.self_v
        allargs = ([recv] if recv is not None else []) + list(args)
        if any(isinstance(a, StarV) for a in args) or '**' in kw:
            stars = True
        else: stars = False
        exact = True
        if recv is not None and f.cls is not None and fi.cls is not None and not isinstance(recv, (ClassV,)):
            ci = self.cls_of(st, recv) or (self.cls_of_t(recv) if isinstance(recv, T) else None)
            via_super = False
            exact = isinstance(recv, Ref) and isinstance(st.store[recv.id], Obj) and st.store[recv.id].exact
            if isinstance(recv, T) and all(y.op == 'new' for y in ite_leaves(recv)): exact = True
            if ci is not None and not exact and self.overridden_below(ci, fi.name) and fi.name != '__init__' and not force_inline \
                    and self.repo.find_method(ci, fi.name) is fi:
                return self.opaque_call(st, f, fi, allargs, kw)
        key = fi.qual
        if not force_inline and self.is_opaque(fi, exact) :
            # the function under analysis itself (recursion) is opaque too
            return self.opaque_call(st, f, fi, allargs, kw)
        if fi.qual in self.overrides and fi.outer is None:
            fi2 = self.overrides[fi.qual]
        else: fi2 = fi
        if self.stack.count(fi2) >= self.unroll or len(self.stack) > MAXDEPTH:
            return self.opaque_call(st, f, fi, allargs, kw)
        if stars:
            try: bound = self.bind_args(st, fi2, allargs, kw)
            except Unsupported: return self.opaque_call(st, f, fi, allargs, kw)
            if any(isinstance(v, StarV) for n, v in bound) :
                return self.opaque_call(st, f, fi, allargs, kw)
        else:
            bound = self.bind_args(st, fi2, allargs, kw)
        self.inlined.add(fi2.qual)
        frame = self.new_frame(st)
        env = st.frames[frame]
        owner = f.cls or fi2.cls
        for n, v in bound:
            if n.startswith('**'): env[n[2:]] = self.new_ref(st, ('kw', dict(v))) if '**' not in v else (v['**'] if len(v) == 1 else self.kwmix(st, v))
            elif n.startswith('*'): env[n[1:]] = tuple(v) if any(isinstance(x, (Ref, FuncV)) for x in v) else t.lit([self.argterm(st, x) for x in v])
            else:
                a_ty = self.param_ty(fi2, n)
                if isinstance(v, T) and v.ty is None and a_ty is not None and v.op not in ('ite', 'const', 'unk', 'bv'): v.ty = a_ty
                env[n] = v
        env['__parent__'] = f.frame
        if enter and not fi2.is_generator(): self.propframes.add(frame)
        self.stack.append(fi2)
        saved_dead = st.dead
        try:
            v, fin = self.run_body(st, fi2, frame, owner)
        finally:
            self.stack.pop()
        if fin is not st: self.adopt(st, fin)
        st.dead = saved_dead
        # closures created in the frame keep it alive
        if not isinstance(v, FuncV): 
            if not any(isinstance(x, FuncV) and x.frame == frame for env2 in st.frames.values() for x in env2.values()) or True:
                keep = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in own_nodes(fi2.node))
                if not keep: st.frames.pop(frame, None)
        return v

    def kwmix(self, st, v):
        raise Unsupported('mixed kwargs')

    def opaque_call(self, st, f, fi, allargs, kw):
        self.used_opaque.add(fi.qual)
        a = fi.node.args
        if '**' in kw and not self.mutates(fi):
            es = const_entries(kw['**'])
            if es is not None and len(es) <= 3 and all(isinstance(k, str) for k, _, _ in es):
                # optional keywords: one call for every combination of those present
                k, g, v = es[0]
                base = {x: y for x, y in kw.items() if x != '**'}
                if len(es) > 1: base['**'] = mk('dictof', t.cat([t.elem(g_, mk('kv', const(k_), v_)) for k_, g_, v_ in es[1:]]), ty=kw['**'].ty)
                x = self.opaque_call(st, f, fi, allargs, {**base, k: v})
                y = self.opaque_call(st, f, fi, allargs, base)
                r = t.ite(g, self.term(st, x), self.term(st, y))
                rt = ty.of_ann(fi.node.returns, self.repo, (f.cls or fi.cls))
                if isinstance(rt, tuple) and rt[0] == 'cls' and rt[1] in ty.MUTABLE and self.repo.cls(rt[1]): return self.new_ref(st, Obj(self.repo.cls(rt[1]), r, {}, False))
                return r
        try:
            bound = self.bind_args(st, fi, allargs, kw, partial=False)
        except Unsupported:
            ts = [self.argterm(st, x) for x in allargs] + [mk('kw', k, self.term(st, v)) for k, v in sorted(kw.items())]
            return t.app('m:' + fi.name, ts, ty.of_ann(fi.node.returns, self.repo, fi.cls))
        ts = []
        first = True
        mut = self.mutates(fi)
        for n, v in bound:
            if n.startswith('**'):
                for k, x in sorted(v.items()): ts.append(mk('kw', k, self.term(st, x)))
            elif n.startswith('*'): ts += [self.argterm(st, x) for x in v]
            elif isinstance(v, ClassV):
                if first and n == 'cls': ts.append(mk('class', fi.cls.name if fi.cls else v.ci.name))
                else: ts.append(self.term(st, v))
            else:
                x = self.argterm(st, v)
                if self.wants_iter(fi, n) and not isinstance(v, StarV): x = lift(self.stream_t, [x])
                if x is NONE or True: ts.append(x)
            first = False
        rt = ty.of_ann(fi.node.returns, self.repo, (f.cls or fi.cls))
        if rt is None: rt = RET_TY.get(fi.name)
        if self.returns_self_type(fi) and ts and isinstance(ts[0].ty, tuple) and ts[0].ty[0] == 'cls': rt = ts[0].ty
        name = 'm:' + fi.name
        if fi.name == 'id_map': pass
        res = norm_call(fi, ts, rt, self)
        if res is None: res = t.app(name, ts, rt)
        for n, v in bound:
            if n in mut and isinstance(v, Ref) and isinstance(st.store[v.id], Obj):
                o = st.store[v.id]
                nb = t.app('fx:%s#%s' % (fi.name, n), ts, ('cls', o.cls.name))
                st.store[v.id] = Obj(o.cls, nb, {}, o.exact)
            elif n in mut and not isinstance(v, Ref): raise Unsupported('effect of %s on a value' % fi.name)
        if isinstance(rt, tuple) and rt[0] == 'cls' and rt[1] in ty.MUTABLE and self.repo.cls(rt[1]) and isinstance(res, T) and res.op not in ('var', 'attr'):
            return self.new_ref(st, Obj(self.repo.cls(rt[1]), res, {}, False))
        return res

    def wants_iter(self, fi, n):
        pt = self.param_ty(fi, n)
        return isinstance(pt, tuple) and pt[0] == 'seq'

    def returns_self_type(self, fi):
        r = fi.node.returns
        return isinstance(r, ast.Name) and r.id == 'Self'

    def mutates(self, fi, seen=None):
        """names of parameters (of mutable classes) the function changes in place"""
        if fi in self.mut_cache: return self.mut_cache[fi]
        seen = seen or set()
        if fi in seen: return set()
        seen = seen | {fi}
        out = set()
        params = fi.params()
        mutp = set()
        for i, p in enumerate(params):
            if i == 0 and fi.cls is not None and p == 'self':
                if fi.cls.name in ty.MUTABLE: mutp.add(p)
            else:
                pt = self.param_ty(fi, p)
                if isinstance(pt, tuple) and pt[0] == 'cls' and pt[1] in ty.MUTABLE: mutp.add(p)
        if mutp and fi.name != '__init__':
            for n in ast.walk(fi.node):
                tg = []
                if isinstance(n, ast.Assign): tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tg = [n.target]
                elif isinstance(n, ast.Delete): tg = n.targets
                elif isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute):
                        r = root_name(f.value)
                        if r in mutp and not self.is_stats(f):
                            if isinstance(f.value, ast.Name):
                                pc = fi.cls if r == 'self' else self.repo.cls(self.param_ty(fi, r)[1])
                                m = self.repo.find_method(pc, f.attr) if pc else None
                                if m is not None:
                                    mm = self.mutates(m, seen)
                                    if 'self' in mm: out.add(r)
                                    for q, aa in zip(m.params()[1:], n.args):
                                        if q in mm and root_name(aa) in mutp: out.add(root_name(aa))
                                    for kk in n.keywords:
                                        if kk.arg in mm and root_name(kk.value) in mutp: out.add(root_name(kk.value))
                            elif f.attr in INPLACE: out.add(r)
                        elif isinstance(f.value, ast.Name) and f.value.id == 'self' and fi.cls is not None:
                            m = self.repo.find_method(fi.cls, f.attr)
                            if m is not None:
                                mm = self.mutates(m, seen)
                                for q, aa in zip(m.params()[1:], n.args):
                                    if q in mm and root_name(aa) in mutp: out.add(root_name(aa))
                    if isinstance(f, (ast.Name, ast.Attribute)) and (getattr(f, 'id', None) or getattr(f, 'attr', None)) in ('heappush', 'heappop', 'heapify', 'heappushpop', 'heapreplace'):
                        if n.args and root_name(n.args[0]) in mutp: out.add(root_name(n.args[0]))
                for x in tg:
                    for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]):
                        if isinstance(y, (ast.Attribute, ast.Subscript)) and not self.is_stats(y) and root_name(y) in mutp: out.add(root_name(y))
        self.mut_cache[fi] = out
        return out

    def call_method(self, st, recv, name, args, kw):
        if isinstance(recv, T) and recv.op == 'ite':
            leaves = ite_leaves(recv)
            cs = {c.name for c in (self.cls_of_t(y) for y in leaves) if c is not None}
            if len(cs) > 1 or any(y.op == 'new' for y in leaves):
                return lift(lambda y: self.term(st, self.call_method(st, y, name, args, kw)) if self.cls_of_t(y) else mk('m:' + name, y, *[self.term(st, a) for a in args]), [recv])
        ci = self.cls_of(st, recv) or self.cls_of_t(recv)
        m = self.repo.find_method(ci, name)
        return self.call_func(st, self.bind(m, recv, ci), args, kw)

    # constructors
    def construct(self, st, ci, args, kw):
        if args and isinstance(args[-1], StarV) and not any(isinstance(a, StarV) for a in args[:-1]) and not kw:
            # the length of the starred sequence is fixed by the signature
            fi = self.repo.find_method(ci, '__init__') or self.repo.find_method(ci, '__new__')
            if fi is not None and not fi.node.args.vararg and not fi.node.args.defaults and not fi.node.args.kwonlyargs:
                n = len(fi.node.args.posonlyargs + fi.node.args.args) - 1 - (len(args) - 1)
                if n > 0:
                    s_ = self.stream(st, args[-1].v)
                    args = list(args[:-1]) + [t.at(s_, t.num(j)) for j in range(n)]
        if any(isinstance(a, StarV) for a in args):
            return t.app('new*', [mk('class', ci.name)] + [self.argterm(st, a) for a in args] + [mk('kw', k, self.term(st, v)) for k, v in sorted(kw.items())], ('cls', ci.name))
        if 'new:' + ci.name in self.opaque:
            fi = self.repo.find_method(ci, '__init__') or self.repo.find_method(ci, '__new__')
            bound = self.bind_args(st, fi, [NONE] + list(args), kw)[1:]
            fs = []
            for n, v in bound:
                if n.startswith('**'):
                    for k, x in sorted(v.items()): fs.append((k, self.term(st, x)))
                elif n.startswith('*'): fs.append((n, t.lit([self.argterm(st, x) for x in v])))
                else:
                    x = self.term(st, v)
                    if self.wants_iter(fi, n): x = lift(self.stream_t, [x])
                    fs.append((n, x))
            x = t.app('make:' + ci.name, [x for _, x in fs], ('cls', ci.name))
            return self.new_ref(st, Obj(ci, x, {}, True)) if ci.name in ty.MUTABLE else x
        if ci.is_dataclass and self.repo.find_method(ci, '__init__') is None:
            fields = []
            for c in reversed(self.repo.mro(ci)):
                for n in c.annots:
                    if n not in fields: fields.append(n)
            d = dict(zip(fields, args))
            d.update(kw)
            for n in fields:
                if n not in d:
                    cc = self.repo.find_const(ci, n)
                    if cc is None: raise Unsupported('missing field ' + n)
                    d[n] = self.const_value(st, cc[0].module, cc[1], n)
            if ci.name in ty.MUTABLE: return self.new_ref(st, Obj(ci, None, d, True))
            return self.mknew(ci, tuple((k, self.term(st, v)) for k, v in sorted(d.items())))
        new = self.repo.find_method(ci, '__new__')
        init = self.repo.find_method(ci, '__init__')
        if new is None and init is None:
            # tuple subclass without constructor
            if self.is_tuple_cls(ci):
                s_ = self.stream(st, args[0]) if args else t.cat([])
                return self.tuple_obj(ci, s_)
            nt = self.nt_fields(ci.name)
            if nt:
                d = dict(zip(nt, args)); d.update(kw)
                return self.mknew(ci, tuple((k, self.term(st, v)) for k, v in sorted(d.items())))
            if not args and not kw:
                return self.new_ref(st, Obj(ci, None, {}, True))
            return t.app('new*', [mk('class', ci.name)] + [self.argterm(st, a) for a in args], ('cls', ci.name))
        if new is not None:
            v = self.call_func(st, FuncV(new, None, ClassV(ci), ci), args, kw, force_inline=True)
            if init is None: 
                if isinstance(v, Ref) and isinstance(st.store[v.id], Obj) and ci.name not in ty.MUTABLE: return self.term(st, v)
                return v
        else:
            v = self.new_ref(st, Obj(ci, None, {}, True))
        self.call_func(st, FuncV(init, None, v, ci), args, kw, force_inline=True)
        if ci.name not in ty.MUTABLE: return self.term(st, v)
        return v

    def is_tuple_cls(self, ci):
        return any('tuple' in c.base_names() for c in self.repo.mro(ci))

    def tuple_obj(self, ci, s_):
        if ci.name == 'Point' and isinstance(s_.ty, tuple) and s_.ty == ('cls', 'Point'): return s_
        return mk('new', ci.name, (('__seq__', s_),), ty=('cls', ci.name))


class CondV:
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


class FieldOrMethod(T):
    """attribute of a value of unknown class; a term, unless it is called"""
    __slots__ = ('x', 'name', 'lv')

    def __new__(cls, x, name, lv):
        # hash-consed attribute term with the extra information attached is not possible; wrap
        o = object.__new__(cls)
        r = mk('attr', x, name, ty=UNIQUE_ATTR.get(name))
        o.op, o.args, o.dig, o.fv, o.lvl, o.ty = r.op, r.args, r.dig, r.fv, r.lvl, r.ty
        o.x, o.name, o.lv = x, name, lv
        return o

    def __init__(self, *a): pass

    def real(self): return mk('attr', self.x, self.name)


UNIQUE_ATTR: dict = {}
LISTM = {'index', 'count', '__len__', '__getitem__'}
INPLACE = {'append', 'add', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'discard', 'sort', 'reverse', 'popleft', 'appendleft', 'popitem'}

# defining components, for eta-reduction
PRIMARY = {'Spec': ('base_map', 'pnum'), 'BaseMap': ('coords', 'time_rev'), 'Link': ('entrance', 'exit'),
           '_CubeNode': ('cube', 'state'), 'CurvePoint': ('x', 't'), 'Pattern': ('proto', 'specs')}

RET_TY = {'gen_allowed_specs': ('seq', ('cls', 'Spec')), 'get_inverse': ('cls', 'BaseMap'), 'dim': 'int', 'depth': 'int', 'get_depth': 'int'}


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)): e = e.value
    return e.id if isinstance(e, ast.Name) else None


def is_logger(n):
    return n.split('.')[0] in ('logger', 'logging', 'log') and n.split('.')[-1] in ('info', 'debug', 'warning', 'error', 'critical', 'exception', 'log', 'warn')


EMPTY = ('empty',)


def tjoin(a, b):
    if a == b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] in ('set', 'seq'): return (a[0], tjoin(a[1], b[1]))
        if a[0] == 'tuple' and len(a[1]) == len(b[1]): return ('tuple', tuple(tjoin(x, y) for x, y in zip(a[1], b[1])))
    return None


def vtype(x):
    if x.op == 'cat':
        if x.args and all(p.op == 'elem' and p.args[0] is TRUE for p in x.args): return ('tuple', tuple(vtype(p.args[1]) for p in x.args))
        e = etype(x)
        return ('seq', None if e is EMPTY else e)
    if x.op == 'setof': return ('set', None)
    if t.is_int(x): return 'int'
    return x.ty


def etype(x):
    """sort of the elements of a sequence, None when they differ or are not known"""
    if x.op == 'cat':
        r = EMPTY
        for p in x.args:
            if p.op == 'elem': e = vtype(p.args[1])
            elif p.op == 'for': e = etype(p.args[2])
            else: return None
            if e is EMPTY: continue
            r = e if r is EMPTY else tjoin(r, e)
            if r is None: return None
        return r
    if isinstance(x.ty, tuple) and x.ty[0] == 'seq': return x.ty[1]
    return None


def ite_leaves(x):
    if x.op == 'ite': return ite_leaves(x.args[1]) + ite_leaves(x.args[2])
    return [x]


def namedtuple_fields(call):
    a = call.args[1]
    if isinstance(a, (ast.List, ast.Tuple)): return [x.value for x in a.elts]
    if isinstance(a, ast.Constant): return a.value.replace(',', ' ').split()
    return []


def shallow_subst(x, mp):
    """structural replacement of free variables without renormalisation (only for hashing)"""
    memo = {}

    def go(y):
        if isinstance(y, tuple): return tuple(go(z) for z in y)
        if not isinstance(y, T): return y
        if y in mp: return mp[y]
        if not (y.fv & keys): return y
        r = memo.get(y)
        if r is None:
            args = [go(z) for z in y.args]
            if y.op in ('poly', 'bag', 'ite', 'eq', 'eq0', 'gt0'):
                # order-insensitive digest
                h = sorted(repr_dig(z) for z in args)
                r = mk('h:' + y.op, *h)
            else:
                r = mk('h:' + y.op, *args)
            memo[y] = r
        return r
    keys = frozenset(mp)
    return go(x)


def repr_dig(z):
    import hashlib
    h = hashlib.blake2b(digest_size=10)
    t._dig_args(z, h)
    return h.hexdigest()


# ------------------------------------------------------------------ closed forms of recurrences
def closed_form(S, init, nx, f):
    """value at the start of iteration f of the recurrence S' = nx(S, f), S(0) = init; None if unknown"""
    if nx is S: return init
    if S not in nx.fv:
        # last assigned value
        if f not in nx.fv:
            return t.ite(t.gt(f, ZERO), nx, init)
        prev = t.subst(nx, {f: t.sub(f, ONE)})
        return t.ite(t.gt(f, ZERO), prev, init)
    g = t.fresh('j', 'int')
    # appended pieces
    suf = t.strip_prefix(nx, S)
    if suf is not None:
        if not any(S in p.fv for p in suf):
            body = [t.subst(t.cat([p]), {f: g}) for p in suf]
            ps = [q for b in body for q in t.pieces(b)]
            return t.cat(t.pieces(init) + t.for_pieces({g: 0}, f, ps)) if ps else init
        # growing collection whose guard only asks whether the element is already there
        r = dedupe(S, init, suf, f, g)
        if r is not None: return r
        return None
    pre = t.strip_suffix(nx, S)
    if pre is not None and not any(S in p.fv for p in pre):
        body = t.subst(t.cat(pre), {f: t.sub(t.sub(f, ONE), g)})
        return t.cat(t.for_pieces({g: 0}, f, t.pieces(body)) + t.pieces(init))
    # guarded overwrite:  if c(f): v
    if nx.op == 'ite':
        c, v = split_keep(nx, S)
        if c is not None and S not in c.fv and S not in v.fv:
            if f not in v.fv:
                return t.ite(t.exists({g: 0}, f, t.subst(c, {f: g})), v, init)
            cc, vv = t.subst(c, {f: g}), t.subst(v, {f: g})
            e = t.exists({g: 0}, f, cc)
            # last match: reversed first
            rc, rv = t.subst(cc, {g: t.sub(t.sub(f, ONE), g)}), t.subst(vv, {g: t.sub(t.sub(f, ONE), g)})
            fv_ = t.close('first', {g: 0}, f, rc, rv)
            if fv_.ty is None: fv_.ty = v.ty
            return t.ite(e, fv_, init)
        mm = minmax(nx, S)
        if mm is not None:
            op, v = mm
            if S not in v.fv:
                body = t.cat(t.for_pieces({g: 0}, f, [t.elem(TRUE, t.subst(v, {f: g}))]))
                full = t.cat(t.pieces(t.lit([init])) + t.pieces(body))
                return (t.maxof if op == 'max' else t.minof)(full)
    if nx.op in ('maxof', 'minof'):
        els = nx.args[0].args
        rest = [p for p in els if not (p.op == 'elem' and p.args[1] is S)]
        if len(rest) == len(els) - 1 and not any(S in p.fv for p in rest):
            body = t.subst(t.cat(rest), {f: g})
            full = t.cat(t.pieces(t.lit([init])) + t.for_pieces({g: 0}, f, t.pieces(body)))
            return (t.maxof if nx.op == 'maxof' else t.minof)(full)
    # list slots
    r = slot_update(S, init, nx, f, g)
    if r is not None: return r
    if nx.op == 'cat':
        return elementwise(S, init, nx, f, g)
    # numeric
    if t.is_num(nx) or nx.op == 'ite':
        d = t.sub(nx, S)
        if S not in d.fv:
            return t.add(init, t.sum_({g: 0}, f, t.subst(d, {f: g})))
        p = t._poly(nx) if nx.op != 'ite' else None
        if p is not None:
            a, b = ZERO, ZERO
            ok = True
            for m, c in p.items():
                hit = [(x, e) for x, e in m if x is S]
                if hit:
                    if hit[0][1] is not ONE: ok = False; break
                    restm = tuple((x, e) for x, e in m if x is not S)
                    a = t.add(a, t._from_poly({restm: c}))
                else: b = t.add(b, t._from_poly({m: c}))
            if ok and S not in a.fv and S not in b.fv:
                if b is ZERO:
                    if f not in a.fv: return t.mul(init, t.power(a, f))
                    return t.mul(init, mkprod(g, f, t.subst(a, {f: g})))
                if f not in a.fv:
                    # Horner: sum_{j<f} b(j) a^(f-1-j) + init a^f
                    s = t.sum_({g: 0}, f, t.mul(t.subst(b, {f: g}), t.power(a, t.sub(t.sub(f, ONE), g))))
                    return t.add(s, t.mul(init, t.power(a, f)))
    return None


def mkprod(g, n, body):
    r = t.close('fprod', {g: 0}, n, body)
    if r.ty is None: r.ty = 'int' if t.is_int(body) else 'num'
    return r


def split_keep(nx, S):
    """nx = if c then v else S  -> (c, v)"""
    def go(x):
        # -> (condition under which x is not S, value)
        if x is S: return FALSE, None
        if x.op == 'ite':
            c1, v1 = go(x.args[1])
            c2, v2 = go(x.args[2])
            c = t.ite(x.args[0], c1, c2)
            if v1 is None: return c, v2
            if v2 is None: return c, v1
            return c, t.ite(x.args[0], v1, v2)
        return TRUE, x
    c, v = go(nx)
    if v is None or c is TRUE: return None, None
    return c, v


def minmax(nx, S):
    if nx.op != 'ite' or nx.args[0].op != 'gt0': return None
    c, a, b = nx.args
    for v, keep, flag in ((a, b, True), (b, a, False)):
        if keep is S and S not in v.fv:
            d = t.sub(v, S)
            if t.gt(v, S) is c or t.not_(t.gt(S, v)) is c:
                return ('max', v) if flag else ('min', v)
            if t.gt(S, v) is c or t.not_(t.gt(v, S)) is c:
                return ('min', v) if flag else ('max', v)
    return None


def dedupe(S, init, suf, f, g):
    """S grows by x(f) when (x(f) not in S and c(f)): as a set this is {x(f): c(f)}"""
    out = []
    for p in suf:
        if p.op != 'elem': return None
        x = p.args[1]
        if S in x.fv: return None
        c = p.args[0]
        ins = [a for a in atoms_of(c) if S in a.fv]
        if len(ins) != 1 or ins[0].op != 'in' or ins[0].args[0] is not x: return None
        c1 = assume(c, ins[0], False)
        c0 = assume(c, ins[0], True)
        if c0 is not FALSE and c0 is not c1: return None
        out.append(t.elem(c1, x))
    return None if init.op != 'cat' else SetOnly(S, init, out, f, g)


def SetOnly(S, init, out, f, g):
    # only valid when the collection is used as a set; the caller's solver uses it for membership only
    return None


def atoms_of(c):
    s, seen = [c], []
    while s:
        x = s.pop()
        if x is TRUE or x is FALSE: continue
        if x.op == 'ite':
            if x.args[0] not in seen: seen.append(x.args[0])
            s += [x.args[1], x.args[2]]
        elif x not in seen: seen.append(x)
    return seen


def assume(c, a, val):
    if c is a: return TRUE if val else FALSE
    if c.op == 'ite':
        if c.args[0] is a: return assume(c.args[1] if val else c.args[2], a, val)
        return t.ite(c.args[0], assume(c.args[1], a, val), assume(c.args[2], a, val))
    return c


def slot_update(S, init, nx, f, g):
    """S[i(f)] = v(f), possibly guarded"""
    ups = []
    def go(x, guard):
        if x is S: return True
        if x.op == 'ite':
            return go(x.args[1], t.and_(guard, x.args[0])) and go(x.args[2], t.and_(guard, t.not_(x.args[0])))
        if x.op == 'setidx' and x.args[0] is S:
            ups.append((guard, x.args[1], x.args[2])); return True
        return False
    if not go(nx, TRUE) or not ups: return None
    if any(S in c.fv or S in i.fv for c, i, v in ups): return None
    n0 = t.length(init)
    # identity index: every slot is written once, in order
    if all(i is f for c, i, v in ups):
        own = t.at(S, f)
        vals = None
        rep = {own: t.at(init, f)}
        v_all = t.at(init, f)
        for c, i, v in ups: v_all = t.ite(c, t.subst(v, rep), v_all)
        if S not in v_all.fv:
            body = t.subst(v_all, {f: g})
            rest = t.fresh('k', 'int')
            tail = t.for_pieces({rest: 0}, t.sub(n0, f), [t.elem(TRUE, t.at(init, t.add(f, rest)))])
            return mk_overwrite(init, n0, f, g, body)
    if any(S in v.fv for c, i, v in ups): return None
    ps = []
    for c, i, v in ups:
        ps.append(t.elem(t.subst(c, {f: g}), t.lit([t.subst(i, {f: g}), t.subst(v, {f: g})])))
    st = t.cat(t.for_pieces({g: 0}, f, ps))
    return t.scatter(init, st)


def mk_overwrite(init, n0, f, g, body):
    """init with the first f slots replaced by body(g); resolved when f reaches the full length"""
    lamb = t.close('lam', {g: 0}, ONE, body)
    return t.overwrite(init, f, lamb)


def elementwise(S, init, nx, f, g):
    """S' = [ S[j] + d(j,f) for j < m ]"""
    if len(nx.args) != 1 or nx.args[0].op != 'for': return None
    p = nx.args[0]
    if p.args[2].op != 'cat' or len(p.args[2].args) != 1: return None
    el = p.args[2].args[0]
    if el.op != 'elem' or el.args[0] is not TRUE: return None
    j = t.fresh('j', 'int')
    e = t.subst(el.args[1], {b: j for b in t._bvs(p)})
    own = t.at(S, j)
    s = t.fresh('s', 'num')
    e2 = t.subst(e, {own: s})
    if S in e2.fv: return None
    if e2.op == 'ite': return None
    d = t.sub(e2, s)
    if s in d.fv: return None
    m = p.args[1]
    tot = t.sum_({g: 0}, f, t.subst(d, {f: g}))
    return t.cat(t.for_pieces({j: 0}, m, [t.elem(TRUE, t.add(t.at(init, j), tot))]))


# ------------------------------------------------------------------ dict helpers
def dict_entries(d):
    if d.op == 'dictof': return d.args[0]
    return None


def keys_distinct(es):
    """entries whose keys are pairwise different by construction"""
    if es.op != 'cat': return False
    if all(p.op == 'elem' and p.args[0] is TRUE and p.args[1].op == 'kv' for p in es.args):
        ks = [p.args[1].args[0] for p in es.args]
        return all(k.op in ('const', 'num') for k in ks) and len(set(ks)) == len(ks)
    if len(es.args) == 1 and es.args[0].op == 'for':
        p = es.args[0]
        b = p.args[2]
        if b.op == 'cat' and len(b.args) == 1 and b.args[0].op == 'elem' and b.args[0].args[1].op == 'kv':
            k = b.args[0].args[1].args[0]
            v = t.bv(p.args[0])
            if k is v: return True
            # key taken from the items/keys of another dict
            if k.op == 'at' and k.args[1] is ZERO and k.args[0].op == 'at' and k.args[0].args[0].op == 'items' and k.args[0].args[1] is v: return True
            if k.op == 'at' and k.args[0].op in ('keys', 'setiter') and k.args[1] is v: return True
    return False


def dict_get(d, i, default=None):
    """d[i]"""
    def g(d, i):
        if d.op == 'dictof':
            es = d.args[0]
            r = lookup(list(es.args) if es.op == 'cat' else [], i, d)
            if r is not None and r is not ABSENT: return r
        vt = None
        if isinstance(d.ty, tuple) and d.ty[0] == 'dict' and len(d.ty) > 2: vt = d.ty[2]
        return mk('dget', d, i, ty=vt)
    return lift(g, [d, i])


ABSENT = object()


def lookup(ps, i, d):
    """value of key i in the entries, None when not decidable, ABSENT when it is in none of them"""
    ps = list(ps)
    while ps:
        p = ps.pop()
        if p.op == 'elem':
            g, e = p.args
            if e.op == 'kv':
                q = t.eq(e.args[0], i)
                c = t.and_(g, q)
                if c is TRUE: return e.args[1]
                if c is FALSE: continue
                if q is not TRUE: return None
                # the key is present when this entry's guard holds, else an earlier entry decides
                if not ps: return e.args[1]
                rest = lookup(ps, i, d)
                if rest is ABSENT: return e.args[1]
                return t.ite(c, e.args[1], rest) if rest is not None else None
            if e.op == 'ddel':
                c = t.and_(g, t.eq(e.args[0], i))
                if c is FALSE: continue
                return ABSENT if c is TRUE else None
            if e.op == 'dbase':
                if ps: return None
                if g is TRUE: return dict_get(e.args[0], i)
                return None
            if e.op == 'ddefault': continue
            return None
        return None
    return ABSENT


def const_entries(d):
    """[(key, guard, value)] of a dictionary whose keys are all constants, later entries taking precedence; None if unknown"""
    if d.op != 'dictof' or d.args[0].op != 'cat': return None
    out = {}
    for p in d.args[0].args:
        if p.op != 'elem' or p.args[1].op not in ('kv', 'ddel') or p.args[1].args[0].op != 'const': return None
        g, e = p.args
        k = e.args[0].args[0]
        if e.op == 'ddel':
            if k in out:
                og, ov = out[k]
                ng = t.and_(og, t.not_(g))
                if ng is FALSE: del out[k]
                else: out[k] = (ng, ov)
        elif k in out: out[k] = (t.or_(out[k][0], g), t.ite(g, e.args[1], out[k][1]))
        else: out[k] = (g, e.args[1])
    return [(k, g, v) for k, (g, v) in out.items()]


LAZY = [False]     # membership in dictionaries built by loops is kept as an operation


def in_dict(x, d):
    if d.op == 'dictof':
        if LAZY[0] and any(p.op != 'elem' for p in (d.args[0].args if d.args[0].op == 'cat' else [d.args[0]])): return mk('in', x, d, ty='bool')
        r = FALSE
        for p in (d.args[0].args if d.args[0].op == 'cat' else [d.args[0]]):
            if p.op == 'elem' and p.args[1].op == 'ddel':
                r = t.and_(r, t.not_(t.and_(p.args[0], t.eq(p.args[1].args[0], x))))
                continue
            q = in_piece(x, p)
            if q is None: return mk('in', x, d, ty='bool')
            r = t.or_(r, q)
        return r
    return mk('in', x, d, ty='bool')


def in_piece(x, p):
    if p.op == 'elem':
        g, e = p.args
        if e.op in ('kv', 'inc'): return t.and_(g, t.eq(e.args[0], x))
        if e.op == 'upd': return t.and_(g, t.eq(e.args[1], x))
        if e.op == 'dbase': return t.and_(g, in_dict(x, e.args[0]))
        if e.op == 'ddefault': return FALSE
        return None
    if p.op == 'for':
        mp = {}; inv = {}
        for y in t._bvs(p) or {t.bv(p.args[0])}:
            f = t.fresh('d', 'int'); mp[y] = f; inv[f] = 0
        b = t.subst(p.args[2], mp)
        r = FALSE
        for q in t.pieces(b):
            z = in_piece(x, q)
            if z is None: return None
            r = t.or_(r, z)
        return t.exists(inv, p.args[1], r)
    return None


def in_seq(x, s):
    r = FALSE
    for p in t.pieces(s):
        if p.op == 'for':
            b = p.args[2]
            v = t.bv(p.args[0])
            if b.op == 'cat' and len(b.args) == 1 and b.args[0].op == 'elem' and b.args[0].args[0] is TRUE:
                e = b.args[0].args[1]
                if e.op == 'at' and e.args[1] is v and v not in e.args[0].fv and t.length(e.args[0]) is p.args[1]:
                    base = e.args[0]
                    if base.op == 'setiter': base = base.args[0]
                    if base.op == 'keys': base = base.args[0]
                    r = t.or_(r, mk('in', x, base, ty='bool'))
                    continue
        r = t.or_(r, t.any_(t.map_stream(t.cat([p]), lambda e: [t.elem(TRUE, t.eq(x, e))])))
    return r


def set_stream(x):
    if x.op == 'setof': return list(x.args[0].args)
    return [t._splice(x)]


# ------------------------------------------------------------------ strings
def strof(x):
    def f(x):
        if x.op == 'const' and isinstance(x.args[0], str): return x
        if x.ty == 'str' or x.op in ('strcat', 'join', 'str'): return x
        if x.op == 'num' and x.args[0].denominator == 1: return const(str(x.args[0]))
        return mk('str', x, ty='str')
    return lift(f, [x])


def strcat(parts):
    def f(*ps):
        out = []
        for p in ps:
            for q in (p.args if p.op == 'strcat' else (p,)):
                if q.op == 'const' and q.args[0] == '': continue
                if out and q.op == 'const' and out[-1].op == 'const' and isinstance(q.args[0], str):
                    out[-1] = const(out[-1].args[0] + q.args[0])
                else: out.append(q)
        if not out: return const('')
        if len(out) == 1: return out[0]
        return mk('strcat', *out, ty='str')
    return lift(f, list(parts))


def pct_format(fmt, b, I, st):
    import re
    toks = re.split(r'(%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
    vals = [I.term(st, x) for x in b] if isinstance(b, tuple) else None
    if vals is None:
        x = I.term(st, b)
        vals = [p.args[1] for p in x.args] if x.op == 'cat' and t._is_lit(x) else [x]
    out = []
    for k in toks:
        if k == '%%': out.append(const('%'))
        elif k.startswith('%'):
            v = vals.pop(0)
            out.append(strof(v) if k in ('%s', '%d') else mk('fmt', v, k))
        elif k: out.append(const(k))
    return strcat(out)


# ------------------------------------------------------------------ base map algebra
BMT = ('cls', 'BaseMap')


def bm_parts(x):
    if x.op == 'act' and x.ty == BMT: return list(x.args)
    if x.op == 'm:id_map': return []
    return [x]


def bm_mul(x, y):
    def f(x, y):
        rev = False
        ps = []
        for z in (x, y):
            if z.op == 'trev':
                rev = not rev
                z = z.args[0]
            ps += bm_parts(z)
        r = mkact(ps, BMT, (x, y))
        return bm_trev(r) if rev else r
    return lift(f, [x, y])


def mkact(ps, ty_, orig):
    out = []
    for p in ps:
        if out and ((p.op == 'inv' and p.args[0] is out[-1]) or (out[-1].op == 'inv' and out[-1].args[0] is p)):
            out.pop(); continue
        out.append(p)
    if not out:
        for o in orig:
            if o.op == 'm:id_map': return o
        base = orig[0]
        while base.op in ('inv', 'trev', 'act'): base = base.args[0]
        return mk('m:id_map', mk('class', 'BaseMap'), mk('attr', base, 'dim', ty='int'), ty=BMT)
    if len(out) == 1: return out[0]
    return mk('act', *out, ty=ty_)


def bm_inv(x):
    def f(x):
        if x.op == 'inv': return x.args[0]
        if x.op == 'trev': return bm_trev(bm_inv(x.args[0]))
        if x.op == 'm:id_map': return x
        if x.op == 'act': return mkact([bm_inv(p) for p in reversed(x.args)], BMT, (x,))
        return mk('inv', x, ty=BMT)
    return lift(f, [x])


def bm_trev(x):
    return lift(lambda x: x.args[0] if x.op == 'trev' else mk('trev', x, ty=BMT), [x])


def act_on(b, x, ty_):
    ps = bm_parts(b)
    if x.op == 'act' and x.ty == ty_ and x.args[0].ty == BMT:
        # a*(b*x) = (a*b)*x
        inner = bm_mul(b, x.args[0])
        return act_on(inner, x.args[1], ty_)
    if b.op == 'm:id_map': return x
    return mk('act', b, x, ty=ty_)


def norm_attr(x, name, ci, at_, I):
    """facts about base-map algebra used when attributes of products are read"""
    cn = ci.name if ci else None
    if cn == 'BaseMap':
        if name == 'dim':
            y = x
            while y.op in ('act', 'inv', 'trev', 'm:cube_map'): y = y.args[0]
            if y.op == 'm:id_map': return y.args[1]
            if y is not x: return I.attr_of_term(y, 'dim', ci)
        if name == 'time_rev':
            if x.op == 'trev': return t.not_(I.attr_of_term(x.args[0], name, ci))
            if x.op == 'inv': return I.attr_of_term(x.args[0], name, ci)
            if x.op == 'm:id_map' or x.op == 'm:cube_map': return FALSE
            if x.op == 'act':
                r = FALSE
                for p in x.args: r = t.xor_(r, I.attr_of_term(p, name, ci))
                return r
        if name == 'coords' and x.op == 'trev': return I.attr_of_term(x.args[0], name, ci)
        if name == '_key':
            return t.lit([I.attr_of_term(x, 'coords', ci), I.attr_of_term(x, 'time_rev', ci)])
    if cn == 'Spec' and name == '_key':
        return t.lit([I.attr_of_term(I.attr_of_term(x, 'base_map', ci), '_key'), I.attr_of_term(x, 'pnum', ci)])
    if cn in ('Link', 'Path', 'Proto', 'Point') and name in ('dim', 'div') and x.op == 'act':
        return I.attr_of_term(x.args[1], name, ci)
    return None


def norm_call(fi, ts, rt, I):
    n = fi.name
    if fi.cls is not None and fi.cls.name == 'BaseMap':
        if n == 'get_inverse': return bm_inv(ts[0])
        if n == '__invert__': return bm_trev(ts[0])
        if n == '__mul__': return bm_mul(ts[0], ts[1])
        if n == 'cube_map':
            def f(x):
                if x.op in ('m:cube_map', 'm:id_map'): return x
                if x.op == 'trev': return norm_call(fi, [x.args[0]], rt, I)
                return mk('m:cube_map', x, ty=BMT)
            return lift(f, [ts[0]])
    return None


# ------------------------------------------------------------------ rebuilding after substitution
def _re_act(*xs):
    def f(*xs):
        if all(x.ty == BMT for x in xs):
            r = xs[0]
            for x in xs[1:]: r = bm_mul(r, x)
            return r
        if len(xs) == 2 and xs[0].ty == BMT: return act_on(xs[0], xs[1], xs[1].ty)
        return mk('act', *xs, ty=xs[-1].ty)
    return lift(f, list(xs))


def _re_new(name, fs):
    I = CUR[0]
    ci = I.repo.cls(name)
    if ci is None: return mk('new', name, fs, ty=('cls', name))
    return I.mknew(ci, fs)


def _re_cube_map(x):
    def f(x):
        if x.op in ('m:cube_map', 'm:id_map'): return x
        if x.op == 'trev': return _re_cube_map(x.args[0])
        return mk('m:cube_map', x, ty=BMT)
    return lift(f, [x])


t.REBUILD.update({
    'inv': bm_inv, 'trev': bm_trev, 'act': _re_act,
    'attr': lambda x, n: CUR[0].attr_of_term(x, n),
    'new': _re_new,
    'dget': lambda d, i, *r: dict_get(d, i),
    'str': strof, 'strcat': lambda *ps: strcat(list(ps)),
    'm:cube_map': _re_cube_map,
    'join': lambda sep, s: mk('join', sep, s, ty='str'),
})


def _len_axiom(x):
    if x.op == 'attr' and x.args[1] == 'coords' and x.args[0].ty == BMT: return CUR[0].attr_of_term(x.args[0], 'dim')
    if x.op == 'attr' and x.args[1] == 'coords' and x.args[0].op in ('inv', 'trev', 'act'): return CUR[0].attr_of_term(x.args[0], 'dim')
    return None


t.LEN_AXIOMS.append(_len_axiom)
