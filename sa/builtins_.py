"""Models of the builtins and library functions the repository uses."""
from __future__ import annotations
import re
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, num, const, mk, lift
from . import types as ty
from . import interp as ip
from .interp import Ref, Obj, FuncV, ClassV, ExtV, BoundB, StarV, PartialV, SuperV, Unsupported

STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'zfill', 'removesuffix', 'removeprefix', 'rjust', 'ljust', 'center', 'swapcase'}
STRB = {'islower', 'isupper', 'isdigit', 'isalpha', 'startswith', 'endswith', 'isdecimal', 'isnumeric'}
HASHABLE_OK = True


def ext(name, ts, ty_=None):
    return t.app('x:' + name, ts, ty_)


def call_key(I, st, f, e):
    return I.term(st, I.call(st, f, [e], {}))


def keyfun(I, st, f):
    g = t.fresh('k')
    s2 = st.copy()
    return g, I.term(s2, I.call(s2, f, [g], {}))


def keylam(I, st, f, ety=None):
    if f is None or f is NONE: return NONE
    g = t.fresh('k', ety)
    s2 = st.copy()
    return t.close('lam', {g: 0}, ONE, I.term(s2, I.call(s2, f, [g], {})))


def tag_elem(s, e):
    if s.op not in ('cat', 'ite', 'const') and s.ty is None: s.ty = ('seq', e)
    return s


def call_ext(I, st, name, args, kw, ctx):
    base = name.split('.')[-1]
    if ip.is_logger(name): return NONE
    if name.startswith('namedtuple:'):
        fields = name[11:].split(',')
        d = dict(zip(fields, args)); d.update(kw)
        if any(isinstance(a, StarV) for a in args): raise Unsupported('namedtuple star')
        return mk('ntup', tuple(fields), tuple(I.term(st, d[f]) for f in fields))
    if base == 'namedtuple':
        nm = args[1]
        x = I.term(st, nm)
        if x.op == 'const': fs = x.args[0].replace(',', ' ').split()
        elif t._is_lit(x): fs = [p.args[1].args[0] for p in x.args]
        else: raise Unsupported('namedtuple')
        return ExtV('namedtuple:' + ','.join(fs))
    h = HANDLERS.get(base)
    if h is not None and (name in h[1] or h[1] is None):
        return h[0](I, st, args, kw, ctx)
    ts = [I.argterm(st, a) for a in args] + [mk('kw', k, I.term(st, v)) for k, v in sorted(kw.items())]
    return ext(base, ts)


HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n.split('.')[-1]] = (f, set(x for x in names if x.split('.')[-1] == n.split('.')[-1]))
        return f
    return deco


def one(I, st, args): return I.stream(st, args[0])


@handler('len')
def _len(I, st, a, kw, ctx):
    v = a[0]
    if isinstance(v, tuple): return num(len(v))
    if isinstance(v, Ref) and not isinstance(st.store[v.id], Obj):
        c = st.store[v.id]
        if c[0] == 'list': return t.length(c[1])
    x = I.term(st, v)

    def f(x):
        if x.op == 'new' or x.ty == ('cls', 'Pattern'): return t.length(I.stream_t(x))
        if x.op == 'dictof':
            es = x.args[0]
            if ip.keys_distinct(es): return t.length(es)
        return t.length(x)
    return lift(f, [x])


@handler('range')
def _range(I, st, a, kw, ctx):
    ts = [I.term(st, x) for x in a]
    if len(ts) == 1: return rng(ZERO, ts[0])
    if len(ts) == 2: return rng(ts[0], ts[1])
    s = ts[2]
    if s.op == 'num' and s.args[0] in (1, -1):
        return lift(lambda x, y: t.range_(x, y, int(s.args[0])), [ts[0], ts[1]])
    return t.app('rangestep', ts, ('seq', 'int'))


def rng(a, b):
    r = lift(lambda x, y: t.range_(x, y), [a, b])
    return r


@handler('enumerate')
def _enum(I, st, a, kw, ctx):
    s = I.stream(st, a[0])
    start = I.term(st, a[1]) if len(a) > 1 else (I.term(st, kw['start']) if 'start' in kw else ZERO)
    return lift(lambda x: enum1(x, start), [s])


def enum1(s, start):
    if simple_stream(s): return t.enumerate_(s, start)
    # filtered stream: position unknown
    return mk('enum', s, start)


def simple_stream(s):
    """positions of elements are known"""
    if s.op != 'cat': return True
    if t._is_lit(s): return True
    if len(s.args) == 1 and s.args[0].op == 'for':
        b = s.args[0].args[2]
        return b.op == 'cat' and len(b.args) == 1 and b.args[0].op == 'elem' and b.args[0].args[0] is TRUE or \
            (b.op == 'cat' and exactly_one(b))
    return True


def exactly_one(b):
    g = FALSE
    for q in b.args:
        if q.op != 'elem' or not t.excl(g, q.args[0]): return False
        g = t.or_(g, q.args[0])
    return g is TRUE


@handler('zip')
def _zip(I, st, a, kw, ctx):
    if any(isinstance(x, StarV) for x in a):
        if len(a) == 1: return mk('transpose', a[0].v)
        raise Unsupported('zip star')
    ss = [I.stream(st, x) for x in a]
    if not ss: return t.cat([])
    return lift(lambda *xs: t.zip_(list(xs)), ss)


@handler('reversed')
def _reversed(I, st, a, kw, ctx): return t.reversed_(one(I, st, a))


@handler('sorted')
def _sorted(I, st, a, kw, ctx):
    s = one(I, st, a)
    key = keylam(I, st, kw.get('key'), t.elem_of_ty(s.ty))
    rev = I.term(st, kw['reverse']) if 'reverse' in kw else FALSE
    if key is NONE:
        r = mk('sorted', t.cat(list(t.bag(s).args)) if s.op in ('cat', 'ite') else (s.args[0] if s.op == 'sorted' else s), NONE, rev, ty=('seq', t.elem_of_ty(s.ty)))
    else:
        r = mk('sorted', s, key, rev, ty=('seq', t.elem_of_ty(s.ty)))
    return I.new_ref(st, ('list', r))


@handler('list')
def _list(I, st, a, kw, ctx):
    return I.new_ref(st, ('list', one(I, st, a) if a else t.cat([])))


@handler('deque', 'collections.deque')
def _deque(I, st, a, kw, ctx):
    return I.new_ref(st, ('list', one(I, st, a) if a else t.cat([])))


@handler('tuple')
def _tuple(I, st, a, kw, ctx):
    if a and isinstance(a[0], tuple): return a[0]
    return one(I, st, a) if a else t.cat([])


@handler('iter')
def _iter(I, st, a, kw, ctx): return one(I, st, a)


@handler('set', 'frozenset')
def _set(I, st, a, kw, ctx):
    return I.new_ref(st, ('set', one(I, st, a) if a else t.cat([])))


HANDLERS['frozenset'] = (lambda I, st, a, kw, ctx: t.setof(one(I, st, a) if a else t.cat([])), {'frozenset'})


@handler('dict.fromkeys')
def _fromkeys(I, st, a, kw, ctx):
    v = I.term(st, a[1]) if len(a) > 1 else NONE
    return I.new_ref(st, ('dict', t.cat(t.pieces(t.map_stream(one(I, st, a[:1]), lambda e: [t.elem(TRUE, mk('kv', e, v))])))))


@handler('dict')
def _dict(I, st, a, kw, ctx):
    ps = []
    if a:
        x = I.term(st, a[0])
        if x.op == 'dictof': ps += t.pieces(x.args[0])
        elif I.dictlike(x): ps.append(t.elem(TRUE, mk('dbase', x)))
        else: ps += t.pieces(t.map_stream(I.stream(st, a[0]), lambda e: [t.elem(TRUE, mk('kv', t.at(e, ZERO), t.at(e, ONE)))]))
    for k, v in kw.items():
        if k == '**': raise Unsupported('dict **')
        ps.append(t.elem(TRUE, mk('kv', const(k), I.term(st, v))))
    return I.new_ref(st, ('dict', t.cat(ps)))


def minmax(which):
    def f(I, st, a, kw, ctx):
        op = t.minof if which == 'min' else t.maxof
        if len(a) == 1:
            if isinstance(a[0], StarV): s = a[0].v
            else: s = one(I, st, a)
        else:
            s = t.lit([I.term(st, x) for x in a])
        if 'key' in kw:
            return mk(which + 'key', s, keylam(I, st, kw['key'], t.elem_of_ty(s.ty)), *( [I.term(st, kw['default'])] if 'default' in kw else []))
        if 'default' in kw:
            return t.ite(t.nonempty(s), extr(op, s), I.term(st, kw['default']))
        return extr(op, s)
    return f


def extr(op, s):
    if s.op == 'cat' and all(p.op == 'elem' and p.args[0] is TRUE for p in s.args):
        return lift(lambda *xs: op(t.lit(list(xs))), [p.args[1] for p in s.args])
    return op(s)


HANDLERS['min'] = (minmax('min'), {'min'})
HANDLERS['max'] = (minmax('max'), {'max'})


@handler('sum')
def _sum(I, st, a, kw, ctx):
    s = one(I, st, a)
    start = I.term(st, a[1]) if len(a) > 1 else ZERO
    if I.seqlike(start):
        return t.concat(start, t.map_stream(s, lambda e: t.pieces(I.stream_t(e))))
    return t.add(start, t.sum_stream(s))


@handler('any')
def _any(I, st, a, kw, ctx): return t.any_(one(I, st, a))


@handler('all')
def _all(I, st, a, kw, ctx): return t.all_(one(I, st, a))


@handler('abs')
def _abs(I, st, a, kw, ctx): return t.abs_(I.term(st, a[0]))


@handler('int')
def _int(I, st, a, kw, ctx):
    x = I.term(st, a[0])

    def f(x):
        x = t._b2n(x) if t.is_boolop(x) else x
        if t.is_int(x): return x
        if I.strlike(x): return mk('int', x, ty='int')
        return mk('trunc', x, ty='int')
    return lift(f, [x])


@handler('round', 'float', 'math.floor', 'math.ceil', 'math.sqrt')
def _float(I, st, a, kw, ctx):
    raise Unsupported('floating point')


for _n in ('round', 'float', 'floor', 'ceil', 'sqrt'):
    def _mk(n):
        return lambda I, st, a, kw, ctx: t.app('x:' + n, [I.term(st, x) for x in a], 'num')
    HANDLERS[_n] = (_mk(_n), {_n, 'math.' + _n})


@handler('bool')
def _bool(I, st, a, kw, ctx): return t.truthy(I.bterm(st, a[0]))


@handler('str', 'repr')
def _str(I, st, a, kw, ctx):
    return ip.strof(I.term(st, a[0])) if a else const('')


HANDLERS['repr'] = (lambda I, st, a, kw, ctx: mk('repr', I.term(st, a[0]), ty='str'), {'repr'})


@handler('next')
def _next(I, st, a, kw, ctx):
    s = one(I, st, a)
    if len(a) > 1:
        d = I.term(st, a[1])
        return lift(lambda s: t.ite(t.nonempty(s), t.head(s), d), [s])
    return lift(t.head, [s])


@handler('isinstance')
def _isinst(I, st, a, kw, ctx):
    v, c = a
    cs = list(c) if isinstance(c, tuple) else [c]
    r = FALSE
    for k in cs: r = t.or_(r, isinst1(I, st, v, k))
    return r


def isinst1(I, st, v, k):
    kind = I.kind(st, v)
    if isinstance(k, ExtV):
        nm = k.name.split('.')[-1]
        if kind in ('list', 'set', 'dict'): return const(nm == kind or nm in ('Iterable', 'Sized', 'Collection') or (nm in ('Sequence', 'MutableSequence') and kind == 'list'))
        x = I.term(st, v)
        if nm == 'str': 
            if I.strlike(x): return TRUE
            if x.ty is not None and x.ty != 'str' and x.op != 'ite': return FALSE
        if nm == 'list' and x.op in ('sorted',): return TRUE
        return mk('isinst', x, nm, ty='bool')
    if isinstance(k, ClassV):
        if kind == 'obj':
            c = st.store[v.id].cls
            if k.ci in I.repo.mro(c): return TRUE
            if c not in I.repo.mro(k.ci): return FALSE
        x = I.term(st, v)

        def f(x):
            if x is NONE: return FALSE
            ty_ = x.ty
            isopt = isinstance(ty_, tuple) and ty_[0] == 'opt'
            c = I.cls_of_t(x)
            if c is not None:
                if k.ci in I.repo.mro(c): return TRUE if not isopt else t.not_(t.isnone(x))
                if c not in I.repo.mro(k.ci): return FALSE
            elif ty_ in ('int', 'num', 'bool', 'str') or (isinstance(ty_, tuple) and ty_[0] in ('dict', 'set')): return FALSE
            return mk('isinst', x, k.ci.name, ty='bool')
        return lift(f, [x])
    x = I.term(st, v)
    return mk('isinst', x, repr(k), ty='bool')


@handler('hasattr')
def _hasattr(I, st, a, kw, ctx):
    n = I.term(st, a[1])
    if n.op != 'const': raise Unsupported('hasattr')
    n = n.args[0]
    c = I.cls_of(st, a[0])
    x = I.term(st, a[0])
    c = c or I.cls_of_t(x)
    if c is not None:
        if n in I.memo_attrs(c): return FALSE
        if I.repo.find_method(c, n): return TRUE
        subs = [k for k in I.repo.classes.values() if c in I.repo.mro(k) and k is not c]
        if not any(I.repo.find_method(k, n) for k in subs) and (c.name, n) not in ty.ATTR and not any(n in k.annots for k in I.repo.mro(c)): return FALSE
    return mk('hasattr', x, n, ty='bool')


@handler('getattr')
def _getattr(I, st, a, kw, ctx):
    n = I.term(st, a[1])
    if n.op != 'const': raise Unsupported('getattr')
    return I.getattr(st, a[0], n.args[0])


@handler('setattr')
def _setattr(I, st, a, kw, ctx):
    n = I.term(st, a[1])
    if n.op != 'const': raise Unsupported('setattr')
    I.set_attr(st, a[0], n.args[0], a[2])
    return NONE


@handler('map')
def _map(I, st, a, kw, ctx):
    ss = [I.stream(st, x) for x in a[1:]]
    if len(ss) == 1:
        return lift(lambda s: t.map_stream(s, lambda e: [t.elem(TRUE, I.term(st, I.call(st, a[0], [e], {})))]), [ss[0]])
    z = lift(lambda *xs: t.zip_(list(xs)), ss)
    return t.map_stream(z, lambda e: [t.elem(TRUE, I.term(st, I.call(st, a[0], [t.at(e, num(k)) for k in range(len(ss))], {})))])


@handler('filter')
def _filter(I, st, a, kw, ctx):
    s = I.stream(st, a[1])
    if a[0] is NONE: return t.map_stream(s, lambda e: [t.elem(t.truthy(e), e)])
    return t.map_stream(s, lambda e: [t.elem(t.truthy(I.bterm(st, I.call(st, a[0], [e], {}))), e)])


@handler('hash')
def _hash(I, st, a, kw, ctx): return mk('hash', I.term(st, a[0]), ty='int')


@handler('type')
def _type(I, st, a, kw, ctx):
    c = I.cls_of(st, a[0]) or I.cls_of_t(I.term(st, a[0]))
    if c is not None: return ClassV(c)
    return t.app('typeof', [I.term(st, a[0])])


@handler('print')
def _print(I, st, a, kw, ctx): return NONE


@handler('itertools.product', 'product')
def _product(I, st, a, kw, ctx):
    if 'repeat' in kw:
        n = I.term(st, kw['repeat'])
        ss = [I.stream(st, x) for x in a]
        if n.op == 'num' and n.args[0] <= 4: return t.product_(ss * int(n.args[0]))
        if len(ss) != 1: raise Unsupported('product repeat')
        x = ss[0]
        return t.app('productn', [x, n], ('seq', ('seq', elem_ty(x))))
    if any(isinstance(x, StarV) for x in a):
        if len(a) == 1: return t.app('product', [I_streams(I, a[0].v)], ('seq', ('seq', None)))
        raise Unsupported('product star')
    ss = [I.stream(st, x) for x in a]
    return lift(lambda *xs: t.product_(list(xs)), ss)


def I_streams(I, s): return s


def elem_ty(s):
    e = t.elem_of_ty(s.ty)
    if e is None and s.op == 'cat' and s.args:
        p = s.args[0]
        while p.op == 'for' and p.args[2].op == 'cat' and p.args[2].args: p = p.args[2].args[0]
        if p.op == 'elem': e = p.args[1].ty
    return e


def seqop(op, extra=0):
    def f(I, st, a, kw, ctx):
        s = one(I, st, a)
        r = [I.term(st, x) for x in a[1:]] + [I.term(st, kw[k]) for k in sorted(kw)]
        return t.app(op, [s] + r, ('seq', ('seq', elem_ty(s))))
    return f


HANDLERS['permutations'] = (seqop('perms'), {'itertools.permutations', 'permutations'})
HANDLERS['combinations'] = (seqop('combs'), {'itertools.combinations', 'combinations'})
HANDLERS['combinations_with_replacement'] = (seqop('combsr'), {'itertools.combinations_with_replacement', 'combinations_with_replacement'})


@handler('itertools.chain', 'chain')
def _chain(I, st, a, kw, ctx):
    ps = []
    for x in a:
        if isinstance(x, StarV): ps += t.pieces(t.map_stream(x.v, lambda e: t.pieces(I.stream_t(e))))
        else: ps += t.pieces(I.stream(st, x))
    return t.cat(ps)


@handler('itertools.chain.from_iterable', 'chain.from_iterable')
def _chainf(I, st, a, kw, ctx):
    return t.map_stream(one(I, st, a), lambda e: t.pieces(lift(I.stream_t, [e])))


@handler('itertools.repeat')
def _repeat(I, st, a, kw, ctx):
    if len(a) != 2: raise Unsupported('infinite repeat')
    return t.repeat(t.lit([I.term(st, a[0])]), I.term(st, a[1]))


@handler('itertools.islice', 'islice')
def _islice(I, st, a, kw, ctx):
    s = one(I, st, a)
    ts = [I.term(st, x) for x in a[1:]]
    if len(ts) == 1: return lift(lambda s: t.slice_(s, None, ts[0]), [s])
    return lift(lambda s: t.slice_(s, None if ts[0] is NONE else ts[0], None if ts[1] is NONE else ts[1]), [s])


@handler('quicktions.Fraction', 'fractions.Fraction', 'Fraction')
def _fraction(I, st, a, kw, ctx):
    ts = [I.term(st, x) for x in a]
    if len(ts) == 0: return ZERO
    if len(ts) == 2: return t.div(ts[0], ts[1])
    x = ts[0]

    def f(x):
        if x.op == 'const' and isinstance(x.args[0], str):
            from fractions import Fraction as F
            try: return num(F(x.args[0]))
            except ValueError: pass
        if I.strlike(x): return mk('frac', x, ty='num')
        return x
    return lift(f, [x])


@handler('collections.Counter', 'Counter')
def _counter(I, st, a, kw, ctx):
    if a: return mk('counter', one(I, st, a), ty=('dict', None, 'int'))
    return I.new_ref(st, ('dict', t.lit([mk('ddefault', 'int')])))


@handler('collections.defaultdict', 'defaultdict')
def _defaultdict(I, st, a, kw, ctx):
    f = a[0] if a else None
    nm = f.name.split('.')[-1] if isinstance(f, ExtV) else None
    if nm not in ('list', 'dict', 'set', 'int'): raise Unsupported('defaultdict')
    return I.new_ref(st, ('dict', t.lit([mk('ddefault', nm)])))


@handler('collections.OrderedDict', 'OrderedDict')
def _od(I, st, a, kw, ctx): return _dict(I, st, a, kw, ctx)


def lv_of(I, st, v, ctx): return None


@handler('heapq.heappush', 'heappush')
def _heappush(I, st, a, kw, ctx):
    x = I.term(st, a[1])
    I.mutate(st, I.arg_lv(a[0]), a[0], lambda c, k: t.app('hpush', [c, x], c.ty), 'list')
    return NONE


@handler('heapq.heappop', 'heappop')
def _heappop(I, st, a, kw, ctx):
    c0 = I.stream(st, a[0])
    r = t.at(c0, ZERO)
    I.mutate(st, I.arg_lv(a[0]), a[0], lambda c, k: t.app('hdel', [c], c.ty), 'list')
    return r


@handler('heapq.heapify', 'heapify')
def _heapify(I, st, a, kw, ctx):
    I.mutate(st, I.arg_lv(a[0]), a[0], lambda c, k: t.app('heapify', [t.cat(list(t.bag(c).args)) if c.op == 'cat' else c], c.ty), 'list')
    return NONE


@handler('functools.partial', 'partial')
def _partial(I, st, a, kw, ctx): return PartialV(a[0], a[1:], kw)


@handler('functools.lru_cache', 'lru_cache', 'functools.cache', 'cache')
def _lru(I, st, a, kw, ctx):
    if a and isinstance(a[0], FuncV): return a[0]
    return ExtV('identity')


HANDLERS['cache'] = (HANDLERS['lru_cache'][0], {'functools.cache', 'cache'})
HANDLERS['identity'] = (lambda I, st, a, kw, ctx: a[0], {'identity'})


@handler('functools.reduce', 'reduce')
def _reduce(I, st, a, kw, ctx):
    s = I.stream(st, a[1])
    if len(a) < 3: raise Unsupported('reduce without start')
    fr = I.new_frame(st)
    st.frames[fr]['acc'] = a[2]
    from .interp import Ctx

    def body(e, s2, c2): s2.frames[fr]['acc'] = I.call(s2, a[0], [s2.frames[fr]['acc'], e], {})
    I.loop_pieces(t.pieces(s), body, st, Ctx(fr, ctx.fi), None)
    v = st.frames[fr]['acc']
    return v


@handler('math.gcd', 'gcd')
def _gcd(I, st, a, kw, ctx): return t.app('gcd', sorted([I.term(st, x) for x in a], key=t.sortkey), 'int')


@handler('math.lcm', 'lcm')
def _lcm(I, st, a, kw, ctx): return t.app('lcm', sorted([I.argterm(st, x) for x in a], key=t.sortkey), 'int')


@handler('math.prod', 'prod')
def _prod(I, st, a, kw, ctx):
    s = one(I, st, a)
    fr = I.new_frame(st)
    st.frames[fr]['acc'] = ONE
    from .interp import Ctx

    def body(e, s2, c2): s2.frames[fr]['acc'] = t.mul(I.term(s2, s2.frames[fr]['acc']), e)
    I.loop_pieces(t.pieces(s), body, st, Ctx(fr, ctx.fi), None)
    return st.frames[fr]['acc']


@handler('pow')
def _pow(I, st, a, kw, ctx): return I.binop(st, 'Pow', a[0], a[1])


@handler('divmod')
def _divmod(I, st, a, kw, ctx):
    x, y = I.term(st, a[0]), I.term(st, a[1])
    return t.lit([t.floordiv(x, y), t.mod(x, y)])


@handler('re.findall')
def _findall(I, st, a, kw, ctx): return t.app('x:findall', [I.term(st, x) for x in a], ('seq', 'str'))


@handler('dataclasses.asdict', 'asdict')
def _asdict(I, st, a, kw, ctx): return t.app('x:asdict', [I.term(st, a[0])], ('dict', 'str', None))


@handler('typing.cast', 'cast')
def _cast(I, st, a, kw, ctx): return a[1]


@handler('operator.itemgetter', 'itemgetter')
def _itemgetter(I, st, a, kw, ctx): 
    i = I.term(st, a[0])
    g = t.fresh('k')
    return t.close('lam', {g: 0}, ONE, t.at(g, i))


@handler('operator.attrgetter', 'attrgetter')
def _attrgetter(I, st, a, kw, ctx):
    g = t.fresh('k')
    return t.close('lam', {g: 0}, ONE, I.attr_of_term(g, I.term(st, a[0]).args[0]))


def opfun(op):
    return lambda I, st, a, kw, ctx: I.binop(st, op, a[0], a[1])


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('xor', 'BitXor')):
    HANDLERS[_n] = (opfun(_o), {'operator.' + _n})

# ------------------------------------------------------------------ methods


def call_bound(I, st, b, args, kw, ctx):
    name, recv = b.name, b.recv
    if isinstance(recv, SuperV): return super_call(I, st, recv, name, args, kw)
    if isinstance(recv, ClassV):
        if name == '__new__': return super_call(I, st, SuperV(recv.ci, recv), name, args, kw)
        if name == '_make': return I.construct(st, recv.ci, [StarV(I.stream(st, args[0]))], kw)
        raise Unsupported('class method ' + name)
    k = I.kind(st, recv)
    if k == 'obj':
        c = st.store[recv.id]
        if c.seqv is not None: return seq_method(I, st, c.seqv, recv, name, args, kw, b)
        raise Unsupported('method %s of object' % name)
    if k == 'kw': return kw_method(I, st, recv, name, args)
    if k == 'list': return seq_method(I, st, st.store[recv.id][1], recv, name, args, kw, b)
    if k == 'dict': return dict_method(I, st, I.term(st, recv), recv, name, args, kw, b)
    if k == 'set': return set_method(I, st, I.term(st, recv), recv, name, args, kw, b)
    x = I.term(st, recv)
    if I.strlike(x): return str_method(I, st, x, name, args, kw)
    if x.op == 'ite' and all(I.strlike(y) for y in ip.ite_leaves(x)): return lift(lambda y: str_method(I, st, y, name, args, kw), [x])
    if I.dictlike(x): return dict_method(I, st, x, recv, name, args, kw, b)
    if x.op == 'setof' or (isinstance(x.ty, tuple) and x.ty[0] == 'set'): return set_method(I, st, x, recv, name, args, kw, b)
    if I.seqlike(x) or x.op in ('new', 'sorted'): return seq_method(I, st, I.stream(st, recv), recv, name, args, kw, b)
    # unknown receiver: decide by method name
    if name in STRM or name in STRB or name in ('split', 'join', 'format'): return str_method(I, st, x, name, args, kw)
    if name in ('items', 'values', 'keys', 'setdefault', 'get'): return dict_method(I, st, x, recv, name, args, kw, b)
    if name in ('append', 'extend', 'insert', 'pop'):
        return seq_method(I, st, x, recv, name, args, kw, b)
    if name in ('add', 'discard', 'union', 'difference', 'intersection', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset'):
        return set_method(I, st, x, recv, name, args, kw, b)
    if name in ('remove', 'clear', 'update', 'sort', 'reverse', 'popitem', 'copy') or name.endswith('_update'): raise Unsupported('method %s of an unknown value' % name)
    ts = [I.argterm(st, a) for a in args]
    return t.app('b:' + name, [x] + ts)


def super_call(I, st, sv, name, args, kw):
    if name == '__new__':
        c = args[0]
        ci = c.ci if isinstance(c, ClassV) else sv.cls
        nt = I.nt_fields(ci.name)
        if nt:
            d = dict(zip(nt, args[1:])); d.update(kw)
            return I.new_ref(st, Obj(ci, None, {k: I.term(st, v) for k, v in d.items()}, True))
        if I.is_tuple_cls(ci):
            s = I.stream(st, args[1]) if len(args) > 1 else t.cat([])
            return I.new_ref(st, Obj(ci, None, {}, True, seqv=s))
        return I.new_ref(st, Obj(ci, None, {}, True))
    if name in ('__init__', '__init_subclass__'): return NONE
    if name in ('__eq__', '__lt__', '__hash__', '__add__', '__getitem__', '__iter__', '__len__'):
        x = I.term(st, sv.obj)
        return t.app('super:' + name, [x] + [I.term(st, a) for a in args], 'bool' if name in ('__eq__', '__lt__') else None)
    raise Unsupported('super().' + name)


def kw_method(I, st, recv, name, args):
    d = st.store[recv.id][1]
    if name in ('pop', 'get', 'setdefault'):
        k = I.term(st, args[0])
        if k.op != 'const': raise Unsupported('kwargs key')
        k = k.args[0]
        if name == 'setdefault':
            if k not in d:
                d = dict(d); d[k] = args[1]
                st.store[recv.id] = ('kw', d)
            return d[k]
        if k in d:
            v = d[k]
            if name == 'pop':
                d = dict(d); del d[k]
                st.store[recv.id] = ('kw', d)
            return v
        if len(args) > 1: return args[1]
        if name == 'get': return NONE
        raise Unsupported('kwargs.pop of missing ' + k)
    if name == 'update' and not args: return NONE
    if name == 'update':
        d = dict(d)
        x = args[0]
        if I.kind(st, x) == 'kw': d.update(st.store[x.id][1])
        else:
            es = ip.dict_entries(I.term(st, x))
            if es is None or not all(p.op == 'elem' and p.args[0] is TRUE and p.args[1].op == 'kv' and p.args[1].args[0].op == 'const' for p in t.pieces(es)): raise Unsupported('kwargs.update')
            for p in t.pieces(es): d[p.args[1].args[0].args[0]] = p.args[1].args[1]
        st.store[recv.id] = ('kw', d)
        return NONE
    if name == 'copy': return I.new_ref(st, ('kw', dict(d)))
    if name in ('items', 'keys', 'values'):
        x = I.term(st, recv)
        return {'items': I.dict_items, 'keys': I.dict_keys, 'values': I.dict_values}[name](x)
    raise Unsupported('kwargs.' + name)


def seq_method(I, st, s, recv, name, args, kw, b):
    ts = lambda: [I.term(st, a) for a in args]
    lv = b.lv
    if name == 'append':
        x = I.esc_term(st, args[0])
        I.mutate(st, lv, recv, lambda c, k: t.concat(c, t.lit([x])), 'list'); return NONE
    if name == 'extend':
        x = I.stream(st, args[0])
        I.mutate(st, lv, recv, lambda c, k: t.concat(c, x), 'list'); return NONE
    if name == 'insert':
        i, x = ts()
        if i is ZERO: I.mutate(st, lv, recv, lambda c, k: t.concat(t.lit([x]), c), 'list'); return NONE
        I.mutate(st, lv, recv, lambda c, k: t.app('linsert', [c, i, x], c.ty), 'list'); return NONE
    if name == 'appendleft':
        x = I.esc_term(st, args[0])
        I.mutate(st, lv, recv, lambda c, k: t.concat(t.lit([x]), c), 'list'); return NONE
    if name in ('pop', 'popleft'):
        i = ZERO if name == 'popleft' else (ts()[0] if args else num(-1))
        r = t.at(s, i)
        if i is ZERO: f = lambda c, k: t.slice_(c, ONE, None)
        elif i.op == 'num' and i.args[0] == -1: f = lambda c, k: t.slice_(c, None, num(-1))
        else: f = lambda c, k: t.app('lpop', [c, i], c.ty)
        I.mutate(st, lv, recv, f, 'list')
        return r
    if name == 'sort':
        v = _sorted(I, st, [s], kw, None)
        c2 = st.store[v.id][1]
        I.mutate(st, lv, recv, lambda c, k: c2, 'list'); return NONE
    if name == 'reverse':
        I.mutate(st, lv, recv, lambda c, k: t.reversed_(c), 'list'); return NONE
    if name == 'clear':
        I.mutate(st, lv, recv, lambda c, k: t.cat([]), 'list'); return NONE
    if name == 'remove':
        x = ts()[0]
        I.mutate(st, lv, recv, lambda c, k: t.app('lremove', [c, x], c.ty), 'list'); return NONE
    if name == 'copy': return I.new_ref(st, ('list', s))
    if name == 'index': return t.app('lindex', [s] + ts(), 'int')
    if name == 'count': return t.sum_stream(t.map_stream(s, lambda e: [t.elem(TRUE, t._b2n(t.eq(e, ts()[0])))]))
    if name == '__len__': return t.length(s)
    if name == '__getitem__': return t.at(s, ts()[0])
    if name == '__iter__': return s
    if name == '_replace' or name == '_asdict': raise Unsupported(name)
    raise Unsupported('method %s of a sequence' % name)


def dict_method(I, st, d, recv, name, args, kw, b):
    ts = lambda: [I.term(st, a) for a in args]
    memo = I.is_memo(d)
    if name == 'get':
        k = I.term(st, args[0])
        dflt = I.term(st, args[1]) if len(args) > 1 else NONE
        if memo: return dflt
        return lift(lambda d, k: t.ite(ip.in_dict(k, d), ip.dict_get(d, k), dflt), [d, k])
    if name == 'items': return I.dict_items(d)
    if name == 'keys': return I.dict_keys(d)
    if name == 'values': return I.dict_values(d)
    if name == 'copy':
        return I.new_ref(st, I.open_container(d))
    if memo:
        if name == 'setdefault': return args[1]
        if name in ('update', 'clear', 'pop'): return NONE
    if name == 'setdefault':
        k = I.term(st, args[0])
        v = I.term(st, args[1]) if len(args) > 1 else NONE
        has = lift(lambda d, k: ip.in_dict(k, d), [d, k])
        cur = lift(lambda d, k: ip.dict_get(d, k), [d, k])
        I.mutate(st, b.lv, recv, lambda c, kk: t.cat(t.pieces(c) + [t.elem(t.not_(has), mk('kv', k, v))]), 'dict')
        return t.ite(has, cur, v)
    if name == 'update':
        ps = []
        if args:
            x = I.term(st, args[0])
            if x.op == 'dictof': ps = t.pieces(x.args[0])
            elif I.dictlike(x): ps = [t.elem(TRUE, mk('dbase', x))]
            else: ps = t.pieces(t.map_stream(I.stream(st, args[0]), lambda e: [t.elem(TRUE, mk('kv', t.at(e, ZERO), t.at(e, ONE)))]))
        ps += [t.elem(TRUE, mk('kv', const(k), I.term(st, v))) for k, v in kw.items()]
        I.mutate(st, b.lv, recv, lambda c, kk: t.cat(t.pieces(c) + ps), 'dict'); return NONE
    if name == 'pop':
        k = I.term(st, args[0])
        r = lift(lambda d, k: ip.dict_get(d, k), [d, k])
        if len(args) > 1: r = t.ite(lift(lambda d, k: ip.in_dict(k, d), [d, k]), r, I.term(st, args[1]))
        I.mutate(st, b.lv, recv, lambda c, kk: t.cat(t.pieces(c) + [t.elem(TRUE, mk('ddel', k))]), 'dict')
        return r
    if name == 'clear':
        I.mutate(st, b.lv, recv, lambda c, kk: t.cat([]), 'dict'); return NONE
    if name == 'most_common': return t.app('b:most_common', [d] + ts())
    raise Unsupported('dict method ' + name)


def set_method(I, st, x, recv, name, args, kw, b):
    ts = lambda: [I.term(st, a) for a in args]
    if name == 'add':
        y = ts()[0]
        I.mutate(st, b.lv, recv, lambda c, k: t.concat(c, t.lit([y])), 'set'); return NONE
    if name == 'update':
        s = t.cat([p for a in args for p in t.pieces(I.stream(st, a))])
        I.mutate(st, b.lv, recv, lambda c, k: t.concat(c, s), 'set'); return NONE
    if name in ('discard', 'remove'):
        y = ts()[0]
        I.mutate(st, b.lv, recv, lambda c, k: t.map_stream(c, lambda e: [t.elem(t.not_(t.eq(e, y)), e)]), 'set'); return NONE
    if name == 'union':
        return t.setof(t.cat(ip.set_stream(x) + [p for a in args for p in t.pieces(I.stream(st, a))]))
    if name == 'copy':
        k, c = I.open_container(x)
        return I.new_ref(st, (k, c))
    if name == 'clear':
        I.mutate(st, b.lv, recv, lambda c, kk: t.cat([]), 'set'); return NONE
    if name in ('difference', 'intersection', 'symmetric_difference'):
        op = {'difference': 'Sub', 'intersection': 'BitAnd', 'symmetric_difference': 'BitXor'}[name]
        y = args[0]
        return I.binop(st, op, recv, t.setof(I.stream(st, y)))
    if name == 'isdisjoint': return t.not_(t.truthy(t.setof(t.map_stream(I.stream(st, x), lambda e: [t.elem(I.contains(st, e, args[0]), e)]))))
    if name not in ('issubset', 'issuperset'): raise Unsupported('set method ' + name)
    return t.app('b:' + name, [x] + ts(), 'bool')


def str_method(I, st, x, name, args, kw):
    if name == 'join':
        s = I.stream(st, args[0])

        def f(s):
            if s.op == 'cat' and t._is_lit(s):
                ps = []
                for n, p in enumerate(s.args):
                    if n: ps.append(x)
                    ps.append(p.args[1])
                return ip.strcat(ps) if ps else const('')
            return mk('join', x, s, ty='str')
        return lift(f, [s])
    if name == 'format':
        if x.op != 'const': raise Unsupported('format')
        return str_format(I, st, x.args[0], args, kw)
    ts = [I.term(st, a) for a in args]
    if x.op == 'const' and all(a.op == 'const' for a in ts) and (name in STRM or name in STRB):
        return const(getattr(x.args[0], name)(*[a.args[0] for a in ts]))
    if name in STRM: return t.app('s:' + name, [x] + ts, 'str')
    if name in STRB: return t.app('s:' + name, [x] + ts, 'bool')
    if name in ('split', 'splitlines', 'rsplit', 'partition'): return t.app('s:' + name, [x] + ts, ('seq', 'str'))
    if name in ('find', 'index', 'count', 'rfind'): return t.app('s:' + name, [x] + ts, 'int')
    return t.app('s:' + name, [x] + ts)


def str_format(I, st, fmt, args, kw):
    parts = re.split(r'(\{[^{}]*\})', fmt)
    out, n = [], 0
    for p in parts:
        m = re.fullmatch(r'\{([^{}:!]*)(?:!\w)?(:[^{}]*)?\}', p)
        if not m:
            if p: out.append(const(p.replace('{{', '{').replace('}}', '}')))
            continue
        fld, spec = m.group(1), m.group(2)
        if fld == '': v = args[n]; n += 1
        elif fld.isdigit(): v = args[int(fld)]
        elif fld in kw: v = kw[fld]
        else: raise Unsupported('format field ' + fld)
        x = I.term(st, v)
        out.append(mk('fmt', x, spec) if spec else ip.strof(x))
    return ip.strcat(out) if out else const('')
