"""
Canonical value terms.

A term is the abstract value of an expression: what is computed, independent of
how the source spells it.  Terms are hash-consed and are built only through the
smart constructors below, which keep them in a normal form:

* arithmetic      -- polynomials with rational coefficients over opaque atoms
                     (exponents may themselves be polynomials: N**depth)
* conditions      -- reduced ordered decision trees (`ite`) over atomic
                     conditions; every operation is distributed to the leaves
* sequences       -- concatenations (`cat`) of guarded elements and of `for`
                     blocks binding an index; indexing, reversing, slicing,
                     zipping and mapping are resolved on this form
* actions         -- non-commutative products (base maps acting on things) are
                     flattened, inverses cancelled
* binders         -- a bound variable is named by the height of its binder, so
                     alpha-equivalent terms are identical objects

Two expressions with the same normal form compute the same value.
"""
from __future__ import annotations
import hashlib
import time
from fractions import Fraction

class TooBig(Exception):
    pass

LIMIT = 400_000
DEADLINE = None
_count = 0
_table: dict = {}


_base = None


def reset_budget(limit=400_000):
    """start a fresh graph (module-level constant terms survive)"""
    global _count, LIMIT, _base, DEADLINE
    _count = 0
    DEADLINE = None
    LIMIT = limit
    if _base is None: _base = dict(_table)
    _table.clear()
    _table.update(_base)
    for f in _clearable: f.clear()


_clearable: list = []


class T:
    __slots__ = ('op', 'args', 'dig', 'fv', 'lvl', 'ty', '__weakref__')

    def __repr__(self):
        return show(self)


def _dig_args(a, h):
    if isinstance(a, T):
        h.update(b'T' + a.dig)
    elif isinstance(a, tuple):
        h.update(b'(%d' % len(a))
        for x in a:
            _dig_args(x, h)
        h.update(b')')
    else:
        h.update(('%s:%r' % (type(a).__name__, a)).encode())


def _scan(a, fv, lv):
    if isinstance(a, T):
        fv |= a.fv
        return max(lv, a.lvl), fv
    if isinstance(a, tuple):
        for x in a:
            lv, fv = _scan(x, fv, lv)
    return lv, fv


_EMPTY = frozenset()


def mk(op, *args, ty=None):
    key = (op, tuple((type(a).__name__, a) if isinstance(a, (bool, int, Fraction)) else a for a in args))
    t = _table.get(key)
    if t is not None:
        if t.ty is None and ty is not None:
            t.ty = ty
        return t
    global _count
    _count += 1
    if _count > LIMIT or (DEADLINE is not None and not _count & 511 and time.process_time() > DEADLINE):
        raise TooBig()
    t = T()
    t.op, t.args, t.ty = op, args, ty
    h = hashlib.blake2b(digest_size=10)
    h.update(op.encode())
    for a in args:
        _dig_args(a, h)
    t.dig = h.digest()
    lv, fv = 0, _EMPTY
    for a in args:
        lv, fv = _scan(a, fv, lv)
    if op in ('fresh', 'bv'):
        fv = frozenset([t])
    if op in BINDERS:
        # args[0] is the level (int); every occurrence of bv(level) inside is bound here
        lvl = args[0]
        fv = frozenset(x for x in fv if not (x.op == 'bv' and x.args[0] == lvl))
        lv = max(lv, lvl)
    t.fv, t.lvl = fv, lv
    _table[key] = t
    return t


# binder nodes: args[0] = level; args[1] = count (outside the scope); rest in scope
BINDERS = {'for', 'exists', 'sum', 'first', 'lastm', 'lam', 'mu', 'fprod', 'whilefor'}


def sortkey(t):
    return (t.op, t.dig)


# ---------------------------------------------------------------- leaves
def num(q):
    return mk('num', Fraction(q), ty='num')

def const(v):
    if v is True: return TRUE
    if v is False: return FALSE
    if isinstance(v, (int, Fraction)): return num(v)
    return mk('const', v, ty=('str' if isinstance(v, str) else 'none' if v is None else None))

TRUE = mk('const', True, ty='bool')
FALSE = mk('const', False, ty='bool')
NONE = mk('const', None, ty='none')
BOT = mk('bot')          # value of an expression that cannot return (subscript of None, ...)
ZERO = num(0)
ONE = num(1)

def var(name, ty=None):
    return mk('var', name, ty=ty)

_fresh = [0]

def fresh(hint='', ty=None):
    _fresh[0] += 1
    return mk('fresh', _fresh[0], hint, ty=ty)

def bv(level, idx=0, fl=None):
    """bound variable; without flavour an index (natural number), else a state variable of sort fl"""
    if fl is None: return mk('bv', level, idx)
    return mk('bv', level, idx, fl, ty=fl if fl != 'x' else None)


def flavour(f, op):
    if op not in ('mu', 'lam') or (f.op == 'fresh' and f.args[1] == 'i'): return None
    if op == 'lam': return 'x'
    return f.ty if isinstance(f.ty, str) and f.ty in ('int', 'num', 'bool', 'str') else 'x'

def is_num(t):
    return t.op in ('num', 'poly', 'sum', 'len') or t.ty in ('int', 'num')

def is_int(t):
    if t.op == 'num': return t.args[0].denominator == 1
    if t.op == 'poly':
        return all(c.denominator == 1 and all(is_int(b) and (e.op != 'num' or e.args[0] >= 0) for b, e in m) for c, m in t.args)
    if t.op in ('len',): return True
    if t.op == 'bv' and len(t.args) == 2: return True
    return t.ty == 'int'

# ---------------------------------------------------------------- booleans / ite
def is_boolop(t):
    return t is TRUE or t is FALSE or t.op in ATOMS or t.ty == 'bool'

ATOMS = {'gt0', 'eq0', 'eq', 'isnone', 'isinst', 'in', 'exists', 'truthy', 'hasattr', 'raises'}


def top_atom(t):
    if t.op == 'ite':
        return t.args[0]
    return None


def cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    if t is atom:
        return TRUE if val else FALSE
    return t


def _btop(c):
    """top atom of a boolean term"""
    if c.op == 'ite':
        return c.args[0]
    if c is TRUE or c is FALSE:
        return None
    return c


_ite_memo: dict = {}
_clearable.append(_ite_memo)


def ite(c, a, b):
    """if-then-else; c must be a boolean term"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if (a.op == 'cat' or b.op == 'cat') and not is_boolop(a) and not is_boolop(b) \
            and a.op in ('cat', 'ite') and b.op in ('cat', 'ite') and not _litseq_same(a, b):
        pass
    tops = [_btop(c)]
    for x in (a, b):
        if x.op == 'ite':
            tops.append(x.args[0])
        elif x.op in ATOMS or (x.ty == 'bool' and x is not TRUE and x is not FALSE):
            tops.append(x)
    at = min(tops, key=sortkey)
    c1, c0 = _cofc(c, at, True), _cofc(c, at, False)
    hi = ite(c1, cof(a, at, True), cof(b, at, True))
    lo = ite(c0, cof(a, at, False), cof(b, at, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE and at.op != 'const':
        r = at
    else:
        r = mk('ite', at, hi, lo, ty=_join_ty(hi, lo))
    _ite_memo[k] = r
    return r


def _litseq_same(a, b):
    return False


def _join_ty(a, b):
    if a.ty == b.ty: return a.ty
    if a.ty is None or a.ty == 'none': return b.ty
    if b.ty is None or b.ty == 'none': return a.ty
    if {a.ty, b.ty} <= {'int', 'num'} if isinstance(a.ty, str) and isinstance(b.ty, str) else False: return 'num'
    return None


def _cofc(c, at, val):
    if c.op == 'ite':
        if c.args[0] is at:
            return c.args[1] if val else c.args[2]
        return c
    if c is at:
        return TRUE if val else FALSE
    return c


def not_(c): return ite(c, FALSE, TRUE)
def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r
def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r
def xor_(a, b): return ite(a, not_(b), b)
def iff_(a, b): return ite(a, b, not_(b))


def lift(f, args):
    """apply f to ite-free arguments, distributing over decision trees"""
    tops = [a.args[0] for a in args if isinstance(a, T) and a.op == 'ite']
    if not tops:
        return f(*args)
    at = min(tops, key=sortkey)
    hi = lift(f, [cof(a, at, True) if isinstance(a, T) and a.op == 'ite' else a for a in args])
    lo = lift(f, [cof(a, at, False) if isinstance(a, T) and a.op == 'ite' else a for a in args])
    return ite(at, hi, lo)


def atom(t):
    """use a term as a condition"""
    return t


# ---------------------------------------------------------------- arithmetic
def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    if t is TRUE: return {(): Fraction(1)}
    if t is FALSE: return {}
    return {((t, ONE),): Fraction(1)}


def _mono_key(m):
    return tuple((sortkey(b), sortkey(e)) for b, e in m)


def _from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE: return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda cm: _mono_key(cm[1]))
    ints = all(c.denominator == 1 and all(is_int(b) and (e.op != 'num' or e.args[0] >= 0) for b, e in m) for c, m in items)
    return mk('poly', *items, ty='int' if ints else 'num')


def _add2(a, b):
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def add(a, b): return lift(_add2, [_b2n(a), _b2n(b)])
def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))


def _b2n(a):
    if a.op in ATOMS or a.ty == 'bool':
        return ite(a, ONE, ZERO)
    return a


def _mono_mul(m1, m2):
    d = {}
    for b, e in m1 + m2:
        if b in d: d[b] = add(d[b], e)
        else: d[b] = e
    # numeric bases fold
    coef = Fraction(1)
    out = []
    for b, e in d.items():
        if e is ZERO: continue
        out.append((b, e))
    out.sort(key=lambda be: (sortkey(be[0]), sortkey(be[1])))
    return coef, tuple(out)


def _mul2(a, b):
    pa, pb = _poly(a), _poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            c, m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * c
    return _from_poly(d)


def mul(a, b): return lift(_mul2, [_b2n(a), _b2n(b)])


def _pow2(a, e):
    if e.op == 'num':
        q = e.args[0]
        if q.denominator == 1:
            n = int(q)
            if a.op == 'num':
                if n >= 0 or a.args[0] != 0:
                    return num(a.args[0] ** n)
            if 0 <= n <= 6:
                r = ONE
                for _ in range(n): r = _mul2(r, a)
                return r
    if a.op == 'num' and a.args[0] == 1: return ONE
    pa = _poly(a)
    if len(pa) == 1:
        (m, c), = pa.items()
        if c == 1 and m:
            # (x^k)^e = x^(k*e)
            d = {}
            res = ONE
            for b, k in m:
                res = _mul2(res, _from_poly({((b, mul(k, e)),): Fraction(1)}))
            return res
        if e.op == 'num' and e.args[0] == -1 and m:
            inv = _pow2(_from_poly({m: Fraction(1)}), e)
            return _mul2(num(1 / c), inv)
    return _from_poly({((a, e),): Fraction(1)})


def power(a, e): return lift(_pow2, [_b2n(a), _b2n(e)])
def div(a, b): return mul(a, power(b, num(-1)))


def _floordiv2(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0]:
        return num(a.args[0] // b.args[0])
    if b is ONE and is_int(a): return a
    return mk('floordiv', a, b, ty='int')


def floordiv(a, b): return lift(_floordiv2, [a, b])


def _mod2(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0]:
        return num(a.args[0] % b.args[0])
    return mk('mod', a, b, ty='int' if is_int(a) else 'num')


def mod(a, b): return lift(_mod2, [a, b])

# ---------------------------------------------------------------- comparisons
def _normsign(p):
    """positive scaling to primitive coefficients"""
    d = _poly(p)
    if not d: return ZERO
    import math
    den = 1
    for c in d.values(): den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in d.values(): g = math.gcd(g, int(c * den))
    s = Fraction(den, g)
    return _from_poly({m: c * s for m, c in d.items()})


POSITIVE_OPS = {'len'}


def nonneg(t):
    """syntactic non-negativity"""
    if t.op == 'num': return t.args[0] >= 0
    if t.op in ('len',): return True
    if t.op == 'bv': return len(t.args) == 2
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(b) for b, e in m) for c, m in t.args)
    return t in NONNEG

NONNEG: set = set()
POSITIVE: set = set()   # atoms known to be >= 1


def positive(t):
    if t.op == 'num': return t.args[0] > 0
    if t in POSITIVE: return True
    if t.op == 'poly':
        tot = False
        for c, m in t.args:
            if c < 0 or not all(nonneg(b) or positive(b) for b, e in m): return False
            if all(positive(b) for b, e in m) : tot = True
        return tot
    return False


def _gt0(p):
    p = _normsign(p)
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    if positive(p): return TRUE
    np_ = _from_poly({m: -c for m, c in _poly(p).items()})
    if nonneg(np_) or positive(np_): return FALSE
    if is_int(p):
        q = _from_poly_sub1(p)          # 1 - p : complement
        if sortkey(q) < sortkey(p):
            return not_(mk('gt0', q, ty='bool'))
    return mk('gt0', p, ty='bool')


def _from_poly_sub1(p):
    d = {m: -c for m, c in _poly(p).items()}
    d[()] = d.get((), 0) + 1
    return _from_poly(d)


def gt(a, b):
    return lift(lambda x, y: _gt0(_add2(x, _neg1(y))), [_b2n(a), _b2n(b)])


def _neg1(y): return _from_poly({m: -c for m, c in _poly(y).items()})
def lt(a, b): return gt(b, a)
def ge(a, b): return not_(gt(b, a))
def le(a, b): return not_(gt(a, b))


def _is_lit(t):
    return t.op == 'cat' and all(p.op == 'elem' and p.args[0] is TRUE for p in t.args)


def _eq2(a, b):
    if a is b: return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args == b.args and type(a.args[0]) is type(b.args[0]) else FALSE
    if a is NONE or b is NONE:
        return _isnone(b if a is NONE else a)
    if is_boolop(a) and is_boolop(b):
        return iff_(a, b)
    if _is_lit(a) and _is_lit(b):
        if len(a.args) != len(b.args): return FALSE
        r = TRUE
        for p, q in zip(a.args, b.args):
            r = and_(r, eq(p.args[1], q.args[1]))
        return r
    if {a.op, b.op} & {'const', 'cat', 'new', 'strcat'}:
        if (a.op == 'num' or b.op == 'num') and {a.op, b.op} & {'const'}:
            return FALSE
        if sortkey(b) < sortkey(a): a, b = b, a
        return mk('eq', a, b, ty='bool')
    p = _normsign(_add2(a, _neg1(b)))
    if p.op == 'num': return TRUE if p.args[0] == 0 else FALSE
    q = _neg1(p)
    if nonneg(p): return not_(_gt0(p))      # n >= 0: n == 0 is not n > 0
    if nonneg(q): return not_(_gt0(q))
    if sortkey(q) < sortkey(p): p = q
    return mk('eq0', p, ty='bool')


def eq(a, b):
    if a.op in ATOMS and not is_boolop(b): a = _b2n(a)
    if b.op in ATOMS and not is_boolop(a): b = _b2n(b)
    if is_boolop(a) and is_boolop(b): return iff_(a, b)
    return lift(_eq2, [a, b])


def _isnone(a):
    if a is NONE: return TRUE
    if a.op in ('num', 'poly', 'cat', 'new', 'const', 'len', 'act', 'dictof', 'setof', 'strcat', 'maxof', 'minof') or (a.op == 'bv' and len(a.args) == 2): return FALSE
    if isinstance(a.ty, str) and a.ty in ('int', 'num', 'bool', 'str'): return FALSE
    if isinstance(a.ty, tuple) and a.ty[0] != 'opt': return FALSE
    return mk('isnone', a, ty='bool')


def isnone(a): return lift(_isnone, [a])


def _truthy(a):
    if is_boolop(a): return a
    if a.op == 'const': return TRUE if a.args[0] else FALSE
    if a.op == 'num': return TRUE if a.args[0] else FALSE
    if a.op in ('cat', 'dictof', 'setof') : return gt(length(a), ZERO)
    if isinstance(a.ty, tuple) and a.ty[0] in ('seq', 'tuple', 'dict', 'set'):
        return gt(length(a), ZERO)
    if is_num(a): return not_(eq(a, ZERO))
    if isinstance(a.ty, tuple) and a.ty[0] == 'opt' and isinstance(a.ty[1], tuple) and a.ty[1][0] == 'cls':
        return not_(isnone(a))
    if isinstance(a.ty, tuple) and a.ty[0] == 'cls': return TRUE
    return mk('truthy', a, ty='bool')


def truthy(a):
    if is_boolop(a) : return a
    return lift(_truthy, [a])

# ---------------------------------------------------------------- substitution
def subst(t, mapping):
    """replace free variables/terms; rebuilds through the smart constructors"""
    memo = {}
    keys = frozenset(k for k in mapping if k.op in ('fresh', 'bv'))
    other = [k for k in mapping if k.op not in ('fresh', 'bv')]

    def go(x):
        if x in mapping: return mapping[x]
        if not other and not (x.fv & keys): return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)


def _map_args(a, go):
    if isinstance(a, T): return go(a)
    if isinstance(a, tuple): return tuple(_map_args(x, go) for x in a)
    return a


def rebuild(x, go):
    op, a = x.op, x.args
    if op == 'poly':
        r = ZERO
        for c, m in a:
            t = num(c)
            for b, e in m:
                t = mul(t, power(go(b), go(e)))
            r = add(r, t)
        return r
    if op == 'ite':
        return ite(truthy(go(a[0])), go(a[1]), go(a[2]))
    if op in BINDERS:
        return rebuild_binder(x, go)
    if op == 'cat':
        return cat([go_piece(p, go) for p in a])
    f = REBUILD.get(op)
    if f is not None:
        return f(*[_map_args(y, go) for y in a])
    if op in ('var', 'const', 'num', 'fresh', 'bv'):
        return x
    args = [_map_args(y, go) for y in a]
    return app(op, args, x.ty)


def app(op, args, ty=None):
    """generic uninterpreted operation, distributed over ite in direct T arguments"""
    idx = [i for i, y in enumerate(args) if isinstance(y, T) and y.op == 'ite']
    if not idx or op in NOLIFT:
        return mk(op, *args, ty=ty)
    ats = [args[i].args[0] for i in idx]
    at = min(ats, key=sortkey)
    hi = [cof(y, at, True) if isinstance(y, T) and y.op == 'ite' else y for y in args]
    lo = [cof(y, at, False) if isinstance(y, T) and y.op == 'ite' else y for y in args]
    return ite(at, app(op, hi, ty), app(op, lo, ty))


NOLIFT = {'dictof', 'setof', 'maxof', 'minof', 'bag', 'effects', 'elem', 'for', 'piece'}


def go_piece(p, go):
    if p.op == 'elem':
        return elem(go(p.args[0]), go(p.args[1]))
    return rebuild(p, go) if p.fv or True else p


def rebuild_binder(x, go):
    op, a = x.op, x.args
    lvl = a[0]
    f = fresh()
    old = bv(lvl)
    # open the binder: bv(lvl, *) -> fresh
    bvs = {y for y in _bvs(x) if y.args[0] == lvl}
    opening = {b: fresh('i', 'int') if len(b.args) == 2 else fresh('o', b.ty) for b in bvs}
    opened = [a[0]] + [_open(y, opening) for y in a[1:]]
    inner = [_map_args(y, go) for y in opened[1:]]
    inv = {v: k.args[1] for k, v in opening.items()}
    return CLOSERS[op](inv, *inner)


def _bvs(x):
    s = set()
    seen = set()

    def w(y):
        if isinstance(y, tuple):
            for z in y: w(z)
            return
        if not isinstance(y, T) or y in seen: return
        seen.add(y)
        if y.op == 'bv': s.add(y)
        for z in y.args: w(z)
    for z in x.args: w(z)
    return {b for b in s if b.args[0] == x.args[0]}


def _open(y, mp):
    if isinstance(y, T): return subst(y, mp)
    if isinstance(y, tuple): return tuple(_open(z, mp) for z in y)
    return y


def _level(*xs):
    lv = 0
    for x in xs:
        l, _ = _scan(x, _EMPTY, 0)
        lv = max(lv, l)
    return lv + 1


def close(opname, inv, head, *body):
    """close fresh variables (inv: fresh -> idx) in body and build the binder"""
    lvl = _level(*body)
    mp = {f: bv(lvl, i, flavour(f, opname)) for f, i in inv.items()}
    return mk(opname, lvl, head, *[_open(b, mp) for b in body])

# ---------------------------------------------------------------- sequences
def elem(g, t):
    return mk('elem', g, t)


def split_elem(g, t):
    """guarded element; decision trees inside an element become guards"""
    if g is FALSE: return []
    if is_booltree(t): return [elem(g, and_(g, t))]
    if t.op == 'ite':
        return _merge_adj(split_elem(and_(g, t.args[0]), t.args[1]) + split_elem(and_(g, not_(t.args[0])), t.args[2]))
    return [elem(g, t)]


def excl(a, b): return and_(a, b) is FALSE


def is_booltree(t):
    if t.op == 'ite': return t.ty == 'bool' or (is_booltree(t.args[1]) and is_booltree(t.args[2]))
    return t is TRUE or t is FALSE or t.op in ATOMS or t.ty == 'bool'


def _merge_adj(ps):
    """merge equal elements under exclusive guards; sort mutually exclusive neighbours"""
    ps = list(ps)
    changed = True
    while changed:
        changed = False
        i = 0
        while i + 1 < len(ps):
            a, b = ps[i], ps[i + 1]
            if a.op == 'elem' and b.op == 'elem':
                if a.args[1] is b.args[1] and excl(a.args[0], b.args[0]):
                    ps[i:i + 2] = [elem(or_(a.args[0], b.args[0]), a.args[1])]
                    changed = True
                    continue
                if a.args[0] is not TRUE and b.args[0] is not TRUE and is_booltree(a.args[1]) and is_booltree(b.args[1]) and excl(a.args[0], b.args[0]):
                    ps[i:i + 2] = [elem(or_(a.args[0], b.args[0]), or_(a.args[1], b.args[1]))]
                    changed = True
                    continue
                if a.args[0] is not TRUE and sortkey(b.args[1]) < sortkey(a.args[1]) and excl(a.args[0], b.args[0]):
                    ps[i], ps[i + 1] = b, a
                    changed = True
            i += 1
    return ps


def guard_pieces(g, ps):
    if g is TRUE: return list(ps)
    if g is FALSE: return []
    out = []
    for p in ps:
        if p.op == 'elem':
            gg = and_(g, p.args[0])
            if gg is not FALSE: out.append(elem(gg, and_(gg, p.args[1]) if is_booltree(p.args[1]) else p.args[1]))
        elif p.op == 'for':
            out.extend(for_pieces_closed(p, g))
        else:
            out.append(app('guarded', [g, p]))
    return out


def for_pieces_closed(p, g):
    n, body = p.args[1], p.args[2]
    inv = {}
    mp = {}
    for b in _bvs(p):
        f = fresh('g'); mp[b] = f; inv[f] = b.args[1]
    ob = subst(body, mp)
    return for_pieces(inv, n, guard_pieces(g, pieces(ob)))


def pieces(t):
    if t.op == 'cat': return list(t.args)
    if t.op == 'ite':
        return ite_pieces(t.args[0], pieces(t.args[1]), pieces(t.args[2]))
    if t.op == 'const' and isinstance(t.args[0], str):
        return [elem(TRUE, const(ch)) for ch in t.args[0]] if len(t.args[0]) <= 12 else [_splice(t)]
    return [_splice(t)]


def ite_pieces(c, hi, lo):
    """pieces of `hi if c else lo`: shared ends are kept unguarded, parallel loops are fused"""
    pre = []
    hi, lo = list(hi), list(lo)
    while hi and lo and hi[0] is lo[0]:
        pre.append(hi.pop(0)); lo.pop(0)
    suf = []
    while hi and lo and hi[-1] is lo[-1]:
        suf.insert(0, hi.pop()); lo.pop()
    nc = not_(c)
    if len(hi) == len(lo) and all(a.op == 'for' and b.op == 'for' and a.args[1] is b.args[1] or a.op == b.op == 'elem' for a, b in zip(hi, lo)):
        mid = []
        for a, b in zip(hi, lo):
            if a.op == 'elem':
                mid += guard_pieces(c, [a]) + guard_pieces(nc, [b])
            else:
                f = fresh('w', 'int')
                ba = subst(a.args[2], {y: f for y in _bvs(a)})
                bb = subst(b.args[2], {y: f for y in _bvs(b)})
                mid += for_pieces({f: 0}, a.args[1], ite_pieces(c, pieces(ba), pieces(bb)))
    else:
        mid = guard_pieces(c, hi) + guard_pieces(nc, lo)
    return _merge_adj(pre + mid + suf)


def cat_ite(c, x, y):
    if x is y: return x
    if x.op == 'cat' or y.op == 'cat':
        px, py = pieces(x), pieces(y)
        if (px and py and px[0] is py[0]) or not px or not py:
            return cat(ite_pieces(c, px, py))
    return ite(c, x, y)


def strip_prefix(nx, S):
    """pieces appended to S in nx; None if nx does not extend S"""
    if nx is S: return []
    if nx.op == 'ite':
        a, b = strip_prefix(nx.args[1], S), strip_prefix(nx.args[2], S)
        if a is None or b is None: return None
        return ite_pieces(nx.args[0], a, b)
    if nx.op != 'cat': return None
    sp = pieces(S)
    if len(nx.args) < len(sp): return None
    if all(p is q for p, q in zip(nx.args, sp)): return list(nx.args[len(sp):])
    return None


def strip_suffix(nx, S):
    if nx is S: return []
    if nx.op == 'ite':
        a, b = strip_suffix(nx.args[1], S), strip_suffix(nx.args[2], S)
        if a is None or b is None: return None
        return ite_pieces(nx.args[0], a, b)
    if nx.op != 'cat': return None
    sp = pieces(S)
    k = len(nx.args) - len(sp)
    if k < 0: return None
    if all(p is q for p, q in zip(nx.args[k:], sp)): return list(nx.args[:k])
    return None


def setidx(c, i, v):
    def f(c, i):
        if _is_lit(c) and i.op == 'num' and i.args[0].denominator == 1 and -len(c.args) <= i.args[0] < len(c.args):
            its = [p.args[1] for p in c.args]
            its[int(i.args[0])] = v
            return lit(its)
        if i.op == 'num' and i.args[0] < 0: i = add(length(c), i)
        if c.op == 'setidx' and c.args[1] is i: c = c.args[0]
        return mk('setidx', c, i, v, ty=c.ty)
    return lift(f, [c, i])


def scatter(init, s):
    """init with s = stream of (index, value) written in order"""
    def f(init, s):
        if s.op == 'cat' and not s.args: return init
        if s.op == 'cat' and len(s.args) == 1 and s.args[0].op == 'for':
            p = s.args[0]
            b = p.args[2]
            if b.op == 'cat' and len(b.args) == 1 and b.args[0].op == 'elem' and b.args[0].args[0] is TRUE:
                e = b.args[0].args[1]
                v = bv(p.args[0])
                if at(e, ZERO) is v and length(init) is p.args[1]:
                    g = fresh('w', 'int')
                    return cat(for_pieces({g: 0}, p.args[1], [elem(TRUE, subst(at(e, ONE), {v: g}))]))
        if s.op == 'cat' and all(p.op == 'elem' and p.args[0] is TRUE for p in s.args):
            r = init
            for p in s.args: r = setidx(r, at(p.args[1], ZERO), at(p.args[1], ONE))
            return r
        return mk('scatter', init, s, ty=('seq', None))
    return lift(f, [init, s])


def overwrite(init, n, lam):
    """first n slots of init replaced by lam(index)"""
    def f(init, n):
        if n is ZERO: return init
        if length(init) is n:
            g = fresh('w', 'int')
            body = subst(lam.args[2], {y: g for y in _bvs(lam)})
            return cat(for_pieces({g: 0}, n, [elem(TRUE, body)]))
        return mk('overwrite', init, n, lam, ty=init.ty)
    return lift(f, [init, n])


def nonempty(s):
    if s.op == 'cat':
        return any_(map_stream(s, lambda e: [elem(TRUE, TRUE)]))
    return gt(length(s), ZERO)


def _splice(t):
    f = fresh('s')
    n = length(t)
    return close('for', {f: 0}, n, cat([elem(TRUE, at(t, f))]))


def for_pieces(inv, n, ps):
    """pieces of `for <fresh> < n: ps` (inv: fresh -> 0)"""
    if not ps: return []
    if n is ZERO: return []
    if n.op == 'ite':
        return _merge_adj(guard_pieces(n.args[0], for_pieces(inv, n.args[1], ps)) + guard_pieces(not_(n.args[0]), for_pieces(inv, n.args[2], ps)))
    f0 = next(iter(inv)) if inv else None
    if n is ONE and f0 is not None:
        return [q for p in ps for q in pieces(subst(cat([p]), {f0: ZERO}))]
    return [close('for', inv, n, cat(ps))]


def cat(ps):
    out = []
    for p in ps:
        if p.op == 'elem':
            out.extend(split_elem(p.args[0], p.args[1]))
        elif p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    out = _merge_adj(out)
    if len(out) == 1 and out[0].op == 'for':
        n, body = out[0].args[1], out[0].args[2]
        if body.op == 'cat' and len(body.args) == 1 and body.args[0].op == 'elem' and body.args[0].args[0] is TRUE:
            e = body.args[0].args[1]
            b = bv(out[0].args[0])
            if e.op == 'at' and e.args[1] is b and b not in e.args[0].fv and length(e.args[0]) is n:
                return e.args[0]
    return mk('cat', *out, ty=('seq', None))


def lit(items): return cat([elem(TRUE, x) for x in items])


def seq_ty(t):
    if isinstance(t.ty, tuple) and t.ty[0] == 'seq': return t.ty[1]
    if isinstance(t.ty, tuple) and t.ty[0] in ('set', 'dict'): return t.ty[1]
    return None


LEN_AXIOMS = []   # functions t -> T or None


def _length1(t):
    if t.op == 'cat':
        r = ZERO
        for p in t.args:
            if p.op == 'elem':
                r = add(r, ite(p.args[0], ONE, ZERO))
            elif p.op == 'for':
                b = p.args[2]
                lb = length(b)
                if any(y.op == 'bv' and y.args[0] == p.args[0] for y in lb.fv):
                    mp = {}; inv = {}
                    for y in _bvs(p):
                        f = fresh('l'); mp[y] = f; inv[f] = 0
                    r = add(r, sum_(inv, p.args[1], subst(lb, mp)))
                else:
                    r = add(r, mul(p.args[1], lb))
            else:
                r = add(r, mk('len', p, ty='int'))
        return r
    for f in LEN_AXIOMS:
        r = f(t)
        if r is not None: return r
    if t.op == 'sorted': return length(t.args[0])
    if t.op == 'const' and isinstance(t.args[0], str): return num(len(t.args[0]))
    if t.op == 'scatter': return length(t.args[0])
    if t.op in ('setidx', 'overwrite', 'reversed'): return length(t.args[0])
    if t.op == 'at':
        b = t.args[0]
        if b.op == 'productn': return b.args[1]
        if b.op == 'perms': return length(b.args[0])
        if b.op == 'product': return length(b.args[0])
        if b.op in ('combs', 'combsr'): return b.args[1]
    if t.op == 'const' and t.args[0] is None: return ZERO
    if t.op in ('setof',) and all(p.op == 'elem' and p.args[0] is TRUE for p in t.args[0].args) and len(t.args[0].args) <= 1:
        return num(len(t.args[0].args))
    return mk('len', t, ty='int')


def length(t): return lift(_length1, [t])


def elem_of_ty(ty, i=None):
    if isinstance(ty, tuple):
        if ty[0] == 'seq': return ty[1]
        if ty[0] == 'opt': return elem_of_ty(ty[1], i)
        if ty[0] == 'tuple' and i is not None and i.op == 'num' and 0 <= i.args[0] < len(ty[1]): return ty[1][int(i.args[0])]
        if ty[0] == 'tuple' and ty[1] and all(x == ty[1][0] for x in ty[1]): return ty[1][0]
        if ty[0] == 'set': return ty[1]
        if ty[0] == 'dict': return ty[1]
        if ty[0] == 'cls': return CLS_ELEM.get(ty[1])
    if ty == 'str': return 'str'
    return None

CLS_ELEM: dict = {}


def _at2(s, i):
    if s is NONE or s is BOT or i is NONE or i is BOT: return BOT
    if s.op == 'cat':
        ps = s.args
        # negative constant index
        if i.op == 'num':
            k = int(i.args[0])
            if k >= 0:
                for j, v in enumerate(_singles(ps)):
                    if j == k: return v
            else:
                for j, v in enumerate(_singles(reversed(ps))):
                    if -1 - j == k: return v
        if i.op == 'num' and i.args[0] < 0:
            i2 = add(length(s), i)
            if i2.op != 'ite': return _at2(s, i2)
        if len(ps) == 1 and ps[0].op == 'for':
            p = ps[0]
            body = p.args[2]
            if body.op == 'cat' and len(body.args) == 1 and body.args[0].op == 'elem' and body.args[0].args[0] is TRUE:
                mp = {}
                for y in _bvs(p): mp[y] = i
                return subst(body.args[0].args[1], mp)
            if body.op == 'cat' and body.args and all(q.op == 'elem' for q in body.args):
                # exactly one of exclusive exhaustive guarded elements
                g = FALSE; ok = True
                for q in body.args:
                    if not excl(g, q.args[0]): ok = False
                    g = or_(g, q.args[0])
                if ok and g is TRUE:
                    mp = {}
                    for y in _bvs(p): mp[y] = i
                    r = None
                    for q in reversed(body.args):
                        v = subst(q.args[1], mp)
                        r = v if r is None else ite(subst(q.args[0], mp), v, r)
                    return r
        # skip constant prefix
        k = 0
        for p in ps:
            if p.op == 'elem' and p.args[0] is TRUE: k += 1
            else: break
        if k and k < len(ps):
            d = sub(i, num(k))
            if d.op != 'ite' and (nonneg(d)):
                return at(cat(ps[k:]), d)
    if i.op == 'num' and i.args[0] < 0:
        i = add(length(s), i)
        if i.op == 'ite': return at(s, i)
    if s.op == 'const' and isinstance(s.args[0], str) and i.op == 'num' and 0 <= i.args[0] < len(s.args[0]):
        return const(s.args[0][int(i.args[0])])
    if s.op == 'setidx':
        e = eq(s.args[1], i)
        if e is TRUE: return s.args[2]
        if e is FALSE: return at(s.args[0], i)
    if s.op == 'overwrite':
        v = subst(s.args[2].args[2], {y: i for y in _bvs(s.args[2])})
        c = lt(i, s.args[1])
        if c is TRUE: return v
        if c is FALSE: return at(s.args[0], i)
    return mk('at', s, i, ty=elem_of_ty(s.ty, i))


def at(s, i): return lift(_at2, [s, i])


def _singles(ps):
    """values of the leading pieces that stand for exactly one element each"""
    acc, g = [], FALSE
    for p in ps:
        if p.op != 'elem': return
        if p.args[0] is TRUE and not acc: yield p.args[1]; continue
        if not excl(g, p.args[0]): return
        acc.append(p); g = or_(g, p.args[0])
        if g is TRUE:
            r = None
            for q in acc: r = q.args[1] if r is None else ite(q.args[0], q.args[1], r)
            yield r
            acc, g = [], FALSE


def reversed_(s):
    def f(s):
        if s.op == 'cat' and not (len(s.args) == 1 and s.args[0].op == 'for'):
            out = []
            for p in reversed(s.args):
                if p.op == 'elem': out.append(p)
                elif p.op == 'for': out.extend(_rev_for(p))
                else: return mk('reversed', s)
            return cat(out)
        if s.op == 'cat': return cat(_rev_for(s.args[0]))
        g = fresh('r')
        n = length(s)
        return cat(for_pieces({g: 0}, n, [elem(TRUE, at(s, sub(sub(n, ONE), g)))]))
    return lift(f, [s])


def _rev_for(p):
    n = p.args[1]
    g = fresh('r')
    mp = {y: sub(sub(n, ONE), g) for y in _bvs(p)}
    body = subst(p.args[2], mp)
    return for_pieces({g: 0}, n, pieces(reversed_(body)))


def concat(a, b):
    return cat(pieces(a) + pieces(b))


def repeat(a, n):
    if n.op == 'num' and n.args[0] <= 8:
        return cat([p for _ in range(int(n.args[0])) for p in pieces(a)])
    f = fresh('n')
    return cat(for_pieces({f: 0}, n, pieces(a)))


def range_(a, b, step=1):
    f = fresh('i', 'int')
    if step == 1:
        n = sub(b, a)
        if n.op == 'num' and n.args[0] <= 0: return cat([])
        if n.op == 'num' and n.args[0] <= 6:
            return lit([add(a, num(k)) for k in range(int(n.args[0]))])
        return cat(for_pieces({f: 0}, n, [elem(TRUE, add(a, f))]))
    if step == -1:
        n = sub(a, b)
        if n.op == 'num' and n.args[0] <= 0: return cat([])
        if n.op == 'num' and n.args[0] <= 6:
            return lit([sub(a, num(k)) for k in range(int(n.args[0]))])
        return cat(for_pieces({f: 0}, n, [elem(TRUE, sub(a, f))]))
    return mk('range', a, b, num(step))


def slice_(s, a, b):
    """s[a:b]; a, b terms or None, assumed within range"""
    def f(s, a, b):
        n = length(s)
        if a is None: a = ZERO
        if b is None: b = n
        if a.op == 'num' and a.args[0] < 0: a = add(n, a)
        if b.op == 'num' and b.args[0] < 0: b = add(n, b)
        if _is_lit(s) and a.op == 'num' and b.op == 'num':
            return cat(s.args[int(a.args[0]):int(b.args[0])])
        if s.op == 'const' and isinstance(s.args[0], str) and a.op == 'num' and b.op == 'num':
            return const(s.args[0][int(a.args[0]):int(b.args[0])])
        if s.ty == 'str':
            return mk('strslice', s, a, b, ty='str')
        if b.op == 'num' and b.args[0] > 4 and n.op != 'num': b = minlen([b, n])      # a bound that need not be reached
        g = fresh('c', 'int')
        m = sub(b, a)
        if m.op == 'ite' or n.op == 'ite':
            return cat(for_pieces({g: 0}, m, [elem(TRUE, at(s, add(a, g)))]))
        return cat(for_pieces({g: 0}, m, [elem(TRUE, at(s, add(a, g)))]))
    args = [s] + [x for x in (a, b) if x is not None]
    flags = (a is not None, b is not None)
    def g(s, *r):
        r = list(r)
        aa = r.pop(0) if flags[0] else None
        bb = r.pop(0) if flags[1] else None
        return f(s, aa, bb)
    return lift(g, args)


def minlen(ns):
    ns = list(dict.fromkeys(ns))
    if len(ns) == 1: return ns[0]
    vals = [n for n in ns if n.op == 'num']
    return lift(lambda *xs: xs[0] if len(set(xs)) == 1 else mk('minof', _sortbag([elem(TRUE, x) for x in set(xs)]), ty='int'), ns)


def zip_(seqs):
    if all(_is_lit(s) for s in seqs):
        m = min(len(s.args) for s in seqs)
        return lit([lit([s.args[k].args[1] for s in seqs]) for k in range(m)])
    f = fresh('z', 'int')
    n = minlen([length(s) for s in seqs])
    if n.op == 'num' and n.args[0] <= 6:
        return lit([lit([at(s, num(k)) for s in seqs]) for k in range(int(n.args[0]))])
    return cat(for_pieces({f: 0}, n, [elem(TRUE, lit([at(s, f) for s in seqs]))]))


def enumerate_(s, start=ZERO):
    if _is_lit(s):
        return lit([lit([add(start, num(k)), p.args[1]]) for k, p in enumerate(s.args)])
    f = fresh('e', 'int')
    n = length(s)
    return cat(for_pieces({f: 0}, n, [elem(TRUE, lit([add(start, f), at(s, f)]))]))


def map_stream(s, fn):
    """fn: element term -> list of pieces"""
    out = []
    for p in pieces(s):
        out.extend(_map_piece(p, fn))
    return cat(out)


def _map_piece(p, fn):
    if p.op == 'elem':
        return guard_pieces(p.args[0], fn(p.args[1]))
    if p.op == 'for':
        mp = {}; inv = {}
        for y in _bvs(p) or {bv(p.args[0])}:
            f = fresh('m', 'int'); mp[y] = f; inv[f] = 0
        body = subst(p.args[2], mp)
        ps = []
        for q in pieces(body): ps.extend(_map_piece(q, fn))
        return for_pieces(inv, p.args[1], ps)
    return [mk('piecemap', p)]


def product_(seqs):
    """itertools.product of a known number of sequences"""
    def go(k, acc):
        if k == len(seqs): return [elem(TRUE, lit(acc))]
        return pieces(map_stream(seqs[k], lambda e: go(k + 1, acc + [e])))
    return cat(go(0, []))


# bag (unordered) normal form: every piece separately, sorted
def bag_pieces(t):
    out = []
    for p in pieces(t):
        out.extend(_bag_piece(p))
    return out


def _bag_piece(p):
    if p.op == 'elem': return split_elem(p.args[0], p.args[1])
    if p.op == 'for':
        mp = {}; inv = {}
        for y in _bvs(p) or {bv(p.args[0])}:
            f = fresh('b', 'int'); mp[y] = f; inv[f] = 0
        body = subst(p.args[2], mp)
        out = []
        for q in bag_pieces(body):
            qs = for_pieces(inv, p.args[1], [q])
            for r in qs:
                r2 = _rev_canon(r)
                out.append(_nest_canon(r2))
        return out
    return [p]


def _rev_canon(p):
    """an unordered loop may run backwards: choose the smaller of the two forms"""
    q = _rev_for(p)
    if len(q) == 1 and q[0].op == 'for' and sortkey(q[0]) < sortkey(p): return q[0]
    return p


def _nest_canon(p):
    """order of directly nested independent loops is irrelevant in a bag"""
    b = p.args[2] if p.op == 'for' else None
    if b is None or b.op != 'cat' or len(b.args) != 1 or b.args[0].op != 'for': return p
    q = b.args[0]
    if any(y.op == 'bv' and y.args[0] == p.args[0] for y in q.args[1].fv): return p
    mp = {y: fresh('x') for y in _bvs(p)}; invo = {v: 0 for v in mp.values()}
    qq = subst(cat([q]), mp)
    if qq.op != 'cat' or len(qq.args) != 1 or qq.args[0].op != 'for': return p
    qq = qq.args[0]
    mp2 = {y: fresh('y') for y in _bvs(qq)}; invi = {v: 0 for v in mp2.values()}
    body = subst(qq.args[2], mp2)
    if not invo or not invi: return p
    alt = for_pieces(invi, qq.args[1], for_pieces(invo, p.args[1], pieces(body)))
    if len(alt) == 1 and sortkey(alt[0]) < sortkey(p): return alt[0]
    return p


def _sortbag(ps):
    return mk('bag', *sorted(ps, key=sortkey))


def bag(t):
    return _sortbag(bag_pieces(t))


def setof(t):
    ps = {}
    for p in bag_pieces(t): ps[p] = 1
    # same element under several guards
    el = {}
    out = []
    for p in ps:
        if p.op == 'elem': el[p.args[1]] = or_(el.get(p.args[1], FALSE), p.args[0])
        else: out.append(p)
    out += [elem(g, x) for x, g in el.items()]
    e = seq_ty(t)
    return mk('setof', _sortbag(out), ty=('set', e))


def _unbag(b): return cat(list(b.args))


def _entry_leaves(s, out):
    if s.op == 'cat':
        for p in s.args: _entry_leaves(p, out)
    elif s.op == 'for': _entry_leaves(s.args[2], out)
    elif s.op == 'elem': out.append(s.args[1])
    else: out.append(None)

def _dict_types(t):
    ls = []
    _entry_leaves(t, ls)
    ks, vs, bad = [], [], False
    for e in ls:
        if e is None: return ('dict', None, None)
        if e.op == 'kv': ks.append(e.args[0].ty); vs.append(e.args[1].ty)
        elif e.op == 'ddefault': vs.append({'int': 'int', 'dict': 'dict', 'set': 'set', 'list': 'list'}.get(e.args[0]))
        elif e.op == 'upd':
            ks.append(e.args[1].ty)
            if e.args[0] == 'dict' and e.args[2].op == 'kv': vs.append(('dict', e.args[2].args[0].ty, e.args[2].args[1].ty))
            elif e.args[0] == 'set': vs.append(('set', e.args[2].ty))
            elif e.args[0] == 'list': vs.append(('seq', e.args[2].ty))
            else: bad = True
        elif e.op == 'inc': ks.append(e.args[0].ty); vs.append('int')
        else: bad = True
    k = ks[0] if ks and all(x == ks[0] for x in ks) else None
    if bad: return ('dict', None, None)
    d = [x for x in vs if x in ('dict', 'set', 'list')]
    c = [x for x in vs if x not in ('dict', 'set', 'list')]
    v = c[0] if c and all(x == c[0] for x in c) else None
    if d and (v is None or v[0] != {'list': 'seq'}.get(d[0], d[0])):
        v = {'dict': ('dict', None, None), 'set': ('set', None), 'list': ('seq', None)}[d[0]] if all(x is None or (isinstance(x, tuple) and x[0] == {'list': 'seq'}.get(d[0], d[0])) for x in c) else None
    return ('dict', k, v)

def dictof(t):
    r = mk('dictof', t, ty=None)
    if r.ty is None: r.ty = _dict_types(t)
    return r

# ---------------------------------------------------------------- quantifiers / folds
def exists(inv, n, c):
    """exists fresh < n: c"""
    if c is FALSE: return FALSE
    if n.op == 'ite':
        return ite(n.args[0], exists(inv, n.args[1], c), exists(inv, n.args[2], c))
    fs = set(inv)
    if not (c.fv & fs):
        return and_(c, gt(n, ZERO))
    if n.op == 'num' and n.args[0] <= 6:
        f = next(iter(inv)); r = FALSE
        for k in range(int(n.args[0])): r = or_(r, truthy(subst(c, {f: num(k)})))
        return r
    # disjunction splits: exists (a or b) = exists a or exists b -- via paths of the decision tree
    cubes = _cubes(c)
    r = FALSE
    for cube in cubes:
        inside = [x for x in cube if x.fv & fs]
        outside = [x for x in cube if not (x.fv & fs)]
        if not inside:
            e = gt(n, ZERO)
        else:
            e = _rev_exists(inv, n, and_(*inside))
        r = or_(r, and_(*outside, e))
    return r


def _rev_exists(inv, n, c):
    a = close('exists', inv, n, c)
    f = next(iter(inv))
    g = fresh('q')
    c2 = subst(c, {f: sub(sub(n, ONE), g)})
    b = close('exists', {g: 0}, n, c2)
    if a.ty is None: a.ty = 'bool'
    if b.ty is None: b.ty = 'bool'
    return a if sortkey(a) <= sortkey(b) else b


def _cubes(c):
    """irredundant-ish disjunctive form of a decision tree (deterministic)"""
    if c is TRUE: return [[]]
    if c is FALSE: return []
    if c.op != 'ite': return [[c]]
    at_, hi, lo = c.args
    both = and_(hi, lo)
    out = [q for q in _cubes(both)]
    h = _cubes_minus(hi, both)
    l = _cubes_minus(lo, both)
    out += [[at_] + q for q in h]
    out += [[not_(at_)] + q for q in l]
    return out


def _cubes_minus(c, d):
    res = []
    for q in _cubes(c) if c.op == 'ite' or c is TRUE or c is FALSE else [[c]]:
        if and_(and_(*q), not_(d)) is not FALSE:
            res.append(q)
    return res


def any_(s):
    r = FALSE
    for p in pieces(s): r = or_(r, _any_piece(p))
    return r


def _any_piece(p):
    if p.op == 'elem': return and_(p.args[0], truthy(p.args[1]))
    if p.op == 'for':
        mp = {}; inv = {}
        for y in _bvs(p) or {bv(p.args[0])}:
            f = fresh('a', 'int'); mp[y] = f; inv[f] = 0
        body = subst(p.args[2], mp)
        r = FALSE
        for q in pieces(body): r = or_(r, _any_piece(q))
        return exists(inv, p.args[1], r)
    return mk('truthy', p, ty='bool')


def all_(s):
    return not_(any_(map_stream(s, lambda e: [elem(TRUE, not_(truthy(e)))])))


def sum_(inv, n, e):
    """sum over fresh < n of e"""
    fs = set(inv)
    if not (e.fv & fs): return mul(n, e)
    if n.op == 'num' and n.args[0] <= 6:
        f = next(iter(inv)); r = ZERO
        for k in range(int(n.args[0])): r = add(r, subst(e, {f: num(k)}))
        return r
    if e.op == 'ite':
        at_ = e.args[0]
        if not (at_.fv & fs):
            return ite(at_, sum_(inv, n, e.args[1]), sum_(inv, n, e.args[2]))
        if e.args[2] is not ZERO and e.args[1] is not ZERO:
            return add(sum_(inv, n, ite(at_, e.args[1], ZERO)), sum_(inv, n, ite(at_, ZERO, e.args[2])))
        return _rev_sum(inv, n, e)
    r = ZERO
    for m, c in _poly(e).items():
        out = num(c); ins = ONE
        for b, x in m:
            t = power(b, x)
            if (b.fv | x.fv) & fs:
                # b^(k + i) = b^k * b^i when b is invariant
                if not (b.fv & fs):
                    const_part = ZERO; var_part = ZERO
                    for mm, cc in _poly(x).items():
                        tt = _from_poly({mm: cc})
                        if tt.fv & fs: var_part = add(var_part, tt)
                        else: const_part = add(const_part, tt)
                    out = mul(out, power(b, const_part))
                    ins = mul(ins, power(b, var_part))
                else:
                    ins = mul(ins, t)
            else:
                out = mul(out, t)
        if not (ins.fv & fs): r = add(r, mul(out, mul(n, ins)))
        else: r = add(r, mul(out, _rev_sum(inv, n, ins)))
    return r


def _rev_sum(inv, n, e):
    a = close('sum', inv, n, e)
    f = next(iter(inv))
    g = fresh('q')
    e2 = subst(e, {f: sub(sub(n, ONE), g)})
    if len(_poly(e2)) == 1:
        (m, c), = _poly(e2).items()
        # factor invariants out of the reversed form too
        out = num(c); ins = ONE
        for b, x in m:
            if g in b.fv: ins = mul(ins, power(b, x)); continue
            if g in x.fv:
                cp = ZERO; vp = ZERO
                for mm, cc in _poly(x).items():
                    tt = _from_poly({mm: cc})
                    if g in tt.fv: vp = add(vp, tt)
                    else: cp = add(cp, tt)
                out = mul(out, power(b, cp)); ins = mul(ins, power(b, vp))
            else: out = mul(out, power(b, x))
        b_ = close('sum', {g: 0}, n, ins)
        # prefer the form without negative powers of the index
        ka, kb = _negpow(a), _negpow(b_)
        if (kb, sortkey(b_)) < (ka, sortkey(a)):
            return mul(out, b_)
        return a
    return a


def _negpow(s):
    """number of negative index exponents inside a sum body (form preference)"""
    cnt = 0
    body = s.args[2]
    for m in _poly(body):
        for b, x in m:
            for mm, cc in _poly(x).items():
                if cc < 0 and any(y.op == 'bv' for bb, ee in mm for y in [bb]): cnt += 1
    return cnt


def sum_stream(s):
    r = ZERO
    for p in pieces(s): r = add(r, _sum_piece(p))
    return r


def _sum_piece(p):
    if p.op == 'elem': return ite(p.args[0], _b2n(p.args[1]), ZERO)
    if p.op == 'for':
        mp = {}; inv = {}
        for y in _bvs(p) or {bv(p.args[0])}:
            f = fresh('a', 'int'); mp[y] = f; inv[f] = 0
        body = subst(p.args[2], mp)
        r = ZERO
        for q in pieces(body): r = add(r, _sum_piece(q))
        return sum_(inv, p.args[1], r)
    return mk('sumof', p, ty='num')


def first_(inv, n, c, v, default):
    """value v of the first index with c, else default"""
    if c is FALSE: return default
    fs = set(inv)
    if not (v.fv & fs):
        return ite(exists(inv, n, c), v, default)
    e = exists(inv, n, c)
    return ite(e, close('first', inv, n, c, v), default)


def head(s):
    """next(iter(s)) without default: first element"""
    ps = pieces(s)
    for p in ps:
        if p.op == 'elem' and p.args[0] is TRUE: return p.args[1]
        break
    if len(ps) == 1 and ps[0].op == 'for':
        p = ps[0]
        body = p.args[2]
        if body.op == 'cat' and len(body.args) == 1 and body.args[0].op == 'elem':
            g, e = body.args[0].args
            mp = {}; inv = {}
            for y in _bvs(p) or {bv(p.args[0])}:
                f = fresh('a', 'int'); mp[y] = f; inv[f] = 0
            g, e = subst(g, mp), subst(e, mp)
            if g is TRUE: return subst(e, {next(iter(inv)): ZERO})
            return close('first', inv, p.args[1], g, e)
    return mk('head', s, ty=elem_of_ty(s.ty))


def in_(x, s):
    def f(x, s):
        if s.op == 'cat':
            return any_(map_stream(s, lambda e: [elem(TRUE, eq(x, e))]))
        if s.op == 'setof':
            return any_(map_stream(_unbag(s.args[0]), lambda e: [elem(TRUE, eq(x, e))]))
        if s.op == 'dictof':
            return any_(map_stream(s.args[0], lambda e: [elem(TRUE, eq(x, at(e, ZERO)))]))
        return mk('in', x, s, ty='bool')
    return lift(f, [x, s])


# max / min over bags
def maxof(t): return _extr('maxof', t)
def minof(t): return _extr('minof', t)


def _extr(op, t):
    flat = []
    for p in bag_pieces(t):
        flat.extend(_flat_extr(op, p))
    # prune dominated unguarded numeric elements
    els = [p for p in flat if p.op == 'elem' and p.args[0] is TRUE]
    oth = [p for p in flat if not (p.op == 'elem' and p.args[0] is TRUE)]
    vals = list(dict.fromkeys(p.args[1] for p in els))
    keep = []
    for i, v in enumerate(vals):
        dom = False
        for j, w in enumerate(vals):
            if i == j: continue
            d = sub(w, v) if op == 'maxof' else sub(v, w)
            if (is_num(v) or is_num(w)) and d.op != 'ite' and nonneg2(d) and not (nonneg2(neg(d)) and j > i):
                dom = True; break
        if not dom: keep.append(v)
    if len(keep) == 1 and not oth: return keep[0]
    ps = sorted(set([elem(TRUE, v) for v in keep] + oth), key=sortkey)
    ty = None
    if keep: ty = keep[0].ty
    return mk(op, mk('bag', *ps), ty=ty or elem_of_ty(t.ty) or next(filter(None, map(_piece_ty, oth)), None))


def _piece_ty(p):
    if p.op == 'elem': return p.args[1].ty
    if p.op == 'for': return _piece_ty(p.args[2])
    if p.op == 'cat': return next(filter(None, map(_piece_ty, p.args)), None)
    if p.op == 'guarded': return _piece_ty(p.args[1])
    return None


def nonneg2(t):
    if t.op == 'num': return t.args[0] >= 0
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(b) or positive(b) for b, e in m) for c, m in t.args)
    return nonneg(t) or positive(t)


def _flat_extr(op, p):
    if p.op == 'elem':
        e = p.args[1]
        if e.op == op:
            return [q for r in e.args[0].args for q in guard_pieces(p.args[0], [r])]
        return [p]
    if p.op == 'for':
        b = p.args[2]
        if b.op == 'cat' and len(b.args) == 1 and b.args[0].op == 'elem' and b.args[0].args[1].op == op:
            mp = {}; inv = {}
            for y in _bvs(p) or {bv(p.args[0])}:
                f = fresh('a', 'int'); mp[y] = f; inv[f] = 0
            el = subst(b, mp)
            if el.op == 'cat' and len(el.args) == 1:
                q = el.args[0]
                out = []
                for r in q.args[1].args[0].args:
                    out.extend(for_pieces(inv, p.args[1], guard_pieces(q.args[0], [r])))
                return out
    return [p]


def abs_(a):
    def f(a):
        if a.op == 'num': return num(abs(a.args[0]))
        if nonneg2(a): return a
        return maxof(lit([a, neg(a)]))
    return lift(f, [a])

# ---------------------------------------------------------------- actions (non-commutative products)
def inv_(a):
    def f(a):
        if a.op == 'inv': return a.args[0]
        if a.op == 'act': return act([inv_(x) for x in reversed(a.args)])
        return mk('inv', a, ty=a.ty)
    return lift(f, [a])


def act(items, ty=None):
    def f(*xs):
        flat = []
        for x in xs:
            if x.op == 'act': flat.extend(x.args)
            else: flat.append(x)
        out = []
        for x in flat:
            if x.op == 'm:id_map' or (x.op == 'call' and x.args and x.args[0] == 'id_map'):
                continue
            if out and ((x.op == 'inv' and x.args[0] is out[-1]) or (out[-1].op == 'inv' and out[-1].args[0] is x)):
                out.pop(); continue
            out.append(x)
        if not out: return flat[0]
        if len(out) == 1: return out[0]
        return mk('act', *out, ty=ty or out[-1].ty)
    return lift(f, items)


def _trev(a):
    if a.op == 'trev': return a.args[0]
    return mk('trev', a, ty=a.ty)


def trev(a): return lift(_trev, [a])


REBUILD = {
    'gt0': lambda p: lift(_gt0, [p]),
    'eq0': lambda p: lift(lambda x: _eq2(x, ZERO) if x.op in ('num', 'poly') else _eq2(x, ZERO), [p]),
    'eq': eq, 'isnone': isnone, 'truthy': truthy, 'in': in_,
    'at': at, 'len': length, 'floordiv': floordiv, 'mod': mod,
    'setof': lambda b: setof(b) if b.op == 'cat' else setof(_unbag(b)),
    'dictof': dictof,
    'maxof': lambda b: maxof(_unbag(b)) if b.op == 'bag' else maxof(b),
    'minof': lambda b: minof(_unbag(b)) if b.op == 'bag' else minof(b),
    'bag': lambda *ps: _sortbag(bag_pieces(cat(list(ps)))),
    'inv': inv_, 'trev': trev,
    'setidx': setidx, 'scatter': scatter, 'overwrite': overwrite,
    'act': lambda *xs: act(list(xs)),
    'elem': lambda g, t: elem(truthy(g), t),
}


def _for_term(inv, n, body):
    ps = for_pieces(inv, n, pieces(body))
    if len(ps) == 1: return ps[0]
    return cat(ps)


CLOSERS = {
    'for': _for_term,
    'exists': lambda inv, n, c: exists(inv, n, truthy(c)),
    'sum': sum_,
    'first': lambda inv, n, c, v: close('first', inv, n, c, v),
    'lastm': lambda inv, n, c, v: close('lastm', inv, n, c, v),
    'lam': lambda inv, h, *b: close('lam', inv, h, *b),
    'mu': lambda inv, h, *b: close('mu', inv, h, *b),
    'fprod': lambda inv, h, *b: close('fprod', inv, h, *b),
    'whilefor': lambda inv, h, *b: close('whilefor', inv, h, *b),
}


def go_piece(p, go):   # noqa: F811
    if p.op == 'elem':
        return elem(truthy(go(p.args[0])), go(p.args[1]))
    return go(p)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14: return '...'
    s = lambda x: show(x, depth + 1)
    if not isinstance(t, T):
        if isinstance(t, tuple): return '<' + ' '.join(s(x) for x in t) + '>'
        return str(t)
    op, a = t.op, t.args
    if op in ('num',): return str(a[0])
    if op == 'const': return repr(a[0])
    if op == 'var': return a[0]
    if op == 'fresh': return '?%s%d' % (a[1], a[0])
    if op == 'bv': return 'v%d%s' % (a[0], '' if a[1] == 0 else '_%s' % a[1])
    if op == 'poly':
        parts = []
        for c, m in a:
            ms = '*'.join(s(b) + ('' if e is ONE else '^(%s)' % s(e)) for b, e in m)
            if not ms: parts.append(str(c))
            elif c == 1: parts.append(ms)
            elif c == -1: parts.append('-' + ms)
            else: parts.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')'
    if op == 'ite':
        if a[1] is FALSE and a[2] is TRUE: return 'not %s' % s(a[0])
        if a[2] is FALSE: return '(%s and %s)' % (s(a[0]), s(a[1]))
        if a[1] is TRUE: return '(%s or %s)' % (s(a[0]), s(a[2]))
        return '(if %s then %s else %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'gt0': return '%s > 0' % s(a[0])
    if op == 'eq0': return '%s == 0' % s(a[0])
    if op == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'isnone': return '%s is None' % s(a[0])
    if op == 'at': return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'attr': return '%s.%s' % (s(a[0]), a[1])
    if op == 'len': return 'len(%s)' % s(a[0])
    if op == 'cat': return '[' + ', '.join(s(p) for p in a) + ']'
    if op == 'elem': return s(a[1]) if a[0] is TRUE else '%s if %s' % (s(a[1]), s(a[0]))
    if op == 'for': return '%s for v%d<%s' % (s(a[2]), a[0], s(a[1]))
    if op == 'act': return '(' + ' . '.join(s(x) for x in a) + ')'
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
