"""
Random interpretation of value graphs (used only to veto alarms).

When the normal forms of a function and of its specification differ, the two
graphs are interpreted over randomly chosen values of the right sort (Gulwani
and Necula, "random interpretation").  Input variables get values that respect
the class invariants (a base map is a signed permutation, a prototype has
genus many cubes, ...); operations the analysis keeps uninterpreted become
arbitrary but fixed functions of their arguments.  A valuation on which the
graphs disagree confirms that the difference is real; without one, no alarm is
raised.  Nothing of the repository is executed here: the interpreted object is
the graph.
"""
from __future__ import annotations
import ast
import hashlib
import heapq
import itertools
import math
import random
import re
from fractions import Fraction
from functools import cmp_to_key
from . import terms as t
from .terms import T, TRUE, FALSE, NONE
from .types import of_ann

MEMOF = ('_hash', '_key', '_inv_cache', '_mul_cache', '_cache', '_data')


class EvalErr(Exception):
    pass


class Raised:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Raised)
    def __hash__(self): return 7
    def __repr__(self): return 'raise ' + self.n


COMMUTE = {'fx:_push_tree#tree': 1, 'fx:push#self': 0, 'fx:add_forbid_clause#self': 0, 'fx:_append_clause#self': 0,
           'fx:_make_only#self': 0, 'fx:_make_junc_var#self': 0, 'fx:_make_curve_var#self': 0}


class Tok:
    """value of unknown sort"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, Tok) and o.k == self.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return 'tok:' + self.k[:6]


PRIMARY = {
    'Spec': ('base_map', 'pnum'), 'BaseMap': ('coords', 'time_rev'), 'Link': ('entrance', 'exit'), 'Point': ('__seq__',),
    'FacetDivSubset': ('dim', 'div', 'facet', 'cubes'), 'Proto': ('dim', 'div', '__seq__'), 'Path': ('proto', 'links'),
    'CurvePoint': ('x', 't'), 'Pattern': ('proto', 'specs'), 'Junction': ('spec1', 'spec2', 'delta_x', 'delta_t'),
    'RegularJunction': ('spec1', 'spec2', 'delta_x', 'delta_t', 'depth'), 'AutoJunction': ('spec1', 'spec2', 'delta_x', 'delta_t', 'depth'),
    'FuzzyCurve': ('dim', 'div', 'patterns', 'pnum'), 'Curve': ('dim', 'div', 'patterns', 'pnum'),
    'PathFuzzyCurve': ('dim', 'div', 'patterns', 'pnum', 'links_symmetries', 'links_std', 'pattern_links', 'pattern_reprs'),
    '_PiecePosition': ('dim', 'div', 'cnums', 'cubes'), '_CurvePiece': ('curve', 'pnum', 'pos'),
    '_CurvePiecePair': ('curve', 'junc', 'pos1', 'pos2'),
    '_CubeNode': ('cube', 'state'), '_CubePath': ('head', 'length', 'prev'),
}


class O:
    __slots__ = ('cls', 'f', 'ident', 'W', '_c')

    def __init__(self, W, cls, fields, ident=None):
        self.W, self.cls, self.f, self.ident, self._c = W, cls, fields, ident, None

    def get(self, name):
        if name in self.f:
            v = self.f[name]
            if callable(v) and not isinstance(v, type):
                v = self.f[name] = v()
            return v
        if self.ident is None:
            d = derived(self, name)
            if d is not None: return d
            raise EvalErr('no field %s of new %s' % (name, self.cls))
        d = derived(self, name)
        if d is not None: return d
        v = self.f[name] = self.W.gen_field(self, name)
        return v

    def canon(self):
        if self._c is None:
            p = PRIMARY.get(self.cls)
            if p:
                self._c = '%s(%s)' % (cname(self.cls), ','.join(canon(self.get(x)) for x in p))
            elif self.ident is not None and not self.f.get('#with'):
                self._c = '%s@%s' % (self.cls, self.ident)
            else:
                fs = sorted(k for k in self.f if k not in MEMOF and not k.startswith('#'))
                self._c = '%s@%s{%s}' % (self.cls, self.ident, ','.join('%s=%s' % (k, canon(self.get(k))) for k in fs))
        return self._c

    def __eq__(self, o): return isinstance(o, O) and self.canon() == o.canon()
    def __hash__(self): return hash(self.canon())
    def __repr__(self): return self.canon()[:120]


def cname(c): return {'Curve': 'FuzzyCurve'}.get(c, c)


def derived(o, name):
    c = o.cls
    if c == 'BaseMap':
        if name == 'dim': return Fraction(len(o.get('coords')))
        if name == '_key': return (o.get('coords'), o.get('time_rev'))
    if c == 'Spec' and name == '_key': return (o.get('base_map').get('_key'), o.get('pnum'))
    if c == 'Point' and name == 'dim': return Fraction(len(o.get('__seq__')))
    if c == 'Link' and name == 'dim': return o.get('entrance').get('dim') if isinstance(o.get('entrance'), O) else None
    if c == 'Path' and name in ('dim', 'div') and 'proto' in o.f: return o.get('proto').get(name)
    if c in ('FuzzyCurve', 'Curve', 'PathFuzzyCurve'):
        if name == 'mult': return Fraction(len(o.get('patterns')))
        if name == 'genus': return o.get('div') ** int(o.get('dim'))
        if name == 'proto': return o.get('patterns')[int(o.get('pnum'))].get('proto')
        if name == 'specs': return o.get('patterns')[int(o.get('pnum'))].get('specs')
    if c == '_PiecePosition' and name == 'depth': return Fraction(len(o.get('cnums')))
    return None


class DV:
    """dictionary value"""
    def __init__(self, items=(), default=None, ident=None, W=None, ty=None):
        self.d = {}
        self.order = []
        self.default, self.ident, self.W, self.ty = default, ident, W, ty
        for k, v in items: self.set(k, v)

    def set(self, k, v):
        c = canon(k)
        if c not in self.d: self.order.append(c)
        self.d[c] = (k, v)

    def has(self, k): return canon(k) in self.d

    def get(self, k):
        c = canon(k)
        if c in self.d: return self.d[c][1]
        if self.ident is not None:
            vt = self.ty[2] if self.ty and len(self.ty) > 2 else None
            return self.W.gen(vt, '%s[%s]' % (self.ident, c), None)
        if self.default == 'int': return Fraction(0)
        if self.default == 'list': return ()
        if self.default == 'set': return frozenset()
        if self.default == 'dict': return DV()
        raise EvalErr('missing key')

    def copy(self):
        r = DV((), self.default, self.ident, self.W, self.ty)
        r.d, r.order = dict(self.d), list(self.order)
        return r

    def items(self): return [self.d[c] for c in self.order]
    def canon(self): return 'D{%s}' % (';'.join(sorted('%s:%s' % (c, canon(self.d[c][1])) for c in self.order)))
    def __eq__(self, o): return isinstance(o, DV) and self.canon() == o.canon()
    def __hash__(self): return hash(self.canon())
    def __repr__(self): return self.canon()[:200]


class Probe(DV):
    """dictionary that is only asked for keys"""
    def __init__(self, W, ident, ty): DV.__init__(self, (), None, ident, W, ty); self.vt = ty[2] if ty and len(ty) > 2 else None
    def has(self, k): return self.W.rng('in%s|%s' % (self.ident, canon(k))).random() < 0.7
    def get(self, k):
        if not self.has(k): raise EvalErr('missing key')
        if self.vt in (None, 'bool'): return self.W.rng('%s[%s]' % (self.ident, canon(k))).random() < 0.9
        return self.W.gen(self.vt, '%s[%s]' % (self.ident, canon(k)), None)
    def items(self): raise EvalErr('iterates')
    def copy(self): raise EvalErr('copies')
    def canon(self): return 'P' + self.ident


def canon(v):
    if isinstance(v, bool): return 'n1' if v else 'n0'
    if isinstance(v, (int, Fraction)): return 'n%s' % v
    if v is None: return 'None'
    if isinstance(v, str): return 's%r' % v
    if isinstance(v, tuple): return '(%s)' % ','.join(map(canon, v))
    if isinstance(v, frozenset): return '{%s}' % ','.join(sorted(map(canon, v)))
    if isinstance(v, (O, DV, Entry)): return v.canon()
    if isinstance(v, Tok): return 't' + v.k
    if isinstance(v, Raised): return 'raise'
    if isinstance(v, Lam): return 'lam' + v.t.dig.hex() + (canon(tuple(v.closed())) if v.t.fv else '')
    raise EvalErr('canon %r' % (v,))


class NT(tuple):
    """named tuple"""


class Entry:
    """one update of a dictionary under construction"""
    def __init__(self, op, vals): self.op, self.vals = op, vals
    def canon(self): return 'E%s(%s)' % (self.op, ','.join(canon(v) if not isinstance(v, (Entry,)) else v.canon() for v in self.vals))
    def __eq__(self, o): return isinstance(o, Entry) and self.canon() == o.canon()
    def __hash__(self): return hash(self.canon())
    def __repr__(self): return self.canon()[:80]


class Lam:
    def __init__(self, W, term, env): self.W, self.t, self.env = W, term, env
    def closed(self): return [self.W.lookup(b, self.env) for b in sorted(self.t.fv, key=t.sortkey)]

    def __call__(self, *a):
        lvl = self.t.args[0]
        e = Env(self.env, lvl, {i: x for i, x in enumerate(a)})
        return self.W.ev(self.t.args[2], e)


class Env:
    __slots__ = ('parent', 'lvl', 'vals', 'memo')
    def __init__(self, parent, lvl, vals): self.parent, self.lvl, self.vals, self.memo = parent, lvl, vals, {}


def rank(v):
    if isinstance(v, bool): return 0
    if isinstance(v, (int, Fraction)): return 0
    if v is None: return 1
    if isinstance(v, str): return 2
    if isinstance(v, tuple): return 3
    return 4


def cmp(a, b):
    if isinstance(a, O) and isinstance(b, O):
        if '__seq__' in a.f or a.cls in ('Point', 'Proto'): a, b = a.get('__seq__'), b.get('__seq__')
        elif a.cls == b.cls == 'FacetDivSubset': a, b = [tuple(x.get(k) for k in PRIMARY['FacetDivSubset']) for x in (a, b)]
        elif a.cls == b.cls == 'Link': a, b = [(x.get('entrance'), x.get('exit')) for x in (a, b)]
        else:
            ca, cb = canon(a), canon(b)
            return (ca > cb) - (ca < cb)
    ra, rb = rank(a), rank(b)
    if ra != rb: return (ra > rb) - (ra < rb)
    if ra == 0: return (a > b) - (a < b)
    if ra == 3:
        for x, y in zip(a, b):
            c = cmp(x, y)
            if c: return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if ra == 2: return (a > b) - (a < b)
    ca, cb = canon(a), canon(b)
    return (ca > cb) - (ca < cb)


KEY = cmp_to_key(cmp)


class HK:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __lt__(self, o): return cmp(self.v, o.v) < 0


# ------------------------------------------------------------------ base maps
def bm(W, coords, rev): return O(W, 'BaseMap', {'coords': tuple(coords), 'time_rev': bool(rev)})


def bm_mul(W, a, b):
    ca, cb = a.get('coords'), b.get('coords')
    return bm(W, [(cb[int(k)][0], bool(s) ^ bool(cb[int(k)][1])) for k, s in ca], bool(a.get('time_rev')) ^ bool(b.get('time_rev')))


def bm_inv(W, a):
    c = a.get('coords')
    r = [None] * len(c)
    for i, (k, s) in enumerate(c): r[int(k)] = (Fraction(i), bool(s))
    if None in r: raise EvalErr('not invertible')
    return bm(W, r, a.get('time_rev'))


def act(W, b, x):
    if isinstance(b, O) and b.cls == 'Spec' and isinstance(x, O):
        if x.cls == 'Spec': return O(W, 'Spec', {'base_map': bm_mul(W, b.get('base_map'), x.get('base_map')), 'pnum': b.get('pnum')})
        y = act(W, b.get('base_map'), x)
        return W.apply('specact', [b, x], ('cls', x.cls)) if y is None else O(W, x.cls, {**freeze(y), 'pnum': b.get('pnum')}, y.ident)
    if not isinstance(b, O) or b.cls != 'BaseMap': return W.apply('act', [b, x], None)
    if not isinstance(x, O): return W.apply('act', [b, x], None)
    if x.cls == 'BaseMap': return bm_mul(W, b, x)
    if x.cls == 'Spec': return O(W, 'Spec', {'base_map': bm_mul(W, b, x.get('base_map')), 'pnum': x.get('pnum')})
    rev = b.get('time_rev')
    co = b.get('coords')
    if x.cls == 'Point':
        s = x.get('__seq__')
        return O(W, 'Point', {'__seq__': tuple((1 - s[int(k)]) if f else s[int(k)] for k, f in co)})
    if x.cls == 'Link':
        e, f = act(W, b, x.get('entrance')), act(W, b, x.get('exit'))
        if rev: e, f = f, e
        return O(W, 'Link', {'entrance': e, 'exit': f})
    if x.cls == 'Proto':
        n = x.get('div')
        cs = [None if c is None else tuple((n - 1 - c[int(k)]) if f else c[int(k)] for k, f in co) for c in x.get('__seq__')]
        if rev: cs.reverse()
        return O(W, 'Proto', {'dim': x.get('dim'), 'div': n, '__seq__': tuple(cs)})
    if x.cls == 'Path':
        ls = [act(W, b, l) for l in x.get('links')]
        if rev: ls.reverse()
        return O(W, 'Path', {'proto': act(W, b, x.get('proto')), 'links': tuple(ls), 'link': act(W, b, x.get('link'))})
    # free action, keeping sizes
    m, base = b, x
    if x.f.get('#act'):
        m, base = bm_mul(W, b, x.f['#act'][0]), x.f['#act'][1]
    ident_ = all(k == i and not f for i, (k, f) in enumerate(m.get('coords'))) and not m.get('time_rev')
    if ident_: return base
    if x.cls in ('FuzzyCurve', 'Curve', 'PathFuzzyCurve'):
        return O(W, x.cls, {'dim': x.get('dim'), 'div': x.get('div'), 'pnum': x.get('pnum'), '#act': (m, base), '#with': 1}, 'act[%s]%s' % (canon(m), canon(base)))
    return O(W, x.cls, {'#act': (m, base)}, 'act[%s]%s' % (canon(m), canon(base)))


def meets(v, w):
    if not (isinstance(v, O) and isinstance(w, O)) or v.cls != w.cls: return None
    if v.cls == 'Point': return canon(v) == canon(w)
    if v.cls == 'FacetDivSubset':
        return canon(v.get('facet')) == canon(w.get('facet')) and all(canon(x) == canon(y) for x, y in zip(v.get('cubes'), w.get('cubes')))
    if v.cls == 'Link':
        a, b = meets(v.get('entrance'), w.get('entrance')), meets(v.get('exit'), w.get('exit'))
        return None if a is None or b is None else a and b
    return None


def freeze(o):
    for k in list(o.f): o.get(k) if not k.startswith('#') else None
    return {k: v for k, v in o.f.items() if k not in MEMOF}


def conv(v):
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    if isinstance(v, (int, float)): return Fraction(v)
    return tuple(conv(x) for x in v)


class World:
    def __init__(self, seed, repo, D=None, N=None, cap=400_000):
        self.seed, self.repo = seed, repo
        r = random.Random(seed)
        self.D = D or r.choice([2, 2, 2, 3, 1, 2, 2, 2, 3, 1, 2, 3, 2, 1, 4])
        self.N = N or r.choice({1: [2, 3, 5], 2: [2, 2, 3, 2, 2, 3, 3, 4], 3: [2, 2, 2, 2, 2, 3]}.get(self.D, [2]))
        self.M = r.choice([1, 1, 2, 3])
        self.loose = set()                   # attributes read from objects that do not have them explicitly
        self.coarse = r.random() < 0.5       # uninterpreted functions take few values
        self.steps, self.cap = 0, cap
        self.root = Env(None, None, {})
        self.fn = {}
        self.bags = {}
        self.values = {}
        self.shrink = {}                     # thresholds of the code, scaled down

    # ---- values of leaves
    def rng(self, ident): return random.Random(hashlib.blake2b(('%s|%s' % (self.seed, ident)).encode(), digest_size=8).digest())

    def gen(self, ty, ident, hint):
        r = self.rng(ident)
        F = Fraction
        if ty is None:
            if hint in INT_HINTS: ty = 'int'
            else: return Tok(hashlib.blake2b(('%s|%s' % (self.seed, ident)).encode(), digest_size=8).hexdigest())
        if isinstance(ty, str):
            if ty == 'int': return F(self.gen_int(r, hint))
            if ty == 'num': return F(r.choice([0, 1, 1, 2, 3, 5, 7]), r.choice([1, 1, 2, 3, 4]))
            if ty == 'bool': return r.random() < 0.5
            if ty == 'str': return r.choice(['', 'ijK', 'jiJ', 'Ij', '1iJ~', 'kji', 'a', '2', '0ji', '(0,1/2)', 'ij,k', 'ji~'])
            if ty == 'none': return None
            raise EvalErr('type ' + ty)
        k = ty[0]
        if k == 'opt':
            if r.random() < 0.2: return None
            return self.gen(ty[1], ident + '?', hint)
        if k == 'seq':
            if hint == 'base_maps_group': return self.somemaps()
            if hint in ('cnums',): return tuple(F(r.randrange(self.N ** self.D)) for _ in range(r.choice([1, 2])))
            if ty[1] == 'int':
                if hint and ('cube' in hint): pass
                return tuple(F(r.randrange(self.N)) for _ in range(self.D))
            if ty[1] == 'num': return tuple(F(r.choice([-1, 0, 1, 2]), r.choice([1, 1, 2])) for _ in range(self.D))
            if ty[1] == 'str': return tuple(self.gen('str', '%s[%d]' % (ident, i), None) for i in range(r.choice([1, 2, 3])))
            if isinstance(ty[1], tuple) and ty[1] == ('seq', 'int'): n = r.choice([1, 2, 3])
            else: n = r.choice([0, 1, 2, 2, 3, 4])
            if hint in ('patterns', 'protos'): n = self.M
            if hint == 'spec_list': n = 2 * self.M
            if ty[1] in (('cls', 'Path'), ('cls', 'Proto')): n = self.M
            if hint == 'links' or hint == 'specs': n = self.N ** self.D
            return tuple(self.gen(ty[1], '%s[%d]' % (ident, i), None) for i in range(n))
        if k == 'tuple': return tuple(self.gen(x, '%s[%d]' % (ident, i), None) for i, x in enumerate(ty[1]))
        if k == 'set':
            return frozenset(self.gen(ty[1] if ty[1] is not None else 'int', '%s{%d}' % (ident, i), None) for i in range(r.choice([0, 1, 2, 4])))
        if k == 'dict':
            d = DV((), None, ident, self, ty)
            for i in range(r.choice([0, 1, 2, 3])):
                key = self.gen(ty[1] if len(ty) > 1 and ty[1] is not None else 'int', '%s{%d}' % (ident, i), None)
                d.set(key, self.gen(ty[2] if len(ty) > 2 else None, '%s[%s]' % (ident, canon(key)), None))
            return d
        if k == 'cls': return self.gen_obj(ty[1], ident, r)
        raise EvalErr('type %r' % (ty,))

    def other(self, ty):
        """the second operand: often equal to the first in all or all but one components"""
        o = self.gen(ty, 'v:other', 'other')
        if not isinstance(o, O): return o
        r = self.rng('#blend')
        m = r.random()
        if m < 0.4 or o.cls not in PRIMARY: return o
        s = self.gen(ty, 'v:self', 'self')
        if s.cls != o.cls or m < 0.6: return s
        ks = PRIMARY[s.cls]
        odd = r.choice(ks)
        f = {k: (o if k == odd else s).get(k) for k in ks}
        if odd in ('dim', 'div') and s.cls in ('_PiecePosition', 'FacetDivSubset', 'Proto'): f[odd] = f[odd] + r.choice([1, 2])
        return O(self, o.cls, f, 'v:other')

    def gen_int(self, r, hint):
        D, N = self.D, self.N
        if hint == 'dim': return D
        if hint == 'div': return N
        if hint == 'mult': return self.M
        if hint == 'genus': return N ** D
        if hint and 'pnum' in hint: return r.randrange(self.M)
        if hint and 'cnum' in hint: return r.randrange(N ** D)
        if hint == 'power': return r.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8])
        if hint in ('k', 'l', 'depth', 'length', 'face_dim', 'min_length', 'max_iter', 'max_depth'): return r.choice([0, 1, 1, 2, 2, 3])
        if hint in ('delta_t',): return r.choice([0, 1])
        return r.choice([0, 1, 1, 2, 2, 3, 4])

    def gen_obj(self, c, ident, r):
        F = Fraction
        D, N = self.D, self.N
        if c == 'Subset': c = 'Point'
        if c == 'BaseMap':
            p = list(range(D)); r.shuffle(p)
            return O(self, c, {'coords': tuple((F(k), r.random() < 0.5) for k in p), 'time_rev': r.random() < 0.5})
        if c == 'Spec': return O(self, c, {'base_map': self.gen_obj('BaseMap', ident + '.b', r), 'pnum': F(r.randrange(self.M))})
        if c == 'Point':
            if self.coarse: return O(self, c, {'__seq__': tuple(F(r.choice([0, 0, 1])) for _ in range(D))})
            if D > 2 and r.random() < 0.3:      # all the coordinates differ, up to reflections
                vs = [F(0), F(1, 3), F(1, 2), F(1, 5), F(2, 5), F(1, 4)][:D]; r.shuffle(vs)
                return O(self, c, {'__seq__': tuple(1 - v if r.random() < 0.5 else v for v in vs)})
            return O(self, c, {'__seq__': tuple(F(*r.choice([(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (0, 1), (1, 1)])) for _ in range(D))})
        if c == 'FacetDivSubset':
            n = max(D - 1, 0)
            return O(self, c, {'dim': F(D), 'div': F(N), 'facet': (F(r.randrange(D)), F(r.randrange(2))),
                               'cubes': tuple(tuple(F(r.randrange(N)) for _ in range(n)) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))})
        if c == 'Link':
            en, ex = self.gen_obj('Point', ident + '.e', r), self.gen_obj('Point', ident + '.x', r)
            if r.random() < 0.3: ex = act(self, self.gen_obj('BaseMap', ident + '.i', r), en)
            return O(self, c, {'entrance': en, 'exit': ex})
        if c == 'Proto':
            cs = [tuple(map(F, x)) for x in itertools.product(range(N), repeat=D)]
            r.shuffle(cs)
            if r.random() < 0.2: cs[r.randrange(len(cs))] = None
            return O(self, c, {'dim': F(D), 'div': F(N), '__seq__': tuple(cs)})
        if c == 'Path':
            pr = self.gen_obj('Proto', ident + '.p', r)
            q = self.rng('#links')
            pool = [self.gen_obj('Link', '#l%d' % i, self.rng('#l%d' % i)) for i in range(q.choice([1, self.M]))]
            if q.random() < 0.75:              # the links of a realizable path are images of the links of the patterns
                ms = self.somemaps(False if q.random() < 0.5 else None)
                ls = tuple(act(self, r.choice(ms), r.choice(pool)) for i in range(N ** D))
            else:
                ls = tuple(self.gen_obj('Link', '%s.l%d' % (ident, i), r) for i in range(N ** D))
                pool = []
            m = re.search(r'\[(\d+)\]$', ident)
            k = pool[int(m[1]) % len(pool)] if pool and m else r.choice(pool) if pool else self.gen_obj('Link', ident + '.k', r)
            if None in pr.f['__seq__']: pr = O(self, 'Proto', {**pr.f, '__seq__': tuple(x if x is not None else (F(0),) * D for x in pr.f['__seq__'])})
            return O(self, c, {'proto': pr, 'links': ls, 'link': k})
        if c == 'Pattern':
            fz = r.random() < 0.5
            sp = tuple(None if fz and r.random() < 0.3 else self.gen_obj('Spec', '%s.s%d' % (ident, i), r) for i in range(N ** D))
            pr = self.gen_obj('Proto', ident + '.p', r)
            return O(self, c, {'proto': pr, 'specs': sp})
        if c in ('FuzzyCurve', 'Curve', 'PathFuzzyCurve'):
            ps = []
            for i in range(self.M):
                p = self.gen_obj('Pattern', '%s.P%d' % (ident, i), self.rng(ident + '.P%d' % i))
                if c == 'Curve':
                    rr = self.rng('%s.full%d' % (ident, i))
                    p = O(self, 'Pattern', {'proto': p.get('proto'), 'specs': tuple(s or self.gen_obj('Spec', 'x', rr) for s in p.get('specs'))})
                q = self.rng(ident + '.same').random()
                if ps and q < 0.15: p = ps[0]
                elif ps and q < 0.45: p = O(self, 'Pattern', {'proto': ps[0].get('proto'), 'specs': p.get('specs')})
                ps.append(p)
            o = O(self, c, {'dim': F(D), 'div': F(N), 'patterns': tuple(ps), 'pnum': F(r.randrange(self.M))}, ident)
            if c == 'PathFuzzyCurve': o.f.update(self.gen_links(ident))
            return o
        if c in ('Junction', 'RegularJunction', 'AutoJunction'):
            auto = c == 'AutoJunction' or (c == 'Junction' and r.random() < 0.3)
            s1 = self.gen_obj('Spec', ident + '.1', r)
            if auto: return O(self, 'AutoJunction', {'spec1': s1, 'spec2': s1, 'delta_x': (F(0),) * D, 'delta_t': F(0), 'depth': None})
            return O(self, 'RegularJunction', {'spec1': s1, 'spec2': self.gen_obj('Spec', ident + '.2', r), 'delta_x': tuple(F(r.choice([-1, 0, 1])) for _ in range(D)), 'delta_t': F(1), 'depth': F(r.choice([0, 1, 2, 3]))})
        if c == '_CubeNode':
            return O(self, c, {'cube': tuple(F(r.randrange(N)) for _ in range(D)), 'state': Tok('state%d' % r.randrange(2))})
        if c == '_CubePath':
            p = None
            for k in range(r.choice([1, 1, 2, 2, 3])):
                p = O(self, c, {'head': self.gen_obj('_CubeNode', ident, r), 'length': F(k + 1), 'prev': p})
            return p
        if c == '_PiecePosition':
            n = r.choice([0, 1, 2])
            return O(self, c, {'dim': F(D), 'div': F(N), 'cnums': tuple(F(r.randrange(N ** D)) for _ in range(n)),
                               'cubes': tuple(tuple(F(r.randrange(N)) for _ in range(D)) for _ in range(n))})
        return O(self, c, {}, ident)

    def least(self, v, op):
        """least image under the isometries of the cube, what takes the value to it"""
        if not isinstance(v, O) or v.cls not in ('Point', 'Link'): return None
        k = op + canon(v)
        if k not in self.fn:
            if v.cls == 'Point' and op == 'm:std':
                self.fn[k] = O(self, 'Point', {'__seq__': tuple(sorted(min(c, 1 - c) for c in v.get('__seq__')))})
                return self.fn[k]
            n = len(v.get('__seq__')) if v.cls == 'Point' else len(v.get('entrance').get('__seq__')) if isinstance(v.get('entrance'), O) and v.get('entrance').cls == 'Point' else 9
            if n > 4: return None
            best, args = None, []
            for p in itertools.permutations(range(n)):
                for fs in itertools.product((False, True), repeat=n):
                    for rev in ((False, True) if v.cls == 'Link' else (False,)):
                        self.steps += 1
                        b = bm(self, [(Fraction(i), f) for i, f in zip(p, fs)], rev)
                        y = act(self, b, v)
                        c = -1 if best is None else cmp(y, best)
                        if c < 0: best, args = y, []
                        if c <= 0: args.append(b)
            self.fn[k] = best if op == 'm:std' else tuple(args)
        return self.fn[k]

    def gen_links(self, ident):
        """the tables of a curve with known gates: standard links, what carries the patterns to them, their symmetries"""
        r = self.rng(ident + '#tables')
        k = self.M if r.random() < 0.6 else 1
        ls = [self.gen_obj('Link', '%s#L%d' % (ident, i), self.rng('%s#L%d' % (ident, i))) for i in range(k)]
        maps = lambda n: tuple(self.gen_obj('BaseMap', ident, r) for _ in range(n))
        std, sym = DV(), DV()
        for l in ls:
            std.set(l, DV()); sym.set(l, tuple(dict.fromkeys(maps(r.choice([1, 1, 2, 3])))))
        for i in range(self.M): std.get(ls[i % k]).set(Fraction(i), maps(1)[0])
        g = self.N ** self.D
        return {'links_std': std, 'links_symmetries': sym, 'pattern_links': tuple(tuple(r.choice(ls) for _ in range(g)) for _ in range(self.M)),
                'pattern_reprs': tuple(maps(g) for _ in range(self.M))}

    def gen_field(self, o, name):
        from . import types as ty
        ci = self.repo.cls(o.cls)
        at = None
        if ci is not None:
            for k in self.repo.mro(ci):
                at = ty.ATTR.get((k.name, name))
                if at is not None: break
                if name in k.annots:
                    at = ty.of_ann(k.annots[name], self.repo, k); break
        if o.cls == '_PiecePosition' and name == 'depth': return Fraction(len(o.get('cnums')))
        if name == 'dim': return Fraction(self.D)
        if name == 'div': return Fraction(self.N)
        if name == '_boundary_pnum_cnums': return tuple((Fraction(p), Fraction(c)) for p in range(self.M) for c in (0, -1))
        if name == '_var_no':
            d = DV((), None, None, self, at)
            for i, k in enumerate(self.satvars()): d.set(k, Fraction(i + 1))
            return d
        if name == '_heap':
            r = self.rng(o.ident + '.heap')
            items = []
            for i in range(r.choice([0, 1, 2, 3, 4])):
                x = self.gen_obj('_BoundedPair', '%s.h%d' % (o.ident, i), r)
                if self.coarse: x.f['up'], x.f['lo'] = Fraction(r.choice([1, 1, 2])), Fraction(r.choice([0, 1]))
                items.append((-self.n(x.get('up')), Fraction(i), x))
            return tuple(sorted(items, key=KEY))
        return self.gen(at, '%s.%s' % (o.ident, name), name)

    def apply(self, op, args, ty, hint=None):
        """arbitrary but fixed function of the arguments"""
        if op in COMMUTE:
            # additions to a collection whose order does not matter
            i = COMMUTE[op]
            base = canon(args[i])
            b0, items = self.bags.get((op, base), (base, ()))
            items = tuple(sorted(items + (','.join(map(canon, args[:i] + args[i + 1:])),)))
            k = 'bag(%s;%s;%s)' % (op, b0, '|'.join(items))
        else: k = '%s(%s)' % (op, ','.join(map(canon, args)))
        if len(k) > 200: k = op + hashlib.blake2b(k.encode(), digest_size=12).hexdigest()
        if k not in self.fn:
            if op == 'm:gen_base_maps' and op not in self.values and len(args) >= 2 and args[1] == self.D:
                self.fn[k] = self.somemaps(args[2] if len(args) > 2 and isinstance(args[2], (bool, int, Fraction)) else None)
            elif op in self.values: self.fn[k] = self.listed(op, k, ty)
            elif self.coarse and ty is None and hint not in INT_HINTS and op not in COMMUTE and not op.startswith('fx:'):
                self.fn[k] = Tok('%s~%d' % (op, self.rng(k).randrange(2)))
            elif self.coarse and ty == 'int' and hint is None: self.fn[k] = Fraction(self.rng(k).choice([0, 1, 1, 2]))
            else: self.fn[k] = self.gen(ty, k, hint)
        if op in COMMUTE: self.bags[op, canon(self.fn[k])] = (b0, items)
        return self.fn[k]

    def somemaps(self, rev=None):
        """a group of isometries, as all the isometries form one"""
        ms = getattr(self, '_maps', None)
        if ms is None:
            e = O(self, 'BaseMap', {'dim': Fraction(self.D), 'coords': tuple((Fraction(i), False) for i in range(self.D)), 'time_rev': False})
            r = self.rng('#maps')
            gens = [self.gen_obj('BaseMap', '#map%d' % i, self.rng('#map%d' % i)) for i in range(r.choice([0, 1, 1]) if self.D > 2 else r.choice([0, 1, 1, 2]))]
            ms, todo = {canon(e): e}, [e]
            while todo:
                x = todo.pop()
                for g in gens:
                    y = bm_mul(self, g, x)
                    if canon(y) not in ms: ms[canon(y)] = y; todo.append(y)
            ms = list(ms.values())
            r.shuffle(ms)
            self._maps = ms
        return tuple(x for x in ms if rev is None or bool(x.get('time_rev')) == bool(rev))

    def twospecs(self): return [self.gen_obj('Spec', 'few%d' % i, self.rng('few%d' % i)) for i in range(2)]

    def satvars(self):
        """variables of a SAT adapter"""
        return [Tok('var0'), Tok('var1')] + [('spec', (Fraction(p), Fraction(c), s)) for p in range(self.M) for c in range(self.N ** self.D) for s in self.twospecs()]

    def listed(self, op, k, ty):
        """a specification may narrow the functions an uninterpreted operation stands for"""
        vs = self.values[op]
        if vs == 'probe': return Probe(self, k, ty)
        if vs == 'model':
            r = self.rng(k)
            q, ns = r.choice([0.5, 0.9]), [i + 1 for i in range(len(self.satvars())) if r.random() < 0.9]
            return tuple(Fraction(i if r.random() < q else -i) for i in ns)
        if vs == 'fewspecs':
            a, b = self.twospecs()
            return self.rng(k).choice([(a, b), (b, a), (a,), (b,), (a, b)])
        if vs == 'neighbours':
            r = self.rng(k)
            return tuple((tuple(Fraction(r.choice([-1, 0, 0, 1])) for _ in range(self.D)), self.gen_obj('Point', '%s#%d' % (k, i), self.rng('%s#%d' % (k, i)))) for i in range(r.choice([1, 2, 3])))
        if vs == 'orbits':
            # paths as sequences of (cube, link), with images of the first one
            ty = of_ann(ast.parse('Sequence[Sequence[tuple[CubeType, Link]]]', mode='eval').body, self.repo)
            for j in range(8):
                v = self.gen(ty, '%s#%d' % (k, j), None)
                if v and all(v): break
            else: raise EvalErr('no value')
            p = O(self, 'Path', {'proto': O(self, 'Proto', {'dim': Fraction(self.D), 'div': Fraction(self.N), '__seq__': tuple(c for c, _ in v[0])}), 'links': tuple(l for _, l in v[0]), 'link': None})
            r = self.rng(k + '#orbit')
            for m in self.somemaps():
                if r.random() < 0.6:
                    q = act(self, m, p)
                    v = v + (tuple(zip(q.get('proto').get('__seq__'), q.get('links'))),)
            return v
        if isinstance(vs, str) and vs.startswith('some '): ty, vs = of_ann(ast.parse(vs[5:], mode='eval').body, self.repo), 'some'
        if vs == 'some':
            for j in range(8):
                v = self.gen(ty, '%s#%d' % (k, j), None)
                if (isinstance(v, tuple) and v and all(v)) or isinstance(v, O):
                    if isinstance(v, tuple) and self.coarse and self.rng(k + '#again').random() < 0.3: v = v + (v[0],)
                    return v
            raise EvalErr('no value')
        return conv(self.rng(k).choice(vs))

    def desc(self):
        s = 'dim=%d div=%d mult=%d seed=%d' % (self.D, self.N, self.M, self.seed)
        return s + (' with %s' % ', '.join('%s for %s' % (v, k) for k, v in sorted(self.shrink.items()) if k > 0) if self.shrink else '')

    # ---- helpers
    def tokval(self, v, kind):
        r = self.rng(kind + v.k)
        if kind == 'num': return Fraction(r.choice([0, 1, 2, 3, 5]), r.choice([1, 1, 2]))
        if kind == 'len': return Fraction(r.choice([0, 1, 2, 3]))
        if kind == 'bool': return r.random() < 0.5

    def n(self, v):
        if isinstance(v, bool): return Fraction(int(v))
        if isinstance(v, (int, Fraction)): return Fraction(v)
        if isinstance(v, Tok): return self.tokval(v, 'num')
        raise EvalErr('not a number: %r' % (v,))

    def i(self, v):
        if isinstance(v, Tok): return int(self.tokval(v, 'len'))
        q = self.n(v)
        if q.denominator != 1: raise EvalErr('not an integer')
        return int(q)

    def b(self, v):
        if isinstance(v, Tok): return self.tokval(v, 'bool')
        if isinstance(v, DV): return bool(v.order)
        if isinstance(v, O): return bool(v.get('__seq__')) if '__seq__' in v.f else True
        if isinstance(v, Raised): raise EvalErr('condition on raise')
        return bool(v)

    def s(self, v):
        """sequence of elements"""
        if isinstance(v, tuple): return v
        if isinstance(v, str): return tuple(v)
        if isinstance(v, Tok): return tuple(self.index(v, k) for k in range(int(self.tokval(v, 'len'))))
        if isinstance(v, O):
            if v.cls in ('Point', 'Proto') or '__seq__' in v.f: return v.get('__seq__')
            if v.cls == 'Pattern': return (v.get('proto'), v.get('specs'))
            if v.cls == 'Junction': pass
        if isinstance(v, frozenset): return tuple(sorted(v, key=KEY))
        if isinstance(v, DV): return tuple(k for k, _ in v.items())
        raise EvalErr('not iterable: %r' % (v,))

    def index(self, v, k):
        if isinstance(v, Tok): return Tok(hashlib.blake2b(('%s[%s]' % (v.k, k)).encode(), digest_size=8).hexdigest())
        if isinstance(v, DV): return v.get(Fraction(k))
        if isinstance(v, Entry): return v.vals[k]
        q = v if isinstance(v, str) else self.s(v)
        if not -len(q) <= k < len(q): raise EvalErr('index')
        return q[k]

    def lookup(self, b, env):
        e = env
        while e is not None:
            if e.lvl == b.args[0]:
                if b.args[1] not in e.vals: raise EvalErr('unbound')
                return e.vals[b.args[1]]
            e = e.parent
        raise EvalErr('unbound')

    # ---- evaluation
    def ev(self, x, env=None):
        if env is None: env = self.root
        op = x.op
        if op == 'bv': return self.lookup(x, env)
        e = env
        if x.fv:
            lv = {y.args[0] for y in x.fv if y.op == 'bv'}
            while e.parent is not None and e.lvl not in lv: e = e.parent
        else: e = self.root
        m = e.memo
        if x in m:
            r = m[x]
            if isinstance(r, EvalErr): raise r
            return r
        self.steps += 1
        if self.steps > self.cap: raise EvalErr('too long')
        try: r = self._ev(x, op, x.args, env)
        except EvalErr as ex:
            if str(ex) != 'too long': m[x] = ex
            raise
        except (ZeroDivisionError, IndexError, ValueError, TypeError, KeyError, AttributeError, RecursionError, OverflowError) as ex:
            raise EvalErr('%s %s in %s' % (type(ex).__name__, ex, op))
        m[x] = r
        return r

    def poly(self, a, env):
        tot = Fraction(0)
        for c, mono in a:
            v = Fraction(c) if mono or c not in self.shrink else Fraction(self.shrink[c])
            for b, e in mono:
                q = self.n(self.ev(b, env))
                k = self.n(self.ev(e, env))
                if k.denominator != 1 or abs(k) > 60: raise EvalErr('exponent')
                if q == 0 and k < 0: raise EvalErr('division by zero')
                v *= q ** int(k)
            tot += v
        return tot

    def sign(self, p, env):
        """sign of a difference; sequences and objects compare by their order"""
        if p.op == 'poly' and len(p.args) == 2:
            (c1, m1), (c2, m2) = p.args
            if len(m1) == 1 and len(m2) == 1 and m1[0][1] is t.ONE and m2[0][1] is t.ONE and c1 == -c2:
                a, b = self.ev(m1[0][0], env), self.ev(m2[0][0], env)
                if isinstance(a, Tok) and isinstance(b, Tok) and a == b: return 0
                if not all(isinstance(z, (bool, int, Fraction, Tok)) for z in (a, b)):
                    r = cmp(a, b)
                    return r if c1 > 0 else -r
        v = self.n(self.ev(p, env))
        return (v > 0) - (v < 0)

    def pieces(self, ps, env, out):
        for p in ps:
            if p.op == 'elem':
                if self.b(self.ev(p.args[0], env)): out.append(self.ev(p.args[1], env))
            elif p.op == 'for':
                try: n = self.i(self.ev(p.args[1], env))
                except EvalErr as ex:
                    if str(ex) == 'too long' or not self.dead(p, env): raise
                    continue
                if n > 2000: raise EvalErr('too long')
                for k in range(n):
                    e2 = Env(env, p.args[0], {0: Fraction(k)})
                    self.cat(p.args[2], e2, out)
            elif p.op == 'cat': self.pieces(p.args, env, out)
            elif p.op == 'guarded':
                if self.b(self.ev(p.args[0], env)): self.pieces([p.args[1]], env, out)
            else: raise EvalErr('piece ' + p.op)

    def dead(self, p, env):
        """no element of the piece is present, whatever the loop counters are"""
        if p.op == 'elem' or p.op == 'guarded':
            try: return not self.b(self.ev(p.args[0], env))
            except EvalErr: return False
        if p.op == 'for': return self.dead(p.args[2], Env(env, p.args[0], {}))
        if p.op == 'cat': return all(self.dead(q, env) for q in p.args)
        return False

    def cat(self, x, env, out):
        if x.op == 'cat': self.pieces(x.args, env, out)
        else: out.extend(self.s(self.ev(x, env)))

    def _ev(self, x, op, a, env):
        ev = self.ev
        if op == 'num': return a[0] if a[0] not in self.shrink else Fraction(self.shrink[a[0]])
        if op == 'const': return a[0]
        if op == 'var' and isinstance(self.values.get(a[0]), str):
            vs = self.values[a[0]]
            if vs.startswith('either '):           # exactly one of the names is given, most of the time
                ns = vs[7:].split(',')
                r = self.rng('#' + vs)
                sel = {r.choice(ns)} if r.random() < 0.85 else set(ns) if r.random() < 0.5 else set()
                if a[0] not in sel: return None
                return self.gen(x.ty[1] if isinstance(x.ty, tuple) and x.ty[0] == 'opt' else x.ty, 'v:' + a[0], a[0])
            if vs.startswith('keys '):             # a dictionary of flags
                r = self.rng('#' + vs)
                return DV([(k, r.random() < 0.7) for k in vs[5:].split(',') if r.random() < 0.8])
            raise EvalErr('values ' + vs)
        if op == 'var' and a[0] in self.values:
            v = self.rng('v:' + a[0]).choice(self.values[a[0]])
            return conv(v)
        if op == 'var' and a[0] == 'other': return self.other(x.ty)
        if op == 'var': return self.gen(x.ty, 'v:' + a[0], a[0])
        if op == 'ite':
            try: c = self.b(ev(a[0], env))
            except EvalErr as ex:
                if str(ex) == 'too long': raise
                u, v = ev(a[1], env), ev(a[2], env)     # the condition cannot matter if both arms agree
                if canon(u) == canon(v): return u
                raise
            return ev(a[1], env) if c else ev(a[2], env)
        if op == 'bot': raise EvalErr('no value')
        if op == 'poly': return self.poly(a, env)
        if op == 'gt0': return self.sign(a[0], env) > 0
        if op == 'eq0': return self.sign(a[0], env) == 0
        if op == 'eq': return canon(ev(a[0], env)) == canon(ev(a[1], env))
        if op == 'isnone': return ev(a[0], env) is None
        if op == 'truthy': return self.b(ev(a[0], env))
        if op == 'cat':
            out = []
            self.pieces(a, env, out)
            return tuple(out)
        if op == 'bag':
            out = []
            self.pieces(a, env, out)
            return tuple(sorted(out, key=KEY))
        if op == 'setof': return frozenset(ev(a[0], env))
        if op == 'at':
            s, k = ev(a[0], env), ev(a[1], env)
            if isinstance(s, DV): return s.get(k)
            return self.index(s, self.i(k))
        if op == 'len':
            v = ev(a[0], env)
            if isinstance(v, Tok): return self.tokval(v, 'len')
            if isinstance(v, DV): return Fraction(len(v.order))
            if isinstance(v, (frozenset, str)): return Fraction(len(v))
            return Fraction(len(self.s(v)))
        if op == 'attr': return self.attr(ev(a[0], env), a[1], x.ty)
        if op == 'new':
            o = O(self, a[0], {k: (lambda v=v: self.ev(v, env)) for k, v in a[1]})
            return o
        if op == 'with':
            base = ev(a[0], env)
            if not isinstance(base, O): raise EvalErr('with')
            o = O(self, base.cls, dict(base.f), base.ident)
            if base.ident is not None: o.f['#base'] = base
            for k, v in a[1]: o.f[k] = (lambda v=v: self.ev(v, env))
            o.f['#with'] = 1
            o._c = None
            return o
        if op == 'ntup':
            r = NT(ev(v, env) for v in a[1])
            r.names = a[0]
            return r
        if op == 'floordiv':
            q = self.n(ev(a[1], env))
            if q == 0: raise EvalErr('zero')
            return Fraction(self.n(ev(a[0], env)) // q)
        if op == 'mod':
            q = self.n(ev(a[1], env))
            if q == 0: raise EvalErr('zero')
            return Fraction(self.n(ev(a[0], env)) % q)
        if op == 'numerator': return Fraction(self.n(ev(a[0], env)).numerator)
        if op == 'denominator': return Fraction(self.n(ev(a[0], env)).denominator)
        if op == 'trunc': return Fraction(int(self.n(ev(a[0], env))))
        if op == 'gcd': return Fraction(math.gcd(*[self.i(ev(y, env)) for y in a]))
        if op == 'lcm': return Fraction(math.lcm(*[self.i(ev(y, env)) for y in a]))
        if op in ('exists', 'first'):
            n = self.i(ev(a[1], env))
            for k in range(min(n, 2001)):
                e2 = Env(env, a[0], {0: Fraction(k)})
                if self.b(ev(a[2], e2)): return True if op == 'exists' else ev(a[3], e2)
            if op == 'exists': return False
            raise EvalErr('no first')
        if op == 'sum':
            n = self.i(ev(a[1], env))
            return sum((self.n(ev(a[2], Env(env, a[0], {0: Fraction(k)}))) for k in range(min(n, 2001))), Fraction(0))
        if op == 'fprod':
            n = self.i(ev(a[1], env))
            r = Fraction(1)
            for k in range(n): r *= self.n(ev(a[2], Env(env, a[0], {0: Fraction(k)})))
            return r
        if op == 'lam': return Lam(self, x, env)
        if op == 'mu':
            vals = [ev(y, env) for y in a[1]]
            for _ in range(400):
                e2 = Env(env, a[0], dict(enumerate(vals)))
                if self.b(ev(a[2], e2)): return ev(a[4], e2)
                vals = [ev(y, e2) for y in a[3]]
            raise EvalErr('loop bound')
        if op in ('maxof', 'minof'):
            vs = self.s(ev(a[0], env))
            if not vs: raise EvalErr('empty extremum')
            return (max if op == 'maxof' else min)(vs, key=KEY)
        if op in ('maxkey', 'minkey'):
            vs = self.s(ev(a[0], env))
            if not vs:
                if len(a) > 2: return ev(a[2], env)
                raise EvalErr('empty extremum')
            f = ev(a[1], env)
            return (max if op == 'maxkey' else min)(vs, key=lambda v: KEY(f(v)))
        if op == 'sorted':
            vs = self.s(ev(a[0], env))
            rev = self.b(ev(a[2], env))
            if a[1] is NONE: return tuple(sorted(vs, key=KEY, reverse=rev))
            f = ev(a[1], env)
            return tuple(sorted(vs, key=lambda v: KEY(f(v)), reverse=rev))
        if op == 'reversed': return tuple(reversed(self.s(ev(a[0], env))))
        if op == 'setidx':
            s = list(self.s(ev(a[0], env))); s[self.i(ev(a[1], env))] = ev(a[2], env)
            return tuple(s)
        if op == 'scatter':
            s = list(self.s(ev(a[0], env)))
            for k, v in self.s(ev(a[1], env)): s[self.i(k)] = v
            return tuple(s)
        if op == 'overwrite':
            s = list(self.s(ev(a[0], env)))
            f = ev(a[2], env)
            for k in range(self.i(ev(a[1], env))): s[k] = f(Fraction(k))
            return tuple(s)
        if op in ('hpush', 'hdel', 'heapify'):
            h = [HK(v) for v in self.s(ev(a[0], env))]
            if op == 'heapify': heapq.heapify(h)
            elif op == 'hpush': heapq.heappush(h, HK(ev(a[1], env)))
            else:
                if not h: raise EvalErr('empty heap')
                heapq.heappop(h)
            return tuple(v.v for v in h)
        if op == 'lpop':
            s = list(self.s(ev(a[0], env))); s.pop(self.i(ev(a[1], env)))
            return tuple(s)
        if op == 'linsert':
            s = list(self.s(ev(a[0], env))); s.insert(self.i(ev(a[1], env)), ev(a[2], env))
            return tuple(s)
        if op == 'lremove':
            s = list(self.s(ev(a[0], env))); s.remove(ev(a[1], env))
            return tuple(s)
        if op == 'lindex': return Fraction(self.s(ev(a[0], env)).index(ev(a[1], env)))
        if op == 'productn': return tuple(itertools.product(self.s(ev(a[0], env)), repeat=self.i(ev(a[1], env))))
        if op == 'product': return tuple(itertools.product(*[self.s(v) for v in self.s(ev(a[0], env))]))
        if op == 'perms': return tuple(itertools.permutations(self.s(ev(a[0], env)), *[self.i(ev(y, env)) for y in a[1:]]))
        if op == 'combs': return tuple(itertools.combinations(self.s(ev(a[0], env)), self.i(ev(a[1], env))))
        if op == 'combsr': return tuple(itertools.combinations_with_replacement(self.s(ev(a[0], env)), self.i(ev(a[1], env))))
        if op == 'transpose': return tuple(zip(*[self.s(v) for v in self.s(ev(a[0], env))]))
        if op == 'enum':
            k0 = self.i(ev(a[1], env))
            return tuple((Fraction(k0 + i), v) for i, v in enumerate(self.s(ev(a[0], env))))
        if op in ('range', 'rangestep'): return tuple(map(Fraction, range(*[self.i(ev(y, env)) for y in a])))
        if op == 'head':
            s = self.s(ev(a[0], env))
            if not s: raise EvalErr('empty')
            return s[0]
        if op in ('stepslice',):
            return self.s(ev(a[0], env))[slice(*[None if z is None else self.i(z) for z in (ev(y, env) for y in a[1:])])]
        if op == 'setiter': return self.s(ev(a[0], env))
        if op == 'keys': 
            v = ev(a[0], env)
            if isinstance(v, DV): return tuple(k for k, _ in v.items())
        if op == 'items':
            v = ev(a[0], env)
            if isinstance(v, DV): return tuple(v.items())
        if op == 'in':
            v, c = ev(a[0], env), ev(a[1], env)
            if isinstance(c, DV): return c.has(v)
            if isinstance(c, Tok): return self.tokval(Tok(c.k + canon(v)), 'bool')
            if isinstance(c, str): return isinstance(v, str) and v in c
            k = canon(v)
            return any(canon(y) == k for y in self.s(c))
        if op == 'dictof': return self.dictof(a[0], env)
        if op == 'dget':
            d, k = ev(a[0], env), ev(a[1], env)
            if isinstance(d, DV): return d.get(k)
            if isinstance(d, (tuple, str)): return self.index(d, self.i(k))
            return self.apply('dget', [d, k], x.ty)
        if op == 'counter':
            d = DV((), 'int')
            for v in self.s(ev(a[0], env)): d.set(v, d.get(v) + 1)
            return d
        if op == 'dictor':
            d = ev(a[0], env).copy()
            for k, v in ev(a[1], env).items(): d.set(k, v)
            return d
        if op.startswith('set') and op[3:] in ('Sub', 'BitAnd', 'BitXor', 'BitOr'):
            u, v = [z if isinstance(z, frozenset) else frozenset(self.s(z)) for z in (ev(a[0], env), ev(a[1], env))]
            return {'Sub': u - v, 'BitAnd': u & v, 'BitXor': u ^ v, 'BitOr': u | v}[op[3:]]
        if op == 'act':
            v = ev(a[-1], env)
            for y in reversed(a[:-1]): v = act(self, ev(y, env), v)
            return v
        if op == 'inv': return bm_inv(self, self.bmv(ev(a[0], env)))
        if op == 'trev':
            b = self.bmv(ev(a[0], env))
            return bm(self, b.get('coords'), not b.get('time_rev'))
        if op == 'bmpow':
            b, k = self.bmv(ev(a[0], env)), self.i(ev(a[1], env))
            r = bm(self, [(Fraction(i), False) for i in range(len(b.get('coords')))], False)
            if k < 0: b, k = bm_inv(self, b), -k
            for _ in range(min(k, 64)): r = bm_mul(self, r, b)
            return r
        if op == 'm:id_map': return bm(self, [(Fraction(i), False) for i in range(self.i(ev(a[1], env)))], False)
        if op == 'm:cube_map': return bm(self, self.bmv(ev(a[0], env)).get('coords'), False)
        if op in ('m:std', 'm:argstd') and len(a) == 1:
            v = ev(a[0], env)
            r = self.least(v, op)
            if r is not None: return r
            self.loose.add(op)
            return self.apply(op, [v], x.ty)
        if op == 'isinst': return self.isinst(ev(a[0], env), a[1])
        if op == 'raise': return Raised(a[0])
        if op == 'unk': raise EvalErr('unk')
        if op == 'fresh': raise EvalErr('fresh')
        if op == 'hash': return self.apply('hash', [ev(a[0], env)], 'int')
        if op == 'class': return 'class ' + a[0]
        if op == 'ext': return 'ext ' + a[0]
        if op == 'classvar': raise EvalErr('class variable')
        if op in ('strcat',): return ''.join(self.str(ev(y, env)) for y in a)
        if op == 'str': return self.str(ev(a[0], env))
        if op == 'join': return self.str(ev(a[0], env)).join(self.str(v) for v in self.s(ev(a[1], env)))
        if op == 'strrep':
            u, v = ev(a[0], env), ev(a[1], env)
            return u * self.i(v) if isinstance(u, str) else v * self.i(u)
        if op == 'strslice':
            return ev(a[0], env)[self.i(ev(a[1], env)):self.i(ev(a[2], env))]
        if op.startswith('s:'):
            v = ev(a[0], env)
            if not isinstance(v, str): return self.apply(op, [v] + [ev(y, env) for y in a[1:]], x.ty)
            r = getattr(v, op[2:])(*[ev(y, env) if not (y.op == 'num') else self.i(ev(y, env)) for y in a[1:]])
            if isinstance(r, list): r = tuple(r)
            if isinstance(r, int) and not isinstance(r, bool): r = Fraction(r)
            return r
        if op == 'int': 
            v = ev(a[0], env)
            return Fraction(int(v)) if isinstance(v, str) else Fraction(int(self.n(v)))
        if op == 'frac':
            v = ev(a[0], env)
            return Fraction(v) if isinstance(v, str) else self.n(v)
        if op == 'x:findall': 
            return tuple(re.findall(ev(a[0], env), ev(a[1], env)))
        if op in ('x:ord',): return Fraction(ord(ev(a[0], env)))
        if op in ('x:chr',): return chr(self.i(ev(a[0], env)))
        if op == 'x:asdict': return self.apply(op, [ev(a[0], env)], x.ty)
        if op == 'bitxor' or op == 'bitand' or op == 'bitor':
            u, v = [self.i(ev(y, env)) for y in a]
            return Fraction(u ^ v if op == 'bitxor' else u & v if op == 'bitand' else u | v)
        if op == 'call':
            f = ev(a[0], env)
            rest = []
            for y in a[1:]:
                if y.op == 'kw': rest.append((y.args[0], ev(y.args[1], env)))
                elif y.op == 'star': rest.extend(self.s(ev(y.args[0], env)))
                else: rest.append(ev(y, env))
            if isinstance(f, Lam): return f(*rest)
            return self.apply('call', [f] + rest, x.ty)
        if op in ('kv', 'upd', 'inc', 'dbase', 'ddel', 'ddefault'):
            return Entry(op, [ev(y, env) if isinstance(y, T) else y for y in a])
        if op == 'hasattr':
            v, nm = ev(a[0], env), a[1].args[0]
            ci = self.repo.cls(v.cls) if isinstance(v, O) else None
            if ci is not None:
                return any(nm in c.methods or nm in c.annots for c in self.repo.mro(ci)) or nm in v.f
            return self.apply('hasattr:%s' % (nm,), [v], 'bool')
        if op in ('elem', 'for', 'piecemap'): raise EvalErr(op)
        if op == 'm:__rmul__' and len(a) == 2:
            v, b = ev(a[0], env), ev(a[1], env)
            if isinstance(v, O) and isinstance(b, O): return act(self, b, v)
        if op == 'm:intersects' and len(a) == 2:
            v, w = ev(a[0], env), ev(a[1], env)
            r = meets(v, w)
            if r is not None: return r
        # uninterpreted
        args = []
        for y in a:
            if isinstance(y, T):
                if y.op == 'kw': args.append((y.args[0], ev(y.args[1], env)))
                elif y.op == 'star': args.extend(self.s(ev(y.args[0], env)))
                else: args.append(ev(y, env))
            elif isinstance(y, tuple): args.append(tuple(ev(z, env) if isinstance(z, T) else str(z) for z in y))
            else: args.append(str(y))
        return self.apply(op, args, x.ty)

    def bmv(self, v):
        if isinstance(v, O) and v.cls == 'BaseMap': return v
        raise EvalErr('not a base map')

    def attr(self, v, name, ty):
        if isinstance(v, NT) and name in v.names: return v[v.names.index(name)]
        if isinstance(v, O):
            if name not in v.f: self.loose.add(name)
            return v.get(name)
        if isinstance(v, Tok): self.loose.add(name); return self.apply('attr:' + name, [v], ty, name)
        if isinstance(v, Fraction) and name in ('numerator', 'denominator'): return Fraction(getattr(v, name))
        if v is None or isinstance(v, (str, tuple, Raised, frozenset, DV)): raise EvalErr('attribute %s' % name)
        self.loose.add(name); return self.apply('attr:' + name, [v], ty, name)

    def isinst(self, v, c):
        if isinstance(v, O):
            ci, k = self.repo.cls(v.cls), self.repo.cls(c)
            if ci is None or k is None: return v.cls == c
            return k in self.repo.mro(ci)
        if isinstance(v, Tok): return self.tokval(Tok('isinst' + c + v.k), 'bool')
        if c in ('str',): return isinstance(v, str)
        if c in ('tuple', 'list', 'Sequence'): return isinstance(v, tuple)
        if c in ('int', 'Fraction', 'Number', 'Rational'): return isinstance(v, Fraction)
        return False

    def str(self, v):
        if isinstance(v, str): return v
        if isinstance(v, (bool,)) or v is None: return str(v)
        if isinstance(v, (int, Fraction)): return str(v)
        if isinstance(v, tuple): return '(' + ', '.join(self.str(z) for z in v) + (',)' if len(v) == 1 else ')')
        return '<%s>' % canon(v)

    def dictof(self, s, env):
        out = []
        self.cat(s, env, out)
        d = DV()
        for e in out:
            if not isinstance(e, Entry): raise EvalErr('dict entry')
            a = e.vals
            if e.op == 'kv': d.set(a[0], a[1])
            elif e.op == 'dbase':
                b = a[0]
                if isinstance(b, Tok): b = DV((), None, 'tok' + b.k, self, None)
                if not isinstance(b, DV): raise EvalErr('dbase')
                if not d.order and d.ident is None and d.default is None: d = b.copy()
                else:
                    for k, v in b.items(): d.set(k, v)
            elif e.op == 'ddefault': d.default = a[0]
            elif e.op == 'inc': d.set(a[0], self.n(d.get(a[0])) + self.n(a[1]))
            elif e.op == 'ddel':
                c = canon(a[0])
                if c in d.d: del d.d[c]; d.order.remove(c)
            elif e.op == 'upd':
                kind, k, x = a
                cur = d.get(k)
                if kind == 'list': d.set(k, self.s(cur) + (x,))
                elif kind == 'set': d.set(k, frozenset(self.s(cur)) | {x})
                elif kind == 'dict':
                    c2 = cur.copy()
                    if not isinstance(x, Entry) or x.op != 'kv': raise EvalErr('nested')
                    c2.set(x.vals[0], x.vals[1])
                    d.set(k, c2)
                else: raise EvalErr('upd ' + str(kind))
            else: raise EvalErr('entry ' + e.op)
        return d


INT_HINTS = {'dim', 'div', 'mult', 'genus', 'pnum', 'cnum', 'k', 'l', 'depth', 'length'}


def compare(a, b, repo, mode='seq', samples=48, seed=1, budget=8.0, strict=False, pre=None, values=None, dropped=(), sdropped=(), free=1.0):
    """-> ('differ', info) | ('agree', n) | ('none', reasons)"""
    import time
    t0 = time.process_time()
    agree, solid, errs = 0, 0, {}
    both, k_next = 0, samples
    big = bigs(a) - bigs(b)
    long = []          # valuations too large for the first pass
    plan = [(k, 80_000) for k in range(samples)]
    at = 0
    while True:
        # cheap graphs are evaluated on more valuations, large valuations come last
        spent = time.process_time() - t0
        if at < len(plan): k, cap = plan[at]
        elif long and spent < 0.6 * budget: k, cap = long.pop(0), 400_000
        elif k_next < 12 * samples: k, cap = k_next, 80_000; k_next += 1
        else: break
        at += 1
        if spent > budget or (at > samples and cap == 80_000 and spent > free): break
        W = World(seed * 1000 + k, repo, *([(5, 2), (6, 2), (4, 3)][k // 11 % 3] if k >= samples and k % 11 == 3 else ()))
        W.cap = cap
        W.values = values or {}
        if big and k % 4 == 1: W.shrink = scaled(big, W.rng('#scale'))
        try: va = W.ev(a); ea = None
        except EvalErr as ex: va, ea = None, str(ex)
        except RecursionError: va, ea = None, 'recursion'
        try: vb = W.ev(b); eb = None
        except EvalErr as ex: vb, eb = None, str(ex)
        except RecursionError: vb, eb = None, 'recursion'
        if ea or eb:
            if ea and eb: both += 1
            if 'too long' in (ea, eb) and cap < 400_000: long.append(k); continue
            for z in (ea, eb):
                if z: errs[z] = errs.get(z, 0) + 1
            continue
        if not strict and has_raise(va) and not has_raise(vb):
            errs['code raises'] = errs.get('code raises', 0) + 1
            continue
        if dropped and not has_raise(va):
            # the code may raise inside a helper
            def raising(cs):
                r = False
                for c in cs:
                    try: r = True if W.b(W.ev(c)) else r
                    except EvalErr: r = r or None
                return r
            cr = raising(dropped)
            if cr and raising(sdropped): cr = False      # as the specification does
            if cr and strict and not has_raise(vb):
                return 'differ', {'valuation': W.desc(), 'code': 'raises', 'spec': repr(vb)[:400]}
            if cr or (cr is None and has_raise(vb)):
                errs['helper raises'] = errs.get('helper raises', 0) + 1
                continue
        try: ca, cb = view(W, va, mode), view(W, vb, mode)
        except EvalErr as ex:
            errs[str(ex)] = errs.get(str(ex), 0) + 1
            continue
        if ca != cb:
            return 'differ', {'valuation': W.desc(), 'code': repr(va)[:400], 'spec': repr(vb)[:400], 'loose': sorted(W.loose)}
        agree += 1
        if vb not in ((), None) and not has_raise(vb) and not (isinstance(vb, DV) and not isinstance(vb, Probe) and not vb.order): solid += 1
    if agree: return 'agree', {'samples': agree, 'solid': solid, 'errors': errs}
    return 'none', errs


def bigs(x):
    """integer thresholds of a graph"""
    out, seen, st = set(), set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple): st.extend(y); continue
        if not isinstance(y, T) or y in seen: continue
        seen.add(y)
        cs = [y.args[0]] if y.op == 'num' else [c for c, m in y.args if not m] if y.op == 'poly' else []
        out |= {abs(int(c)) for c in cs if c == int(c) and 5 <= abs(c) <= 300_000}
        st.extend(y.args)
    return out


def scaled(big, r):
    """The valuations are small, so a bound that only the code has (the first 100 items, at
    most 10**5 steps) would never be reached: the bound stands for any other bound.  Nearby
    constants (n and n - 1) keep their distance."""
    out, prev, to = {}, None, 0
    for c in sorted(big):
        to = to + (c - prev) if prev is not None and c - prev <= 2 else to + r.choice([1, 1, 2, 3])
        out[c], out[-c], prev = to, -to, c
    return out


def has_raise(v):
    return isinstance(v, Raised) or (isinstance(v, tuple) and any(map(has_raise, v)))


def view(W, v, mode):
    if mode == 'bag': return sorted(canon(z) for z in W.s(v))
    if mode == 'set': return sorted(set(canon(z) for z in W.s(v)))
    if mode == 'bool': return W.b(v)
    return canon(v)
