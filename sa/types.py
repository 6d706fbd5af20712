"""
Types of the analysed program: read off annotations, plus a small table for
attributes the source leaves unannotated.
"""
from __future__ import annotations
import ast

I, Q, B, S = 'int', 'num', 'bool', 'str'
def seq(t): return ('seq', t)
def cls(n): return ('cls', n)
def opt(t): return ('opt', t)

CUBE = seq(I)
BM, SPEC = cls('BaseMap'), cls('Spec')

# attributes that carry no usable annotation in the source
ATTR = {
    ('BaseMap', 'dim'): I, ('BaseMap', 'coords'): seq(('tuple', (I, B))), ('BaseMap', 'time_rev'): B,
    ('Spec', 'base_map'): BM, ('Spec', 'pnum'): I,
    ('Subset', 'dim'): I, ('Point', 'dim'): I,
    ('FacetDivSubset', 'dim'): I, ('FacetDivSubset', 'div'): I, ('FacetDivSubset', 'facet'): ('tuple', (I, I)),
    ('FacetDivSubset', 'cubes'): seq(CUBE),
    ('Link', 'entrance'): cls('Subset'), ('Link', 'exit'): cls('Subset'), ('Link', 'dim'): I,
    ('Proto', 'dim'): I, ('Proto', 'div'): I,
    ('Path', 'proto'): cls('Proto'), ('Path', 'dim'): I, ('Path', 'div'): I, ('Path', 'links'): seq(cls('Link')),
    ('Path', 'link'): cls('Link'),
    ('PathsGenerator', 'dim'): I, ('PathsGenerator', 'div'): I, ('PathsGenerator', 'links'): seq(cls('Link')),
    ('PathsGenerator', '_entr2links'): ('dict', cls('Subset'), seq(cls('Link'))),
    ('PathsGenerator', '_exit2next'): ('dict', cls('Subset'), seq(('tuple', (CUBE, cls('Link'))))),
    ('PathsGenerator', '_is_pointed'): B,
    ('Pattern', 'proto'): cls('Proto'), ('Pattern', 'specs'): seq(opt(SPEC)),
    ('FuzzyCurve', 'dim'): I, ('FuzzyCurve', 'div'): I, ('FuzzyCurve', 'patterns'): seq(cls('Pattern')),
    ('FuzzyCurve', 'mult'): I, ('FuzzyCurve', 'pnum'): I, ('FuzzyCurve', 'genus'): I,
    ('PathFuzzyCurve', 'links_symmetries'): ('dict', cls('Link'), seq(BM)),
    ('PathFuzzyCurve', 'links_std'): ('dict', cls('Link'), ('dict', I, BM)),
    ('PathFuzzyCurve', 'pattern_links'): seq(seq(cls('Link'))),
    ('PathFuzzyCurve', 'pattern_reprs'): seq(seq(BM)),
    ('CurveSATAdapter', '_solver'): ('opt', None),
    ('Junction', 'spec1'): SPEC, ('Junction', 'spec2'): SPEC, ('Junction', 'delta_x'): seq(Q),
    ('Junction', 'delta_t'): I, ('Junction', 'depth'): opt(I),
    ('CurvePoint', 'x'): cls('Point'), ('CurvePoint', 't'): Q,
    ('_PiecePosition', 'dim'): I, ('_PiecePosition', 'div'): I, ('_PiecePosition', 'cnums'): seq(I),
    ('_PiecePosition', 'cubes'): seq(CUBE), ('_PiecePosition', 'depth'): I,
    ('_CurvePiece', 'curve'): cls('FuzzyCurve'), ('_CurvePiece', 'pnum'): I, ('_CurvePiece', 'pos'): cls('_PiecePosition'),
    ('_CurvePiecePair', 'curve'): cls('FuzzyCurve'), ('_CurvePiecePair', 'junc'): cls('Junction'),
    ('_CurvePiecePair', 'pos1'): cls('_PiecePosition'), ('_CurvePiecePair', 'pos2'): cls('_PiecePosition'),
    ('BoundedItem', 'lo'): Q, ('BoundedItem', 'up'): Q, ('_BoundedPair', 'pair'): cls('_CurvePiecePair'),
    ('BoundedItemsHeap', '_heap'): seq(('tuple', (Q, I, cls('_BoundedPair')))),
    ('BoundedItemsHeap', '_bad_items'): seq(cls('_BoundedPair')),
    ('BoundedItemsHeap', '_good_threshold'): opt(Q), ('BoundedItemsHeap', '_bad_threshold'): opt(Q),
    ('BoundedItemsHeap', '_keep_max_lo_item'): B, ('BoundedItemsHeap', 'seen_items'): B,
    ('BoundedItemsHeap', 'max_lo_item'): cls('_BoundedPair'), ('BoundedItemsHeap', '_inc'): I,
    ('CurveSATAdapter', '_int_clauses'): seq(seq(I)), ('CurveSATAdapter', '_curve'): cls('FuzzyCurve'),
    ('CurveSATAdapter', '_var_no'): ('dict', None, I), ('CurveSATAdapter', '_curve_vars'): ('set', None),
    ('_CubeNode', 'cube'): CUBE, ('_CubePath', 'head'): cls('_CubeNode'), ('_CubePath', 'length'): I,
    ('_CubePath', 'prev'): opt(cls('_CubePath')),
    ('CubePathTree', 'dim'): I, ('CubePathTree', 'div'): I, ('CubePathTree', '_all_cubes'): ('set', CUBE),
    ('GatesGenerator', 'dim'): I, ('GatesGenerator', 'div'): I, ('GatesGenerator', 'mult'): I,
    ('GatesGenerator', 'only_facet'): B, ('GatesGenerator', '_boundary_pnum_cnums'): seq(('tuple', (I, I))),
    ('GatesGenerator', '_seen_gates'): ('set', None), ('GatesGenerator', '_seen_std_gates'): ('set', None),
}

ELEM = {'Point': Q, 'Proto': opt(CUBE), 'Pattern': None}

# values of these classes change over time; the others are immutable values (C06)
MUTABLE = {'BoundedItemsHeap', 'CurveSATAdapter', 'PathsGenerator', 'GatesGenerator', 'Estimator', 'CubePathTree', '_HeapStat'}

STATS = {'stats', 'sum_stats', 'max_stats'}

ALIASES = {
    'CubeType': CUBE, 'Gate': cls('Link'), 'GateTuple': seq(cls('Link')), 'CoordType': ('tuple', (I, B)),
    'Fraction': Q, 'Number': Q, 'Any': None, 'Clause': seq(I), 'BoolVar': None, 'CubeDeltaType': CUBE, 'PatternArgType': None,
    'CacheKeyType': None, 'Hashable': None,
}
SEQS = {'Sequence', 'Iterable', 'list', 'List', 'Generator', 'Iterator', 'Collection', 'deque'}


def of_ann(a, repo, owner=None):
    if a is None: return None
    if isinstance(a, ast.Constant):
        if a.value is None: return 'none'
        if isinstance(a.value, str):
            try: return of_ann(ast.parse(a.value, mode='eval').body, repo, owner)
            except SyntaxError: return None
        return None
    if isinstance(a, ast.Name):
        n = a.id
        if n == 'int': return I
        if n == 'bool': return B
        if n == 'str': return S
        if n == 'float': return Q
        if n == 'Self' and owner is not None: return cls(owner.name)
        if n in ALIASES: return ALIASES[n]
        if n in ('tuple', 'list', 'Sequence', 'Iterable'): return seq(None)
        if n in ('set', 'frozenset', 'MutableSet', 'Set'): return ('set', None)
        if n in ('dict', 'Counter', 'Mapping'): return ('dict', None, None)
        if repo.cls(n): return cls(n)
        if owner is not None and owner.name == 'BoundedItemsHeap' and n == 'T': return cls('_BoundedPair')
        return None
    if isinstance(a, ast.Attribute):
        return of_ann(ast.Name(id=a.attr), repo, owner)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        l, r = of_ann(a.left, repo, owner), of_ann(a.right, repo, owner)
        if r == 'none': return opt(l) if l else None
        if l == 'none': return opt(r) if r else None
        if l == r: return l
        return None
    if isinstance(a, ast.Subscript):
        base = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, 'id', None)
        sl = a.slice
        args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if base in SEQS: return seq(of_ann(args[0], repo, owner))
        if base in ('tuple', 'Tuple'):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return seq(of_ann(args[0], repo, owner))
            return ('tuple', tuple(of_ann(x, repo, owner) for x in args))
        if base in ('dict', 'Dict', 'Mapping', 'defaultdict'):
            return ('dict', of_ann(args[0], repo, owner), of_ann(args[1], repo, owner) if len(args) > 1 else None)
        if base in ('set', 'frozenset', 'Set', 'MutableSet'): return ('set', of_ann(args[0], repo, owner))
        if base in ('ClassVar', 'Final'): return of_ann(args[0], repo, owner)
        if base == 'Optional':
            t = of_ann(args[0], repo, owner)
            return opt(t) if t else None
        if base and repo.cls(base): return cls(base)
        return None
    return None
