BI = '''
from quicktions import Fraction
from peano.base_maps import BaseMap, Spec
from peano.zoo import *
'''
BUGS = [
dict(id='links-std-one-pattern', property='C03', edits=[('peano/curves.py', "            new_links_std[link] = {pnum: std_map * cube_inv for pnum, std_map in data.items()}",
 "            new_links_std[link] = {pnum: std_map * cube_inv if pnum == self.pnum else std_map for pnum, std_map in data.items()}")],
 demo='''
from peano.base_maps import BaseMap
from peano.zoo import *
curve = get_beta_omega_curve().curve
f = curve.forget()
for bm in BaseMap.gen_base_maps(2, time_rev=False):
    g = bm * f
    for p in range(f.mult):
        for c in range(f.genus):
            a = set(sp.conjugate_by(bm) for sp in f.gen_allowed_specs(p, c))
            assert a == set(g.gen_allowed_specs(p, c)), (str(bm), p, c)
''', needs='a family with at least two patterns, moved by a non-trivial isometry', what='the standard maps of the unselected patterns are not moved together with the curve'),
dict(id='invert-in-place', property='C06', edits=[('peano/curves.py', "            new_links_std[link] = {pnum: ~std_map for pnum, std_map in data.items()}\n",
 "            data.update((pnum, ~std_map) for pnum, std_map in list(data.items()))\n            new_links_std[link] = data\n")],
 demo='''
from peano.zoo import *
from peano.base_maps import BaseMap
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
f = c.forget(base_maps_group=BaseMap.gen_base_maps(2), disable_time_rev=True)
before = [list(f.gen_allowed_specs(0, k)) for k in range(f.genus)]
~f
after = [list(f.gen_allowed_specs(0, k)) for k in range(f.genus)]
assert before == after
''', needs='a family that is reversed in time and then used again itself', what='time reversal of a family changes the tables of the family it was called on'),
dict(id='third-as-float', property='C09', edits=[('peano/dilation.py', "                test_lo = Fraction(2, 3) * curr_lo + Fraction(1, 3) * curr_up\n", "                test_lo = curr_lo + Fraction(1 / 3) * (curr_up - curr_lo)\n")],
 demo='''
from quicktions import Fraction
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
seen = []
class E(Estimator):
    def bisect_dilation_fuzzy(self, curve, good_threshold, bad_threshold, **kw):
        seen.append((bad_threshold, good_threshold))
        return None
E(ratio_linf).estimate_dilation_fuzzy(c.forget(), rel_tol_inv=10, start_lower_bound=Fraction(3), start_upper_bound=Fraction(6), start_curve=c)
assert seen[0] == (Fraction(4), Fraction(5)), seen[0]
''', needs='a bisection step with a positive lower bound', what='a threshold is built from a binary float, so bounds are no longer exact fractions of the inputs'),
dict(id='iterations-from-stats', property='C10', edits=[('peano/dilation.py', "        no_model = None\n        iter_no = 0\n        sat_iter = 1\n", "        no_model = None\n        iter_no = self.sum_stats['divide_iter']\n        sat_iter = 1\n")],
 demo='''
from quicktions import Fraction
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
f = c.forget()
def go(e, n):
    try: return e.bisect_dilation_fuzzy(f, good_threshold=Fraction(27, 4), bad_threshold=Fraction(13, 2), max_iter=n)
    except Estimator._RunOutOfIterationsException: return 'out'
n = 1
while isinstance(go(Estimator(ratio_linf), n), str): n += 1
e = Estimator(ratio_linf)
a = go(e, n); b = go(e, n)
assert not isinstance(b, str) and type(a) is type(b), (n, a, b)
''', needs='an estimator object used for a second bisection with max_iter', what='the iteration budget of a bisection is spent by the statistics of earlier calls'),
dict(id='unbalanced-width', property='C11', edits=[('peano/dilation.py', "        max_dx = [max(abs(x1j - x2j + 1), abs(x1j - x2j - mx2)) for x1j, x2j in zip(x1, x2)]", "        max_dx = [max(abs(x1j - x2j + 1), abs(x1j - x2j - mx2 + (mx2 > 2))) for x1j, x2j in zip(x1, x2)]")],
 demo='''
from peano.dilation import Estimator, _CurvePiecePair
from peano.utils import ratio_linf
from peano.zoo import *
from quicktions import Fraction
c = get_peano_curve()
c = getattr(c, 'curve', c)
e = Estimator(ratio_linf)
j = next(iter(c.gen_auto_junctions()))
p = _CurvePiecePair.init_first_order(c, j, 0, 2)
lo, up, _ = e._get_bounds(p)
for q in p.divide_balanced():
    l, u, _ = e._get_bounds(q)
    assert u <= up
    for r in q.divide_balanced():
        l2, u2, _ = e._get_bounds(r)
        assert l2 <= u, (l2, u)
    assert max(e._get_bounds(r)[1] for r in q.divide_balanced()) <= u * 2
    # the far corner of the coarse square counts
    x1, _ = q.pos1.get_int_coords(); x2, _ = q.pos2.get_int_coords()
    d = max(max(abs(a - 3 * b + 1), abs(a - 3 * b - 3)) for a, b in zip(x1, x2))
    t1, t2 = q.pos1.get_int_coords()[1], 9 * q.pos2.get_int_coords()[1]
    assert u == Fraction(d ** 2, t2 - t1 - 1), (u, d, t1, t2)
''', needs='a pair of fractions of different depth (every second division step)', what='the width of the coarser fraction is ignored in the distance bound'),
dict(id='max-depth-drop', property='C14', edits=[('peano/dilation.py', "                if all(item.pair.depth > max_depth for item in pairs_tree.items()):\n                    break\n",
 "                if all(item.pair.depth > max_depth for item in pairs_tree.items()):\n                    curr_up = curr_lo\n                    break\n")],
 demo='''
from quicktions import Fraction
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
from peano.utils import ratio_l1, ratio_l2_squared
c2 = get_peano_curve()
c2 = getattr(c2, 'curve', c2)
for c in (c, c2):
    for r in (ratio_linf, ratio_l1, ratio_l2_squared):
        true = Estimator(r).estimate_dilation_regular(c, rel_tol_inv=1000)
        for d in (1, 2, 3):
            x = Estimator(r).estimate_dilation_regular(c, rel_tol_inv=10**6, max_depth=d)
            assert x['up'] >= true['lo'], (x, true)
            assert x['lo'] <= true['up'], (x, true)
''', needs='the max_depth option', what='stopping at the depth limit reports the lower bound as the upper bound'),
dict(id='out-of-iterations-lo', property='C15', edits=[('peano/dilation.py', "                # run out of iterations\n                break\n", "                # run out of iterations\n                curr_lo = test_lo\n                break\n")],
 demo='''
from quicktions import Fraction
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
r = Estimator(ratio_linf).estimate_dilation_fuzzy(c.forget(), rel_tol_inv=100, start_lower_bound=Fraction(0), start_upper_bound=Fraction(20), start_curve=c, max_iter=1)
assert r['lo'] <= 6, r
''', needs='max_iter reached inside a bisection', what='an undecided threshold test raises the lower bound'),
dict(id='sequence-index', property='C16', edits=[('peano/dilation.py', "                        idx=item.idx,\n", "                        idx=item.idx if epoch == 1 else cnt,\n")],
 demo='''
from quicktions import Fraction
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
fs = [c().curve.forget() for c in (get_peano_curve, get_hilbert_curve)]
import itertools
e = Estimator(ratio_linf)
calls = []
class F(Estimator):
    def estimate_dilation_fuzzy(self, curve, **kw):
        calls.append(curve)
        k = fs.index(curve)
        n = sum(c is curve for c in calls)
        lo, up = ([(4, 9), (5, 7), (6, 6)], [(5, 8), (5, 6), (5, 5)])[k][min(n, 3) - 1]
        return {'lo': Fraction(lo), 'up': Fraction(up), 'curve': 'curve%d' % k}
r = F(ratio_linf).estimate_dilation_sequence(fs, rel_tol_inv=10)
assert r['curves'] == ['curve%d' % i for i in r['idxs']], r
''', needs='a search over several families that takes at least two epochs', what='the reported indices are positions in the reordered work list, not in the input'),
dict(id='curve-var-pattern', property='C17', edits=[('peano/_sat_adapters.py', "        return 'curve', tuple(curve.gen_defined_specs())", "        return 'curve', tuple((cnum, sp) for _, cnum, sp in curve.gen_defined_specs())")],
 demo='''
from peano._sat_adapters import CurveSATAdapter
from peano.base_maps import BaseMap, Spec
from peano.zoo import *
c = get_beta_omega_curve()
c = getattr(c, 'curve', c)
f = c.forget()
sp = [list(f.gen_allowed_specs(p, 1)) for p in range(2)]
s = next(x for x in sp[0] if x in sp[1])
a, b = f.specify(0, 1, s), f.specify(1, 1, s)
ad = CurveSATAdapter(f)
assert ad._make_curve_var(a) != ad._make_curve_var(b)
''', needs='two patterns with a common spec at the same position', what='partially specified curves that differ only in the pattern share one solver variable'),
dict(id='shared-numbering', property='C18', edits=[('peano/_sat_adapters.py', "        self._var_no = other._var_no.copy()", "        self._var_no = other._var_no")],
 demo='''
from peano._sat_adapters import CurveSATAdapter
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
f = c.forget()
base = CurveSATAdapter(curve=f)
n = base.get_problem_size()
copy = CurveSATAdapter(adapter=base)
copy._append_clause({('junc', ('new',)): False})
assert base.get_problem_size() == n
''', needs='a copied adapter that receives a clause with a new variable', what='variables of one solver session appear in the session it was copied from'),
dict(id='specify-any', property='C25', edits=[('peano/curves.py', "        if spec not in self.gen_allowed_specs(pnum, cnum):\n            raise ValueError(\"Can't specify curve\")\n        if self.patterns[pnum].specs[cnum] is not None:\n            return self  # optimization: spec is already defined\n",
 "        if self.patterns[pnum].specs[cnum] is not None:\n            return self  # optimization: spec is already defined\n        if spec not in self.gen_allowed_specs(pnum, cnum):\n            raise ValueError(\"Can't specify curve\")\n")],
 demo='''
from peano.zoo import *
c = get_hilbert_curve()
c = getattr(c, 'curve', c)
f = c.forget()
s = list(f.gen_allowed_specs(0, 1))
g = f.specify(0, 1, s[0])
try: g.specify(0, 1, s[1])
except ValueError: pass
else: raise SystemExit('a contradictory spec was accepted')
''', needs='specifying a position that is already specified, with another spec', what='a contradictory specification is silently ignored instead of rejected'),
dict(id='glue-heads', property='C20', edits=[('peano/_cube_path_trees.py', "        return beg.head == end.head and (not end.tail_support() & beg.tail_support())", "        return beg.head.cube == end.head.cube and (not end.tail_support() & beg.tail_support())")],
 demo='''
from peano._cube_path_trees import CubePathTree, _CubePath, _CubeNode
a = _CubePath(head=_CubeNode((0, 0), 'a'), length=1, prev=None)
b = _CubePath(head=_CubeNode((0, 0), 'b'), length=1, prev=None)
assert not CubePathTree._check_glue(a, b)
''', needs='a hash collision between a middle and a final piece whose meeting cube carries different states', what='pieces that meet in the same cube with different links are glued'),
dict(id='width-stop', property='C21', edits=[('peano/_cube_path_trees.py', "                    logger.debug('_width_search stopped due to max_count %d', max_count)\n                    return curr_paths\n", "                    logger.debug('_width_search stopped due to max_count %d', max_count)\n                    return new_paths if reverse else curr_paths\n")],
 demo='''
from peano.paths import PathsGenerator
from peano.subsets import Link, Point
from quicktions import Fraction
link = Link(Point((Fraction(0), Fraction(0))), Point((Fraction(1), Fraction(0))))
pg = PathsGenerator(dim=2, div=4, links=[link])
def count(**kw): return sum(1 for _ in pg.generate_paths_generic(link=link, **kw))
n = count(start_max_count=10**6, finish_max_count=10**6)
for k in (1, 2, 3, 4, 5, 7):
    assert count(start_max_count=k, finish_max_count=k) == n, (k, n)
''', needs='a width limit reached in the middle of a level', what='a search that hits its width limit continues from an incomplete level and loses paths'),
dict(id='cdist-far', property='C22', edits=[('peano/paths.py', "                if (max_cdist is not None) and sum(abs(cj) for cj in cube) > max_cdist:", "                if (max_cdist is not None) and max(abs(cj) for cj in cube) > max_cdist:")],
 demo='''
from peano.paths import PathsGenerator
from peano.subsets import Link, Point
from quicktions import Fraction
F = Fraction
link = Link(Point((F(0), F(0))), Point((F(1), F(1))))
for div in (2, 3):
    pg = PathsGenerator(dim=2, div=div, links=[link], max_cdist=1)
    for p in pg.generate_paths_generic(link=link):
        for a, b in zip(p.proto, p.proto[1:]):
            assert sum(abs(x - y) for x, y in zip(a, b)) <= 1, p.proto
    for nxt in pg._exit2next.values():
        for cube, l in nxt: assert sum(map(abs, cube)) <= 1, cube
''', needs='max_cdist with links that touch diagonal neighbours', what='diagonal steps pass a distance limit of one'),
dict(id='gates-exit-inner', property='C23', edits=[('peano/gates.py', "            if (self.only_facet and exit.face_dim() != dim-1) or (exit.face_dim() == dim):", "            if self.only_facet and (exit.face_dim() != dim-1 or exit.face_dim() == dim):")],
 demo='''
from peano.gates import GatesGenerator
from peano.paths import Proto
from peano.base_maps import BaseMap, Spec
from peano.curves import FuzzyCurve
dim, div = 2, 3
g = GatesGenerator(dim=dim, div=div, mult=1)
g._seen_gates, g._seen_std_gates = set(), set()
import itertools
bad = 0
for last in itertools.product(range(div), repeat=dim):
    if last == (0, 0): continue
    proto = [None] * 9
    proto[0], proto[-1] = (0, 0), last
    proto = Proto(dim, div, proto)
    for s1 in BaseMap.gen_base_maps(dim, time_rev=False):
        for s2 in BaseMap.gen_base_maps(dim, time_rev=False):
            c = FuzzyCurve(dim=dim, div=div, patterns=[(proto, [Spec(s1)] + [None] * 7 + [Spec(s2)])])
            inner = c.get_exit(0).face_dim() == dim
            if inner:
                bad += 1
                n = len(g._seen_gates)
                assert g._check_and_std([proto], [Spec(s1), Spec(s2)]) is None
                assert len(g._seen_gates) == n, 'an internal exit went through'
assert bad
''', needs='a curve with an exit inside the cube', what='an exit strictly inside the cube is no longer rejected'),
dict(id='faces-oneshot', property='C28', edits=[('peano/curves.py', "        return super().__new__(cls, proto=proto, specs=tuple(specs))", "        assert len(proto) == len(list(specs))\n        return super().__new__(cls, proto=proto, specs=tuple(specs))")],
 demo='''
from peano.curves import Pattern
from peano.paths import Proto
from peano.base_maps import Spec, BaseMap
p = Proto.parse('ijI')
x = Pattern(p, (Spec(BaseMap.id_map(2)) for _ in range(4)))
assert len(x.specs) == 4
''', needs='specs given as a generator', what='a one-shot iterable of specs is consumed by a check and the pattern is left without specs'),
dict(id='time-rev-first', property='C12', edits=[('peano/dilation.py', "                    if (cnum1, cnum2) != (last_cnum1, first_cnum2):", "                    if cnum1 != last_cnum1 or (cnum2 != first_cnum2 and not junc.spec2.base_map.time_rev):")],
 demo='''
from peano.dilation import Estimator
from peano.utils import ratio_linf
from peano.zoo import *
n = 0
for name, c in enumerate(get_all_curves()):
    c = getattr(c, 'curve', c)
    if c.dim != 2 or c.genus > 10: continue
    G = c.genus
    juncs = list(c.gen_regular_junctions())
    t = Estimator(ratio_linf)._create_tree(c)
    have = sum(1 for _ in t.items())
    want = len(juncs) * (G * G - 1) + c.mult * (G - 1) * (G - 2) // 2
    assert have == want, (name, have, want)
    n += 1
assert n
''', needs='a junction whose second fraction is traversed backwards', what='pairs at junctions with a reversed second fraction are never examined'),
dict(id='heap-copy-skip', property='C13', edits=[('peano/_bounded_items_heap.py', "        new_heap._extend(self.items())\n", "        new_heap._extend(item for item in self.items() if good_threshold is None or item.lo <= good_threshold)\n")],
 demo='''
from quicktions import Fraction as F
from peano._bounded_items_heap import BoundedItemsHeap, BoundedItem
h = BoundedItemsHeap(None, None)
for lo, up in ((1, 2), (3, 9), (7, 8)): h.push(BoundedItem(F(lo), F(up)))
c = h.copy_and_cleanup(good_threshold=F(5), bad_threshold=F(4))
assert [i.lo for i in c.pop_bad_items()] == [7]
assert c.size() == 1
''', needs='a pair whose lower bound already exceeds the good threshold in the initial tree', what='the worst pairs are neither kept nor reported as bad'),
dict(id='face-cycle', property='C05', edits=[('peano/curves.py', "        period_start = index[cur_spec]\n        moment = get_periodic_sum(cnums[0:period_start], cnums[period_start:], self.genus)", "        period_start = index[cur_spec]\n        moment = get_periodic_sum(cnums[0:period_start], cnums[period_start:][:self.genus], self.genus)")],
 demo='''
from peano.curves import Curve
from peano.base_maps import BaseMap, Spec
from peano.zoo import *
from peano.utils import get_periodic_sum
import itertools
def moment(c, face, pnum, last):
    # digits by walking the specs, no shortcuts
    spec, seen, cn = Spec(BaseMap.id_map(c.dim), pnum), {}, []
    while spec not in seen:
        seen[spec] = len(cn)
        proto = spec.base_map * c.patterns[spec.pnum].proto
        k = c._get_face_cnum(proto, face, last=last)
        cn.append(k)
        spec = c._compose_specs(spec, k)
    s = seen[spec]
    return get_periodic_sum(cn[:s], cn[s:], c.genus)
hit = 0
base = get_hilbert_curve()
base = getattr(base, 'curve', base)
maps = list(BaseMap.gen_base_maps(2))
for a in maps:
    for b in maps:
        sp = [Spec(a), base.specs[1], base.specs[2], Spec(b)]
        for rev in (False, True):
            pats = [(base.proto, sp)]
            c = Curve(2, 2, pats)
            for face in itertools.product((0, 1), repeat=2):
                for last in (False, True):
                    assert c.get_face_moment(face, 0, last=last) == moment(c, face, 0, last), (str(a), str(b), face)
p = base.proto
for m in range(2, 8):
    pats = [(p, [Spec(BaseMap.id_map(2), (k + 1) % m)] * 3 + [Spec(BaseMap.parse('jI'), (k + 1) % m)]) for k in range(m)]
    c = Curve(2, 2, pats)
    for face in itertools.product((0, 1), repeat=2):
        for last in (False, True):
            assert c.get_face_moment(face, 0, last=last) == moment(c, face, 0, last), (m, face)
''', needs='a face touched along a cycle of specs longer than the genus', what='the period of the digit expansion is cut'),
dict(id='deep-spec-selected', property='C04', edits=[('peano/curves.py', "                patterns=new_patterns,\n                pnum=self.pnum,\n            )\n\n        return current_curve", "                patterns=new_patterns,\n            )\n\n        return current_curve")],
 demo='''
from peano.zoo import *
c = get_beta_omega_curve()
c = getattr(c, 'curve', c)
for p in range(c.mult):
    d = c._changed(pnum=p)
    s = d.get_subdivision()
    assert s.get_entrance() == d.get_entrance() and s.get_exit() == d.get_exit() and s.pnum == p
''', needs='a polyfractal curve with a pattern other than the first selected', what='a subdivision always selects the first pattern'),
dict(id='mul-cache-key', property='C07', edits=[('peano/base_maps.py', "        key = other._key\n        val = self._mul_cache.get(key)\n", "        key = (other.coords, self.time_rev ^ other.time_rev)\n        val = self._mul_cache.get(key)\n"),
   ('peano/base_maps.py', "            self._mul_cache[key] = val = BaseMap(coords, self.time_rev ^ other.time_rev)\n        return val\n\n    def get_inverse", "            val = BaseMap(coords, self.time_rev ^ other.time_rev)\n            self._mul_cache[key] = val\n            self._mul_cache.setdefault((other.coords, not self.time_rev), val)\n        return val\n\n    def get_inverse")],
 demo='''
from peano.base_maps import BaseMap
a, b = BaseMap.parse('ji'), BaseMap.parse('Ij')
p = a * b
q = a * ~b
assert p.time_rev is False and q.time_rev is True
''', needs='the product with a map and then with its time reversal', what='a product is stored under the key of another product'),
]
