BUGS = [
dict(id='pow-odd-half', property='C01', edits=[('peano/base_maps.py', "            return t*t*self\n", "            return t*t*t if p1 == 3 else t*t*self\n")],
 demo='''
from peano.base_maps import BaseMap
for bm in BaseMap.gen_base_maps(3):
    acc = BaseMap.id_map(3)
    for k in range(1, 12):
        acc = acc * bm
        assert bm**k == acc, (str(bm), k)
''', needs='a power whose halved exponent is 3 (the 7th, or a higher power reduced through it) of a map whose order does not divide the difference', what='x**7 is x**9'),
dict(id='cube-start-reflect', property='C02', edits=[('peano/base_maps.py', "return tuple(1-cube_start[k]-cube_length if b else", "return tuple(max(1-cube_start[k]-cube_length, 0) if b else")],
 demo='''
from fractions import Fraction as F
from peano.base_maps import BaseMap
for bm in BaseMap.gen_base_maps(2):
    for s in [(0, 1), (F(1, 2), F(5, 4)), (3, -2)]:
        l = F(1, 4)
        got = bm.apply_cube_start(s, l)
        want = tuple(min(bm.apply_x(s)[j], bm.apply_x([x + l for x in s])[j]) for j in range(2))
        assert tuple(got) == want, (str(bm), s, got, want)
''', needs='a cube outside the unit cube (the second side of a junction) under a reflecting map', what='the image of a cube lying beyond the unit cube is clamped'),
dict(id='facet-neigh-cubes', property='C24', edits=[('peano/subsets.py', "NOEDIT", "NOEDIT")], demo='', needs='', what=''),
]
