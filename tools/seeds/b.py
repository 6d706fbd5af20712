BUGS = [
dict(id='facet-divide-side', property='C24', edits=[('peano/subsets.py', "            new_set = FacetDivSubset(dim, div, self.facet, self.cubes[1:])", "            new_set = FacetDivSubset(dim, div, self.facet, self.cubes[1:2])")],
 demo='''
from peano.subsets import FacetDivSubset
s = FacetDivSubset(dim=3, div=2, facet=(1, 1), cubes=[(0, 1), (1, 1), (0, 0), (1, 0)])
out = list(s.divide(2))
assert len(out) == 1
cube, part = out[0]
assert part.cubes == ((1, 1), (0, 0), (1, 0)), part
assert part.map_to_cube(2, cube) == s
''', needs='a facet subset nested at least three levels deep', what='dividing a deep facet subset forgets the levels below the second one'),
]
