# Points, facet subsets, links

@of('Point.__rmul__', props='C02 C24', opaque='none')
def point_rmul(self, bm: BaseMap):
    return Point([(1 - self[k]) if b else self[k] for k, b in bm.coords])

@of('Point.transform', props='C24 C09', opaque='none')
def point_transform(self, scale: Fraction | None, shift: Sequence[Fraction] | None):
    return Point([self[j] * (1 if scale is None else scale) + (0 if shift is None else shift[j]) for j in range(len(self))])

@law('C24')
def point_transform_default(p: Point):
    return p.transform(), p

@of('Point.map_to_cube', props='C24 C22', opaque='none')
def point_map_to_cube(self, div: int, cube: Sequence[int]):
    return Point([(self[j] + cube[j]) / div for j in range(len(self))])

@of('Point.intersects', props='C24 C22', mode='bool', opaque='none')
def point_intersects(self, other: Point):
    return self == other

# cubes of the integer grid that contain a point: floor, and the one below when on the border
@of('Point.gen_neighbours', props='C24 C19 C22', mode='bag', opaque='none')
def point_gen_neighbours(self):
    sides = [((x.numerator // x.denominator - 1, x.numerator // x.denominator) if x.numerator % x.denominator == 0 else (x.numerator // x.denominator,)) for x in self]
    for c in itertools.product(*sides):
        if any(cj != 0 for cj in c):
            yield c, Point([self[j] - c[j] for j in range(len(self))])

@of('Point.divide', props='C24 C22', mode='bag', opaque='none')
def point_divide(self, div: int):
    sides = [(((x * div).numerator // (x * div).denominator - 1, (x * div).numerator // (x * div).denominator) if (x * div).numerator % (x * div).denominator == 0 else ((x * div).numerator // (x * div).denominator,)) for x in self]
    for c in itertools.product(*sides):
        if all(0 <= cj and cj < div for cj in c):
            yield c, Point([self[j] * div - c[j] for j in range(len(self))])

# a cube map takes x_j to x_j or 1-x_j and permutes: the least image is sorted with every coordinate at most 1/2
@of('Point.std', props='C24 C23', opaque='none')
def point_std(self):
    return Point(sorted([x if x <= 1 - x else 1 - x for x in self]))

@of('Point.argstd', props='C24 C23', mode='bag')
def point_argstd(self):
    yield from BaseMap.gen_constraint_fast(self, self.std())

@of('Point.face_dim', props='C24 C23', opaque='none')
def point_face_dim(self):
    return len([x for x in self if x != 0 and x != 1])

@of('Point.__str__', props='C26', opaque='none')
def point_str(self):
    return '(' + ','.join([str(x) for x in self]) + ')'

@of('Point.parse', props='C26 C29', opaque='none', values={'text': ['(0,0)', '(0,1/2,1)', ' (1,1/3)', '(1/5,2/5) ']})
def point_parse(cls, text: str):
    return Point([Fraction(z) for z in text.strip().strip('()').split(',')])

@of('Link.parse_gates', props='C26 C29', values={'text': ['(0,0)->(1,1/2)', '(0,1/3) -> (1,0)', '(0,1/2,1)->(1,1,2/3)', '(1,1)->(0,0)']})
def link_parse(cls, text: str):
    return Link(*[Point.parse(z) for z in text.split('->')])

@of('Link.__str__', props='C26')
def link_str(self):
    return str(self.entrance) + ' -> ' + str(self.exit)

# ------------------------------------------------------------------ facets
@of('FacetDivSubset.intersects', props='C24 C22', mode='bool', opaque='none')
def facet_intersects(self, other: FacetDivSubset):
    return self.facet == other.facet and all(self.cubes[i] == other.cubes[i] for i in range(min(len(self.cubes), len(other.cubes))))

@of('FacetDivSubset.__rmul__', props='C02 C24', opaque='none')
def facet_rmul(self, cube_map: BaseMap):
    fc, fv = self.facet
    new = [((j, (1 - fv) if b else fv)) for j, (k, b) in enumerate(cube_map.coords) if k == fc][0]
    cubes = []
    for cube in self.cubes:
        cubes.append(tuple((self.div - 1 - cube[k if k < fc else k - 1]) if b else cube[k if k < fc else k - 1] for k, b in cube_map.coords if k != fc))
    return FacetDivSubset(self.dim, self.div, new, cubes)

@of('FacetDivSubset.argmul_intersect', props='C24 C22', mode='set', opaque=['act', 'FacetDivSubset.intersects', 'BaseMap.gen_base_maps', 'BaseMap.__mul__'], noact=True)
def facet_argmul(self, other: FacetDivSubset, bms: Iterable[BaseMap] | None):
    for bm in (BaseMap.gen_base_maps(self.dim, False) if bms is None else bms):
        fc, fv = self.facet
        if any(k == fc and (j, (1 - fv) if b else fv) == other.facet for j, (k, b) in enumerate(bm.coords)) and (bm * self).intersects(other):
            yield bm

@of('FacetDivSubset.map_to_cube', props='C24 C22', opaque='none')
def facet_map_to_cube(self, div: int, cube: Sequence[int]):
    return FacetDivSubset(self.dim, self.div, self.facet, [tuple(cube[j] for j in range(self.dim) if j != self.facet[0])] + list(self.cubes))

@of('FacetDivSubset.gen_neighbours', props='C24 C22', mode='bag', opaque='none')
def facet_gen_neighbours(self):
    fc, fv = self.facet
    yield tuple(((-1 if fv == 0 else 1) if j == fc else 0) for j in range(self.dim)), FacetDivSubset(self.dim, self.div, (fc, 1 if fv == 0 else 0), self.cubes)

@of('FacetDivSubset.divide', props='C24 C22', mode='bag', opaque='none')
def facet_divide(self, div: int):
    fc, fv = self.facet
    if len(self.cubes) > 0:
        c = self.cubes[0]
        yield tuple((0 if fv == 0 else div - 1) if j == fc else c[j if j < fc else j - 1] for j in range(self.dim)), FacetDivSubset(self.dim, div, self.facet, self.cubes[1:])
    else:
        for c in itertools.product(range(div), repeat=self.dim - 1):
            yield tuple((0 if fv == 0 else div - 1) if j == fc else c[j if j < fc else j - 1] for j in range(self.dim)), self

@of('FacetDivSubset.all_cube_maps', props='C24 C07', mode='bag')
def facet_all_cube_maps(self):
    return list(BaseMap.gen_base_maps(self.dim, False))

@of('FacetDivSubset.__init__', props='C24 C02', init=True, opaque='none')
def facet_init(self, dim: int, div: int, facet: tuple[int, int], cubes: Sequence[Sequence[int]]):
    self.dim = dim
    self.div = div
    self.facet = (facet[0], facet[1])
    self.cubes = tuple(tuple(c) for c in cubes)

@of('FacetDivSubset.__eq__', props='C08', mode='bool', opaque='none')
def facet_eq(self, other: FacetDivSubset):
    return self.dim == other.dim and self.div == other.div and self.facet == other.facet and self.cubes == other.cubes

@of('Subset.std', props='C24 C23', own=True)
def subset_std(self):
    return min([bm * self for bm in BaseMap.gen_base_maps(self.dim, False)])

@of('Subset.argmul_intersect', props='C24 C22', own=True, mode='set')
def subset_argmul(self, other: Subset, bms: Iterable[BaseMap] | None):
    for bm in (BaseMap.gen_base_maps(self.dim, False) if bms is None else bms):
        if (bm * self).intersects(other): yield bm

# ------------------------------------------------------------------ links
@of('Link.__init__', props='C24 C02', init=True)
def link_init(self, entrance: Subset, exit: Subset):
    self.entrance = entrance
    self.exit = exit
    self.dim = entrance.dim

@of('Link.__rmul__', props='C02 C24 C22 C23', opaque=['act'])
def link_rmul(self, base_map: BaseMap):
    return Link(base_map * (self.exit if base_map.time_rev else self.entrance), base_map * (self.entrance if base_map.time_rev else self.exit))

@of('Link.__invert__', props='C02 C24')
def link_invert(self):
    return Link(self.exit, self.entrance)

@of('Link.intersects', props='C24 C22', mode='bool')
def link_intersects(self, other: Link):
    return self.entrance.intersects(other.entrance) and self.exit.intersects(other.exit)

@of('Link.argmul_intersect', props='C24 C22', mode='set')
def link_argmul(self, other: Link):
    for b in self.exit.argmul_intersect(other.exit, list(self.entrance.argmul_intersect(other.entrance))): yield b
    for b in self.exit.argmul_intersect(other.entrance, list(self.entrance.argmul_intersect(other.exit))): yield ~b

@of('Link.__eq__', props='C08', mode='bool')
def link_eq(self, other: Link):
    return self.entrance == other.entrance and self.exit == other.exit

@of('Link.__lt__', props='C08 C24', mode='bool')
def link_lt(self, other: Link):
    return (self.entrance, self.exit) < (other.entrance, other.exit)

# least image over all base maps: least standard end first, then the least image of the other end
@of('Link.std', props='C24 C23', types={'Link.entrance': 'Point', 'Link.exit': 'Point'})
def link_std(self):
    a, b = self.entrance.std(), self.exit.std()
    o1 = min([bm * self.exit for bm in self.entrance.argstd()])
    o2 = min([bm * self.entrance for bm in self.exit.argstd()])
    return Link(a if a <= b else b, o1 if a < b else (o2 if b < a else (o1 if o1 <= o2 else o2)))

@of('Link.std', props='C24 C23', types={'Link.entrance': 'FacetDivSubset', 'Link.exit': 'FacetDivSubset'})
def link_std_facet(self):
    return min([bm * self for bm in BaseMap.gen_base_maps(self.dim, None)])

@of('Link.transform', props='C24 C09')
def link_transform(self, *args, **kwargs):
    return Link(self.entrance.transform(*args, **kwargs), self.exit.transform(*args, **kwargs))
