# Base maps: y_j = x_{k_j}, reflected iff b_j;  t -> 1-t iff time_rev.

@of('BaseMap.__mul__', props='C01 C02 C03 C07', opaque='none')
def mul(self, other: BaseMap):
    return BaseMap([(other.coords[self.coords[j][0]][0], self.coords[j][1] != other.coords[self.coords[j][0]][1]) for j in range(self.dim)],
                   self.time_rev != other.time_rev)

@of('BaseMap.get_inverse', props='C01 C02 C03 C07', opaque='none')
def get_inverse(self):
    return BaseMap([next((i, b) for i, (k, b) in enumerate(self.coords) if k == j) for j in range(self.dim)], self.time_rev)

@of('BaseMap.__invert__', props='C01 C02 C03 C07', opaque='none')
def invert(self):
    return BaseMap(self.coords, not self.time_rev)

@of('BaseMap.cube_map', props='C01 C03 C07', opaque='none')
def cube_map(self):
    return BaseMap(self.coords, False)

@of('BaseMap.id_map', props='C01', opaque='none')
def id_map(cls, dim: int):
    return BaseMap([(j, False) for j in range(dim)], False)

@of('BaseMap.__eq__', props='C08', mode='bool')
def bm_eq(self, other: BaseMap):
    return self.coords == other.coords and self.time_rev == other.time_rev

@of('Spec.__eq__', props='C08', mode='bool')
def spec_eq(self, other: Spec):
    return self.pnum == other.pnum and self.base_map.coords == other.base_map.coords and self.base_map.time_rev == other.base_map.time_rev

@of('BaseMap.conjugate_by', props='C01 C03 C07')
def conjugate_by(self, other: BaseMap):
    return other * self * other.get_inverse()

@of('BaseMap.__pow__', props='C01 C07', keep=['BaseMap.__pow__'], opaque='basic')
def power(self, power: int):
    if power < 0: return (self ** (-1)) ** (-power)
    return self ** power

@law('C01', unroll=9, total=True)
def pow0(x: BaseMap): return x ** 0, BaseMap.id_map(x.dim)
@law('C01', unroll=9, total=True)
def pow1(x: BaseMap): return x ** 1, x
@law('C01', unroll=9, total=True)
def pow2(x: BaseMap): return x ** 2, x * x
@law('C01', unroll=9, total=True)
def pow3(x: BaseMap): return x ** 3, x * x * x
@law('C01', unroll=9, total=True)
def pow_m1(x: BaseMap): return x ** (-1), x.get_inverse()
@law('C01', unroll=9, total=True)
def pow_m2(x: BaseMap): return x ** (-2), x.get_inverse() * x.get_inverse()

@law('C01')
def conj_law(x: BaseMap, g: BaseMap):
    return x.conjugate_by(g) * g, g * x

@law('C01')
def inv_left(x: BaseMap):
    return x.get_inverse() * x, BaseMap.id_map(x.dim)

@law('C01')
def inv_right(x: BaseMap):
    return x * x.get_inverse(), BaseMap.id_map(x.dim)

@of('BaseMap.apply_x', props='C02 C09', opaque='none')
def apply_x(self, x: Sequence[Fraction], mx: Fraction):
    return tuple((mx - x[k]) if b else x[k] for k, b in self.coords)

@of('BaseMap.apply_t', props='C02 C09', opaque='none')
def apply_t(self, t: Fraction, mt: Fraction):
    return (mt - t) if self.time_rev else t

@of('BaseMap.apply_vec', props='C02 C19', opaque='none')
def apply_vec(self, v: Sequence[Fraction]):
    return tuple((0 - v[k]) if b else v[k] for k, b in self.coords)

@of('BaseMap.apply_cube', props='C02 C03 C04', opaque='none')
def apply_cube(self, div: int, cube: Sequence[int]):
    return tuple((div - 1 - cube[k]) if b else cube[k] for k, b in self.coords)

@of('BaseMap.apply_cube_start', props='C02', opaque='none')
def apply_cube_start(self, cube_start: Sequence[Fraction], cube_length: Fraction):
    return tuple((1 - cube_start[k] - cube_length) if b else cube_start[k] for k, b in self.coords)

@of('BaseMap.apply_cnum', props='C02 C04', opaque='none')
def apply_cnum(self, genus: int, cnum: int):
    return (genus - 1 - cnum) if self.time_rev else cnum

# the arguments left out by callers
@law('C02')
def apply_x_default(b: BaseMap, x: Sequence[Fraction]):
    return b.apply_x(x), b.apply_x(x, 1)

@law('C02')
def apply_t_default(b: BaseMap, t: Fraction):
    return b.apply_t(t), b.apply_t(t, 1)

# composition acts as composition
@law('C01 C02')
def mul_acts_x(a: BaseMap, b: BaseMap, x: Sequence[Fraction]):
    return (a * b).apply_x(x), a.apply_x(b.apply_x(x))

@law('C01 C02')
def mul_acts_t(a: BaseMap, b: BaseMap, t: Fraction):
    return (a * b).apply_t(t), a.apply_t(b.apply_t(t))

@law('C02')
def mul_acts_cube(a: BaseMap, b: BaseMap, div: int, cube: Sequence[int]):
    return (a * b).apply_cube(div, cube), a.apply_cube(div, b.apply_cube(div, cube))

@law('C02')
def mul_acts_cnum(a: BaseMap, b: BaseMap, genus: int, cnum: int):
    return (a * b).apply_cnum(genus, cnum), a.apply_cnum(genus, b.apply_cnum(genus, cnum))

@of('BaseMap.gen_base_maps', props='C01 C23', mode='bag', opaque='none')
def gen_base_maps(cls, dim: int, time_rev: bool | None):
    for rev in ([False, True] if time_rev is None else [time_rev]):
        for p in itertools.permutations(range(dim)):
            for f in itertools.product([False, True], repeat=dim):
                yield BaseMap([(p[j], f[j]) for j in range(dim)], rev)

@law('C01')
def gen_base_maps_default(dim: int):
    return tuple(BaseMap.gen_base_maps(dim)), tuple(BaseMap.gen_base_maps(dim, None))

@of('BaseMap.gen_constraint_fast', props='C24', mode='set', opaque='none')
def gen_constraint_fast(cls, src: Point, dst: Point):
    for p in itertools.permutations(range(len(src))):
        for f in itertools.product([False, True], repeat=len(src)):
            b = BaseMap([(p[j], f[j]) for j in range(len(src))], False)
            if all(((1 - src[k]) if r else src[k]) == y for (k, r), y in zip(b.coords, dst)):
                yield b

# specs
@of('Spec.__mul__', props='C03 C02', opaque=['BaseMap.__mul__', 'act'])
def spec_mul(self, other: Spec):
    return Spec(self.base_map * other.base_map, self.pnum)

@of('Spec.__mul__', props='C03', opaque=['BaseMap.__mul__', 'act'])
def spec_mul_bm(self, other: BaseMap):
    return Spec(self.base_map * other, self.pnum)

@of('Spec.__rmul__', props='C03', opaque=['BaseMap.__mul__', 'act'])
def spec_rmul(self, other: Spec):
    return Spec(other.base_map * self.base_map, other.pnum)

@of('Spec.__rmul__', props='C03', opaque=['BaseMap.__mul__', 'act'])
def spec_rmul_bm(self, other: BaseMap):
    return Spec(other * self.base_map, self.pnum)

@of('Spec.__invert__', props='C03', opaque=['BaseMap.__invert__'])
def spec_invert(self):
    return Spec(BaseMap(self.base_map.coords, not self.base_map.time_rev), self.pnum)

@of('Spec.conjugate_by', props='C03', opaque=['BaseMap.__mul__', 'BaseMap.get_inverse', 'act'])
def spec_conjugate(self, other: BaseMap):
    return Spec(other * self.base_map * other.get_inverse(), self.pnum)

@of('BaseMap.__new__', props='C01 C07', opaque='none')
def bm_new(cls, coords: Sequence[tuple[int, bool]], time_rev: bool):
    return BaseMap(coords, time_rev)

@of('Spec.__new__', props='C03 C07', opaque='none')
def spec_new(cls, base_map: BaseMap, pnum: int):
    return Spec(base_map, pnum)
