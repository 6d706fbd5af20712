@of('ratio_linf', props='C11 C09', opaque='none')
def ratio_linf(d: int, dv: Sequence[Fraction], dt: Fraction):
    return max([abs(x) for x in dv]) ** d / dt

@of('ratio_l1', props='C11 C09', opaque='none')
def ratio_l1(d: int, dv: Sequence[Fraction], dt: Fraction):
    return sum([abs(x) for x in dv]) ** d / dt

@of('ratio_l2_squared', props='C11 C09', opaque='none')
def ratio_l2_squared(d: int, dv: Sequence[Fraction], dt: Fraction):
    return sum([x * x for x in dv]) ** d / (dt * dt)

@of('ratio_l2', props='C11 C09', opaque='none')
def ratio_l2(d: int, dv: Sequence[Fraction], dt: Fraction):
    return sum([x * x for x in dv]) ** (d // 2) / dt

@of('get_int_cube_with_cache', props='C11 C04 C09 C07', opaque='none')
def int_cube(dim: int, div: int, cubes: Sequence[CubeType]):
    return tuple(sum([cubes[i][j] * div ** (len(cubes) - 1 - i) for i in range(len(cubes))]) for j in range(dim))

@of('get_int_time_with_cache', props='C11 C04 C09 C07', opaque='none')
def int_time(dim: int, div: int, cnums: Sequence[int]):
    return sum([cnums[i] * (div ** dim) ** (len(cnums) - 1 - i) for i in range(len(cnums))])

# s_0/d + ... + s_{k-1}/d^k + d^-k * (p_0/d + ... + p_{m-1}/d^m) / (1 - d^-m)
@of('get_periodic_sum', props='C05 C09', opaque='none')
def periodic_sum(start: Sequence[int], period: Sequence[int], d: int):
    n0 = sum([start[i] * d ** (len(start) - 1 - i) for i in range(len(start))])
    n1 = sum([period[i] * d ** (len(period) - 1 - i) for i in range(len(period))])
    return Fraction(n0, d ** len(start)) + Fraction(n1, d ** len(start) * (d ** len(period) - 1))

@of('get_lcm', props='C23 C24', opaque='none', values={'xs': [(4, 6, 10), (2, 3), (6,), (12, 18, 4), (5, 5), (), (1, 2, 2, 9)]})
def lcm(xs: Sequence[int]):
    r = 1
    for x in xs:
        r = (r * x) // math.gcd(r, x)
    return r

@of('gen_faces', props='C05', mode='bag', opaque='none')
def faces(dim: int, face_dim: int):
    for c in itertools.combinations(range(dim), dim - face_dim):
        for v in itertools.product((0, 1), repeat=dim - face_dim):
            f = [None] * dim
            for i in range(dim - face_dim): f[c[i]] = v[i]
            yield tuple(f)

# positions with the same id are interchangeable: one representative per multiset of choices
@of('combinations_product', props='C25', mode='bag', opaque='none')
def comb_product(iter_ids: Sequence[int], iter_dict: dict[int, Sequence[int]]):
    for pos in itertools.product(*[range(len(iter_dict[i])) for i in iter_ids]):
        if all(not (i < j and iter_ids[i] == iter_ids[j]) or pos[i] <= pos[j] for i in range(len(iter_ids)) for j in range(len(iter_ids))):
            yield tuple(iter_dict[i][p] for i, p in zip(iter_ids, pos))
