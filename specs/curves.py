# Patterns and (fuzzy) curves

@of('Pattern.__new__', props='C06 C28', opaque='none')
def pattern_new(cls, proto: Proto, specs: Sequence[Spec | None]):
    return Pattern(proto, specs)

@of('Pattern.__invert__', props='C03', opaque='none')
def pattern_invert(self):
    return Pattern(Proto(self.proto.dim, self.proto.div, [self.proto[len(self.proto) - 1 - i] for i in range(len(self.proto))]),
                   [self.specs[len(self.specs) - 1 - i] for i in range(len(self.specs))])

@of('Pattern.parse', props='C26 C29')
def pattern_parse(cls, chain: str, specs: str | Sequence[str]):
    return Pattern(Proto.parse(chain), [Spec.parse(c) for c in (specs.split(',') if isinstance(specs, str) else specs)])

@of('Pattern.__str__', props='C26')
def pattern_str(self):
    return str(self.proto) + ' | ' + ','.join([str(s) for s in self.specs])

@of('FuzzyCurve.__init__', props='C03 C25', init=True, opaque='none')
def curve_init(self, dim: int, div: int, patterns: Sequence[Pattern], pnum: int):
    self.dim = dim
    self.div = div
    self.patterns = tuple(patterns)
    self.mult = len(patterns)
    self.pnum = pnum
    self.genus = div ** dim

@of('FuzzyCurve.__init__', props='C03 C25', init=True, opaque='none')
def curve_init_raw(self, dim: int, div: int, patterns: Sequence[tuple[Sequence[CubeType], Sequence[Spec | None]]], pnum: int):
    self.dim = dim
    self.div = div
    self.patterns = tuple(Pattern(Proto(dim, div, cubes), specs) for cubes, specs in patterns)
    self.mult = len(patterns)
    self.pnum = pnum
    self.genus = div ** dim

@of('FuzzyCurve.proto', props='C03')
def curve_proto(self):
    return self.patterns[self.pnum].proto

@of('FuzzyCurve.specs', props='C03')
def curve_specs(self):
    return self.patterns[self.pnum].specs

# time reversal: prototype and specs reversed, specs themselves unchanged
@of('Curve.__invert__', props='C03', opaque='none')
def fullcurve_invert(self):
    return Curve(self.dim, self.div, [Pattern(Proto(p.proto.dim, p.proto.div, p.proto[::-1]), p.specs[::-1]) for p in self.patterns], self.pnum)

# symmetry: prototype mapped, specs conjugated by the cube part, order reversed with time, pattern of a spec selected
@of('Curve.__rmul__', props='C03 C02', opaque=['BaseMap.__mul__', 'BaseMap.get_inverse', 'BaseMap.__invert__', 'act', 'BaseMap.cube_map', 'BaseMap.conjugate_by'])
def curve_rmul_bm(self, other: BaseMap):
    g = other.cube_map()
    ps = []
    for p in self.patterns:
        specs = [None if s is None else Spec(s.base_map.conjugate_by(g), s.pnum) for s in p.specs]
        proto = g * p.proto
        ps.append(Pattern(Proto(p.proto.dim, p.proto.div, proto[::-1]), specs[::-1]) if other.time_rev else Pattern(proto, specs))
    return Curve(self.dim, self.div, ps, self.pnum)

@of('Curve.__rmul__', props='C03 C02', opaque=['BaseMap.__mul__', 'BaseMap.get_inverse', 'BaseMap.__invert__', 'act', 'BaseMap.cube_map', 'BaseMap.conjugate_by'])
def curve_rmul_spec(self, other: Spec):
    g = other.base_map.cube_map()
    ps = []
    for p in self.patterns:
        specs = [None if s is None else Spec(s.base_map.conjugate_by(g), s.pnum) for s in p.specs]
        proto = g * p.proto
        ps.append(Pattern(Proto(p.proto.dim, p.proto.div, proto[::-1]), specs[::-1]) if other.base_map.time_rev else Pattern(proto, specs))
    return Curve(self.dim, self.div, ps, other.pnum)

@of('FuzzyCurve.get_deep_spec', props='C04 C11 C12', opaque='none', raises='strict')
def deep_spec(self, pnum: int, cnums: Sequence[int]):
    bm, p = BaseMap.id_map(self.dim), pnum
    for c in cnums:
        s = self.patterns[p].specs[(self.genus - 1 - c) if bm.time_rev else c]
        if s is None: raise KeyError
        bm, p = bm * s.base_map, s.pnum
    return Spec(bm, p)

@of('FuzzyCurve._compose_specs', props='C04 C05', opaque=['BaseMap.__mul__', 'act'])
def compose_specs(self, spec: Spec, cnum: int):
    s = self.patterns[spec.pnum].specs[(self.genus - 1 - cnum) if spec.base_map.time_rev else cnum]
    if s is None: raise KeyError
    return Spec(spec.base_map * s.base_map, s.pnum)

@of('Curve.get_subdivision', props='C04', keep=['act', 'BaseMap.__mul__'], opaque='basic', shallow=True)
def subdivision(self, k: int):
    cur = self
    for _ in range(k):
        pats = []
        for p in cur.patterns:
            cubes, specs = [], []
            for cube, s in zip(p.proto, p.specs):
                q = self.patterns[s.pnum]
                cubes += [tuple(c[j] + cube[j] * self.div for j in range(min(len(c), len(cube)))) for c in s.base_map * q.proto]
                specs += [s.base_map * x for x in (q.specs[::-1] if s.base_map.time_rev else q.specs)]
            pats.append((cubes, specs))
        cur = Curve(self.dim, cur.div * self.div, pats, self.pnum)
    return cur

@law('C04', unroll=4)
def subdivision_default(c: Curve):
    return c.get_subdivision(), c.get_subdivision(1)

# ------------------------------------------------------------------ limits
@of('FuzzyCurve.get_entrance', props='C05')
def get_entrance(self, pnum: int | None):
    return self._get_cube_limit(self.pnum if pnum is None else pnum, 0)

@of('FuzzyCurve.get_exit', props='C05')
def get_exit(self, pnum: int | None):
    return self._get_cube_limit(self.pnum if pnum is None else pnum, self.genus - 1)

@of('FuzzyCurve._get_cube_limit', props='C05', opaque=['act', 'BaseMap.__mul__', 'get_periodic_sum'], noact=True)
def cube_limit(self, pnum: int, cnum: int):
    spec = Spec(BaseMap.id_map(self.dim), pnum)
    cubes = []
    index = {}
    while spec not in index:
        index[spec] = len(cubes)
        cube = (spec.base_map * self.patterns[spec.pnum].proto)[cnum]
        if cube is None: raise KeyError
        cubes.append(cube)
        spec = self._compose_specs(spec, cnum)
    k = index[spec]
    return Point([get_periodic_sum([c[j] for c in cubes[:k]], [c[j] for c in cubes[k:]], self.div) for j in range(self.dim)])

@of('FuzzyCurve._get_limit_point', props='C05 C09', opaque=['get_periodic_sum'])
def limit_point(self, cubes_start: Sequence[CubeType], cubes_period: Sequence[CubeType]):
    return Point([get_periodic_sum([c[j] for c in cubes_start], [c[j] for c in cubes_period], self.div) for j in range(self.dim)])

@of('FuzzyCurve.get_vertex_moments', props='C05', shallow=True)
def vertex_moments(self, pnum: int):
    return {v: self.get_face_moment(v, pnum, False, False) for v in itertools.product((0, 1), repeat=self.dim)}

@of('FuzzyCurve.get_face_moment', props='C05', opaque=['act', 'BaseMap.__mul__', 'get_periodic_sum'], noact=True, shallow=True)
def face_moment(self, face: Sequence[int | None], pnum: int | None, last: bool, find_point: bool):
    spec = Spec(BaseMap.id_map(self.dim), self.pnum if pnum is None else pnum)
    cnums, cubes = [], []
    index = {}
    while spec not in index:
        index[spec] = len(cnums)
        proto = spec.base_map * self.patterns[spec.pnum].proto
        cnum = self._get_face_cnum(proto, face, last)
        cnums.append(cnum)
        if find_point: cubes.append(proto[cnum])
        spec = self._compose_specs(spec, cnum)
    k = index[spec]
    t = get_periodic_sum(cnums[:k], cnums[k:], self.genus)
    if find_point:
        return CurvePoint(self._get_limit_point(cubes[:k], cubes[k:]), t)
    return t

# first (last) cube that touches the face
@of('FuzzyCurve._get_face_cnum', props='C05', opaque='none')
def face_cnum(proto: Proto, face: Sequence[int | None], last: bool):
    hit = [i for i in range(len(proto)) if all((e != 1 or x == proto.div - 1) and (e != 0 or x == 0) for x, e in zip(proto[i], face))]
    return hit[-1] if last else hit[0]

# ------------------------------------------------------------------ families given by gates
# the images of links, standard forms and representatives under time reversal and cube isometries
@of('PathFuzzyCurve.__invert__', props='C03 C25', opaque=['BaseMap.__invert__'])
def pfc_invert(self):
    return PathFuzzyCurve(dim=self.dim, div=self.div, pnum=self.pnum,
        patterns=[Pattern(Proto(p.proto.dim, p.proto.div, p.proto[::-1]), p.specs[::-1]) for p in self.patterns],
        links_symmetries=self.links_symmetries,
        links_std={l: {pn: ~m for pn, m in d.items()} for l, d in self.links_std.items()},
        pattern_links=[ls[::-1] for ls in self.pattern_links],
        pattern_reprs=[[~m for m in rs[::-1]] for rs in self.pattern_reprs])

@of('PathFuzzyCurve._apply_cube_map', props='C03 C25', opaque=['act', 'BaseMap.__mul__', 'BaseMap.get_inverse', 'BaseMap.conjugate_by', 'BaseMap.__pow__'])
def pfc_apply(self, cube_map: BaseMap):
    return PathFuzzyCurve(dim=self.dim, div=self.div, pnum=self.pnum,
        patterns=[Pattern(cube_map * p.proto, [None if s is None else Spec(s.base_map.conjugate_by(cube_map), s.pnum) for s in p.specs]) for p in self.patterns],
        links_symmetries=self.links_symmetries,
        links_std={l: {pn: m * cube_map ** (-1) for pn, m in d.items()} for l, d in self.links_std.items()},
        pattern_links=self.pattern_links,
        pattern_reprs=[[cube_map * r for r in rs] for rs in self.pattern_reprs])

@of('PathFuzzyCurve.__rmul__', props='C03', opaque=['act', 'BaseMap.__mul__', 'BaseMap.__invert__', 'BaseMap.get_inverse', 'BaseMap.conjugate_by', 'BaseMap.__pow__', 'BaseMap.cube_map'])
def pfc_rmul(self, other: Spec):
    g = other.base_map.cube_map()
    rev = other.base_map.time_rev
    ps = []
    for p in self.patterns:
        specs = [None if s is None else Spec(s.base_map.conjugate_by(g), s.pnum) for s in p.specs]
        proto = g * p.proto
        ps.append(Pattern(Proto(p.proto.dim, p.proto.div, proto[::-1]), specs[::-1]) if rev else Pattern(proto, specs))
    return PathFuzzyCurve(dim=self.dim, div=self.div, pnum=other.pnum, patterns=ps,
        links_symmetries=self.links_symmetries,
        links_std={l: {pn: (~m if rev else m) * g ** (-1) for pn, m in d.items()} for l, d in self.links_std.items()},
        pattern_links=[(ls[::-1] if rev else ls) for ls in self.pattern_links],
        pattern_reprs=[[g * (~r if rev else r) for r in (rs[::-1] if rev else rs)] for rs in self.pattern_reprs])

@of('PathFuzzyCurve.gen_allowed_specs', props='C25 C12 C17 C03', mode='bag', opaque=['BaseMap.__mul__', 'act'])
def pfc_allowed(self, pnum: int, cnum: int):
    s = self.patterns[pnum].specs[cnum]
    if s is not None:
        yield s
    else:
        link = self.pattern_links[pnum][cnum]
        for pn, m in self.links_std[link].items():
            for g in self.links_symmetries[link]:
                yield Spec(self.pattern_reprs[pnum][cnum] * g * m, pn)

@of('Curve.gen_allowed_specs', props='C25 C12 C17', mode='bag')
def curve_allowed(self, pnum: int, cnum: int):
    yield self.patterns[pnum].specs[cnum]

# admissible: carries the gates of the pattern to the gates of the fraction, within the group
@of('PathFuzzyCurve.init_from_paths', props='C25 C28', opaque=['act', 'BaseMap.gen_base_maps'], noact=True, shallow=True)
def init_from_paths(cls, paths: Sequence[Path], base_maps_group: Sequence[BaseMap] | None, disable_time_rev: bool):
    dim, div = paths[0].dim, paths[0].div
    group = [bm for bm in (BaseMap.gen_base_maps(dim, None) if base_maps_group is None else base_maps_group) if not (disable_time_rev and bm.time_rev)]
    std = defaultdict(dict)
    for pn, p in enumerate(paths):
        s = min([bm * p.link for bm in group])
        std[s][pn] = next(bm for bm in group if bm * p.link == s)
    for p in paths:
        for l in p.links:
            if min([bm * l for bm in group]) not in std: raise KeyError
    return PathFuzzyCurve(dim=dim, div=div, patterns=[(p.proto, (None,) * len(p.proto)) for p in paths],
        links_symmetries={l: [bm for bm in group if bm * l == l] for l in std},
        links_std=std,
        pattern_links=[[min([bm * l for bm in group]) for l in p.links] for p in paths],
        pattern_reprs=[[next(bm for bm in group if bm * min([b * l for b in group]) == l) for l in p.links] for p in paths])

@of('FuzzyCurve.specify', props='C25 C12', opaque=['FuzzyCurve.gen_allowed_specs'], types={}, raises='strict')
def specify(self, pnum: int, cnum: int, spec: Spec):
    if spec not in self.gen_allowed_specs(pnum, cnum): raise ValueError
    if self.patterns[pnum].specs[cnum] is not None: return self
    return self._changed(patterns=[Pattern(p.proto, [(spec if i == pnum and j == cnum else s) for j, s in enumerate(p.specs)]) for i, p in enumerate(self.patterns)])

@of('FuzzyCurve._specify_allowed', props='C25 C18')
def specify_allowed(self, spec_dict: dict[int, dict[int, Spec]]):
    ps = list(self.patterns)
    for pn, d in spec_dict.items():
        ss = list(ps[pn].specs)
        for cn, s in d.items(): ss[cn] = s
        ps[pn] = Pattern(ps[pn].proto, ss)
    return self._changed(patterns=ps)

@of('FuzzyCurve.get_curve_example', props='C25')
def curve_example(self):
    d = defaultdict(dict)
    for pn, p in enumerate(self.patterns):
        for cn, s in enumerate(p.specs):
            if s is None: d[pn][cn] = next(self.gen_allowed_specs(pn, cn))
    return self._specify_allowed(d)

@of('FuzzyCurve.gen_possible_curves', props='C25', mode='bag')
def possible_curves(self):
    for ss in itertools.product(*[self.gen_allowed_specs(pn, cn) for pn in range(self.mult) for cn in range(self.genus)]):
        yield Curve(self.dim, self.div, [(p.proto, ss[self.genus * pn:self.genus * (pn + 1)]) for pn, p in enumerate(self.patterns)], self.pnum)

@of('FuzzyCurve.count_possible_curves', props='C25')
def count_curves(self):
    return math.prod([len(list(self.gen_allowed_specs(pn, cn))) for pn in range(self.mult) for cn in range(self.genus)])

@of('FuzzyCurve.gen_defined_specs', props='C25 C17')
def defined_specs(self):
    for pn, p in enumerate(self.patterns):
        for cn, s in enumerate(p.specs):
            if s is not None: yield pn, cn, s

@of('Curve.get_paths', props='C25 C22 C29', opaque=['act', 'Subset.map_to_cube', 'FuzzyCurve.get_entrance', 'FuzzyCurve.get_exit'])
def get_paths(self):
    gates = [Link(self.get_entrance(pn), self.get_exit(pn)) for pn in range(self.mult)]
    return tuple(Path(p.proto, [s.base_map * gates[s.pnum] for s in p.specs]) for p in self.patterns)

@of('Curve.forget', props='C25')
def forget(self, **kwargs):
    return PathFuzzyCurve.init_from_paths(self.get_paths(), **kwargs)._changed(pnum=self.pnum)

@of('Curve.check', props='C29 C23', raises='strict')
def curve_check(self):
    if not all(p.is_continuous() for p in self.get_paths()): raise ValueError

@of('Curve.__eq__', props='C08', mode='bool')
def curve_eq(self, other: Curve):
    return self.patterns == other.patterns and self.pnum == other.pnum

@of('Curve.parse', props='C26 C29')
def curve_parse(cls, patterns_bases: Sequence[tuple[str, str]]):
    ps = [Pattern.parse(c, b) for c, b in patterns_bases]
    return Curve(ps[0].proto.dim, ps[0].proto.div, ps, 0)

# ------------------------------------------------------------------ junctions
@of('Junction.__init__', props='C19', init=True, fields=['_hash'])
def junc_init(self, spec1: Spec, spec2: Spec, delta_x: Sequence[int], delta_t: int, depth: int | None):
    self.spec1 = spec1
    self.spec2 = spec2
    self.delta_x = delta_x
    self.delta_t = delta_t
    self.depth = depth

@of('Junction.__eq__', props='C08 C19', mode='bool')
def junc_eq(self, other: Junction):
    return self.delta_x == other.delta_x and self.delta_t == other.delta_t and self.spec1 == other.spec1 and self.spec2 == other.spec2

@of('RegularJunction.__init__', props='C19', init=True, unroll=3, shallow=True, opaque=['BaseMap.__mul__', 'act', 'BaseMap.get_inverse'])
def rjunc_init(self, spec1: Spec, spec2: Spec, delta_x: Sequence[int], depth: int | None):
    swap = spec1.pnum > spec2.pnum or (spec1.pnum == spec2.pnum and spec1.base_map.time_rev and spec2.base_map.time_rev)
    a = ~spec2 if swap else spec1
    b = ~spec1 if swap else spec2
    dx = [-d for d in delta_x] if swap else delta_x
    g = BaseMap(a.base_map.coords, False).get_inverse()
    self.spec1 = Spec(g * a.base_map, a.pnum)
    self.spec2 = Spec(g * b.base_map, b.pnum)
    self.delta_x = g.apply_vec(dx)
    self.delta_t = 1
    self.depth = depth

@of('AutoJunction.__init__', props='C19 C12', init=True)
def ajunc_init(self, dim: int, pnum: int):
    self.spec1 = Spec(BaseMap.id_map(dim), pnum)
    self.spec2 = Spec(BaseMap.id_map(dim), pnum)
    self.delta_x = (0,) * dim
    self.delta_t = 0
    self.depth = 0

@of('FuzzyCurve.gen_auto_junctions', props='C19 C12 C17')
def auto_junctions(self):
    for pn in range(self.mult): yield AutoJunction(self.dim, pn)

@of('FuzzyCurve._get_base_junction', props='C19', keep=['new:RegularJunction'])
def base_junction(self, pnum: int, cnum: int, depth: int | None):
    p = self.patterns[pnum]
    a, b = p.specs[cnum], p.specs[cnum + 1]
    if a is None or b is None: raise KeyError
    return RegularJunction(a, b, [y - x for x, y in zip(p.proto[cnum], p.proto[cnum + 1])], depth)

# last sub-fraction of the first side and first one of the second, as seen in their time directions
@of('FuzzyCurve._get_derived_junction', props='C19', keep=['new:RegularJunction'])
def derived_junction(self, junc: RegularJunction):
    p, q = self.patterns[junc.spec1.pnum], self.patterns[junc.spec2.pnum]
    i = 0 if junc.spec1.base_map.time_rev else -1
    k = -1 if junc.spec2.base_map.time_rev else 0
    if p.specs[i] is None or q.specs[k] is None: raise KeyError
    c1 = junc.spec1.base_map.apply_cube(self.div, p.proto[i])
    c2 = junc.spec2.base_map.apply_cube(self.div, q.proto[k])
    return RegularJunction(junc.spec1.base_map * p.specs[i], junc.spec2.base_map * q.specs[k],
                           tuple(y + d * self.div - x for x, y, d in zip(c1, c2, junc.delta_x)), None if junc.depth is None else junc.depth + 1)

# breadth first closure under derivation
@of('FuzzyCurve._gen_junctions_from_base', props='C19', keep=['FuzzyCurve._get_derived_junction'])
def junctions_from_base(self, base_juncs: Sequence[RegularJunction]):
    seen = set()
    todo = []
    for j in base_juncs:
        yield j
        seen.add(j)
        todo.append(j)
    while todo:
        j = todo[0]
        todo = todo[1:]
        d = self._get_derived_junction(j)
        if d not in seen:
            yield d
            seen.add(d)
            todo.append(d)

@of('Curve._gen_base_junctions', props='C19', keep=['FuzzyCurve._get_base_junction'], shallow=True)
def base_junctions(self):
    seen = set()
    for pn in range(self.mult):
        for cn in range(self.genus - 1):
            j = self._get_base_junction(pn, cn, 1)
            if j not in seen:
                yield j
                seen.add(j)

@of('Curve.gen_regular_junctions', props='C19', keep=['FuzzyCurve._get_base_junction', 'FuzzyCurve._gen_junctions_from_base', 'Curve._gen_base_junctions'])
def curve_junctions(self):
    yield from self._gen_junctions_from_base(self._gen_base_junctions())

@of('Curve.get_depth', props='C19')
def get_depth(self):
    return max([j.depth for j in self.gen_regular_junctions()])

@of('FuzzyCurve.gen_regular_junctions', props='C19 C17', mode='set')
def fuzzy_junctions(self):
    for j in self.get_junction_templates(): yield j

@of('FuzzyCurve.get_junction_templates', props='C17 C19', lazy=True, enough=True, keep=['FuzzyCurve._specify_allowed', 'FuzzyCurve._get_base_junction', 'FuzzyCurve._gen_junctions_from_base'])
def junction_templates(self):
    out = defaultdict(list)
    for ends in itertools.product(*[self.gen_allowed_specs(pn, cn) for pn in range(self.mult) for cn in (0, self.genus - 1)]):
        gate = {}
        for pn in range(self.mult):
            gate[pn, 0] = ends[2 * pn]
            gate[pn, self.genus - 1] = ends[2 * pn + 1]
        for pn, cn in itertools.product(range(self.mult), range(self.genus - 1)):
            for a, b in itertools.product(self.gen_allowed_specs(pn, cn), self.gen_allowed_specs(pn, cn + 1)):
                if ((pn, cn) in gate and gate[pn, cn] != a) or ((pn, cn + 1) in gate and gate[pn, cn + 1] != b): continue
                t = gate.copy()
                t[pn, cn] = a
                t[pn, cn + 1] = b
                d = defaultdict(dict)
                for (p, c), s in t.items(): d[p][c] = s
                curve = self._specify_allowed(d)
                for j in curve._gen_junctions_from_base([curve._get_base_junction(pn, cn, None)]):
                    out[j].append(curve)
    return out

# ------------------------------------------------------------------ curve points
@of('CurvePoint.__rmul__', props='C02 C11', opaque='none')
def cp_rmul(self, base_map: BaseMap):
    return CurvePoint(Point([(1 - self.x[k]) if b else self.x[k] for k, b in base_map.coords]), (1 - self.t) if base_map.time_rev else self.t)

@of('CurvePoint.scale', props='C11 C09', opaque='none')
def cp_scale(self, factor: Fraction):
    return CurvePoint(Point([x * factor for x in self.x]), self.t * factor ** len(self.x))
