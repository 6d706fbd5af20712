# Search for gates: candidates are filtered by boundary position, standardised, and kept once and only when realisable.

@of('GatesGenerator.__init__', props='C23', init=True)
def gg_init(self, dim: int, div: int, mult: int, only_facet: bool):
    self.dim = dim
    self.div = div
    self.mult = mult
    self.only_facet = only_facet
    self._boundary_pnum_cnums = [(k // 2, 0 if k % 2 == 0 else -1) for k in range(2 * mult)]

@of('GatesGenerator.gen_gates', props='C23', keep=['GatesGenerator._gen_facet_gates', 'GatesGenerator._gen_all_gates'], enough=True)
def gen_gates(self):
    self._seen_gates = set()
    self._seen_std_gates = set()
    if self.only_facet:
        for g in self._gen_facet_gates(): yield g
    else:
        for g in self._gen_all_gates(): yield g

@of('GatesGenerator._check_and_std', props='C23', keep=['new:PathsGenerator', 'new:FuzzyCurve'])
def check_and_std(self, protos: Sequence[Proto], spec_list: Sequence[Spec]):
    table = [[None] * (self.div ** self.dim) for _ in range(self.mult)]
    for pos, sp in zip(self._boundary_pnum_cnums, spec_list):
        table[pos[0]][pos[1]] = sp
    curve = FuzzyCurve(dim=self.dim, div=self.div, patterns=[(p, s) for p, s in zip(protos, table)])
    gates = []
    for pnum in range(self.mult):
        a, b = curve.get_entrance(pnum), curve.get_exit(pnum)
        if a.face_dim() == self.dim or b.face_dim() == self.dim: return None
        if self.only_facet and (a.face_dim() != self.dim - 1 or b.face_dim() != self.dim - 1): return None
        gates.append(Link(a, b))
    gates = tuple(gates)
    if gates in self._seen_gates: return None
    self._seen_gates.add(gates)
    std = tuple(sorted(g.std() for g in gates))
    if std in self._seen_std_gates: return None
    self._seen_std_gates.add(std)
    if not PathsGenerator(dim=self.dim, div=self.div, links=std).get_paths_example(start_max_count=1000, finish_max_count=1000000): return None
    return std

@of('GatesGenerator._check_variants', props='C23 C10', keep=['GatesGenerator._check_and_std'], enough=True)
def check_variants(self, protos: Sequence[Proto], specs_dict: dict[tuple[int, int], Sequence[Spec]]):
    for specs in itertools.product(*[specs_dict[pos] for pos in self._boundary_pnum_cnums]):
        g = self._check_and_std(protos, specs)
        if g is not None: yield g

@of('GatesGenerator._gen_facet_gates', props='C23', keep=['GatesGenerator._check_variants', 'GatesGenerator._gen_narrow_links', 'new:PathsGenerator', 'new:FacetDivSubset', 'new:Link', 'new:Spec'], enough=True)
def gen_facet_gates(self):
    f0 = FacetDivSubset(dim=self.dim, div=self.div, facet=(0, 0))
    kinds = [Link(f0, f0), Link(f0, FacetDivSubset(dim=self.dim, div=self.div, facet=(0, 1))), Link(f0, FacetDivSubset(dim=self.dim, div=self.div, facet=(1, 0)))]
    for links in itertools.combinations_with_replacement(kinds, r=self.mult):
        for paths in list(PathsGenerator(dim=self.dim, div=self.div, links=links).generate_paths(std=True)):
            for narrow in self._gen_narrow_links(paths):
                allowed = {}
                for pos in self._boundary_pnum_cnums:
                    allowed[pos] = [Spec(bm, pnum=pn) for pn in range(self.mult) for bm in narrow[pn].link.argmul_intersect(narrow[pos[0]].links[pos[1]])]
                for g in self._check_variants([p.proto for p in paths], allowed): yield g

@of('GatesGenerator._gen_narrow_links', props='C23', keep=['new:PathsGenerator'], enough=True, mode='bag')
def gen_narrow_links(self, paths: tuple[Path, ...]):
    pg = PathsGenerator(dim=paths[0].proto.dim, div=paths[0].proto.div, links=tuple(p.link for p in paths))
    if pg.get_paths_example(parents=paths):
        found = []
        for p in paths:
            seen = set()
            keep = []
            for q in pg.generate_paths_generic(parent=p):
                key = self._NarrowLinks(link=q.link, links=(q.links[0], q.links[len(q.links) - 1]))
                if key not in seen:
                    seen.add(key)
                    keep.append(key)
            found.append(keep)
        for x in itertools.product(*found): yield x

@of('GatesGenerator._gen_all_gates', props='C23', keep=['GatesGenerator._check_variants', 'new:Spec'], enough=True)
def gen_all_gates(self):
    bms = list(BaseMap.gen_base_maps(dim=self.dim))
    cubes = [c for c in itertools.product(range(self.div), repeat=self.dim) if any(x == 0 or x == self.div - 1 for x in c)]
    pairs = set()
    for a, b in itertools.combinations(cubes, 2):
        best = (a, b)
        for bm in BaseMap.gen_base_maps(self.dim, time_rev=False):
            u, v = bm.apply_cube(self.div, a), bm.apply_cube(self.div, b)
            best = min(best, (u, v), (v, u))
        pairs.add(best)
    for chosen in itertools.combinations_with_replacement(sorted(pairs), r=self.mult):
        protos = []
        for pair in chosen:
            cs = [None] * (self.div ** self.dim)
            cs[0], cs[-1] = pair
            protos.append(Proto(self.dim, self.div, cs))
        allowed = {}
        for pos in self._boundary_pnum_cnums:
            allowed[pos] = [Spec(bm, pnum=pn) for pn in range(self.mult) for bm in bms
                            if any(x == y and (x == 0 or x == self.div - 1) for x, y in zip(protos[pos[0]][pos[1]], (bm * protos[pn])[pos[1]]))]
        for g in self._check_variants(protos, allowed): yield g
