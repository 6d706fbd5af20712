# Prototypes, pointed paths and their generator

@of('Proto.__new__', props='C02 C06', opaque='none')
def proto_new(cls, dim: int, div: int, cubes: Sequence[CubeType | None]):
    return Proto(dim, div, cubes)

@of('Proto.__rmul__', props='C02 C03', opaque='none')
def proto_rmul(self, base_map: BaseMap):
    cubes = [None if c is None else tuple((self.div - 1 - c[k]) if b else c[k] for k, b in base_map.coords) for c in self]
    return Proto(self.dim, self.div, cubes[::-1] if base_map.time_rev else cubes)

@of('Proto.__invert__', props='C02 C03', opaque='none')
def proto_invert(self):
    return Proto(self.dim, self.div, [self[len(self) - 1 - i] for i in range(len(self))])

@of('Path.__init__', props='C02 C24 C22', init=True, opaque=['Subset.map_to_cube'])
def path_init(self, proto: Proto, links: Sequence[Link]):
    self.proto = proto
    self.dim = proto.dim
    self.div = proto.div
    self.links = tuple(links)
    self.link = Link(links[0].entrance.map_to_cube(proto.div, proto[0]), links[-1].exit.map_to_cube(proto.div, proto[-1]))

@of('Path.__rmul__', props='C02 C22', opaque=['act', 'Subset.map_to_cube'])
def path_rmul(self, base_map: BaseMap):
    ls = [base_map * l for l in self.links]
    return Path(base_map * self.proto, ls[::-1] if base_map.time_rev else ls)

@of('Path.__invert__', props='C02', opaque=['act', 'Subset.map_to_cube'])
def path_invert(self):
    return BaseMap([(j, False) for j in range(self.dim)], True) * self

@of('Path.__eq__', props='C08', mode='bool')
def path_eq(self, other: Path):
    return self.link == other.link and self.proto == other.proto and self.links == other.links

@of('Path.__lt__', props='C08', mode='bool')
def path_lt(self, other: Path):
    return (self.link, self.proto, self.links) < (other.link, other.proto, other.links)

# in each fraction the exit meets the entrance of the next one
@of('Path.is_continuous', props='C22 C23 C29', mode='bool', values={'m:intersects': [True, True, True, True, True, True, True, True, True, False]})
def is_continuous(self):
    return all(self.links[i].exit.intersects(self.links[i + 1].entrance.transform(shift=[self.proto[i + 1][j] - self.proto[i][j] for j in range(len(self.proto[i]))]))
               for i in range(min(len(self.proto), len(self.links)) - 1))

# ------------------------------------------------------------------ chain codes
@of('Proto.__str__', props='C26', opaque='none')
def proto_str(self):
    letters = 'ijklmn'
    out = []
    for i in range(len(self) - 1):
        s = ''.join([(letters[j] if self[i + 1][j] - self[i][j] == 1 else letters[j].upper()) for j in range(min(len(self[i]), len(self[i + 1]), 6)) if self[i + 1][j] - self[i][j] == 1 or self[i + 1][j] - self[i][j] == -1])
        out.append(s if len(s) == 1 else '(' + s + ')')
    return ''.join(out)

# ------------------------------------------------------------------ generator
# every image of every link under the cube isometries, in both directions
@of('PathsGenerator._init_entr2links', props='C22')
def init_entr2links(self):
    d = defaultdict(dict)
    for bm in BaseMap.gen_base_maps(self.dim, False):
        for l in self.links:
            d[bm * l.entrance][bm * l.exit] = 1
            d[bm * l.exit][bm * l.entrance] = 1
    self._entr2links = {e: tuple(Link(e, x) for x in xs) for e, xs in d.items()}

@of('PathsGenerator._gen_intersected_entr', props='C22', mode='set')
def gen_intersected_entr(self, subset: Subset):
    for entr in self._entr2links:
        if entr.intersects(subset): yield entr

@of('PathsGenerator._gen_intersected_links', props='C22')
def gen_intersected_links(self, subset: Subset):
    for entr in self._gen_intersected_entr(subset):
        yield from self._entr2links[entr]

# exit set -> (cube shift, next link): the neighbours of the exit within the distance limit, and every
# known link whose entrance meets the part of the exit lying there
@of('PathsGenerator._init_exit2next', props='C22', shallow=True, values={'m:gen_neighbours': 'neighbours', 'm:std': 'some Subset', 'max_cdist': [None, None, 1, 2, 3]})
def init_exit2next(self, max_cdist: int | None):
    std_exits = set([s for l in self.links for s in (l.exit.std(), l.entrance.std())])
    d = {}
    for std_exit in std_exits:
        for bm in list(BaseMap.gen_base_maps(self.dim, False)):
            if bm * std_exit not in d:
                d[bm * std_exit] = tuple((bm.apply_cube_start(cube, 1), l) for cube, part in std_exit.gen_neighbours() if max_cdist is None or sum([abs(c) for c in cube]) <= max_cdist
                                         for entr in self._gen_intersected_entr(part) for l in self._entr2links[bm * entr])
    self._exit2next = d

@of('PathsGenerator._get_restrictions', props='C22', values={'links': 'either links,parents', 'parents': 'either links,parents'})
def get_restrictions(self, links: Sequence[Link] | None, parents: Sequence[Path] | None):
    if links is not None and parents is not None: raise ValueError('provide either links or parents!')
    if links is None and parents is None: return tuple((l, None) for l in self.links)
    if links is None: return tuple((None, p) for p in parents)
    return tuple((l, None) for l in links)

@of('PathsGenerator.get_paths_example', props='C22 C23', values={'links': 'either links,parents', 'parents': 'either links,parents'})
def get_paths_example(self, links: Sequence[Link] | None, parents: Sequence[Path] | None, **kwargs):
    out = []
    for link, parent in self._get_restrictions(links, parents):
        path = next(self.generate_paths_generic(link=link, parent=parent, **kwargs), None)
        if path is None: return None
        out.append(path)
    return tuple(out)

@of('PathsGenerator.generate_paths', props='C22', values={'links': 'either links,parents', 'parents': 'either links,parents'}, kwkeys=['std', 'start_max_count'])
def generate_paths(self, links: Sequence[Link] | None, parents: Sequence[Path] | None, **kwargs):
    rs = self._get_restrictions(links, parents)
    if len(rs) == 1:
        for path in self.generate_paths_generic(link=rs[0][0], parent=rs[0][1], **kwargs): yield (path,)
        return
    ps = {}
    for link, parent in set(rs):
        ps[link, parent] = list(self.generate_paths_generic(link=link, parent=parent, **kwargs))
    if kwargs.get('std'): yield from combinations_product(rs, ps)
    else: yield from itertools.product(*[ps[r] for r in rs])

@of('PathsGenerator.generate_paths_generic', props='C22', kwkeys=['start_max_count', 'finish_max_count'], keep=['PathsGenerator._gen_intersected_links'], values={'link': 'either link,parent', 'parent': 'either link,parent', 'm:divide': 'some Sequence[tuple[CubeType, Subset]]', 'm:_gen_intersected_links': 'some Sequence[Link]', 'm:grow': 'orbits'})
def generate_paths_generic(self, link: Link | None, parent: Path | None, std: bool, **kwargs):
    if (link is None) == (parent is None): raise ValueError('exactly one of (link, parent) must be defined!')
    pos = None if parent is None else {c: i for i, c in enumerate(parent.proto)}
    def fits(i, cube, l):
        return parent is None or (cube == parent.proto[i] and l.intersects(parent.links[i]))
    def fwd(cube, l):
        for delta, l2 in self._exit2next[l.exit]:
            if parent is None or fits(pos[cube] + 1, tuple(x + y for x, y in zip(cube, delta)), l2): yield delta, l2
    def bwd(cube, l):
        for delta, l2 in self._exit2next[l.entrance]:
            if parent is None or fits(pos[cube] - 1, tuple(x + y for x, y in zip(cube, delta)), ~l2): yield delta, ~l2
    tree = CubePathTree(dim=self.dim, div=self.div, next_func=fwd, prev_func=bwd)
    starts = link.entrance.divide(self.div) if parent is None else [(parent.proto[0], parent.links[0].entrance)]
    ends = link.exit.divide(self.div) if parent is None else [(parent.proto[-1], parent.links[-1].exit)]
    start = [(c, l) for c, s in starts for l in self._gen_intersected_links(s) if fits(0, c, l)]
    finish = [(c, ~l) for c, s in ends for l in self._gen_intersected_links(s) if fits(-1, c, ~l)]
    keep = link if parent is None else parent
    bms = [bm for bm in BaseMap.gen_base_maps(self.dim) if bm * keep == keep]
    seen = set()
    for data in tree.grow(start, finish, **kwargs):
        path = Path(Proto(self.dim, self.div, [c for c, _ in data]), [l for _, l in data])
        if std:
            s = min([bm * path for bm in bms])
            if s in seen: continue
            seen.add(s)
        yield path

@of('PathsGenerator.__init__', props='C22', init=True, keep=['PathsGenerator._init_entr2links', 'PathsGenerator._init_exit2next'])
def pg_init(self, dim: int, div: int, links: Sequence[Link], max_cdist: int | None):
    self.dim = dim
    self.div = div
    self.links = [l for l in links]
    self._init_entr2links()
    self._is_pointed = all(isinstance(e, Point) for e in self._entr2links)
    self._init_exit2next(max_cdist)
