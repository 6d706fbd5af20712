# Search for cube paths: linked lists of nodes grown by one node, met in the middle.

@of('_CubePath.flat', props='C20', opaque='none')
def flat(self):
    nodes = []
    p = self
    while p is not None:
        nodes.append(p.head)
        p = p.prev
    return list(reversed(nodes))

@of('_CubePath.support', props='C20', opaque='none', mode='set')
def support(self):
    return {node.cube for node in self.flat()}

@of('_CubePath.tail_support', props='C20', mode='set')
def tail_support(self):
    return {c for c in self.support() if c != self.head.cube}

@of('_CubePath.future', props='C20 C21')
def future(self):
    return frozenset(self.tail_support()), self.head

@of('_CubePath.future_hash', props='C20 C21')
def future_hash(self):
    return hash((frozenset(self.tail_support()), self.head))

# a path that starts where this one ends and runs through all cubes not in it has this future
@of('_CubePath.complement_future_hash', props='C20 C21')
def complement_future_hash(self, all_cubes: set[tuple[int, ...]]):
    return hash((frozenset(c for c in all_cubes if c not in self.support()), self.head))

@of('CubePathTree.__init__', props='C20', init=True)
def tree_init(self, dim: int, div: int, next_func: Any, prev_func: Any):
    self.dim = dim
    self.div = div
    self.next_func = next_func
    self.prev_func = prev_func
    self._all_cubes = frozenset(itertools.product(range(div), repeat=dim))

@of('CubePathTree._init_path', props='C20')
def init_path(cls, cube: tuple[int, ...], state: Any):
    return _CubePath(_CubeNode(cube, state), 1, None)

@of('CubePathTree._continue_path', props='C20', mode='bag')
def continue_path(self, path: _CubePath, reverse: bool, cubeset: set[tuple[int, ...]] | None):
    seen = path.support() if cubeset is None else cubeset
    steps = self.prev_func(path.head.cube, path.head.state) if reverse else self.next_func(path.head.cube, path.head.state)
    for delta, state in steps:
        cube = tuple(c + d for c, d in zip(path.head.cube, delta))
        if all(0 <= x and x < self.div for x in cube) and cube not in seen:
            yield _CubePath(_CubeNode(cube, state), path.length + 1, path)

@of('CubePathTree._check_glue', props='C20', mode='bool')
def check_glue(beg: _CubePath, end: _CubePath):
    return beg.head == end.head and not any(c in end.tail_support() for c in beg.tail_support())

@of('CubePathTree._glue_paths', props='C20 C21')
def glue_paths(start: _CubePath, mid: _CubePath, finish: _CubePath):
    f = finish.flat()
    return ([(n.cube, n.state) for n in start.flat()] + [(n.cube, n.state) for n in mid.flat()[start.length:]]
            + [(f[len(f) - 1 - k].cube, f[len(f) - 1 - k].state) for k in range(1, len(f))])

@of('CubePathTree._width_search', enough=True, props='C20 C21 C10', keep=['CubePathTree._continue_path'])
def width_search(self, paths: list[_CubePath], max_steps: int, max_count: int | None, reverse: bool):
    level = paths
    for _ in range(max_steps):
        nxt = []
        for p in level:
            nxt.extend(self._continue_path(p, reverse))
            if max_count is not None and len(nxt) > max_count: return level
        level = nxt
    return level

@of('CubePathTree._depth_search', enough=True, props='C20 C21', keep=['CubePathTree._continue_path'], mode='bag', values={'length': [2, 3, 3, 4]})
def depth_search(self, paths: Sequence[_CubePath], length: int):
    stack = [(p, p.support()) for p in paths]
    while stack:
        p, seen = stack.pop()
        if p.length == length - 1:
            for q in self._continue_path(p, False, seen): yield q
        if p.length < length - 1:
            for q in self._continue_path(p, False, seen):
                stack.append((q, seen | {q.head.cube}))

@of('CubePathTree._group_paths_by_future', props='C20 C21', mode='bag')
def group_paths(paths: Sequence[_CubePath]):
    by = defaultdict(list)
    for p in paths: by[p.future()].append(p)
    for g in by.values(): yield g

@of('CubePathTree.grow', enough=True, props='C20 C21 C10', mode='bag', keep=['CubePathTree._width_search', 'CubePathTree._depth_search', 'CubePathTree._check_glue', 'CubePathTree._glue_paths', 'CubePathTree._group_paths_by_future', 'CubePathTree._init_path'], values={'m:_group_paths_by_future': 'some', 'm:_width_search': 'some', 'm:_depth_search': 'some', 'm:future_hash': [0, 1], 'm:complement_future_hash': [0, 1]})
def grow(self, start: Sequence[tuple[tuple[int, ...], Any]], finish: Sequence[tuple[tuple[int, ...], Any]], start_max_count: int, finish_max_count: int | None):
    volume = self.div ** self.dim
    heads = self._width_search([self._init_path(c, s) for c, s in start], volume // 2 - 1, start_max_count, False)
    if len(heads) == 0: return
    tails = [self._init_path(c, s) for c, s in finish]
    if finish_max_count is not None:
        if self.prev_func is None: raise Exception
        tails = self._width_search(tails, volume // 2 - 1, finish_max_count, True)
    if len(tails) == 0: return
    index = defaultdict(list)
    for p in tails: index[p.complement_future_hash(self._all_cubes)].append(p)
    for group in self._group_paths_by_future(heads):
        for mid in self._depth_search([group[0]], volume - tails[0].length + 1):
            for fin in index.get(mid.future_hash(), []):
                if self._check_glue(mid, fin):
                    for beg in group: yield self._glue_paths(beg, mid, fin)
