# Dilation estimation: positions, pairs of fractions, their bounds, and the search loops above them.

# ------------------------------------------------------------------ positions and pairs
@of('_PiecePosition.__init__', props='C11 C12', init=True)
def pos_init(self, dim: int, div: int, cnums: Sequence[int], cubes: Sequence[Sequence[int]]):
    self.dim = dim
    self.div = div
    self.cnums = tuple(cnums)
    self.cubes = tuple(cubes)
    self.depth = len(cnums)

@of('_PiecePosition.__eq__', props='C08 C07', mode='bool')
def pos_eq(self, other: _PiecePosition):
    return self.cnums == other.cnums and self.cubes == other.cubes and self.div == other.div and self.dim == other.dim

@of('_PiecePosition.specify', props='C12', opaque='none')
def pos_specify(self, cnum: int, cube: Sequence[int]):
    return _PiecePosition(self.dim, self.div, [*self.cnums, cnum], [*self.cubes, cube])

@of('_PiecePosition.get_int_coords', props='C11 C07', opaque='none')
def pos_int_coords(self):
    n = len(self.cnums)
    x = tuple(sum(self.cubes[i][j] * self.div ** (len(self.cubes) - 1 - i) for i in range(len(self.cubes))) for j in range(self.dim))
    t = sum(self.cnums[i] * (self.div ** self.dim) ** (n - 1 - i) for i in range(n))
    return x, t

@of('_CurvePiece.get_last_spec', props='C11')
def piece_last_spec(self):
    return self.curve.get_deep_spec(self.pnum, self.pos.cnums)

@of('_CurvePiece.divide', props='C12')
def piece_divide(self):
    prev = self.curve.get_deep_spec(self.pnum, self.pos.cnums[:len(self.pos.cnums) - 1])
    cnum = prev.base_map.apply_cnum(self.curve.genus, self.pos.cnums[len(self.pos.cnums) - 1])
    for sp in self.curve.gen_allowed_specs(prev.pnum, cnum):
        narrowed = self.curve.specify(prev.pnum, cnum, sp)
        proto = (prev.base_map * sp.base_map) * self.curve.patterns[sp.pnum].proto
        for i, cube in enumerate(proto):
            yield _CurvePiece(narrowed, self.pnum, self.pos.specify(i, cube))

@of('_CurvePiecePair._get_piece', props='C11 C12')
def get_piece(self, piece_no: int):
    if piece_no == 1: return _CurvePiece(self.curve, self.junc.spec1.pnum, self.pos1)
    return _CurvePiece(self.curve, self.junc.spec2.pnum, self.pos2)

@of('_CurvePiecePair.init_first_order', props='C12')
def init_first_order(cls, curve: FuzzyCurve, junc: Junction, cnum1: int, cnum2: int):
    pn1, pn2 = junc.spec1.pnum, junc.spec2.pnum
    return _CurvePiecePair(curve, junc,
                           _PiecePosition(curve.dim, curve.div, [cnum1], [curve.patterns[pn1].proto[cnum1]]),
                           _PiecePosition(curve.dim, curve.div, [cnum2], [curve.patterns[pn2].proto[cnum2]]))

@of('_CurvePiecePair.get_last_specs', props='C11')
def pair_last_specs(self):
    return (self.curve.get_deep_spec(self.junc.spec1.pnum, self.pos1.cnums), self.curve.get_deep_spec(self.junc.spec2.pnum, self.pos2.cnums))

@of('_CurvePiecePair.depth', props='C12 C14')
def pair_depth(self):
    return min(self.pos1.depth, self.pos2.depth)

@of('_CurvePiecePair.divide_balanced', props='C12')
def divide_balanced(self):
    if self.pos1.depth > self.pos2.depth:
        for p in _CurvePiece(self.curve, self.junc.spec2.pnum, self.pos2).divide():
            yield _CurvePiecePair(p.curve, self.junc, self.pos1, p.pos)
    else:
        for p in _CurvePiece(self.curve, self.junc.spec1.pnum, self.pos1).divide():
            yield _CurvePiecePair(p.curve, self.junc, p.pos, self.pos2)

# ------------------------------------------------------------------ bounds
@of('Estimator._get_bounds', props='C11 C14 C09 C10', keep=['Estimator._get_pos_bounds'], ignore=['self.sum_stats', 'self.max_stats'])
def get_bounds(self, pair: _CurvePiecePair, curve_points: dict[int, Sequence[CurvePoint]] | None):
    if curve_points is None: return self._get_pos_bounds(pair.junc, pair.pos1, pair.pos2, (), ())
    s1, s2 = pair.get_last_specs()
    return self._get_pos_bounds(pair.junc, pair.pos1, pair.pos2,
                                tuple(s1.base_map * p for p in curve_points[s1.pnum]),
                                tuple(s2.base_map * p for p in curve_points[s2.pnum]))

@of('Estimator._get_pos_bounds', props='C11 C09 C07', samples=200, enough=True)
def get_pos_bounds(self, junc: Junction, pos1: _PiecePosition, pos2: _PiecePosition, pts1: Sequence[CurvePoint], pts2: Sequence[CurvePoint]):
    d, N = pos1.dim, pos1.div
    m = N ** pos1.depth
    M = m ** d
    if pos1.depth == pos2.depth: w, v = 1, 1
    elif pos1.depth == pos2.depth + 1: w, v = N, N ** d
    else: raise ValueError
    c1, t1 = pos1.get_int_coords()
    c2, t2 = pos2.get_int_coords()
    b1, b2 = junc.spec1.base_map, junc.spec2.base_map
    x1 = b1.apply_cube(m, c1)
    x2 = [w * x + m * s for x, s in zip(b2.apply_cube(N ** pos2.depth, c2), junc.delta_x)]
    t1 = b1.apply_cnum(M, t1)
    t2 = v * b2.apply_cnum((N ** pos2.depth) ** d, t2) + M * junc.delta_t
    far = [max(abs(a - b + 1), abs(a - b - w)) for a, b in zip(x1, x2)]
    lo = self.ratio_func(d, far, t2 + v - t1)
    up = self.ratio_func(d, far, t2 - t1 - 1)
    best = None
    if len(pts1) > 0 and len(pts2) > 0:
        q1s = tuple(b1 * p for p in pts1)
        q2s = tuple((b2 * p) if w == 1 else (b2 * p).scale(w) for p in pts2)
        for q1, q2 in itertools.product(q1s, q2s):
            y1 = [a + b for a, b in zip(x1, q1.x)]
            y2 = [a + b for a, b in zip(x2, q2.x)]
            r1, r2 = t1 + q1.t, t2 + q2.t
            r = self.ratio_func(d, [a - b for a, b in zip(y1, y2)], r2 - r1)
            if best is None or r > lo:
                lo = r
                best = {'x1': [Fraction(a, m) for a in y1], 't1': Fraction(r1, M), 'x2': [Fraction(a, m) for a in y2], 't2': Fraction(r2, M), 'junc': junc, 'pos1': pos1, 'pos2': pos2}
    return lo, up, best

# ------------------------------------------------------------------ the collection of pairs
@of('Estimator._create_tree', props='C12 C14', keep=['Estimator._push_tree', 'new:BoundedItemsHeap'], shallow=True)
def create_tree(self, curve: FuzzyCurve, good_threshold: Fraction | None, bad_threshold: Fraction | None, **tree_kwargs):
    tree = BoundedItemsHeap(good_threshold, bad_threshold, **tree_kwargs)
    G = curve.genus
    for j in curve.gen_auto_junctions():
        for a in range(G):
            for b in range(a + 2, G):
                self._push_tree(tree, _CurvePiecePair.init_first_order(curve, j, a, b))
    for j in curve.gen_regular_junctions():
        last = 0 if j.spec1.base_map.time_rev else G - 1
        first = G - 1 if j.spec2.base_map.time_rev else 0
        for a in range(G):
            for b in range(G):
                if a == last and b == first: continue
                self._push_tree(tree, _CurvePiecePair.init_first_order(curve, j, a, b))
    return tree

@of('Estimator._push_tree', props='C12 C13 C14 C10', keep=['Estimator._get_bounds'])
def push_tree(self, tree: BoundedItemsHeap, pair: _CurvePiecePair):
    lo, up, arg = self._get_bounds(pair, curve_points=tree.stash)
    tree.push(_BoundedPair(lo=lo, up=up, pair=pair, argmax=arg))

@of('Estimator._divide_tree', props='C12 C14 C15 C10', keep=['Estimator._push_tree'])
def divide_tree(self, tree: BoundedItemsHeap):
    worst = tree.pop()
    for p in worst.pair.divide_balanced(): self._push_tree(tree, p)

@of('Estimator._forbid', props='C15 C17')
def forbid(self, tree: BoundedItemsHeap, adapter: CurveSATAdapter):
    for item in tree.pop_bad_items(): adapter.add_forbid_clause(item.pair.junc, item.pair.curve)

# ------------------------------------------------------------------ one curve
@of('Estimator.estimate_dilation_regular', props='C14 C09 C10', keep=['Estimator._create_tree', 'Estimator._divide_tree'], shallow=True)
def estimate_regular(self, curve: Curve, rel_tol_inv: int | None, max_iter: int | None, use_face_moments: bool, face_dim: int, max_depth: int | None):
    kw = {'keep_max_lo_item': True}
    if use_face_moments:
        pts = {}
        for pn in range(curve.mult):
            found = set()
            for face in gen_faces(curve.dim, face_dim):
                for last in (False, True):
                    found.add(curve.get_face_moment(face, pn, last=last, find_point=True))
            pts[pn] = tuple(sorted(found))
        kw['stash'] = pts
    tree = self._create_tree(curve, **kw)
    lo = tree.max_lo_item.lo
    arg = tree.max_lo_item.argmax
    tree.update_good_threshold(lo)
    up = tree.top().up
    n = 0
    while True:
        n += 1
        if rel_tol_inv is not None and up <= lo * Fraction(rel_tol_inv + 1, rel_tol_inv): break
        if max_iter is not None and n > max_iter: break
        if max_depth is not None and all(it.pair.depth > max_depth for it in tree.items()): break
        self._divide_tree(tree)
        if tree.max_lo_item.lo > lo:
            lo = tree.max_lo_item.lo
            arg = tree.max_lo_item.argmax
            tree.update_good_threshold(lo)
        if tree.top().up < up: up = tree.top().up
    if arg is None: return {'up': up, 'lo': lo}
    return {'up': up, 'lo': lo, 'argmax': arg}

# ------------------------------------------------------------------ families of curves
@of('Estimator.bisect_dilation_fuzzy', props='C15 C09 C10', keep=['Estimator._create_tree', 'Estimator._divide_tree', 'Estimator._forbid', 'new:CurveSATAdapter'], shallow=True, raises='strict')
def bisect(self, curve: FuzzyCurve, good_threshold: Fraction, bad_threshold: Fraction, max_iter: int | None, sat_iter_multiplier: Fraction,
           init_pairs_tree: BoundedItemsHeap | None, init_sat_adapter: CurveSATAdapter | None):
    if init_pairs_tree is None: tree = self._create_tree(curve, good_threshold=good_threshold, bad_threshold=bad_threshold)
    else: tree = init_pairs_tree.copy_and_cleanup(good_threshold=good_threshold, bad_threshold=bad_threshold)
    if init_sat_adapter is None: adapter = CurveSATAdapter(curve=curve)
    else: adapter = CurveSATAdapter(adapter=init_sat_adapter)
    self._forbid(tree, adapter)
    n = 0
    call = 1
    while tree.size() > 0:
        n += 1
        if max_iter is not None and n > max_iter: raise self._RunOutOfIterationsException()
        self._divide_tree(tree)
        self._forbid(tree, adapter)
        if n >= call:
            call = int(call * sat_iter_multiplier) + 1
            if not adapter.solve(): return None
    if not adapter.solve(): return None
    return adapter.get_model_curve()

@of('Estimator.estimate_dilation_fuzzy', props='C15 C09 C10', keep=['Estimator._create_tree', 'new:CurveSATAdapter'], shallow=True)
def estimate_fuzzy(self, curve: FuzzyCurve, rel_tol_inv: int, stop_upper_bound: Fraction | None, start_lower_bound: Fraction | None,
                   start_upper_bound: Fraction | None, start_curve: Curve | None, **kwargs):
    lo = Fraction(0) if start_lower_bound is None else start_lower_bound
    if start_upper_bound is None:
        best = curve.get_curve_example()
        up = self.estimate_dilation_regular(best, rel_tol_inv=rel_tol_inv)['up']
    else:
        best = start_curve
        up = start_upper_bound
    tree = self._create_tree(curve)
    adapter = CurveSATAdapter(curve)
    while up > lo * Fraction(rel_tol_inv + 1, rel_tol_inv):
        if lo == 0: bad, good = up / 2, 2 * up / 3
        else: bad, good = (2 * lo + up) / 3, (lo + 2 * up) / 3
        try:
            found = self.bisect_dilation_fuzzy(curve, good, bad, init_pairs_tree=tree, init_sat_adapter=adapter, **kwargs)
        except self._RunOutOfIterationsException: break
        if found is None: lo = bad
        else:
            up = good
            best = found
        if stop_upper_bound is not None and lo > stop_upper_bound: break
    return {'curve': best, 'lo': lo, 'up': up}

@of('Estimator.estimate_dilation_sequence', props='C16 C09 C10', shallow=True)
def estimate_sequence(self, curves: Sequence[FuzzyCurve], rel_tol_inv: int, rel_tol_inv_mult: int, upper_bound: Fraction | None, **kwargs):
    lo = Fraction(0)
    up = upper_bound
    active = [(i, c, None, None, None) for i, c in enumerate(curves)]
    tol = 1
    while up is None or up > lo * Fraction(rel_tol_inv + 1, rel_tol_inv):
        tol = tol * rel_tol_inv_mult
        keep = []
        for i, c, l, u, ex in active:
            r = self.estimate_dilation_fuzzy(c, rel_tol_inv=tol, stop_upper_bound=up, start_lower_bound=l, start_upper_bound=u, start_curve=ex, **kwargs)
            if up is None or r['up'] < up: up = r['up']
            if r['lo'] <= up: keep.append((i, c, r['lo'], r['up'], r['curve']))
            keep = [k for k in keep if k[2] <= up]
        if not keep: return None
        active = sorted(keep, key=lambda k: k[3])
        lo = min(k[2] for k in active)
    return {'lo': lo, 'up': up, 'curves': [k[4] for k in active], 'idxs': [k[0] for k in active]}
