BM, SU, CU, DI, GA, PA, CT, UT, HE, SAT = ['peano/%s.py' % x for x in ('base_maps', 'subsets', 'curves', 'dilation', 'gates', 'paths', '_cube_path_trees', 'utils', '_bounded_items_heap', '_sat_adapters')]
ITEMS = []


def bug(name, props, *edits): ITEMS.append(dict(name=name, props=props, edits=list(edits), kind='bug'))
def ok(name, props, *edits): ITEMS.append(dict(name=name, props=props, edits=list(edits), kind='ok'))


ALL6 = 'C06 C07 C08 C09 C10 C28'
# ---- C06
bug('c06-invert-inplace', 'C06', (BM, "        return BaseMap(self.coords, not self.time_rev)", "        obj = BaseMap(self.coords, self.time_rev)\n        obj.time_rev = not obj.time_rev\n        return obj"))
bug('c06-junc-depth', 'C06', (CU, "        return hash((self.patterns, self.pnum))", "        self.mult = len(self.patterns)\n        return hash((self.patterns, self.pnum))"))
ok('c06-pop-caller-gates', ALL6, (CU, "        new_patterns = list(self.patterns)\n        for pnum, cnum_specs in spec_dict.items():", "        new_patterns = list(self.patterns)\n        for pnum in sorted(spec_dict):\n            cnum_specs = spec_dict.pop(pnum)"))
bug('c06-invert-links-std', 'C06', (CU, "        new_links_std = {}\n        for link, data in self.links_std.items():\n            new_links_std[link] = {pnum: ~std_map for pnum, std_map in data.items()}", "        new_links_std = self.links_std\n        for link, data in self.links_std.items():\n            new_links_std[link] = {pnum: ~std_map for pnum, std_map in data.items()}"))
bug('c06-reverse-links', 'C06', (CU, "        new_pattern_links = [list(reversed(links)) for links in self.pattern_links]", "        new_pattern_links = list(self.pattern_links)\n        for links in new_pattern_links: links.reverse()"))
bug('c06-piece-cubes-list', 'C06', (DI, "        self.cubes = tuple(cubes)\n", "        self.cubes = cubes\n"))
bug('c06-proto-setdim', 'C06', (PA, "        return Proto(self.dim, self.div, reversed(self))", "        res = Proto(self.dim, self.div, reversed(self))\n        self.cubes = tuple(self)\n        return res"))
bug('c06-path-sort-links', 'C06', (PA, "        self.links = tuple(links)\n\n        entr", "        self.links = links if isinstance(links, list) else tuple(links)\n\n        entr"))
bug('c06-frozen-bypass', 'C06', (CU, "        return CurvePoint(base_map * self.x, base_map.apply_t(self.t))", "        object.__setattr__(self, 'x', base_map * self.x)\n        return CurvePoint(self.x, base_map.apply_t(self.t))"))
bug('c06-specify-inplace', 'C06', (CU, "        return self._specify_allowed({pnum: {cnum: spec}})", "        new = self._specify_allowed({pnum: {cnum: spec}})\n        self.patterns = new.patterns\n        return self"))
bug('c06-gate-cubes-sort', 'C06', (SU, "        self.cubes = tuple(tuple(cube) for cube in cubes)", "        self.cubes = cubes"))
ok('c06-ok-local-list', ALL6, (CU, "        xs = []\n        for j in range(self.dim):\n            xj = get_periodic_sum([cube[j] for cube in cubes_start], [cube[j] for cube in cubes_period], self.div)\n            xs.append(xj)\n        return Point(xs)", "        xs = [None] * self.dim\n        for j in range(self.dim):\n            start = [cube[j] for cube in cubes_start]\n            period = [cube[j] for cube in cubes_period]\n            xs[j] = get_periodic_sum(start, period, self.div)\n        return Point(xs)"))
ok('c06-ok-init-helper', ALL6, (CU, "        self.delta_x = delta_x\n        self.delta_t = delta_t\n        self._hash = hash(self._data())  # depth is just some additional information that is determined by junc\n        self.depth = depth\n", "        self._set_delta(delta_x, delta_t)\n        self._hash = hash(self._data())  # depth is just some additional information that is determined by junc\n        self.depth = depth\n\n    def _set_delta(self, delta_x, delta_t):\n        self.delta_x = delta_x\n        self.delta_t = delta_t\n"))
ok('c06-ok-copy-then-mutate', ALL6, (CU, "        new_pattern_links = [list(reversed(links)) for links in self.pattern_links]", "        new_pattern_links = []\n        for links in self.pattern_links:\n            links = list(links)\n            links.reverse()\n            new_pattern_links.append(links)"))
ok('c06-ok-dict-copy', ALL6, (CU, "        new_links_std = {}\n        for link, data in self.links_std.items():\n            new_links_std[link] = {pnum: ~std_map for pnum, std_map in data.items()}", "        new_links_std = dict(self.links_std)\n        for link, data in self.links_std.items():\n            inv = {}\n            for pnum, std_map in data.items():\n                inv[pnum] = ~std_map\n            new_links_std[link] = inv"))
# ---- C07
bug('c07-spec-key-no-pnum', 'C07', (BM, "        key = (base_map._key, pnum)", "        key = (base_map._key, bool(pnum))"))
bug('c07-mul-key-coords', 'C07', (BM, "        key = other._key\n        val", "        key = other.coords\n        val"))
bug('c07-mul-class-cache', 'C07', (BM, "    _mul_cache: dict[CacheKeyType, BaseMap]\n", "    _mul_cache: ClassVar[dict[CacheKeyType, BaseMap]] = {}\n"), (BM, "        obj._mul_cache = {}\n", ""))
bug('c07-obj-key-dim', 'C07', (BM, "        key = (coords, time_rev)\n", "        key = coords\n"))
bug('c07-id-map-const', 'C07', (BM, "        bm = cls._id_map_cache.get(dim)\n        if bm is None:\n            coords = tuple((k, False) for k in range(dim))\n            bm = cls._id_map_cache[dim] = cls(coords)", "        bm = cls._id_map_cache.get(0)\n        if bm is None:\n            coords = tuple((k, False) for k in range(dim))\n            bm = cls._id_map_cache[0] = cls(coords)"))
bug('c07-bounds-no-points', 'C07', (DI, "        return self._get_pos_bounds(pair.junc, pos1, pos2, pts1, pts2)", "        key = (pair.junc, pos1, pos2)\n        if key not in self._memo:\n            self._memo[key] = self._get_pos_bounds(pair.junc, pos1, pos2, pts1, pts2)\n        return self._memo[key]"), (DI, "        self.max_stats: dict[str, Any] = {}\n", "        self.max_stats: dict[str, Any] = {}\n        self._memo: dict = {}\n"))
bug('c07-lru-ratio-global', 'C07', (DI, "        return lo, up, argmax\n\n    def get_info", "        self._last = lo\n        return lo, max(up, self._last), argmax\n\n    def get_info"), (DI, "        dim, N = pos1.dim, pos1.div\n        use_curve", "        dim, N = pos1.dim, pos1.div + self.sum_stats['shift']\n        use_curve"))
bug('c07-inv-cache-time', 'C07', (BM, "        return BaseMap(self.coords, not self.time_rev)", "        obj = BaseMap(self.coords, not self.time_rev)\n        obj._inv_cache = self.get_inverse()\n        return obj"))
bug('c07-dim-cached-maps', 'C07', (SU, "    def all_cube_maps(self):\n        if not hasattr(self, '_all_cube_maps'):\n            self._all_cube_maps = list(BaseMap.gen_base_maps(self.dim, time_rev=False))\n        return self._all_cube_maps", "    _all_maps: list = []\n\n    def all_cube_maps(self):\n        if not FacetDivSubset._all_maps:\n            FacetDivSubset._all_maps.extend(BaseMap.gen_base_maps(self.dim, time_rev=False))\n        return FacetDivSubset._all_maps"))
bug('c07-dim-cached-maps2', 'C07', (SU, "        if not hasattr(self, '_all_cube_maps'):\n            self._all_cube_maps = list(BaseMap.gen_base_maps(self.dim, time_rev=False))\n        return self._all_cube_maps", "        cls = type(self)\n        if not hasattr(cls, '_all_cube_maps'):\n            cls._all_cube_maps = list(BaseMap.gen_base_maps(self.dim, time_rev=False))\n        return cls._all_cube_maps"))
bug('c07-lru-generator', 'C07', (BM, "    @classmethod\n    def gen_base_maps(", "    @classmethod\n    @functools.lru_cache(None)\n    def gen_base_maps("), (BM, "import itertools\n", "import itertools\nimport functools\n"))
bug('c07-deep-spec-memo', 'C07', (CU, "        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in cnums:\n            spec = self._compose_specs(spec, cnum)\n        return spec", "        key = tuple(cnums)\n        if key in self._deep:\n            return self._deep[key]\n        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in key:\n            spec = self._compose_specs(spec, cnum)\n        self._deep[key] = spec\n        return spec"), (CU, "        self.genus = div**dim\n", "        self.genus = div**dim\n        self._deep = {}\n"))
bug('c07-deep-spec-shared', 'C07', (CU, "        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in cnums:\n            spec = self._compose_specs(spec, cnum)\n        return spec", "        key = (pnum, tuple(cnums))\n        if key in _DEEP:\n            return _DEEP[key]\n        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in key[1]:\n            spec = self._compose_specs(spec, cnum)\n        _DEEP[key] = spec\n        return spec"), (CU, "class FuzzyCurve:\n", "_DEEP: dict = {}\n\n\nclass FuzzyCurve:\n"))
bug('c07-int-cube-typed', 'C07', (UT, "    x = [0] * dim\n    div_power = 1\n", "    x = [0] * dim\n    div_power = _scale\n"), (UT, "BASIS_LETTERS = 'ijklmn'\n", "BASIS_LETTERS = 'ijklmn'\n_scale = 1\n\ndef set_scale(x):\n    global _scale\n    _scale = x\n"))
ok('c07-ok-deep-memo', ALL6, (CU, "        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in cnums:\n            spec = self._compose_specs(spec, cnum)\n        return spec", "        key = (pnum, tuple(cnums))\n        if key in self._deep:\n            return self._deep[key]\n        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in key[1]:\n            spec = self._compose_specs(spec, cnum)\n        self._deep[key] = spec\n        return spec"), (CU, "        self.genus = div**dim\n", "        self.genus = div**dim\n        self._deep = {}\n"))
ok('c07-ok-try', ALL6, (BM, "        val = self._mul_cache.get(key)\n        if val is None:\n            assert", "        try:\n            return self._mul_cache[key]\n        except KeyError:\n            assert"))
ok('c07-ok-helper', ALL6, (BM, "            self._inv_cache = val = BaseMap(coords, self.time_rev)\n        return val", "            val = BaseMap(coords, self.time_rev)\n            self._inv_cache = val\n        return val"))
ok('c07-ok-key-order', ALL6, (BM, "        key = (base_map._key, pnum)\n        cache = cls._obj_cache\n        if key in cache:\n            return cache[key]\n", "        key = (base_map._key, pnum)\n        cached = cls._obj_cache.get(key)\n        if cached is not None:\n            return cached\n        cache = cls._obj_cache\n"))
ok('c07-ok-idmap', ALL6, (BM, "        bm = cls._id_map_cache.get(dim)\n        if bm is None:\n            coords = tuple((k, False) for k in range(dim))\n            bm = cls._id_map_cache[dim] = cls(coords)\n        return bm", "        if dim not in cls._id_map_cache:\n            cls._id_map_cache[dim] = cls((k, False) for k in range(dim))\n        return cls._id_map_cache[dim]"))
# ---- C08
bug('c08-junc-hash-depth', 'C08', (CU, "        return self.delta_x, self.delta_t, self.spec1, self.spec2", "        return self.delta_x, self.delta_t, self.spec1, self.spec2, getattr(self, 'depth', None)"))
bug('c08-junc-eq-part', 'C08', (CU, "        return self.delta_x, self.delta_t, self.spec1, self.spec2", "        return self.delta_x, self.delta_t, self.spec1"))
bug('c08-curve-hash-id', 'C08', (CU, "        return hash((self.patterns, self.pnum))", "        return hash((id(self.patterns), self.pnum))"))
bug('c08-curve-eq-no-pnum', 'C08', (CU, "        return (self.patterns, self.pnum) == (other.patterns, other.pnum)", "        return self.patterns == other.patterns"))
bug('c08-fds-eq', 'C08', (SU, "    def __hash__(self):\n        return hash((self.entrance, self.exit))", "    def __hash__(self):\n        return hash((self.entrance, id(self)))"))
bug('c08-basemap-eq', 'C08', (BM, "    def __eq__(self, other):\n        return self._key == other._key\n\n    def __hash__(self):\n        return self._hash\n\n    def __str__", "    def __eq__(self, other):\n        return self.coords == other.coords\n\n    def __hash__(self):\n        return self._hash\n\n    def __str__"))
bug('c08-basemap-is', 'C08', (BM, "    def __eq__(self, other):\n        return self._key == other._key\n\n    def __hash__(self):\n        return self._hash\n\n    @classmethod\n    def parse", "    def __eq__(self, other):\n        return self.pnum == other.pnum\n\n    def __hash__(self):\n        return self._hash\n\n    @classmethod\n    def parse"))
bug('c08-curvepoint-nocompare', 'C08', (CU, "@dataclass(frozen=True, order=True)\nclass CurvePoint:", "@dataclass(frozen=True, order=True, eq=True, unsafe_hash=False)\nclass CurvePoint:"), (CU, "    x: Point\n    t: Fraction\n\n    def __rmul__", "    x: Point\n    t: Fraction = field(compare=False)\n\n    def __rmul__"), (CU, "from dataclasses import dataclass\n", "from dataclasses import dataclass, field\n"))
bug('c08-link-lt', 'C08', (SU, "        return (self.entrance, self.exit) < (other.entrance, other.exit)", "        return self.entrance < other.entrance"))
bug('c08-piece-hash', 'C08', (DI, "        self._hash = hash(self._data())\n\n    def _data(self):\n        return self.cnums, self.cubes, self.div, self.dim", "        self._hash = hash(self._data())\n\n    def _data(self):\n        return self.cnums, self.div, self.dim"))
ok('c08-ok-eq-spelled', ALL6, (CU, "        return (self.patterns, self.pnum) == (other.patterns, other.pnum)", "        return self.pnum == other.pnum and self.patterns == other.patterns"))
ok('c08-ok-hash-less', ALL6, (CU, "        return hash((self.patterns, self.pnum))", "        return hash(self.patterns)"))
ok('c08-ok-data-order', ALL6, (CU, "        return self.delta_x, self.delta_t, self.spec1, self.spec2", "        return self.spec1, self.spec2, self.delta_t, self.delta_x"))
# ---- C09
bug('c09-ratio-float', 'C09', (UT, "    return Fraction(max(abs(x) for x in dv) ** d, dt)", "    return Fraction(max(abs(x) for x in dv) ** d / dt)"))
bug('c09-ratio-floordiv', 'C09', (UT, "    d2 = d // 2\n    return Fraction(sum(x ** 2 for x in dv) ** d2, dt)", "    return Fraction(math.isqrt(sum(x ** 2 for x in dv) ** d), dt)"))
bug('c09-tol-float', 'C09', (DI, "        tolerance = Fraction(rel_tol_inv + 1, rel_tol_inv)\n        CurveItem", "        tolerance = 1 + 1 / rel_tol_inv\n        CurveItem"))
bug('c09-half', 'C09', (DI, "                test_lo = Fraction(1, 2) * curr_up", "                test_lo = 0.5 * curr_up"))
bug('c09-moment-float', 'C09', (BM, "        return mt - t if self.time_rev else t", "        return mt - t if self.time_rev else float(t)"))
bug('c09-div-trunc', 'C09', (UT, "    tp = Fraction(np, d_power * (dp_power - 1))", "    tp = Fraction(np / (d_power * (dp_power - 1)))"))
bug('c09-limit-den', 'C09', (DI, "        up = self.ratio_func(dim, max_dx, min_dt)", "        up = self.ratio_func(dim, max_dx, min_dt).limit_denominator(10**9)"))
bug('c09-search-ub', 'C09', ('search.py', "        kwargs['upper_bound'] = Fraction(args.upper_bound)", "        kwargs['upper_bound'] = Fraction(float(Fraction(args.upper_bound)))"))
ok('c09-argmax', ALL6, (DI, "                    t1_real = Fraction(t1_point, mt)", "                    t1_real = t1_point / mt"))
bug('c09-point-float', 'C09', (SU, "            if shift is not None:\n                pj += Fraction(shift[j])", "            if shift is not None:\n                pj += Fraction(float(shift[j]))"))
ok('c09-ok-div-frac', ALL6, (DI, "                    t1_real = Fraction(t1_point, mt)", "                    t1_real = Fraction(t1_point) / mt"))
ok('c09-ok-log', ALL6, (DI, "                curr_lo, curr_up, test_lo, test_up,\n            )", "                float(curr_lo), float(curr_up), float(test_lo), float(test_up),\n            )"))
ok('c09-ok-tolerance', ALL6, (DI, "        tolerance = Fraction(rel_tol_inv + 1, rel_tol_inv)\n        CurveItem", "        tolerance = 1 + Fraction(1, rel_tol_inv)\n        CurveItem"))
ok('c09-ok-half', ALL6, (DI, "                test_lo = Fraction(1, 2) * curr_up", "                test_lo = Fraction(curr_up) / 2"))
# ---- C10
bug('c10-stats-branch', 'C10', (DI, "            if (stop_upper_bound is not None) and curr_lo > stop_upper_bound:\n                break\n\n        return {\n            'curve': curr_curve", "            if self.sum_stats['bisect_iter'] > 50:\n                break\n            if (stop_upper_bound is not None) and curr_lo > stop_upper_bound:\n                break\n\n        return {\n            'curve': curr_curve"))
bug('c10-loglevel', 'C10', (DI, "            logger.debug('precise test thresholds: %s, %s', test_lo, test_up)", "            if logger.isEnabledFor(logging.DEBUG):\n                logger.debug('precise test thresholds: %s, %s', test_lo, test_up)\n                test_up = curr_up"))
bug('c10-random', 'C10', (PA, "        if kwargs.get('std'):\n            yield", "        import random\n        if random.random() < 0:\n            return\n        if kwargs.get('std'):\n            yield"))
bug('c10-cacheinfo', 'C10', (DI, "        lo, up, argmax = self._get_bounds(pair, curve_points=tree.stash)", "        lo, up, argmax = self._get_bounds(pair, curve_points=tree.stash)\n        if self._get_pos_bounds.cache_info().hits > 10**5:\n            lo = Fraction(0)"))
bug('c10-heapstat', 'C10', (HE, "        if (self._bad_threshold is not None) and item.lo >= self._bad_threshold:", "        if (self._bad_threshold is not None) and item.lo >= self._bad_threshold and self.stats.bad < 10**5:"))
bug('c10-env', 'C10', (GA, "logger = logging.getLogger(__name__)", "import os\nlogger = logging.getLogger(__name__)\nLIM = int(os.environ.get('PEANO_LIM', '0'))"), (GA, "        self._seen_std_gates: MutableSet[GateTuple] = set()", "        self._seen_std_gates: MutableSet[GateTuple] = set()\n        self.only_facet = self.only_facet or LIM > 3"))
bug('c10-time', 'C10', (CT, "        todo = [(path, path.support()) for path in paths]\n        while todo:", "        import time\n        t0 = time.time()\n        todo = [(path, path.support()) for path in paths]\n        while todo and time.time() - t0 < 1e6:"))
bug('c10-carry', 'C10', (DI, "        curr_lo = Fraction(0)\n        curr_up = upper_bound\n", "        curr_lo = Fraction(0)\n        curr_up = upper_bound if upper_bound is not None else self._best\n"), (DI, "        self.max_stats: dict[str, Any] = {}\n", "        self.max_stats: dict[str, Any] = {}\n        self._best = None\n"), (DI, "        return {\n            'lo': curr_lo, 'up': curr_up,\n            'curves'", "        self._best = curr_up\n        return {\n            'lo': curr_lo, 'up': curr_up,\n            'curves'"))
ok('c10-ok-more-stats', ALL6, (DI, "        worst_item = tree.pop()\n", "        worst_item = tree.pop()\n        self.sum_stats['divided'] += 1\n"))
ok('c10-ok-guarded-log', ALL6, (DI, "            logger.debug('precise test thresholds: %s, %s', test_lo, test_up)", "            if logger.isEnabledFor(logging.DEBUG):\n                logger.debug('precise test thresholds: %s, %s', test_lo, test_up)"))
ok('c10-ok-helper', ALL6, (DI, "        self.max_stats['pair_depth'] = max(self.max_stats.get('pair_depth', 0), pair.depth)", "        self._update_max_stats('pair_depth', pair.depth)"))
ok('c10-ok-timing', ALL6, (DI, "            try:\n                bisect_result = ", "            t0 = time.time()\n            logger.debug('at %s', t0)\n            try:\n                bisect_result = "), (DI, "import logging\n", "import logging\nimport time\n"))
# ---- C28
bug('c28-curves-twice', 'C28', (DI, "        active = (get_item(curve, idx) for idx, curve in enumerate(curves))\n", "        if any(c is None for c in curves):\n            raise ValueError\n        active = (get_item(curve, idx) for idx, curve in enumerate(curves))\n"))
bug('c28-group', 'C28', (CU, "        base_maps_group = list(base_maps_group)  # iterated many times below\n", ""))
bug('c28-links', 'C28', (PA, "        self.links = tuple(links)\n\n        self._init_entr2links()", "        self.links = links\n\n        self._init_entr2links()"))
bug('c28-specs-gen', 'C28', (CU, "        return super().__new__(cls, proto=proto, specs=tuple(specs))", "        return super().__new__(cls, proto=proto, specs=specs)"))
bug('c28-patterns', 'C28', (CU, "        pattern_objects = []\n        for pattern in patterns:", "        if not any(True for _ in patterns):\n            raise ValueError('no patterns')\n        pattern_objects = []\n        for pattern in patterns:"))
bug('c28-proto-len', 'C28', (PA, "        cubes = tuple(tuple(cube) if cube is not None else None for cube in cubes)\n        obj", "        assert all(cube is None or len(cube) == dim for cube in cubes)\n        cubes = tuple(tuple(cube) if cube is not None else None for cube in cubes)\n        obj"))
bug('c28-argmul', 'C28', (SU, "        bms1 = list(self.entrance.argmul_intersect(other.entrance))\n", "        bms1 = self.entrance.argmul_intersect(other.entrance)\n"), (SU, "        for bm in self.exit.argmul_intersect(other.exit, bms=bms1):\n            yield bm\n", "        yield from self.exit.argmul_intersect(other.exit, bms=bms1)\n        yield from self.exit.argmul_intersect(other.exit, bms=bms1)\n"))
bug('c28-heap-items', 'C28', (HE, "        for item in items:\n            self.push(item)", "        n = sum(1 for _ in items)\n        for item in items:\n            self.push(item)\n        self.stats.push += 0 * n"))
bug('c28-get-deep', 'C28', (CU, "        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        for cnum in cnums:", "        spec = Spec(BaseMap.id_map(self.dim), pnum)\n        if any(cnum >= self.genus for cnum in cnums):\n            raise KeyError\n        for cnum in cnums:"))
bug('c28-gen-perms', 'C28', (BM, "        group_perm_list = list(itertools.product(*group_perms))", "        group_perm_list = itertools.product(*group_perms)"))
ok('c28-ok-tuple', ALL6, (CU, "        base_maps_group = list(base_maps_group)  # iterated many times below\n", "        base_maps_group = tuple(base_maps_group)\n"))
ok('c28-ok-set', ALL6, (CU, "        pattern_objects = []\n        for pattern in patterns:", "        patterns = list(patterns)\n        if not patterns:\n            raise ValueError('no patterns')\n        pattern_objects = []\n        for pattern in patterns:"))
INVW = "            self._inv_cache = val = BaseMap(coords, self.time_rev)\n"
ok('c07-ok-inv-cross', ALL6, (BM, INVW, INVW + "            val._inv_cache = self\n"))
bug('c07-mul-cross', 'C07', (BM, "            self._mul_cache[key] = val = BaseMap(coords, self.time_rev ^ other.time_rev)", "            self._mul_cache[key] = val = BaseMap(coords, self.time_rev ^ other.time_rev)\n            other._mul_cache[self._key] = val"))
