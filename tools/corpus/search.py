"""C27: the command-line tool and calls between parts"""
ITEMS = []
S, PL, YE, DI, CU, PA, SU, GA, UT, BM = 'search.py', 'plots.py', 'YE-proof.py', 'peano/dilation.py', 'peano/curves.py', 'peano/paths.py', 'peano/subsets.py', 'peano/gates.py', 'peano/utils.py', 'peano/base_maps.py'
def bug(name, *edits): ITEMS.append(dict(name=name, props='C27', edits=list(edits), kind='bug'))
def ok(name, *edits): ITEMS.append(dict(name=name, props='C27', edits=list(edits), kind='ok'))
bug('s-cdist', (S, "links=gates, max_cdist=max_cdist)", "links=gates)"))
bug('s-cdist1', (S, "links=gates, max_cdist=max_cdist)", "links=gates, max_cdist=max_cdist or 1)"))
bug('s-facet', (S, "only_facet=facet_gated", "only_facet=not facet_gated"))
bug('s-facet-drop', (S, ", only_facet=facet_gated", ""))
bug('s-finish', (S, "kw['finish_max_count'] = finish_max_count", "kw['start_max_count'] = finish_max_count"))
bug('s-finish-if', (S, "if finish_max_count is not None:", "if finish_max_count is None:"))
bug('s-cache', (S, "estimator_kwargs['cache_max_size'] = cache_max_size", "estimator_kwargs['cache_max_size'] = 2**20"))
bug('s-tol', (S, "estimate_kwargs['rel_tol_inv'] = rel_tol_inv\n", "estimate_kwargs['rel_tol_inv_mult'] = rel_tol_inv\n"))
bug('s-tol2', (S, "    if rel_tol_inv_mult is not None:\n        estimate_kwargs['rel_tol_inv_mult'] = rel_tol_inv_mult\n", ""))
bug('s-ub', (S, "            upper_bound=upper_bound,\n", ""))
bug('s-group', (S, "if group_by_gates:\n        pcurve_gens", "if not group_by_gates:\n        pcurve_gens"))
bug('s-group-last', (S, "gen_pcurves([gates])) for gates in gate_list]", "gen_pcurves(gate_list)) for gates in gate_list]"))
bug('s-std', (S, "generate_paths(std=True, **kw)", "generate_paths(**kw)"))
bug('s-file-last', (S, "                gate_list.append(gates)\n        kwargs['gate_list'] = gate_list", "                gate_list.append(gates)\n        kwargs['gate_list'] = [gates]"))
bug('s-file-comma', (S, "line.strip().split('|')", "line.strip().split(',')"))
bug('s-gates-noset', (S, "        kwargs['gate_list'] = [gates]\n", "        kwargs['gate_list'] = gate_list or [gates]\n"))
bug('s-ub-str', (S, "kwargs['upper_bound'] = Fraction(args.upper_bound)", "kwargs['upper_bound'] = args.upper_bound"))
bug('s-ub-int', (S, "kwargs['upper_bound'] = Fraction(args.upper_bound)", "kwargs['upper_bound'] = Fraction(int(args.upper_bound.split('/')[0]))"))
bug('s-metric', (S, "'l2_squared': utils.ratio_l2_squared,", "'l2_squared': utils.ratio_l2,"))
bug('s-metric2', (S, "'linf': utils.ratio_linf,", "'linf': utils.ratio_l1,"))
bug('s-opt-type', (S, "argparser.add_argument('--max-cdist', type=int)", "argparser.add_argument('--max-cdist')"))
bug('s-opt-name', (S, "'--finish-max-count'", "'--finish-count'"))
bug('s-opt-dest', (S, "'--cache-max-size', type=int,", "'--cache-max-size', dest='cache_size', type=int,"))
bug('s-notfound', (S, "        if not result:\n            print('NOT FOUND!')\n        else:\n            result", "        if result == {}:\n            print('NOT FOUND!')\n        else:\n            result"))
bug('s-notfound2', (S, "        print('======')\n", "        print('======', result['up'])\n"))
bug('s-verbose', (S, "    verbosity = kwargs.pop('verbose')\n", "    verbosity = kwargs.get('verbose')\n"))
bug('s-outgates', (S, "        for gates in gate_list:\n            print(", "        for gates in gate_list[1:]:\n            print("))
bug('s-outgates-ret', (S, "for gate in gates]))\n        return\n", "for gate in gates]))\n"))
bug('r-rename', (CU, "def count_possible_curves", "def possible_curves_count"))
bug('r-attr', (PL, "import", "import", )) if 0 else None
bug('r-kw', (DI, "    def estimate_dilation_sequence(\n            self,\n            curves: Iterable[FuzzyCurve],", "    def estimate_dilation_sequence(\n            self,\n            fuzzy_curves: Iterable[FuzzyCurve],")) if 0 else None
bug('r-plot', (PL, "div = curve.div", "div = curve.division"))
bug('r-plot2', (CU, "def get_subdivision", "def subdivided"), (CU, "self.get_subdivision", "self.subdivided")) if 0 else None
bug('r-import', (YE, "from peano.zoo import get_ye_curve", "from peano.zoo import ye_curve as get_ye_curve"))
bug('r-kw', (YE, "use_face_moments=True, face_dim=0,", "use_vertex_moments=True,"))
bug('r-kw2', (YE, "ye_pcurve.gen_allowed_specs(pnum=0, cnum=cnum)", "ye_pcurve.gen_allowed_specs(pattern=0, cnum=cnum)"))
bug('r-modattr', (S, "utils.ratio_linf", "utils.ratio_loo"))
bug('r-name', (DI, "        pcurve = curve.forget()", "        pcurve = curv.forget()"))  if 0 else None
bug('r-arity', (UT, "def ratio_linf(d, dv, dt)", "def ratio_linf(d, dv, dt, p)"))  if 0 else None
ok('ok-alias', (S, "import peano.utils as utils", "from peano import utils"))
ok('ok-starimp', (YE, "from peano.utils import ratio_l2", "import peano.utils as pu\nratio_l2 = pu.ratio_l2"))
ok('ok-opt', (S, "            kw = {}\n            if finish_max_count is not None:\n                kw['finish_max_count'] = finish_max_count\n            paths_list = list(paths_gen.generate_paths(std=True, **kw))\n", "            if finish_max_count is None:\n                paths_list = list(paths_gen.generate_paths(std=True))\n            else:\n                paths_list = list(paths_gen.generate_paths(std=True, finish_max_count=finish_max_count))\n"))
ok('ok-filter', (S, "    estimate_kwargs = {}\n    if rel_tol_inv is not None:\n        estimate_kwargs['rel_tol_inv'] = rel_tol_inv\n    if rel_tol_inv_mult is not None:\n        estimate_kwargs['rel_tol_inv_mult'] = rel_tol_inv_mult\n", "    opts = {'rel_tol_inv': rel_tol_inv, 'rel_tol_inv_mult': rel_tol_inv_mult}\n    estimate_kwargs = {k: v for k, v in opts.items() if v is not None}\n"))
ok('ok-file', (S, "        with open(gates_file) as fh:\n            for line in fh:\n                gates = [Link.parse_gates(token) for token in line.strip().split('|')]\n                gate_list.append(gates)\n        kwargs['gate_list'] = gate_list\n", "        with open(gates_file) as fh:\n            kwargs['gate_list'] = [[Link.parse_gates(tok) for tok in ln.strip().split('|')] for ln in fh]\n"))
ok('ok-helper', (S, "def run_search(", "def parse_gate_line(line):\n    return [Link.parse_gates(token) for token in line.strip().split('|')]\n\n\ndef run_search("), (S, "                gates = [Link.parse_gates(token) for token in line.strip().split('|')]\n", "                gates = parse_gate_line(line)\n"), (S, "        gates = [Link.parse_gates(token) for token in gates_str.strip().split('|')]\n        kwargs", "        gates = parse_gate_line(gates_str)\n        kwargs"))
ok('ok-explicit', (S, "    run_search(**kwargs)", "    run_search(\n        dim=args.dim, div=args.div, mult=args.mult, finish_max_count=args.finish_max_count, ratio_func=kwargs['ratio_func'],\n        rel_tol_inv=args.rel_tol_inv, rel_tol_inv_mult=args.rel_tol_inv_mult, gate_list=kwargs.get('gate_list'), facet_gated=args.facet_gated,\n        max_cdist=args.max_cdist, upper_bound=kwargs['upper_bound'], group_by_gates=args.group_by_gates, output_gates=args.output_gates, cache_max_size=args.cache_max_size)"))
ok('ok-notfound', (S, "        if not result:\n            print('NOT FOUND!')\n        else:\n            result", "        if result is None:\n            print('NOT FOUND!')\n        else:\n            result"))
ok('ok-none-list', (S, "    gate_list = []\n    kwargs = vars", "    kwargs = vars"), (S, "        with open(gates_file) as fh:\n", "        gate_list = []\n        with open(gates_file) as fh:\n"))
ok('ok-main', (S, 'if __name__ == "__main__":\n', 'def main():\n'), (S, "    run_search(**kwargs)", "    run_search(**kwargs)\n\n\nif __name__ == '__main__':\n    main()"))
ok('ok-continue', (S, "        if not result:\n            print('NOT FOUND!')\n        else:\n            result.update(estimator.get_info())", "        if not result:\n            print('NOT FOUND!')\n            print('', flush=True)\n            continue\n        if True:\n            result.update(estimator.get_info())"))
ITEMS = [x for x in ITEMS if x]
