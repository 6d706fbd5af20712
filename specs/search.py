# The command-line search tool.  <main>: options -> call of run_search;  <run>: the estimations that run_search starts
# (and the gates printed when only gates are asked for).

@of('search:<main>', props='C27', shallow=True, samples=300, keep=['run_search'], values={'metric': ['l1', 'l2', 'l2_squared', 'linf'], 'gates': [None, '(0,0)->(1,0)', '(0,0)->(1,0)|(0,0)->(1,1)'], 'gates_file': [None, 'f'], 'upper_bound': [None, '11/2'], 'verbose': [0, 1, 2, 3]})
def main(dim: int, mult: int, div: int, facet_gated: bool, gates: str | None, gates_file: str | None, max_cdist: int | None, finish_max_count: int | None, metric: str, upper_bound: str | None,
         rel_tol_inv: int | None, rel_tol_inv_mult: int | None, cache_max_size: int | None, group_by_gates: bool, output_gates: bool, verbose: int):
    funcs = {'l1': utils.ratio_l1, 'l2': utils.ratio_l2, 'l2_squared': utils.ratio_l2_squared, 'linf': utils.ratio_linf}
    given = None
    if gates_file is not None: given = [[Link.parse_gates(t) for t in line.strip().split('|')] for line in open(gates_file)]
    if gates is not None: given = [[Link.parse_gates(t) for t in gates.strip().split('|')]]
    return run_search(dim, div, mult, finish_max_count, funcs.get(metric), rel_tol_inv, rel_tol_inv_mult, given, facet_gated, max_cdist,
                      None if upper_bound is None else Fraction(upper_bound), group_by_gates, output_gates, cache_max_size)

@of('search:<run>', props='C27', shallow=True, keep=['new:GatesGenerator', 'new:PathsGenerator', 'new:Estimator'])
def run(dim: int, div: int, mult: int, finish_max_count: int | None, ratio_func: Any, rel_tol_inv: int | None, rel_tol_inv_mult: int | None, gate_list: Sequence[Sequence[Link]] | None, facet_gated: bool, max_cdist: int | None,
        upper_bound: Fraction | None, group_by_gates: bool, output_gates: bool, cache_max_size: int | None):
    every = list(GatesGenerator(dim, div, mult, only_facet=facet_gated).gen_gates()) if gate_list is None else gate_list
    if output_gates:
        for gates in every: yield ' | '.join([str(g) for g in gates])
        return
    estimator = Estimator(ratio_func) if cache_max_size is None else Estimator(ratio_func, cache_max_size=cache_max_size)
    limit = {}
    if finish_max_count is not None: limit['finish_max_count'] = finish_max_count
    tol = {}
    if rel_tol_inv is not None: tol['rel_tol_inv'] = rel_tol_inv
    if rel_tol_inv_mult is not None: tol['rel_tol_inv_mult'] = rel_tol_inv_mult
    for group in ([[gates] for gates in every] if group_by_gates else [every]):
        curves = [PathFuzzyCurve.init_from_paths(p) for gates in group for p in PathsGenerator(dim=dim, div=div, links=gates, max_cdist=max_cdist).generate_paths(std=True, **limit)]
        yield estimator.estimate_dilation_sequence(curves, upper_bound=upper_bound, **tol)
