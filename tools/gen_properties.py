#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Base maps are the group of cube isometries with time reversal",
 "For every dimension, the product of two base maps is their composition (A*B applies B first; two time reversals cancel), the group inverse undoes a map on both sides, every integer power (negative, zero, positive) is the corresponding repeated product, and the identity map changes nothing. Time inversion toggles only the time direction, dropping to the cube part drops only the time direction, and conjugation by g yields g*x*inverse(g). Enumerating base maps yields every permutation/reflection/time direction exactly once, restricted by time direction only when the caller asks for it.",
 ["inputs"], "all dimensions, all pairs of base maps, all integer exponents",
 "test_base_maps checks inverses for dimensions 2-5 and two hand-written products; no exponent other than -1 and no mixed time-reversal product is asserted.",
 ["peano/base_maps.py"],
 [("composition, inverse, power, conjugation formulas on (coordinate, reflection) pairs", "peano/base_maps.py: class BaseMap")],
 observe=["BaseMap * BaseMap", "BaseMap ** n", "~BaseMap", "BaseMap.gen_base_maps"])

prop("C02", "A base map acts as one and the same isometry on every kind of object",
 "Applying a base map to a point, a vector, a sub-cube (in a div-grid or given by its integer corner), a cube index, a moment of time, a prototype, a gate link, a pointed path, a point on a curve or a facet subset always realises the same isometry: target coordinate j comes from the same source coordinate, reflected exactly when the map reflects it, within the extent of that object. Everything that is ordered in time (index, moment, prototype, link, path) is reversed exactly when the map reverses time, and no coordinate, cube or link is lost, added or left unmapped.",
 ["inputs"], "all base maps of all dimensions, all objects",
 "tests apply a handful of maps to zoo curves of dimension 2-4 and only compare the result after undoing the map, so errors that cancel are invisible.",
 ["peano/base_maps.py", "peano/subsets.py", "peano/paths.py", "peano/curves.py"],
 [("apply_x/apply_t/apply_vec/apply_cube/apply_cube_start/apply_cnum", "peano/base_maps.py: class BaseMap"),
  ("__rmul__ of Point, FacetDivSubset, Link, Proto, Path, CurvePoint", "peano/subsets.py, peano/paths.py, peano/curves.py")],
 observe=["BaseMap * object"])

prop("C03", "A symmetry applied to a curve transforms all of its fractions alike",
 "Applying a base map to a (possibly partially specified) multifractal maps every pattern: the prototype is mapped, every defined spec is conjugated by the cube part keeping its pattern, undefined specs stay undefined, and prototype and specs are reversed in order exactly when time is reversed, in which case the specs themselves are not altered. A base map keeps the selected pattern, a spec selects its own pattern. For curves given by gates only, the admissible specs of the image are exactly the images of the admissible specs.",
 ["inputs"], "all curves, all base maps and specs, any mixture of defined and undefined specs",
 "tests compare a curve with itself after a product of maps equal to the identity on zoo curves; pattern selection and the bookkeeping of gate-only curves under a non-trivial map are not asserted.",
 ["peano/curves.py", "peano/base_maps.py"],
 [("FuzzyCurve.__rmul__/__invert__/_apply_cube_map, Pattern.__invert__, PathFuzzyCurve overrides", "peano/curves.py"),
  ("Spec products and conjugation", "peano/base_maps.py: class Spec")],
 observe=["BaseMap * Curve", "Spec * Curve", "~Curve", "gen_allowed_specs"])

prop("C04", "Nested fractions and subdivisions compose specs along the way",
 "The orientation and pattern of the fraction reached by any sequence of nested cube indices is the left-to-right composition of the specs met on the way, where each index is read through the time direction accumulated so far. The k-th subdivision of a curve lists, in traversal order, every fraction of order k+1 of every pattern: its cube refined inside the parent cube, in the parent's orientation, and its composed spec; it keeps dimension and selected pattern and multiplies the division.",
 ["inputs"], "all curves, all nesting sequences, all k",
 "tests check only continuity of subdivisions of zoo curves (and one equality) and the composition law for a single step.",
 ["peano/curves.py"],
 [("_compose_specs, get_deep_spec, get_subdivision", "peano/curves.py: FuzzyCurve, Curve")],
 observe=["Curve.get_deep_spec", "Curve.get_subdivision"])

prop("C05", "Gates and face moments are exact limits of the digit expansion",
 "Entrance and exit of any pattern are the points whose coordinates have, in base div, the digits of the first (last) cube met at every nesting level in the current orientation; the first (last) moment at which a face is touched has, in base genus, the index of the first (last) cube touching that face at every level. The expansion is cut at the first repeated orientation and summed exactly as start plus repeating period, so the value is exact for every curve, pattern, face and direction.",
 ["inputs"], "all curves (including those with undefined inner specs), patterns, faces, first/last",
 "tests compare gates and moments of a few zoo curves; periods that do not start at zero, other patterns and other faces are not sampled.",
 ["peano/curves.py", "peano/utils.py"],
 [("get_periodic_sum", "peano/utils.py"), ("get_entrance, get_exit, get_face_moment, get_vertex_moments and helpers", "peano/curves.py")],
 observe=["get_entrance", "get_exit", "get_face_moment", "get_vertex_moments"])

prop("C06", "Library values are immutable after construction",
 "Once constructed, a base map, spec, point, facet subset, link, prototype, path, pattern, curve, junction, curve point, fraction position or bounded item is never modified by any operation of the library: no attribute is rebound and no container held by such a value (or passed in by the caller) is changed in place. Operations return new values; objects handed out earlier, members of sets and dictionary keys keep their meaning forever.",
 ["histories", "inputs"], "all sequences of operations on all values",
 "tests look at results, not at whether an argument or a previously returned object was altered; aliasing shows up only in particular sequences of calls.",
 ["peano/base_maps.py", "peano/subsets.py", "peano/paths.py", "peano/curves.py", "peano/dilation.py", "peano/_bounded_items_heap.py"],
 [("tuples in all fields, construction through new objects (_changed, type(self)(...))", "peano/*.py")],
 observe=["any value before and after any call"])

prop("C07", "Memoisation is invisible",
 "A memoised computation (interned base maps and specs, cached products and inverses, cached integer coordinates, cached bounds of a pair of fractions) always returns what a fresh computation for the same request would return. The stored result depends on nothing but the components of the key it is stored under and on constants, entries of different objects or estimators never mix, and the library never alters a result after storing it.",
 ["histories"], "all histories of calls, any cache state and size, any number of estimators and objects",
 "cache-hit errors need two particular different requests with one key in one process; tests never compare warm against cold caches.",
 ["peano/base_maps.py", "peano/utils.py", "peano/dilation.py", "peano/subsets.py"],
 [("BaseMap._obj_cache/_id_map_cache/_mul_cache/_inv_cache, Spec._obj_cache", "peano/base_maps.py"),
  ("lru_cache on get_int_cube_with_cache/get_int_time_with_cache", "peano/utils.py"),
  ("per-estimator lru_cache of _get_pos_bounds", "peano/dilation.py")],
 observe=["results with warm and cold caches"])

prop("C08", "Equality, hashing and ordering agree with the value's components",
 "Two values of the same kind (base maps, specs, facet subsets, links, paths, junctions, fraction positions, curves) compare equal exactly when all their defining components are equal, the comparison yields a plain boolean, and equal values hash equally; for links, paths and facet subsets the order used for standardisation compares the same components. Auxiliary data (junction depth, caches) take no part, and every defining component does.",
 ["inputs"], "all pairs of values",
 "equality is used by tests only on values that are equal; unequal values that would compare equal (or the reverse) are hardly sampled.",
 ["peano/base_maps.py", "peano/subsets.py", "peano/paths.py", "peano/curves.py", "peano/dilation.py"],
 [("__eq__/__hash__/__lt__ over one component tuple per class", "peano/*.py")],
 observe=["==, hash, <, set and dict membership"])

prop("C09", "Geometry and dilation bounds are computed in exact rational arithmetic",
 "Every coordinate, moment, ratio, threshold, tolerance and bound is an integer or an exact fraction from input to reported result: no binary floating-point number, no rounding and no truncating division of a rational quantity takes part in computing or comparing them. Floating point appears only in log and screen output and in scheduling how often the solver is called.",
 ["inputs"], "all curves, thresholds and tolerances",
 "rounding errors of 1e-16 are invisible to the tests' 0.1% windows on the sampled curves.",
 ["peano/utils.py", "peano/curves.py", "peano/dilation.py", "peano/subsets.py", "peano/base_maps.py", "search.py"],
 [("quicktions.Fraction everywhere, ratio functions", "peano/utils.py, peano/dilation.py")],
 observe=["lo/up/argmax", "points and moments"])

prop("C10", "Statistics, logging and ambient state never influence results",
 "Counters, statistics, progress numbers, cache information and log messages flow only into statistics and log output: no branch, loop bound, value or stored object that contributes to a result depends on them or on the logging level. No result depends on random numbers, clocks, environment variables, object addresses, or on data kept from earlier unrelated calls.",
 ["histories", "configurations"], "all logging configurations, all previous histories of the process",
 "tests run with one logging configuration and fresh objects.",
 ["peano/dilation.py", "peano/gates.py", "peano/paths.py", "peano/_cube_path_trees.py", "peano/_bounded_items_heap.py", "search.py"],
 [("sum_stats/max_stats/stats counters are write-only for the algorithms; logger calls are side-effect free", "peano/dilation.py, peano/gates.py, peano/_bounded_items_heap.py")],
 observe=["results with logging on/off and after other calls"])

prop("C11", "Bounds computed for a pair of fractions enclose its true dilation",
 "For any junction and any two fractions of equal depth or with the first one level deeper, the reported lower bound never exceeds and the upper bound is never below the supremum of ||x(s)-x(t)||^d/|s-t| over the two fractions: both are evaluated on the largest possible coordinate distance, the upper bound with the smallest and the lower bound with the largest possible time distance, after bringing both fractions through the junction's maps and shifts to one common scale. With known curve points, the lower bound may instead be the ratio of an actual pair of points of these fractions, which is then reported in absolute coordinates as the place where it is attained.",
 ["inputs"], "all junctions, positions, depths, dimensions, metrics that are monotone and homogeneous",
 "tests compare final dilations of zoo curves within 0.1%; a bound that is wrong only for some depth difference, orientation or dimension is absorbed by the search.",
 ["peano/dilation.py", "peano/utils.py", "peano/curves.py"],
 [("Estimator._get_pos_bounds", "peano/dilation.py"), ("integer coordinates of nested fractions", "peano/utils.py, peano/dilation.py: _PiecePosition"), ("ratio_l1, ratio_l2, ratio_l2_squared, ratio_linf", "peano/utils.py")],
 observe=["Estimator bounds"])

prop("C12", "Dilation estimation examines every pair of fractions",
 "The initial collection contains, for every pattern, every pair of its first-order fractions that are not equal or consecutive, and, for every junction, every pair of first-order fractions of its two sides except the one touching pair. Refining a pair replaces it by all pairs formed by the other fraction and every sub-fraction of the refined one under every admissible spec, each with the curve narrowed to exactly that spec and the correct nested position; the shallower (or first, when equal) fraction is refined.",
 ["inputs", "histories"], "all curves (fixed or partially specified), all refinement sequences",
 "a pair that is never generated only shows if the extremum of a sampled curve lies in it.",
 ["peano/dilation.py"],
 [("Estimator._create_tree", "peano/dilation.py"), ("_CurvePiece.divide, _CurvePiecePair.divide_balanced, Estimator._divide_tree", "peano/dilation.py")],
 observe=["pairs pushed to the collection"])

prop("C13", "A pair is set aside only on the strength of its own bounds",
 "An item of the bounded collection is dropped only if its upper bound does not exceed the good threshold, is set aside as bad only if it is not good and its lower bound reaches the bad threshold, and otherwise stays active; a missing threshold disables its rule. The good threshold can only rise, raising it drops exactly the active items it covers, the next item handed out always has the largest upper bound, the item with the largest lower bound ever seen is remembered, bad items are handed out exactly once, and a copy contains every item re-examined under its own thresholds.",
 ["histories", "inputs"], "all sequences of pushes, pops, threshold updates and copies",
 "the collection has no test of its own; wrong pruning is visible only if it hits the extremal pair of a sampled curve.",
 ["peano/_bounded_items_heap.py"],
 [("BoundedItemsHeap.push/pop/top/update_good_threshold/copy_and_cleanup/pop_bad_items", "peano/_bounded_items_heap.py")],
 observe=["BoundedItemsHeap"])

prop("C14", "Bounds reported for a curve are justified at every exit",
 "Whatever stops the estimation of a fully specified curve (tolerance, iteration limit, depth limit), the reported lower bound is the lower bound of some examined pair (and the reported place of attainment belongs to that pair), and the reported upper bound is not below the upper bound of any pair still active. The lower bound never decreases, the upper bound never increases, and pairs are discarded only against the current lower bound.",
 ["inputs", "histories"], "all curves and combinations of tolerance, iteration and depth limits",
 "tests use two parameter combinations on zoo curves.",
 ["peano/dilation.py"],
 [("Estimator.estimate_dilation_regular", "peano/dilation.py")],
 observe=["estimate_dilation_regular result"])

prop("C15", "A threshold test on a family of curves answers only what it has proved",
 "The test reports 'no curve' only after the solver found the accumulated constraints unsatisfiable, and returns a curve only when no undecided pair is left and the solver produced a model; every pair set aside as bad is turned into a constraint before any solver call that follows, and running out of iterations is reported as neither. The bisection above it raises the lower bound only to the bad threshold of a test that found no curve and lowers the upper bound only to the good threshold of a test that found one, remembers that curve with it, and its test thresholds always lie strictly in order between the current bounds.",
 ["inputs", "histories"], "all families of curves, thresholds, tolerances, iteration limits",
 "tests run three families with one tolerance.",
 ["peano/dilation.py"],
 [("Estimator.bisect_dilation_fuzzy, Estimator._forbid, Estimator.estimate_dilation_fuzzy", "peano/dilation.py")],
 observe=["bisect_dilation_fuzzy", "estimate_dilation_fuzzy"])

prop("C16", "Searching several families never loses a family that may be best",
 "Over any sequence of curve families, a family is dropped only if its proved lower bound exceeds the best upper bound known at that moment; the best upper bound is the minimum of the a-priori bound and the upper bounds found, the reported lower bound is the minimum over the surviving families, and each surviving example curve is reported with the index of its own family. Each family is re-examined with its own previous bounds and example, and 'nothing found' is reported only if every family was dropped.",
 ["inputs", "histories"], "all sequences (also one-shot iterators) of families, bounds and tolerances",
 "no test calls the sequence search.",
 ["peano/dilation.py"],
 [("Estimator.estimate_dilation_sequence", "peano/dilation.py")],
 observe=["estimate_dilation_sequence result"])

prop("C17", "The boolean encoding describes exactly the curves of the family",
 "The constraints given to the solver say: at every position exactly one of its admissible specs is chosen; every pattern's own junction is always present; every regular junction variable is true if and only if one of its template curves is matched, and a template is matched if and only if all its defined specs are chosen. Forbidding a junction with a partially defined curve adds precisely the negation of 'junction present and all these specs chosen', and different facts are never encoded by the same variable nor one fact by two.",
 ["inputs"], "all families of curves, junctions and forbidden configurations",
 "tests check satisfiability of extreme cases only (everything or nothing forbidden).",
 ["peano/_sat_adapters.py"],
 [("CurveSATAdapter._load_curve/_make_only/_make_curve_var/_make_junc_var/add_forbid_clause/_append_clause", "peano/_sat_adapters.py")],
 observe=["CNF clauses"])

prop("C18", "Solver sessions are independent and models are decoded faithfully",
 "An adapter copied from another starts with the same constraints and variable numbering and from then on neither affects the other; every solver call sees all constraints added so far and no others. A decoded curve takes at every position a spec that the model makes true (or that is unconstrained), keeps prototypes, dimension, division and selected pattern of the family, and decoding fails loudly rather than inventing a spec.",
 ["histories"], "all interleavings of copying, adding constraints, solving and decoding",
 "tests never copy an adapter and decode only fully determined curves.",
 ["peano/_sat_adapters.py"],
 [("CurveSATAdapter._copy_from/solve/_get_model/get_model_curve", "peano/_sat_adapters.py")],
 observe=["CurveSATAdapter"])

prop("C19", "The junctions of a curve are exactly its base junctions and their derivatives",
 "A junction between consecutive fractions carries their specs and the shift between their cubes; its derivative takes the last sub-fraction of the first side and the first sub-fraction of the second side as seen in their time directions, with the shift scaled by div and corrected by the two sub-cubes. All base junctions and all iterated derivatives are listed, each once, with depth equal to the smallest order of subdivision where it appears; junctions are stored in the standard form (first side without cube isometry, patterns ordered, time shift one) obtained by a symmetry or by time reversal of the whole pair.",
 ["inputs"], "all curves and all derivation orders",
 "tests check continuity of zoo junctions and the number/depth for a few curves.",
 ["peano/curves.py"],
 [("_get_base_junction, _get_derived_junction, _gen_junctions_from_base, RegularJunction, AutoJunction", "peano/curves.py")],
 observe=["gen_regular_junctions", "gen_auto_junctions", "get_depth"])

prop("C20", "Every grown cube path is a simple path filling the grid by allowed steps",
 "Every path produced by the path grower starts at a given start node, ends at a given finish node, visits every cube of the grid exactly once, stays inside the grid, and moves only by steps offered by the step rule for the current cube and state (the backward rule in the part grown from the finish). Joining a forward and a backward part happens only where they meet in the same cube and state and share no other cube.",
 ["inputs"], "all dimensions, divisions, step rules, start and finish sets",
 "tests count king and rook paths on grids up to 4x4.",
 ["peano/_cube_path_trees.py"],
 [("CubePathTree._continue_path/_check_glue/_glue_paths/grow, _CubePath", "peano/_cube_path_trees.py")],
 observe=["CubePathTree.grow"])

prop("C21", "Width limits of the path search change its cost, not its results",
 "The limits on how many start and finish paths are expanded in advance decide only when the breadth-first phase stops: the phase always hands over a complete level, i.e. all extensions of all paths of one length, never a truncated one, forward and backward parts together always fit the grid, and the depth-first phase extends every group of start paths to the meeting length. Start paths are merged only if they cover the same cubes and end in the same node, and each merged path is output with every completion.",
 ["configurations", "inputs"], "all values of the limits, all step rules",
 "tests use one or two limit settings per configuration.",
 ["peano/_cube_path_trees.py"],
 [("CubePathTree._width_search/_depth_search/_group_paths_by_future/grow", "peano/_cube_path_trees.py")],
 observe=["CubePathTree.grow"])

prop("C22", "Generated pointed prototypes use allowed links and continue one another",
 "The generator builds its step table from exactly the images of the given links under all cube isometries, in both directions: after a fraction with some exit, a step goes to a neighbouring cube only if the part of the exit lying in that cube meets the entrance of the next link, within the requested distance limit. Paths start and end in cubes where the global link (or the parent path) prescribes, follow the parent's cubes and links when one is given, and standardisation removes only paths that are images of an already produced path under maps preserving the global link (or parent).",
 ["inputs"], "all dimensions, divisions, links (points and facet subsets), parents and limits",
 "tests count paths for 13 point-gate configurations; facet links and parents are only used indirectly.",
 ["peano/paths.py"],
 [("PathsGenerator._init_entr2links/_init_exit2next/_gen_intersected_entr/generate_paths/generate_paths_generic", "peano/paths.py")],
 observe=["PathsGenerator.generate_paths", "get_paths_example"])

prop("C23", "Every reported gate tuple is on the boundary, standard, new and realisable",
 "The gates generator reports a tuple only after checking that every entrance and exit lies on the cube boundary (strictly inside a facet in facet mode), that the tuple is in standard form, that it was not reported before, and that for each of its links at least one path with these gates exists. Duplicate suppression concerns only tuples really seen in the same run and nothing else filters the candidates that the enumeration of first/last cubes and specs provides.",
 ["inputs", "histories"], "all dimensions, divisions, multiplicities and both modes, repeated runs of one generator",
 "tests compare counts for ten small configurations.",
 ["peano/gates.py"],
 [("GatesGenerator.gen_gates/_check_variants/_check_and_std", "peano/gates.py")],
 observe=["GatesGenerator.gen_gates"])

prop("C24", "Subsets are cut, placed and continued into neighbour cubes consistently",
 "For points and facet subsets: dividing a set yields exactly the grid cubes it meets inside the unit cube together with its part in each cube rescaled to the unit cube; its neighbours are exactly the other unit cubes that contain part of it, with that part in the neighbour's coordinates; placing a set into a cube is the inverse of dividing. Intersection tests and standard forms respect this geometry, and a link is continued, transformed and reversed entrance and exit alike.",
 ["inputs"], "all rational points, facet subsets, divisions, cubes",
 "tests check a few sets in dimension 2-3 by counting.",
 ["peano/subsets.py"],
 [("Point/FacetDivSubset divide, gen_neighbours, map_to_cube, intersects, std; Link", "peano/subsets.py")],
 observe=["Subset methods", "Link methods"])

prop("C25", "Completing a partially specified curve respects exactly its admissible specs",
 "A family given by pointed paths admits at a position exactly the specs (base map within the allowed group, pattern) that carry the gates of that pattern onto the gates of that fraction, and only the already defined spec once one is defined; specifying a position rejects anything else and changes nothing but that position. The example curve, the enumeration of all curves and their count use all and only the admissible specs independently for every position, and every conversion keeps prototypes, dimension, division and selected pattern.",
 ["inputs", "histories"], "all families, all sequences of specification",
 "tests enumerate three small families.",
 ["peano/curves.py"],
 [("PathFuzzyCurve.gen_allowed_specs/init_from_paths, FuzzyCurve.specify/_specify_allowed/get_curve_example/gen_possible_curves/count_possible_curves", "peano/curves.py")],
 observe=["gen_allowed_specs", "specify", "gen_possible_curves"])

prop("C26", "Text notation is read and written by the same convention",
 "For base maps, specs, prototypes, points and gates, the printed form of a value is accepted by the corresponding parser and denotes the same value: the same letter denotes the same axis, capitals the negative direction, the tilde time reversal, the leading number the pattern, parentheses a combined step, in every supported dimension. Parsing a prototype always places it in the smallest grid starting at the zero corner.",
 ["inputs"], "all values in the supported dimensions",
 "tests parse fixed strings and never print and re-read a value.",
 ["peano/base_maps.py", "peano/paths.py", "peano/subsets.py", "peano/utils.py"],
 [("parse/__str__ of BaseMap, Spec, Proto, Point; Link.parse_gates", "peano/base_maps.py, peano/paths.py, peano/subsets.py")],
 observe=["parse", "str"])

prop("C27", "Shipped entry points resolve, and every command-line option is honoured",
 "Every module and script of the repository imports only things that exist, and every call, attribute and keyword it uses on the library matches a definition with a compatible signature, on every path including rarely taken ones. Each command-line option of the search tool reaches the parameter of the search it is named after with its documented meaning (metric, bounds, limits, gates from argument or file, facet mode, grouping, output only), and a search without result is reported as such instead of failing.",
 ["inputs", "configurations"], "all modules, all code paths, all option combinations",
 "tests import neither the search tool nor the proof script and never run them.",
 ["search.py", "YE-proof.py", "plots.py", "peano/*.py"],
 [("argparse options and run_search parameters", "search.py")],
 observe=["search.py", "YE-proof.py", "imports"])

prop("C28", "Inputs declared as iterables may be one-shot",
 "Wherever the library accepts an iterable (patterns, specs, links, base-map groups, curves, items, start and finish nodes), passing an iterator that can be consumed only once gives the same result as passing a list: each such argument, and every generator the library creates internally, is traversed at most once or stored in a container first.",
 ["inputs"], "all public parameters declared iterable, all internal generators",
 "tests pass lists and tuples nearly everywhere.",
 ["peano/*.py", "search.py"],
 [("tuple()/list() at the entry of constructors", "peano/*.py")],
 observe=["results with iterators as arguments"])

prop("C29", "Every catalogued curve is well formed and fully described by its data",
 "Every curve of the catalogue consists of prototypes that visit each cube of one common grid exactly once, as many specs as cubes, valid signed permutations of the right dimension and existing pattern numbers; consecutive fractions share a point, and recorded gates agree with the curve's data. Every catalogue entry is part of the list of all curves.",
 ["inputs"], "all catalogue entries",
 "the zoo tests rely on the library's own parsing and continuity check, and cover only the listed entries.",
 ["peano/zoo.py"],
 [("literal tables", "peano/zoo.py")],
 observe=["zoo.get_all_curves", "zoo.get_*_curve"])

# --- properties that static analysis does not decide here (not_applicable) ---
prop("N01", "The reported minimum over all curves of a class is the true minimum",
 "For a given class of curves (dimension, division, multiplicity, gate restriction) the search reports bounds that contain the minimal dilation over all curves of that class.",
 ["inputs"], "all configurations",
 "exhaustive configurations take hours; tests cover single families.",
 ["search.py", "peano/gates.py", "peano/paths.py", "peano/dilation.py"],
 [("whole pipeline", "search.py: run_search")], observe=["search.py output"])
prop("N02", "Estimation reaches the requested tolerance",
 "For every curve or family and every tolerance, estimation without explicit limits terminates and the reported bounds differ by at most the requested relative tolerance.",
 ["inputs"], "all curves, tolerances", "termination for all inputs is not testable.",
 ["peano/dilation.py"], [("refinement loops", "peano/dilation.py")], observe=["estimate_dilation_*"])
prop("N03", "Enumeration of gates and paths is complete",
 "Every continuous pointed prototype with the given gates, and every realisable gate tuple of non-internal curves, is produced (up to symmetry when standardised).",
 ["inputs"], "all configurations", "tests compare counts for small configurations.",
 ["peano/paths.py", "peano/gates.py", "peano/_cube_path_trees.py"], [("generators", "peano/paths.py, peano/gates.py")], observe=["gen_gates", "generate_paths"])
prop("N04", "Published dilation values of catalogued curves are correct",
 "The dilation recorded for each catalogued curve in each metric equals (or encloses) the true dilation.",
 ["inputs"], "all catalogue entries and metrics", "tests check them within a window by running the estimator.",
 ["peano/zoo.py"], [("dilation tables", "peano/zoo.py")], observe=["zoo"])
prop("N05", "The search fits in memory and time for the published configurations",
 "The published computations finish within the documented time and memory.",
 ["configurations"], "published configurations", "they take minutes to hours.",
 ["search.py", "peano/dilation.py"], [("caches, heap cleanup", "peano/dilation.py")], observe=["run time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps(p) + '\n')
print(len(P))
