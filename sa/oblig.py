"""
Obligations: "function F of the repository computes what specification S says".

Specifications live in /verif/specs as small Python functions that are parsed,
never executed.  Function and specification are both turned into value graphs
(interp/terms); the obligation is discharged when the normal forms coincide.

    @of('Class.method' | 'function' | 'pkg.mod:function', props='C01 C02', ...)
    def name(self, a, b): ...          # parameters are matched by position

    @law('C01')                        # both components must coincide
    def name(a: BaseMap, b: BaseMap): return lhs, rhs

Verdicts: PROVED (same normal form), DIFFERS (different normal forms and a
valuation of the inputs on which the graphs disagree), UNKNOWN (neither).
Only DIFFERS is reported.
"""
from __future__ import annotations
import ast
import os
import sys
import time
import resource
import multiprocessing as mp
from . import terms as t, interp, loader, evalg, builtins_, types as ty
from .interp import Interp, Unsupported
from .loader import FuncInfo, ModuleInfo
from .terms import T, mk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, 'specs')


class Ob:
    def __init__(self, mod, node, kind, target, props, opts):
        self.mod, self.node, self.kind, self.target, self.props, self.opts = mod, node, kind, target, props, opts
        self.name = '%s:%s' % (os.path.basename(mod.relpath)[:-3], node.name)


class SpecModule(ModuleInfo):
    is_spec = True


class _SpecRoot:
    """stands in for Repo when a specification module is read"""
    def __init__(self): self.root = SPECS


def load(repo):
    obs = []
    for f in sorted(os.listdir(SPECS)):
        if not f.endswith('.py'): continue
        m = SpecModule(_SpecRoot(), f)
        m.repo = repo
        m.name = 'spec.' + f[:-3]
        for node in m.tree.body:
            if not isinstance(node, ast.FunctionDef): continue
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('of', 'law'):
                    a = [ast.literal_eval(x) for x in d.args]
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    if d.func.id == 'of': obs.append(Ob(m, node, 'of', a[0], kw.pop('props', '').split(), kw))
                    else: obs.append(Ob(m, node, 'law', None, a[0].split(), kw))
    return obs


# the public operations (of the tree the specifications were written for) that are kept
# uninterpreted while other functions are compared; anything else is looked through
API = set('''
act
BaseMap.__mul__ BaseMap.__pow__ BaseMap.__invert__ BaseMap.get_inverse BaseMap.conjugate_by BaseMap.cube_map BaseMap.id_map
BaseMap.apply_x BaseMap.apply_t BaseMap.apply_vec BaseMap.apply_cube BaseMap.apply_cube_start BaseMap.apply_cnum
BaseMap.gen_base_maps BaseMap.gen_constraint_fast BaseMap.parse BaseMap.__str__
Spec.parse Spec.__str__ Spec.conjugate_by
Pattern.parse Pattern.__str__ Pattern.__invert__ Proto.__invert__ Proto.parse Proto.__str__ Path.__invert__ Path.is_continuous
FuzzyCurve.__str__ FuzzyCurve.__invert__ FuzzyCurve.get_deep_spec FuzzyCurve.gen_allowed_specs FuzzyCurve.get_curve_example
FuzzyCurve.gen_possible_curves FuzzyCurve.count_possible_curves FuzzyCurve.gen_defined_specs FuzzyCurve.specify FuzzyCurve.get_entrance
FuzzyCurve.get_exit FuzzyCurve.get_vertex_moments FuzzyCurve.get_face_moment FuzzyCurve.gen_auto_junctions
FuzzyCurve.get_junction_templates FuzzyCurve.gen_regular_junctions
Curve.parse Curve.gen_allowed_specs Curve.get_paths Curve.forget Curve.get_subdivision Curve.check Curve.gen_regular_junctions Curve.get_depth
PathFuzzyCurve.__invert__ PathFuzzyCurve.gen_allowed_specs PathFuzzyCurve.init_from_paths Junction.__str__
_PiecePosition.specify _PiecePosition.get_int_coords _CurvePiece.get_last_spec _CurvePiece.divide
_CurvePiecePair.init_first_order _CurvePiecePair.get_last_specs _CurvePiecePair.divide_balanced
Estimator.get_info Estimator.estimate_dilation_regular Estimator.bisect_dilation_fuzzy Estimator.estimate_dilation_fuzzy Estimator.estimate_dilation_sequence
BoundedItemsHeap.update_good_threshold BoundedItemsHeap.size BoundedItemsHeap.items BoundedItemsHeap.push BoundedItemsHeap.top
BoundedItemsHeap.pop BoundedItemsHeap.pop_bad_items BoundedItemsHeap.copy_and_cleanup
_CubePath.flat _CubePath.support _CubePath.tail_support _CubePath.future _CubePath.future_hash _CubePath.complement_future_hash CubePathTree.grow
CurveSATAdapter.add_forbid_clause CurveSATAdapter.get_problem_size CurveSATAdapter.solve CurveSATAdapter.get_model_curve
GatesGenerator.gen_gates PathsGenerator.get_paths_example PathsGenerator.generate_paths PathsGenerator.generate_paths_generic
Subset.intersects Subset.map_to_cube Subset.gen_neighbours Subset.divide Subset.std Subset.argmul_intersect Subset.transform
Point.transform Point.map_to_cube Point.intersects Point.gen_neighbours Point.divide Point.__str__ Point.parse Point.std Point.argstd Point.face_dim
FacetDivSubset.intersects FacetDivSubset.all_cube_maps FacetDivSubset.argmul_intersect FacetDivSubset.map_to_cube FacetDivSubset.gen_neighbours
FacetDivSubset.divide FacetDivSubset.__str__
Link.transform Link.std Link.__invert__ Link.__str__ Link.intersects Link.argmul_intersect Link.parse_gates
ratio_linf ratio_l1 ratio_l2_squared ratio_l2 get_int_cube_with_cache get_int_time_with_cache get_periodic_sum get_lcm gen_faces combinations_product
'''.split())

BASIC = {'act', 'BaseMap.__mul__', 'BaseMap.__pow__', 'BaseMap.get_inverse', 'BaseMap.__invert__', 'BaseMap.conjugate_by', 'BaseMap.id_map', 'BaseMap.cube_map'}


def set_api(names): API.update(names)


class Res(dict):
    __getattr__ = dict.get


def ops_of(x, acc=None):
    """uninterpreted operation symbols of a graph"""
    acc = set() if acc is None else acc
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple): st.extend(y); continue
        if not isinstance(y, T) or y in seen: continue
        seen.add(y)
        if y.op.startswith(('m:', 'fx:', 'make:', 'x:')) or y.op in ('call', 'new*', 'unk', 'fresh', 'raises', 'hasattr'):
            acc.add(y.op)
        if y.op == 'attr': acc.add('.' + y.args[1])
        if y.op == 'var': acc.add('$' + y.args[0])
        st.extend(y.args)
    return acc


def fname(d):
    return d.split(':', 1)[1].split('#')[0].split('.')[-1]


def repo_functions(repo):
    out = {q.split('.')[-1] for q in API} | {'get_model', 'append_formula', 'solve', 'Glucose3'}
    for m in repo.modules.values():
        out |= {n.name for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    return out


def known_attr(repo, a):
    if any(k[1] == a for k in ty.ATTR): return True
    for ps in evalg.PRIMARY.values():
        if a in ps: return True
    return False


def run_side(repo, fi, owner, names, types_, opaque, extra=None, unroll=1, kwkeys=()):
    I = Interp(repo, opaque=opaque)
    I.unroll = unroll
    I.kwkeys = kwkeys
    if extra: I.overrides = extra
    at, tm = {}, {}
    params = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    params += [x.arg for x in fi.node.args.kwonlyargs]
    off = 1 if (fi.cls is not None and not fi.is_static() and params and params[0] in ('self', 'cls')) else 0
    ps = params[off:]
    for p, n, ty_ in zip(ps, names, types_):
        if ty_ is not None: at[p] = ty_
        tm[p] = t.var(n, ty_)
    out = I.analyse(fi, owner, at, tm)
    # normalise names of outputs that mention parameters
    ren = dict(zip(ps, names))
    res = {}
    for k, v in out.items():
        if k in ('return', 'yield'): res['result'] = v; continue
        b = k.split('.')[0].split('[')[0]
        res[ren.get(b, b) + k[len(b):]] = v
    return I, res


def fieldset(repo, ci):
    out = set()
    if ci is None: return out
    for c in repo.mro(ci):
        out |= set(c.annots) | set(c.consts)
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): out.add(n.attr)
    return out


def same(a, b, mode):
    if a is b: return True
    try:
        if mode == 'bag':
            x, y = seqterm(a), seqterm(b)
            return x is y or (x.op == 'cat' and y.op == 'cat' and t.bag(x) is t.bag(y))
        if mode == 'set':
            x, y = seqterm(a), seqterm(b)
            return x is y or t.setof(x) is t.setof(y)
        if mode == 'bool': return t.truthy(a) is t.truthy(b)
    except t.TooBig: raise
    except Exception: pass
    return False


def seqterm(a): return a


def decide(repo, ob, seed=1, tier='quick', trace=None):
    saved = dict(ty.ATTR)
    interp.LAZY[0] = bool(ob.opts.get('lazy'))
    try: return decide_(repo, ob, seed, tier, trace)
    finally: ty.ATTR.clear(); ty.ATTR.update(saved); interp.LAZY[0] = False


def decide_(repo, ob, seed=1, tier='quick', trace=None):
    """-> Res(verdict, ...)"""
    t0 = time.process_time()
    o = ob.opts
    budget = o.get('time', 20 if tier == 'quick' else 60)
    fi = owner = None
    if ob.kind == 'of':
        fi = repo.func(ob.target)
        if fi is None: return Res(verdict='ABSENT', why='no function %s' % ob.target)
        cn = ob.target.split(':')[-1].rsplit('.', 1)[0] if '.' in ob.target.split(':')[-1] else None
        owner = repo.cls(cn) if cn else fi.cls
        if o.get('own') and fi.cls is not owner: return Res(verdict='ABSENT', why='%s inherits the method' % cn)
    node = ob.node
    off = 1 if node.args.args and node.args.args[0].arg in ('self', 'cls') and ob.kind == 'of' else 0
    sp = (node.args.posonlyargs + node.args.args)[off:] + node.args.kwonlyargs
    names = [x.arg for x in sp]
    st = [ty.of_ann(x.annotation, repo, owner) for x in sp]
    if fi is not None:
        ps = fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs
        po = 1 if (fi.cls is not None and not fi.is_static() and ps and ps[0].arg in ('self', 'cls')) else 0
        ps = ps[po:]
        if len(ps) < len(names): return Res(verdict='UNKNOWN', why='signature changed')
        for k in range(len(names)):
            if st[k] is None: st[k] = ty.of_ann(ps[k].annotation, repo, owner)
        for p in ps[len(names):]:     # new optional parameters keep their defaults
            pass
    opq = o.get('opaque', 'api' if ob.kind == 'of' else 'none')
    if isinstance(opq, str): opaque = {'api': set(API), 'basic': set(BASIC), 'none': set()}[opq]
    else: opaque = set(opq)
    opaque -= set(o.get('inline', ()))
    if ob.target: opaque.discard(ob.target.split(':')[-1]); 
    if fi is not None: opaque.discard(fi.qual)
    opaque |= set(o.get('keep', ()))
    if o.get('types'):
        for k, v in o['types'].items(): ty.ATTR[tuple(k.split('.'))] = ty.of_ann(ast.parse(v, mode='eval').body, repo)
    modes = o.get('mode', 'seq')
    if isinstance(modes, str): modes = {'result': modes}
    log = []
    verdict = None
    rounds = 0
    limit = o.get('limit', 250_000)
    last = None
    while rounds < 6:
        rounds += 1
        t.reset_budget(limit)
        t.DEADLINE = t0 + budget
        try:
            if ob.kind == 'law':
                IA, A = run_side(repo, FuncInfo(ob.mod, None, half(node, 0)), None, names, st, opaque, unroll=o.get('unroll', 1), kwkeys=o.get('kwkeys', ()))
                IB, B = run_side(repo, FuncInfo(ob.mod, None, half(node, 1)), None, names, st, opaque, unroll=o.get('unroll', 1), kwkeys=o.get('kwkeys', ()))
            else:
                IA, A = run_side(repo, fi, owner, names, st, opaque, unroll=o.get('unroll', 1), kwkeys=o.get('kwkeys', ()))
                sfi = FuncInfo(ob.mod, owner, node)
                sfi.decorators = list(fi.decorators)
                IB, B = run_side(repo, sfi, owner, names, st, opaque, unroll=o.get('unroll', 1), kwkeys=o.get('kwkeys', ()))
        except (Unsupported, t.TooBig, RecursionError) as e:
            why = '%s %s' % (type(e).__name__, e)
            if last is not None: last['note'] = 'deeper inlining: ' + why; return last
            if trace: import traceback; traceback.print_exc()
            return Res(verdict='UNKNOWN', why=why, rounds=rounds)
        except Exception as e:
            if trace: raise
            why = 'internal %s %s' % (type(e).__name__, e)
            if last is not None: last['note'] = why; return last
            return Res(verdict='UNKNOWN', why=why)
        for x, slot, v, w in IA.claims:
            n = 'memo%d' % len([k for k in A if k.startswith('memo')])
            A[n], B[n] = v, w
        keys = sorted(set(A) | set(B))
        mism, unk = [], []
        fs = fieldset(repo, owner) if ob.kind == 'of' else set()
        for k in keys:
            if k in o.get('ignore', ()): continue
            if k not in A or k not in B:
                if k == 'result': unk.append((k, 'no result')); continue
                base, _, f = k.partition('.')
                if base != 'self' or not f: unk.append((k, 'effect on %s on one side only' % k)); continue
                if k not in A:
                    if f not in fs: unk.append((k, 'field %s is gone' % f)); continue
                    if o.get('init'): unk.append((k, 'field not set')); continue
                    A[k] = mk('attr', t.var('self', ('cls', owner.name)), f)
                else:
                    if f.startswith('_') and f not in o.get('fields', ()) and not known_attr(repo, f): continue
                    if o.get('init') or f not in {z[1] for z in ty.ATTR}: continue
                    B[k] = mk('attr', t.var('self', ('cls', owner.name)), f)
            if not same(A[k], B[k], modes.get(k, 'seq')): mism.append(k)
        if trace:
            for k in keys:
                trace('--- %s %s' % (k, 'SAME' if k not in mism else 'DIFFERENT'))
                if k in mism or trace.__name__ == 'full':
                    trace('  code: %s' % (A.get(k),)); trace('  spec: %s' % (B.get(k),))
        if not mism:
            if unk: return Res(verdict='UNKNOWN', why='; '.join('%s: %s' % u for u in unk), rounds=rounds)
            return Res(verdict='PROVED', rounds=rounds, outputs=keys, inlined=sorted(IA.inlined), opaque=sorted(IA.used_opaque), terms=t._count)
        oa, obs_ = set(), set()
        for k in mism: ops_of(A[k], oa); ops_of(B[k], obs_)
        diff = oa ^ obs_
        # functions occurring on one side only are looked through on both sides
        one = {d[2:] for d in diff if d.startswith('m:')} | {d[3:].split('#')[0] for d in diff if d.startswith('fx:')}
        used = IA.used_opaque | IB.used_opaque
        more = {q for q in opaque if q.split('.')[-1] in one} | {q for q in used if q.split('.')[-1] in one and q in opaque}
        mk_ = {'new:' + d[5:] for d in diff if d.startswith('make:')} & opaque
        more |= mk_
        resolved = True
        # evaluate
        bad = [d for d in diff if d.startswith(('m:', 'fx:', 'x:', 'make:')) or d in ('call', 'new*', 'unk', 'fresh', 'raises', 'hasattr')
               or (d.startswith('.') and not known_attr(repo, d[1:])) or d.startswith('$')]
        # an attribute or input that the code no longer uses is no obstacle: dropping is a change of the graph
        bad = [d for d in bad if not (d in obs_ and (d.startswith('.') or d.startswith('$')))]
        bad = [d for d in bad if not (d.startswith('$') and d[1:] in names + ['self'])]
        # nor is a function of the repository that the code no longer calls, once there is nothing left to look through
        if not more:
            fns = repo_functions(repo)
            bad = [d for d in bad if d in oa or not d.startswith(('m:', 'fx:', 'make:')) or fname(d) not in fns]
        strictraise = o.get('raises') == 'strict'
        evs = []
        for k in mism:
            if modes.get(k) == 'skip': continue
            left = max(2.0, min(o.get('eval', 10.0), t0 + budget - time.process_time()))
            vd, info = evalg.compare(A[k], B[k], repo, modes.get(k, 'seq'), samples=o.get('samples', 60 if tier == 'quick' else 240), seed=seed, budget=left, strict=strictraise and k == 'result', pre=o.get('pre'), values=o.get('values'), dropped=IA.dropped, sdropped=IB.dropped, free=3.0 if tier == 'quick' else 12.0)
            evs.append((k, vd, info))
        log.append(evs)
        if trace: trace('round %d diff=%s bad=%s evals=%s' % (rounds, sorted(diff), sorted(bad), evs))
        differs = [e for e in evs if e[1] == 'differ']
        if not differs:
            r = Res(verdict='UNKNOWN' if any(e[1] == 'none' for e in evs) else 'AGREES', why=str([(k, vd) for k, vd, i in evs]) + (str(evs[0][2])[:200]), rounds=rounds, inlined=sorted(IA.inlined), opaque=sorted(IA.used_opaque))
            nxt = {q for q in used if q in opaque} | {q for q in opaque if q.startswith('new:') and any(('make:' + q[4:]) in z for z in (oa, obs_))} | ({'act', 'BaseMap.__mul__', 'BaseMap.__invert__'} & opaque if not o.get('noact') else set())
            # agreement on trivial values only does not overrule a difference found before
            if last is not None and last['verdict'] == 'DIFFERS' and not any(e[2].get('solid', 0) >= 5 for e in evs if e[1] == 'agree'):
                last['note'] = 'deeper inlining: no informative valuation'
                return last
            if last is None or last['verdict'] != 'AGREES': last = r
            if r['verdict'] != 'AGREES': return last
            if not nxt or o.get('shallow') or o.get('enough'): return r
            opaque -= nxt
            continue
        # fields of records that the graph itself builds are interpreted
        loose = {z if z.startswith('m:') else '.' + z for e in differs for z in e[2].pop('loose', ())}
        bad = [d for d in bad if not (d.startswith('.') or d in ('m:std', 'm:argstd')) or d in loose]
        res = Res(verdict='DIFFERS' if not bad else 'UNKNOWN', why='uninterpreted on one side: %s' % sorted(bad) if bad else None, where=fi.where if fi else 'law', outputs=[d[0] for d in differs],
                  witness=differs[0][2], code=clip(A[differs[0][0]]), spec=clip(B[differs[0][0]]), rounds=rounds, inlined=sorted(IA.inlined), opaque=sorted(IA.used_opaque))
        if bad and not more:
            if not used & opaque: return res
        # before an alarm is raised everything in reach is looked through once
        nxt = more or ({q for q in used if q in opaque} | {q for q in opaque if q.startswith('new:') and any(('make:' + q[4:]) in s for s in (oa, obs_))} | ({'act'} & opaque if not o.get('noact') else set()))
        if not nxt or (not bad and o.get('shallow')): return res
        if last is not None and last['verdict'] == 'AGREES': return last
        last = res if res['verdict'] == 'DIFFERS' or last is None else last
        if time.process_time() - t0 > budget: return last
        opaque -= nxt
    return last


def half(node, k):
    r = node.body[-1]
    assert isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts) == 2
    n = ast.FunctionDef(node.name, node.args, node.body[:-1] + [ast.copy_location(ast.Return(r.value.elts[k]), r)], [], None, None)
    return ast.fix_missing_locations(ast.copy_location(n, node))


def clip(x): return repr(x)[:600]


# ------------------------------------------------------------------ running many
def _job(root, name, seed, tier, q):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(12000)
    try:
        repo = loader.Repo(root)
        ob = next(o for o in load(repo) if o.name == name)
        r = decide(repo, ob, seed, tier)
    except MemoryError: r = Res(verdict='UNKNOWN', why='memory')
    except BaseException as e: r = Res(verdict='UNKNOWN', why='%s %s' % (type(e).__name__, e))
    q.send(dict(r)); q.close()


def run_all(root, obs, seed, tier, jobs=8, cap=None):
    """each obligation in its own process, with a time and memory limit"""
    import threading
    threading.stack_size(256 << 20)
    cap = cap or (240 if tier == 'quick' else 300)
    todo = list(obs)
    running = []
    out = {}
    while todo or running:
        while todo and len(running) < jobs:
            ob = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_job, args=(root, ob.name, seed, tier, b))
            p.start(); b.close()
            running.append((ob, p, a, time.time()))
        time.sleep(0.01)
        for it in list(running):
            ob, p, a, ts = it
            if a.poll():
                try: out[ob.name] = Res(a.recv())
                except EOFError: out[ob.name] = Res(verdict='UNKNOWN', why='process ended')
                p.join(1); running.remove(it)
            elif not p.is_alive():
                out[ob.name] = Res(verdict='UNKNOWN', why='process ended'); running.remove(it)
            elif time.time() - ts > cap:
                p.kill(); p.join(); out[ob.name] = Res(verdict='UNKNOWN', why='time limit'); running.remove(it)
            if ob.name in out: out[ob.name]['seconds'] = round(time.time() - ts, 2)
    return out


if __name__ == '__main__':
    sys.setrecursionlimit(12000)
    root = os.environ.get('PEANO_REPO', '/repo')
    repo = loader.Repo(root)
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    obs = [o for o in load(repo) if not pats or any(p in o.name or p in o.props or (o.target and p == o.target) for p in pats)]
    if '-v' in sys.argv or '-vv' in sys.argv:
        def full(s): print(s[:6000])
        def part(s): print(s[:6000])
        for o in obs:
            print('=====', o.name, o.target)
            t1 = time.time()
            r = decide(repo, o, 1, 'quick', full if '-vv' in sys.argv else part)
            print({k: v for k, v in r.items() if k not in ('code', 'spec')}, '%.2f' % (time.time() - t1))
    else:
        rs = run_all(root, obs, int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'))
        for o in obs:
            r = rs[o.name]
            print('%-9s %-40s %-40s %5.1fs r%s %s' % (r.verdict, o.name, o.target or 'law', r.seconds or 0, r.rounds, (r.why or '')[:150] if r.verdict != 'DIFFERS' else str(r.witness)[:300]))
        from collections import Counter
        print(Counter(r.verdict for r in rs.values()))
