"""
Driver: decides one property on the current source of /repo.

  check <ID>            exit 0 quiet / 1 with VIOLATION lines; writes evidence/<ID>.json
"""
from __future__ import annotations
import json
import os
import sys
import time
from . import loader, oblig, rules, rules_df, rules_zoo, rules_calls

HERE = oblig.HERE
ROOT = os.environ.get('PEANO_REPO', '/repo')


def known(prop):
    """lines `known: property=<id> <key>`; fixed entries suppress nothing"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    sys.setrecursionlimit(12000)
    repo = loader.Repo(ROOT)
    findings = []      # (key, text)
    obs = [o for o in oblig.load(repo) if prop in o.props]
    res = oblig.run_all(ROOT, obs, seed, tier)
    cnt = {}
    details = []
    for o in obs:
        r = res[o.name]
        cnt[r['verdict']] = cnt.get(r['verdict'], 0) + 1
        d = {'obligation': o.name, 'function': o.target or 'law', 'verdict': r['verdict'], 'seconds': r.get('seconds')}
        for k in ('why', 'note', 'outputs', 'inlined', 'opaque', 'rounds'):
            if r.get(k): d[k] = r[k]
        details.append(d)
        if r['verdict'] == 'DIFFERS':
            what = o.opts.get('msg') or 'does not compute what the specification %s says' % o.name
            findings.append(('%s %s' % (o.target or 'law', o.name),
                             '%s: %s (%s)\n  outputs: %s\n  witness: %s\n  code graph: %s\n  spec graph: %s' % (
                                 r.get('where') or o.target, what, 'specs/' + o.mod.relpath, r.get('outputs'), r.get('witness'), r.get('code'), r.get('spec'))))
    rcov = {}
    for name, fn in rules.RULES.get(prop, []):
        try:
            fs, cov = fn(repo)
        except loader.AnalysisBroken: raise
        rcov[name] = cov
        for f in fs: findings.append((f.key, f.text()))
    # the value graphs look through memo tables: in the functions that decide this property the tables must be transparent
    mine = {o.target.split(':')[-1] for o in obs if o.target}
    if prop != 'C07' and mine:
        n = 0
        for name, fn in rules.RULES['C07']:
            fs, cov = fn(repo)
            n += cov.get('obligations', 0)
            for f in fs:
                if f.where.split(' ')[-1] in mine and f.key not in {k for k, _ in findings}: findings.append((f.key, f.text()))
        rcov['memo tables of the functions above are transparent'] = {'obligations': 0, 'program points': n, 'functions': len(mine)}
    kn = known(prop)
    viol, shown = [], []
    for k, tx in findings:
        if k in kn: shown.append((k, tx))
        else: viol.append((k, tx))
    ev = os.environ.get('PEANO_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    functions = sorted({x for d in details for x in [d['function']] + d.get('inlined', []) if x != 'law'})
    ruleobl = sum(c.get('obligations', 0) for c in rcov.values())
    explanation = ('Static analysis of the current source of /repo (nothing of it is executed). '
                   '%d value-graph obligations: %s. %d functions were turned into value graphs. '
                   'PROVED = code and specification have the same normal form; AGREES = the normal forms differ but no valuation separates the graphs (no alarm); '
                   'UNKNOWN = the analysis cannot interpret a construct (no alarm). %d dataflow rules examined %d program points.' % (
                       len(obs), ', '.join('%s %d' % kv for kv in sorted(cnt.items())) or 'none', len(functions), len(rcov), ruleobl))
    rep = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'obligations': len(obs) + ruleobl, 'discharged': cnt.get('PROVED', 0) + ruleobl - sum(c.get('failed', 0) for c in rcov.values()),
            'verdicts': cnt, 'functions_analysed': functions, 'rules': rcov, 'details': details,
            'samples': [d for d in details[:3]] + [dict({a: b for a, b in list(v.items())[:5]}, name=k) for k, v in list(rcov.items())[:2]],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(ev, prop + '.json'), 'w', encoding='utf-8') as f: json.dump(rep, f, indent=1, default=str)
    for k, tx in shown: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        p = os.path.join(ev, prop + '.violation.txt')
        with open(p, 'w', encoding='utf-8') as f:
            for k, tx in viol: f.write('[%s] %s\n\n' % (k, tx))
        for k, tx in viol: print('  ' + tx.replace('\n', '\n  ')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    p = os.path.join(ev, prop + '.violation.txt')
    if os.path.exists(p): os.unlink(p)
    print('%s: quiet. %s' % (prop, explanation))
    return 0


ASSUMPTIONS = [
    'CPython semantics of the language subset modelled in sa/interp.py; library calls behave as modelled in sa/builtins_.py',
    'parameters have the annotated types; base maps, prototypes and paths satisfy their class invariants',
    'objects of the value classes are not mutated after construction and memo tables are transparent (these are C06 and C07)',
]
