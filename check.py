"""Decide one property of /repo by bounded symbolic execution.

    python3-vt check.py C07 [--tier quick|thorough] [--job TEXT] [-v]

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION
line: a counterexample that the untransformed code reproduces.  Exit 2: the
engine could not decide (never on code it can execute).
"""
import argparse
import json
import os
import resource
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

LIMITS = {'quick': 420, 'thorough': 3300}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--procs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--validate', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.setrecursionlimit(100000)
    from sym import runner, xform
    t0 = time.time()
    budget = a.budget or LIMITS[a.tier]
    kw = {}
    if a.validate is not None:
        kw['validate'] = a.validate
    r = runner.explore(a.prop, a.tier, seed, budget, a.procs, only=a.job,
                       verbose=a.v, **kw)
    st = r['stats']
    incomplete = sum(j.incomplete for j in r['jobs'].values())
    vac = [n for n in r['jobnames']
           if n not in r['jobs'] or not r['jobs'][n].asserted]
    full = 0
    frac = {}
    for n in r['jobnames']:
        j = r['jobs'].get(n)
        if j is None:
            continue
        if not j.gen and j.weight == 1:
            full += 1
        frac[n] = j
    if a.v:
        for n in r['jobnames']:
            j = r['jobs'].get(n)
            if j:
                print('%-40.70s paths %6d  asserted %6d  gen %5d  covered %s'
                      '  inc %d  dec %d  %.1fs' % (
                          n, j.paths, j.asserted, j.gen,
                          'all' if j.weight == 1 else
                          '%.6f' % float(j.weight), j.incomplete, j.maxdec,
                          j.secs))
            else:
                print('%-40s not run' % n)
    viol = 1 if r['violation'] else 0
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed,
        'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
        'violations': viol,
        'assumptions': [
            'Bounds: ' + r['bounds'], 'Outside the claim: ' + r['outside'],
            'The transformation of the source and the models of the '
            'built-in operations (sym/) are faithful: validated on this run '
            'by running solver-chosen inputs natively.'],
        'coverage': {
            'states': st.get('paths', 0),
            'transitions': st.get('decisions', 0),
            'traces_validated_against_impl': st.get('conc_checked', 0),
            'samples': r['samples'][:12],
            'explanation':
                'states: symbolic paths, each a set of inputs sharing one '
                'execution of the real code; transitions: solver-decided '
                'branches; traces validated: paths whose model was run on '
                'the untransformed code with equal results',
            'exhaustive': bool(
                not r['truncated'] and not incomplete and not viol),
            'templates': r['njobs'],
            'templates_whose_paths_partition_all_inputs': full,
            'templates_with_z3_path_conditions': sum(
                1 for j in frac.values() if j.gen),
            'templates_without_completed_assert': vac[:20],
            'paths_by_template': dict(
                (n, j.paths) for n, j in list(frac.items())[:400]),
            'z3_queries': st.get('z3_queries', 0),
            'z3_unary_class_queries': st.get('z3_unary', 0),
            'z3_seconds': round(st.get('z3_time', 0), 2),
            'assertions': st.get('asserts', 0),
            'assertions_discharged_by_z3': st.get('asserts_z3', 0),
            'incomplete_paths': incomplete,
            'unreproduced_candidates': [
                str(x)[:400] for x in r['unreproduced'][:10]],
            'candidates_not_replayed': r['unjudged'],
            'engine_mismatches': [str(x)[:400] for x in r['mismatch'][:10]],
            'truncated_by_time': r['truncated'],
            'dead_workers': r['dead'],
            'functions_encoded': dict(
                (os.path.relpath(p, runner.REPO), fs)
                for p, fs in xform.FUNCS.items()
                if p.startswith(runner.REPO + os.sep)),
            'source_sha256': dict(
                (os.path.relpath(p, runner.REPO), h)
                for p, h in xform.SOURCES.items()
                if p.startswith(runner.REPO + os.sep)),
            'bounds': r['bounds'],
            'peak_rss_mb': resource.getrusage(
                resource.RUSAGE_CHILDREN).ru_maxrss // 1024,
        },
    }
    if not a.job:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
    for k in sorted(r['known']):
        print('KNOWN-FINDING: property=%s %s' % (
            a.prop, r['known'][k]['what']))
    print('%s %s: %d templates, %d paths, %d branches, %d asserts, %d z3 '
          'queries (%.1fs), %d validated natively, %d incomplete, %.1fs%s'
          % (a.prop, a.tier, r['njobs'], st.get('paths', 0),
             st.get('decisions', 0), st.get('asserts', 0),
             st.get('z3_queries', 0), st.get('z3_time', 0),
             st.get('conc_checked', 0), incomplete, time.time() - t0,
             ' (time budget reached)' if r['truncated'] else ''))
    if r['violation']:
        path, text = r['violation']
        print(text)
        print('VIOLATION property=%s replay=%s' % (
            a.prop, os.path.relpath(path, VERIF)))
        return 1
    bad = 0
    for what in ('unreproduced', 'mismatch', 'incomplete'):
        for x in r[what][:5]:
            print('INCOMPLETE', what, str(x)[:300])
        bad += len(r[what])
    if r['dead']:
        print('INCOMPLETE: %d workers died' % r['dead'])
    if vac and not r['truncated']:
        print('INCOMPLETE: no assertion reached in', vac[:10])
    ok = sum(j.asserted for j in r['jobs'].values())
    if not ok or (vac and not r['truncated'] and len(vac) == r['njobs']) or \
       bad > ok:
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
