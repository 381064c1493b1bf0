#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property of /repo by bounded symbolic execution (see DESIGN.md).
"""
import argparse
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
VENV_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: property=%s ' % prop):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    sys.path.append(VENV_Z3)
    import warnings
    warnings.simplefilter('ignore')
    from symex import loader, rng as rngmod, runner, harness, state
    rng = rngmod.Rng()
    loader.install(rng, rng)
    mod = harness.module(a.property)
    for m in getattr(mod, 'MODULES', ()):      # warm import before forking
        try:
            __import__(m)
        except Exception:
            pass
    state.snapshot()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    r = runner.run(a.property, tier, rng, jobs=a.jobs, budget=a.budget, only=a.only, verbose=a.v,
                   opts=getattr(mod, 'OPTS', {}))
    g = r['agg']
    known = known_findings(a.property)
    fresh = [f for f in r['found'] if not any(k.split(' ')[0] == f['label'] for k in known)]
    ev = {
        'property': a.property, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking', 'wall_s': round(r['wall'], 2), 'violations': len(fresh),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'coverage': {
            'states': g['paths'], 'transitions': g['branches'], 'traces_validated_against_impl': r['validated'],
            'samples': r['samples'][:6],
            'exhaustive': not r['incomplete'] and not r['gaps'] and not g['realisations'] and not g['unknown'] and not r['found'],
            'what_counts': 'states = feasible symbolic paths fully executed; transitions = branch decisions taken',
            'functions_encoded': ['%s:%s' % f for f in r['functions']],
            'bounds': {h.name: h.bounds for h in mod.HARNESSES},
            'configurations': [{'harness': h.name, 'cfg': c, **{k: round(v, 2) for k, v in p.items()}} for (h, c), p in zip(r['tasks'], r['per_task'])],
            'solver_queries': g['queries'], 'solver_s': round(g['solver_s'], 2),
            'assertions_discharged': g['checks'], 'assertions_by_identity_or_constant': g['trivial_checks'],
            'infeasible_prefixes': g['infeasible'], 'paths_cut_at_bound': r['cuts'],
            'realised_values': g['realisations'], 'undecided_branches': g['unknown'],
            'paths_decided_only_concretely': len(r['gaps']), 'unexplored_prefixes': r['incomplete'],
            'sampled_traces_skipped': r['vskip'],
            'reached': {'%s:%s' % (r['tasks'][ti][0].name, k): 0 for (ti, k) in r['covers']},
        },
    }
    for (ti, k), v in r['covers'].items():
        ev['coverage']['reached']['%s:%s' % (r['tasks'][ti][0].name, k)] += v
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d branches, %d assertions, %d queries, %.1fs solver, %d traces validated, %.1fs' % (
        a.property, tier, g['paths'], g['branches'], g['checks'], g['queries'], g['solver_s'], r['validated'], r['wall']))
    for gp in r['gaps'][:5]:
        print('GAP', gp['what'], '| concrete:', gp['answer'])
        if a.v:
            print(gp['trace'])
    if g['realisations']:
        print('REALISED', g['realisations'])
    if r['incomplete']:
        print('INCOMPLETE: %d prefixes unexplored when the time budget ended' % r['incomplete'])
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k))
    if fresh:
        f = fresh[0]
        h, cfg = r['tasks'][f['task']]
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, a.property + '.json')
        with open(rp, 'w') as fh:
            json.dump({'property': a.property, 'harness': h.name, 'cfg': cfg, 'inputs': f['inputs'], 'label': f['label'],
                       'detail': f['detail'], 'eager': r.get('eager', False), 'how': f['how'], 'answer': f['answer']}, fh, indent=1, default=str)
        print('  %s: %s (%s)' % (f['label'], f['detail'], f['how']))
        print('  harness %s cfg %s; replay: cd %s && %s -m symex.replay %s' % (h.name, cfg, VERIF, sys.executable, rp))
        print('  concrete: %s' % {k: v for k, v in f['answer'].items() if k != 'trace' or a.v})
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    if r['errors']:
        for e in r['errors'][:5]:
            print('ERROR', json.dumps(e, default=str)[:3000])
        return 2
    if g['paths'] == len(r['gaps']):
        print('ERROR nothing was decided symbolically')
        return 2
    if r['missing'] and not r['gaps']:
        print('ERROR vacuous: never reached', r['missing'])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
