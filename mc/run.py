"""Entry point:  run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.filterwarnings('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import core
    prop = a.property
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)

    def report(msg, rec):
        path = os.path.join(ROOT, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1

    try:
        import casadi_extras
        src = os.path.realpath(casadi_extras.__file__)
        if not src.startswith(os.path.realpath(REPO) + os.sep):
            print('casadi_extras was imported from %s' % src)
            return 3
        module = importlib.import_module(prop.lower())
    except ImportError as e:
        # A public name the property is about is gone, or the package does not import.
        import traceback
        return report('import failed: %s' % traceback.format_exc(), {'property': prop, 'message': str(e)})

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        ctx, err = core.run_scenario(module, rec['scenario'], set(core.load_known(prop)), 3600)
        print('scenario:', json.dumps(rec['scenario']))
        print('history:', ctx.history)
        print('result:', err or 'property held')
        return 1 if err else 0

    ev, viols, known, hit, scns = core.explore(prop, module, a.tier, seed)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s %s: scenarios=%d/%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%s wall=%.1fs' % (
        prop, a.tier, c['scenarios_completed'], c['scenarios'], c['states'], c['transitions'],
        c['traces_validated_against_impl'], c['distinct_outcomes'], c['exhaustive'], ev['wall_s']))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if viols:
        idx, err, hist = viols[0]
        rec = {'property': prop, 'tier': a.tier, 'scenario_index': idx,
               'scenario': scns[idx] if idx is not None and idx >= 0 else None,
               'history': hist, 'message': err,
               'how_to_replay': '%s %s %s --replay <this file>' % (sys.executable, os.path.join(HERE, 'run.py'), prop)}
        return report('violated (scenario %s): %s' % (idx, err[:3000]), rec)
    return 0


if __name__ == '__main__':
    sys.exit(main())
