"""Concrete replay of harness runs against the unmodified code in /repo and the real numpy.

As a server (no arguments): JSON requests on stdin, JSON answers on stdout.
As a command: python -m symex.replay FILE   re-runs a saved counterexample.
"""
import json
import os
import shutil
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
READY = set()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    tmp = tempfile.mkdtemp(prefix='symex_pyc_')
    sys.pycache_prefix = tmp
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') not in (VERIF, os.path.join(VERIF, 'symex'))]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import pandas
    import sklearn.base
    import joblib
    from symex import rng as rngmod
    rng = rngmod.Rng()
    for n in dir(rngmod.Rng):
        if not n.startswith('_') and n not in ('reset', 'sample', 'Generator', 'RandomState') and callable(getattr(rngmod.Rng, n)):
            if hasattr(np.random, n):
                setattr(np.random, n, getattr(rng, n))
    return rng, tmp


def run(rng, req):
    from symex.ctx import ConcreteCtx, CheckFailed, Skip
    from symex import harness, state
    if req['property'] not in READY:
        READY.add(req['property'])
        for m in getattr(harness.module(req['property']), 'MODULES', ()):
            try:
                __import__(m)
            except Exception:
                pass
        state.snapshot()
    h = harness.get(req['property'], req['harness'])
    ctx = ConcreteCtx(req['inputs'], rng)
    ctx.rng_budget = h.rng_budget
    ctx.eager = req.get('eager', False)
    ctx.settle(req['cfg'])
    ctx.begin()
    try:
        h.fn(ctx, req['cfg'])
        return {'status': 'ok', 'checks': ctx.n_checks}
    except CheckFailed as e:
        return {'status': 'fail', 'label': e.label, 'detail': str(e.detail)}
    except Skip as e:
        return {'status': 'skip', 'detail': str(e)}
    except Exception as e:
        return {'status': 'exception', 'type': type(e).__name__, 'detail': str(e)[:500], 'trace': traceback.format_exc()[-3000:]}
    finally:
        try:
            ctx.end()
        except Exception:
            pass


def serve():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    rng, tmp = setup()
    try:
        for line in sys.stdin:
            if not line.strip():
                continue
            req = json.loads(line)
            try:
                ans = run(rng, req)
            except Exception as e:
                ans = {'status': 'error', 'detail': traceback.format_exc()[-2000:]}
            out.write(json.dumps(ans) + '\n')
            out.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    if not argv:
        return serve()
    rng, tmp = setup()
    with open(argv[0]) as f:
        req = json.load(f)
    r = run(rng, req)
    shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1))
    return 1 if r['status'] in ('fail', 'exception') else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
