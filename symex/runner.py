"""Explores every path of every harness of a property, replays counterexamples, writes evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, harness as hmod
from .core import Found, Inconclusive, Infeasible, Path, PathCut, PathTimeout, Stats
from .ctx import make_symctx
from .loader import FUNCTIONS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_TIMEOUT = 40


class ReplayServer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        self.p = subprocess.Popen([sys.executable, '-m', 'symex.replay'], cwd=VERIF, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def cpu(self):
        """Processor seconds used by the server: limits are on work done, so that a loaded machine does not look like a hang."""
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                a = f.read().rpartition(')')[2].split()
            return (int(a[11]) + int(a[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError, ValueError):
            return 1e9

    def ask(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'status': 'crash'}
        r, start, began = [], self.cpu(), time.time()
        while not r and self.cpu() - start < REPLAY_TIMEOUT and time.time() - began < 8 * REPLAY_TIMEOUT:
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'status': 'timeout'}
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.p = None
            return {'status': 'crash'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=2)
            except Exception:
                self.p.kill()


def _alarm(sig, frm):
    raise PathTimeout()


class Explorer:
    """Runs inside a worker process."""

    def __init__(self, prop, tasks, rng, opts):
        self.prop, self.tasks, self.rng, self.opts = prop, tasks, rng, opts
        self.SymCtx = make_symctx()
        self.server = ReplayServer()
        self.validated = {}
        signal.signal(signal.SIGPROF, _alarm)

    def run_path(self, ti, prefix, stats):
        h, cfg = self.tasks[ti]
        path = Path(prefix, self.opts, stats)
        ctx = self.SymCtx(path, self.rng)
        ctx.rng_budget = h.rng_budget
        ctx.eager = self.opts.get('eager', False)
        res = {'kind': 'ok'}
        signal.setitimer(signal.ITIMER_PROF, h.path_timeout)
        try:
            ctx.settle(cfg)
            ctx.begin()
            h.fn(ctx, cfg)
        except Found as f:
            res = {'kind': 'found', 'label': f.label, 'detail': str(f.detail), 'cands': f.inputs}
        except Infeasible:
            res = {'kind': 'infeasible'}
        except core.EagerBatch:
            res = {'kind': 'eager'}
        except PathCut as e:
            res = {'kind': 'cut', 'why': str(e)}
        except Inconclusive as e:
            res = {'kind': 'inconclusive', 'why': str(e)}
        except PathTimeout:
            res = {'kind': 'timeout'}
        except core.PathAbort as e:
            res = {'kind': 'inconclusive', 'why': repr(e)}
        except Exception as e:
            res = {'kind': 'exception', 'type': type(e).__name__, 'detail': str(e)[:400], 'trace': traceback.format_exc()[-4000:]}
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        path.result = res
        inputs = None
        if res['kind'] in ('exception', 'timeout', 'inconclusive') or res['kind'] == 'ok' and self.want_validation(ti):
            inputs = self.model_inputs(path, ctx)
            if inputs is None and res['kind'] == 'exception':
                res = {'kind': 'infeasible'}
        try:
            ctx.end()
        except Exception:
            core.CUR = None
        return path, ctx, res, inputs

    def model_inputs(self, path, ctx):
        try:
            core.CUR = path
            for k in (4, 50, None):
                ex = ctx._nice(k) if k else []
                r = path._check(*ex, timeout=5000) if ex else path._check(timeout=5000)
                if r == core.z3.sat:
                    return path.concrete_inputs(path.last_model)
            m = path.ensure_model()
            return None if m is None else path.concrete_inputs(m)
        except core.PathAbort:
            return None

    def want_validation(self, ti):
        k = self.validated.get(ti, 0)
        self.validated[ti] = k + 1
        return (k < 2 or k % 61 == 0) and k < 61 * 12

    def replay(self, ti, inputs):
        h, cfg = self.tasks[ti]
        return self.server.ask({'property': self.prop, 'harness': h.name, 'cfg': cfg, 'inputs': inputs, 'eager': self.opts.get('eager', False)})

    def explore(self, ti, prefixes, seconds):
        stats = Stats()
        out = {'ti': ti, 'found': [], 'gaps': [], 'errors': [], 'covers': {}, 'cuts': {}, 'samples': [], 'validated': 0,
               'validation_skipped': 0}
        stack = list(prefixes)
        t0 = time.time()
        FUNCTIONS_before = len(FUNCTIONS)
        while stack and (time.time() - t0 < seconds):
            prefix = stack.pop()
            path, ctx, res, inputs = self.run_path(ti, prefix, stats)
            stack.extend(path.alternatives)
            k = res['kind']
            if k == 'infeasible':
                stats.infeasible += 1
                continue
            if k == 'eager':
                out['eager'] = True
                break
            stats.paths += 1
            for c in getattr(ctx, 'covers', ()):
                out['covers'][c] = out['covers'].get(c, 0) + 1
            if k == 'cut':
                stats.cut += 1
                out['cuts'][res['why']] = out['cuts'].get(res['why'], 0) + 1
            elif k == 'ok':
                if len(out['samples']) < 1:
                    i = inputs if inputs is not None else self.model_inputs(path, ctx)
                    out['samples'].append({'harness': self.tasks[ti][0].name, 'cfg': self.tasks[ti][1],
                                           'decisions': len(path.decisions), 'checks': path.checks_here,
                                           'inputs': {a: b['v'] for a, b in list((i or {}).items())[:12]}})
                if inputs is not None:
                    a = self.replay(ti, inputs)
                    if a['status'] == 'ok':
                        out['validated'] += 1
                    elif a['status'] in ('fail', 'exception'):
                        out['found'].append({'label': a.get('label') or 'exception ' + a.get('type', ''), 'detail': a.get('detail'),
                                             'how': 'concrete validation of a sampled path model', 'inputs': inputs, 'answer': a})
                        break
                    else:
                        out['validation_skipped'] += 1
            elif k == 'found':
                hit = None
                ans = []
                for c in res['cands']:
                    a = self.replay(ti, c)
                    ans.append(a)
                    if a['status'] in ('fail', 'exception'):
                        hit = (c, a)
                        break
                if hit:
                    out['found'].append({'label': res['label'], 'detail': res['detail'], 'how': 'solver counterexample, replayed',
                                         'inputs': hit[0], 'answer': hit[1]})
                    break
                # not a behaviour of the real code: an artefact of the encoding; counted as undecided
                out['gaps'].append({'what': 'counterexample did not reproduce: %s %s' % (res['label'], res['detail']),
                                    'answer': ans[-1]['status'] if ans else '', 'trace': json.dumps([ans, res['cands'][:1]])[:3000]})
            elif k == 'exception':
                a = self.replay(ti, inputs) if inputs is not None else {'status': 'no model'}
                if a['status'] in ('fail', 'exception'):
                    out['found'].append({'label': a.get('label') or 'unexpected %s' % a.get('type'), 'detail': a.get('detail'),
                                         'how': 'exception on a path, replayed', 'inputs': inputs, 'answer': a})
                    break
                out['gaps'].append({'what': 'engine: %s: %s' % (res['type'], res['detail']), 'answer': a['status'], 'trace': res['trace']})
            elif k == 'timeout':
                a = self.replay(ti, inputs) if inputs is not None else {'status': 'no model'}
                if a['status'] in ('fail', 'exception', 'timeout'):
                    out['found'].append({'label': a.get('label') or 'does not terminate', 'detail': a.get('detail'),
                                         'how': 'path time limit, replayed', 'inputs': inputs, 'answer': a})
                    break
                out['gaps'].append({'what': 'path time limit', 'answer': a['status'], 'trace': ''})
            else:
                a = self.replay(ti, inputs) if inputs is not None else {'status': 'no model'}
                if a['status'] in ('fail', 'exception'):
                    out['found'].append({'label': a.get('label') or 'unexpected %s' % a.get('type'), 'detail': a.get('detail'),
                                         'how': 'undecided path, replayed', 'inputs': inputs, 'answer': a})
                    break
                out['gaps'].append({'what': 'undecided: ' + res.get('why', ''), 'answer': a['status'], 'trace': ''})
            if len(out['gaps']) > 40 or len(out['errors']) > 5:
                break
        out['left'] = stack
        out['stats'] = stats.as_dict()
        out['functions'] = sorted(FUNCTIONS)
        return out


def worker(conn, prop, tasks, rng, opts):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ex = Explorer(prop, tasks, rng, opts)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            try:
                conn.send(ex.explore(*msg))
            except Exception:
                conn.send({'ti': msg[0], 'crash': traceback.format_exc()})
    except EOFError:
        pass
    finally:
        ex.server.close()


def run(prop, tier, rng, jobs=8, budget=None, only=None, verbose=False, opts=None):
    mod = hmod.module(prop)
    tasks = []
    for h in mod.HARNESSES:
        if only and h.name != only:
            continue
        for cfg in (h.quick if tier == 'quick' else h.thorough):
            tasks.append((h, cfg))
    opts = dict(opts or {})
    budget = budget or (420 if tier == 'quick' else 3000)
    t0 = time.time()
    ctxmp = mp.get_context('fork')
    conns, procs = [], []
    jobs = max(1, min(jobs, 8))
    for _ in range(jobs):
        a, b = ctxmp.Pipe()
        pr = ctxmp.Process(target=worker, args=(b, prop, tasks, rng, opts), daemon=False)
        pr.start()
        b.close()
        conns.append(a)
        procs.append(pr)
    work = [(i, [()]) for i in range(len(tasks))]
    idle, busy = list(conns), {}
    agg = {'paths': 0, 'branches': 0, 'queries': 0, 'checks': 0, 'trivial_checks': 0, 'forced': 0, 'infeasible': 0, 'cut': 0,
           'solver_s': 0.0, 'unknown': 0, 'realisations': {}}
    covers, cuts, found, errors, gaps, samples, functions = {}, {}, [], [], [], [], set()
    validated = vskip = 0
    per_task = [dict(paths=0, checks=0, s=0.0) for _ in tasks]
    incomplete = 0
    stop = eager = False
    while (work or busy) and not stop:
        while work and idle:
            ti, pre = work.pop(0)
            c = idle.pop()
            slice_s = 1.5 if len(work) + len(idle) > 0 or True else 5
            c.send((ti, pre, slice_s))
            busy[c] = (ti, time.time())
        ready = mpc.wait(list(busy), timeout=1.0)
        for c in ready:
            ti, ts = busy.pop(c)
            try:
                r = c.recv()
            except EOFError:
                errors.append({'what': 'worker died', 'task': tasks[ti][0].name})
                continue
            idle.append(c)
            if 'crash' in r:
                errors.append({'what': 'worker crash', 'detail': r['crash']})
                continue
            eager = eager or r.get('eager', False)
            s = r['stats']
            for k in agg:
                if k == 'realisations':
                    for w, n in s[k].items():
                        agg[k][w] = agg[k].get(w, 0) + n
                else:
                    agg[k] += s[k]
            per_task[ti]['paths'] += s['paths']
            per_task[ti]['checks'] += s['checks']
            per_task[ti]['s'] += time.time() - ts
            for k, v in r['covers'].items():
                covers[(ti, k)] = covers.get((ti, k), 0) + v
            for k, v in r['cuts'].items():
                cuts[k] = cuts.get(k, 0) + v
            for f in r['found']:
                f['task'] = ti
                found.append(f)
            errors += r['errors']
            gaps += r['gaps']
            validated += r['validated']
            vskip += r['validation_skipped']
            if len(samples) < 6:
                samples += r['samples']
            functions.update(map(tuple, r['functions']))
            left = r['left']
            if left:
                n = min(len(left), max(1, len(idle) + 1))
                if len(work) > 2 * jobs:
                    n = 1
                for k in range(n):
                    part = left[k::n]
                    if part:
                        work.append((ti, part))
            if verbose:
                print('  [%5.1fs] %s %s: paths %d (left %d) total %d' % (time.time() - t0, tasks[ti][0].name, tasks[ti][1], s['paths'], len(left), agg['paths']), flush=True)
        if found or eager:
            stop = True
        if time.time() - t0 > budget:
            incomplete = sum(len(p) for _, p in work) + len(busy)
            stop = True
    for c in conns:
        try:
            if c not in busy:
                c.send(None)
        except Exception:
            pass
    for pr, c in zip(procs, conns):
        if c in busy:
            pr.terminate()
        pr.join(timeout=5)
        if pr.is_alive():
            pr.kill()
    if eager and not found:
        return run(prop, tier, rng, jobs, budget, only, verbose, dict(opts, eager=True))
    # vacuity: every cover label of every harness must have been reached by some path of some configuration
    missing = []
    if not found and not incomplete:
        for h in mod.HARNESSES:
            if only and h.name != only:
                continue
            got = {k for (ti, k) in covers if tasks[ti][0] is h}
            missing += ['%s:%s' % (h.name, c) for c in h.covers if c not in got]
    return dict(tasks=tasks, agg=agg, covers=covers, cuts=cuts, found=found, errors=errors, gaps=gaps, samples=samples,
                functions=sorted(functions), validated=validated, vskip=vskip, per_task=per_task, incomplete=incomplete,
                missing=missing, eager=bool(opts.get('eager')), wall=time.time() - t0)
