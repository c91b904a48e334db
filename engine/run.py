"""Runs a check: explores its harnesses symbolically in parallel, replays, validates, reports."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NPROC = 8


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


# ------------------------------------------------------------------ worker
def worker(conn, world, check, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    import resource
    lim = int(6 * 2 ** 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        hi, pi, prefix, slice_s, opts = msg
        try:
            r = explore(world, check, hi, pi, prefix, slice_s, opts, seed)
        except MemoryError:
            r = {'error': 'out of memory in %s' % check.HARNESSES[hi].name}
        except BaseException as e:
            r = {'error': '%s in %s: %s' % (type(e).__name__, check.HARNESSES[hi].name, traceback.format_exc()[-1500:])}
        r['job'] = (hi, pi)
        conn.send(r)


def explore(world, check, hi, pi, prefix, slice_s, opts, seed):
    from . import ctx, dom, rt, syme, pyenv
    h = check.HARNESSES[hi]
    params = (h.thorough if opts['tier'] == 'thorough' else h.quick)[pi]
    ex = ctx.Explorer(opts.get('decide_timeout', 2000), opts.get('check_timeout', 10000), seed + opts.get('seed_add', 0))
    plan = [[v, []] for v in prefix]
    base = len(plan)
    t0 = time.time()
    out = {'stats': None, 'candidates': [], 'inconclusive': [], 'open': [], 'witness': [], 'completed': 0, 'checks': 0}
    npaths = 0
    while True:
        # the first path of a slice may always finish its re-execution and grow
        ex.deadline = t0 + slice_s if npaths else t0 + max(slice_s, 3.0) * 4
        ex.begin(plan)
        world.restore()
        E = syme.SymE(world, ex)
        stop = False
        try:
            try:
                h.fn(E, **params)
                ex.stats.paths += 1
                npaths += 1
                out['completed'] += 1
                out['checks'] += E.nchecks
                if len(out['witness']) < opts['nwitness'] and not ex.uninit_used:
                    w = witness(ex, E, h, params)
                    if w:
                        out['witness'].append(w)
            finally:
                E.cleanup()
        except ctx.TimeSlice:
            out['open'].append([x[0] for x in ex.plan[:ex.pos]])
            stop = True
        except ctx.Found:
            ex.stats.paths += 1
            npaths += 1
        except ctx.Infeasible:
            ex.stats.infeasible += 1
        except (MemoryError, RecursionError) as e:
            out['inconclusive'].append('%s: %s' % (h.name, type(e).__name__))
        except dom.Unsupported as e:
            npaths += 1
            out['inconclusive'].append('%s: %s' % (h.name, e) + (tb_tail() if opts.get('verbose') else ''))
        except rt.MemErr as e:
            npaths += 1
            candidate(ex, 'invalid memory access: %s' % e, 'mem', tb_tail())
        except (AssertionError, KeyboardInterrupt):
            raise
        except Exception as e:
            npaths += 1
            candidate(ex, 'raised %s: %s' % (type(e).__name__, str(e)[:200]), 'exc', tb_tail())
        if ex.candidates:
            for c in ex.candidates:
                c['harness'], c['pi'] = h.name, pi
                c.setdefault('uninit', ex.uninit_used)
                c['known'] = any(k['harness'] == h.name and k['what'] in c['what'] and all(params.get(a) == b for a, b in k.get('params', {}).items())
                                 for k in opts['known'])
                if not c['known'] or sum(1 for x in out['candidates'] if x['known']) < 2:
                    out['candidates'].append(c)
            ex.candidates = []
        if len([c for c in out['candidates'] if not c.get('known')]) >= opts.get('max_candidates', 6):
            break
        if len(out['inconclusive']) > 200:
            break
        if not ex.next_plan():
            break
        if len(ex.plan) <= 0:
            break
        if stop or time.time() - t0 > slice_s:
            cur = [x[0] for x in ex.plan]
            out['open'].append(cur)
            out['open'] += ex.open_prefixes()
            break
        plan = ex.plan
    out['inconclusive'] += ex.inconclusive
    out['stats'] = ex.stats
    out['cpu'] = time.time() - t0
    out['encoded'] = sorted(world.prog.encoded - world.registered)
    if opts.get('verbose'):
        out['rss'] = int(open('/proc/self/statm').read().split()[1]) * 4096 >> 20
    return out


def tb_tail():
    return '\n' + ''.join(traceback.format_exc()[-1200:])


def candidate(ex, what, kind, tb=''):
    env = None
    try:
        r, env = ex.query(True, ex.check_timeout)
        if r == 'unsat':
            return
    except BaseException:
        env = None
    if env is None and ex.env is not None:
        env = dict(ex.env)
    ex.candidates.append({'what': what, 'env': env or {}, 'kind': kind, 'tb': tb, 'plan': [x[0] for x in ex.plan[:ex.pos]],
                          'choices': [[n, v] for k, n, v in ex.inputs if k == 'choice']})


def witness(ex, E, h, params):
    """a concrete input that follows this path: shows reachability and is run on the real build"""
    from . import ctx
    env = ex.env
    if env is None:
        r, env = ex.query(True, 2000)
        if r != 'sat' or env is None:
            return None
    env = dict(env)
    obs = []
    memo = {}
    for n, v in E.obs:
        try:
            obs.append([n, evalobs(v, env, memo)])
        except BaseException:
            obs.append([n, None])
    return {'harness': h.name, 'params': params, 'env': {k: v for k, v in env.items() if not k.startswith(('fmt', 'uninit'))}, 'obs': obs,
            'choices': [[n, v] for k, n, v in ex.inputs if k == 'choice'], 'checks': E.nchecks}


def evalobs(v, env, memo):
    from . import ctx, dom
    if v.__class__ is dom.SInt:
        v = v.p
    if v.__class__ is dom.Poly:
        return ctx.evalf(v, env, memo)
    if v.__class__ is dom.Cond:
        return None
    if isinstance(v, (list, tuple)) or hasattr(v, '__len__') and not isinstance(v, (str, dict)):
        return [evalobs(x, env, memo) for x in v]
    if isinstance(v, (bool, int)):
        return int(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


# ------------------------------------------------------------------ concrete runs
def run_concrete(build, pid, cases, timeout=60):
    """each case {harness, params, env, choices}; returns list of (status, detail, obs)"""
    d = tempfile.mkdtemp(prefix='pyscal_cases_')
    try:
        inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        json.dump({'pid': pid, 'cases': cases, 'timeout': timeout, 'asan': build.asan}, open(inp, 'w'))
        subprocess.run([PY, '-m', 'engine.concrete', inp, outp], env=build.env, cwd=d, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL if not os.environ.get('VERIF_DEBUG') else None, timeout=timeout * len(cases) + 60)
        res = json.load(open(outp)) if os.path.exists(outp) else []
        return res + [['error', 'no result', []]] * (len(cases) - len(res))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def violates(res):
    return res[0] in ('fail', 'crash', 'exc')


# ------------------------------------------------------------------ main
class Runner:
    def __init__(self, pid, tier, seed, verbose=False, only=None, budget=None):
        self.pid, self.tier, self.seed, self.verbose, self.only = pid, tier, seed, verbose, only
        self.t0 = time.time()
        self.check = load_check(pid)
        c = self.check
        self.budget = budget or (getattr(c, 'BUDGET_QUICK', 240) if tier == 'quick' else getattr(c, 'BUDGET_THOROUGH', 780))

    def log(self, *a):
        if self.verbose:
            print('[%.1f]' % (time.time() - self.t0), *a, flush=True)

    def main(self):
        from . import ctx, realbuild, build_ir, syme
        warnings.simplefilter('ignore')
        sys.setrecursionlimit(20000)
        self.real = realbuild.RealBuild()
        self.asan = None
        self.builderr = None

        def build():
            try:
                self.real.build()
            except BaseException as e:
                self.builderr = e
        th = threading.Thread(target=build)
        try:
            try:
                world = syme.World()
            except build_ir.BuildError as e:
                print('ERROR: %s' % e)
                return 2
            # workers are forked before any thread exists
            ctxm = mp.get_context('fork')
            self.ctxm, self.world = ctxm, world
            self.ws = []
            for _ in range(NPROC):
                self.ws.append(self.spawn())
            th.start()
            rc = self.explore(th)
            return rc
        finally:
            for p, *_ in getattr(self, 'ws', []):
                try:
                    p.kill()
                except Exception:
                    pass
            if th.is_alive():
                th.join()
            self.real.clean()
            if self.asan:
                self.asan.clean()

    def explore(self, th):
        from . import ctx
        c = self.check
        jobs = []
        opts = dict(getattr(c, 'OPTS', {}), tier=self.tier, nwitness=2, verbose=self.verbose, known=load_known(self.pid))
        per = {}
        for hi, h in enumerate(c.HARNESSES):
            if self.only and not h.name.startswith(self.only):
                continue
            for pi in range(len(h.thorough if self.tier == 'thorough' else h.quick)):
                jobs.append((hi, pi, []))
                per[hi, pi] = {'completed': 0, 'checks': 0, 'open': 0, 'inconclusive': 0, 'candidates': 0, 'jobs': 1, 'stats': ctx.Stats(), 'cpu': 0}
        self.per = per
        self.witness = {}
        self.cands, self.confirmed, self.unconfirmed, self.knownhits = [], [], [], []
        self.inconclusive, self.errors = [], []
        self.encoded = set()
        self.deaths = 0
        queue = list(jobs)
        stats = ctx.Stats()
        conns = {a: w for w in self.ws for a in [w[1]]}
        busy = 0
        end = self.t0 + self.budget
        seen_what = {}
        retried = set()
        stop = False
        from multiprocessing.connection import wait
        while True:
            while queue and not stop and time.time() < end:
                idle = [w for w in self.ws if w[2] is None]
                if not idle:
                    break
                w = idle[0]
                job = queue.pop(0)
                w[2] = job
                w[3] = time.time()
                sl = 2.0 if len(queue) < 2 * NPROC else 8.0
                sl = min(sl, max(0.5, end - time.time()))
                try:
                    w[1].send(job + (sl, dict(opts, seed_add=7) if repr(job) in retried else opts))
                except (BrokenPipeError, OSError):
                    self.errors.append('worker died')
                    w[2] = 'dead'
            active = [w for w in self.ws if w[2] not in (None, 'dead')]
            if not active and (not queue or stop or time.time() >= end):
                break
            if not active:
                break
            ready = wait([w[1] for w in active], timeout=1.0)
            if not ready and time.time() > end + 45:
                for w in active:
                    hi, pi, pf = w[2]
                    self.inconclusive.append('%s %s: still running at the deadline' % (c.HARNESSES[hi].name, self.params(hi, pi)))
                    per[hi, pi]['open'] += 1
                    w[0].kill()
                    w[2] = 'dead'
                break
            for w in active:          # a solver call that ignores its own time limit
                if w[1] not in ready and time.time() - w[3] > 60 and not w[1].poll():
                    hi, pi, pf = w[2]
                    if repr(w[2]) not in retried:
                        retried.add(repr(w[2]))
                        queue.append(w[2])
                    else:
                        self.inconclusive.append('%s %s: a slice did not end' % (c.HARNESSES[hi].name, self.params(hi, pi)))
                        per[hi, pi]['open'] += 1
                    w[0].kill()
                    w[2] = 'dead'
                    self.respawn(w, conns)
            for a in ready:
                w = conns[a]
                hi, pi, pf = w[2]
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    self.inconclusive.append('worker died on %s %s' % (c.HARNESSES[hi].name, self.params(hi, pi)))
                    per[hi, pi]['open'] += 1
                    w[2] = 'dead'
                    self.respawn(w, conns)
                    continue
                w[2] = None
                p = per[hi, pi]
                if 'error' in r:
                    self.inconclusive.append(r['error'])
                    per[hi, pi]['inconclusive'] += 1
                    continue
                stats.add(r['stats'])
                p['stats'].add(r['stats'])
                p['completed'] += r['completed']
                p['cpu'] += r['cpu']
                p['checks'] += r['checks']
                p['inconclusive'] += len(r['inconclusive'])
                self.inconclusive += r['inconclusive']
                self.encoded |= set(r['encoded'])
                ws = self.witness.setdefault((hi, pi), [])
                ws += r['witness'][:max(0, 2 - len(ws))]
                for pf in r['open']:
                    queue.append((hi, pi, pf))
                p['jobs'] += len(r['open'])
                for cd in r['candidates']:
                    key = (cd['harness'], cd['what'][:60])
                    if seen_what.get(key, 0) >= 4:
                        continue
                    seen_what[key] = seen_what.get(key, 0) + 1
                    p['candidates'] += 1
                    cd['params'] = self.params(hi, pi)
                    self.cands.append(cd)
                    self.log('CANDIDATE', cd['harness'], cd['params'], cd['what'], {k: round(v, 6) for k, v in cd['env'].items()}, cd['choices'],
                             cd.get('tb', '') if self.verbose else '')
            if self.cands and not th.is_alive():
                self.replay_pending()
                if self.confirmed and not self.verbose:
                    stop = True
            if len(self.confirmed) >= 3:
                stop = True
        for hi, pi, pf in queue:
            per[hi, pi]['open'] += 1
        th.join()
        if self.builderr is not None:
            print('ERROR: %s' % self.builderr)
            return 2
        self.replay_pending()
        self.stats = stats
        validated, mismatches = (0, [])
        if not self.confirmed:
            validated, mismatches = self.validate()
        return self.report(validated, mismatches)

    def spawn(self):
        a, b = self.ctxm.Pipe()
        p = self.ctxm.Process(target=worker, args=(b, self.world, self.check, self.seed), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0]

    def respawn(self, w, conns):
        if self.deaths > 16:
            return
        self.deaths += 1
        n = self.spawn()
        self.ws[self.ws.index(w)] = n
        conns[n[1]] = n

    def params(self, hi, pi):
        h = self.check.HARNESSES[hi]
        return (h.thorough if self.tier == 'thorough' else h.quick)[pi]

    def replay_pending(self):
        cs, self.cands = self.cands, []
        if not cs:
            return
        if self.builderr is not None:
            return
        known = load_known(self.pid)
        res = run_concrete(self.real, self.pid, cs)
        for c, r in zip(cs, res):
            if not violates(r) and (c.get('kind') == 'mem' or c.get('uninit')):
                from . import realbuild
                if self.asan is None:
                    self.log('building the sanitizer variant')
                    self.asan = realbuild.RealBuild(True)
                    try:
                        self.asan.build()
                    except Exception as e:
                        self.log('sanitizer build failed', e)
                        r = ['error', 'sanitizer build failed', []]
                        self.unconfirmed.append((c, r))
                        continue
                r2 = run_concrete(self.asan, self.pid, [c], 180)[0]
                if violates(r2):
                    r = [r2[0], 'with AddressSanitizer: ' + r2[1], r2[2]]
            if violates(r):
                k = match_known(known, c, r)
                if k is not None:
                    self.knownhits.append(k)
                else:
                    self.confirmed.append((c, r))
            else:
                self.unconfirmed.append((c, r))
            self.log('REPLAY', c['harness'], c['what'][:80], '->', r[0], r[1][:300])

    def validate(self):
        """run path witnesses on the real build: harness must pass and observations agree"""
        cases = []
        for (hi, pi), ws in sorted(self.witness.items()):
            cases += ws
        lim = 60 if self.tier == 'quick' else 400
        if len(cases) > lim:
            step = len(cases) / lim
            cases = [cases[int(i * step)] for i in range(lim)]
        if not cases:
            return 0, []
        res = []
        chunk = max(1, -(-len(cases) // NPROC))
        parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        outs = [None] * len(parts)

        def go(i):
            try:
                outs[i] = run_concrete(self.real, self.pid, parts[i])
            except Exception as e:
                outs[i] = [['error', str(e), []]] * len(parts[i])
        ths = [threading.Thread(target=go, args=(i,)) for i in range(len(parts))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for o in outs:
            res += o
        ok, bad = 0, []
        for c, r in zip(cases, res):
            if r[0] == 'ok':
                d = diff_obs(c['obs'], r[2])
                if d:
                    bad.append((c, ['obs', d, []]))
                else:
                    ok += 1
            elif r[0] == 'assume':
                pass                      # a tie that rounding decides the other way
            else:
                bad.append((c, r))
            if self.verbose and r[0] != 'ok':
                self.log('VALIDATE', c['harness'], c['params'], r[0], r[1])
        return ok, bad

    def report(self, validated, mismatches):
        c = self.check
        s = self.stats
        incomplete = []
        notreached = []
        for (hi, pi), p in self.per.items():
            nm = '%s %s' % (c.HARNESSES[hi].name, json.dumps(self.params(hi, pi), default=str))
            if p['open']:
                incomplete.append('%s: %d open prefixes' % (nm, p['open']))
            if not p['completed'] and not p['candidates']:
                notreached.append(nm)
        samples = []
        for (hi, pi), ws in sorted(self.witness.items()):
            for w in ws[:1]:
                if len(samples) < 8:
                    samples.append({'harness': w['harness'], 'params': w['params'], 'input': w['env'], 'choices': w['choices'],
                                    'checks_on_path': w['checks']})
        dem = demangle(sorted(self.encoded))
        own = [n for n in dem if not n.startswith(('std::', 'void std::', 'pybind11::', '__', 'bool std::'))]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': s.paths, 'transitions': s.decisions, 'traces_validated_against_impl': validated,
                'samples': samples or ['no path completed'],
                'assertions_decided': s.checks, 'assertions_decided_by_term_rewriting': s.checks_simplified,
                'assertions_decided_by_solver': s.checks_solver, 'solver_queries': s.queries, 'sat': s.sat, 'unsat': s.unsat,
                'unknown': s.unknown, 'solver_s': round(s.solver_s, 1), 'infeasible_paths': s.infeasible,
                'harness_instances': len(self.per), 'harness_instances_exhausted': sum(1 for p in self.per.values() if not p['open']
                                                                                     and not p['inconclusive'] and p['completed']),
                'bounds': c.BOUNDS, 'outside': c.OUTSIDE, 'functions_encoded': own[:80], 'functions_encoded_count': len(dem),
                'incomplete': incomplete[:40], 'inconclusive': sorted(set(self.inconclusive))[:20],
                'inconclusive_paths': len(self.inconclusive), 'unreached_harnesses': notreached[:20],
                'validation_mismatches': [[m[0]['harness'], m[0]['params'], m[1][0], str(m[1][1])[:200]] for m in mismatches[:10]],
                'unreproduced_candidates': [[u[0]['harness'], u[0]['what'], u[1][0]] for u in self.unconfirmed[:10]],
                'solver': 'z3 (python bindings), incremental + qfnra-nlsat',
            },
            'assumptions': c.ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.confirmed),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        path = VERIF + '/evidence/%s.json' % self.pid
        json.dump(ev, open(path, 'w'), indent=1, default=str)
        for k in sorted({k['id'] for k in self.knownhits}):
            kk = [x for x in self.knownhits if x['id'] == k][0]
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kk['what_fails']))
        print('%s %s: %d paths, %d assertions (%d by solver), %d queries, %.1fs solver, %d traces validated, wall %.1fs' % (
            self.pid, self.tier, s.paths, s.checks, s.checks_solver, s.queries, s.solver_s, validated, time.time() - self.t0))
        if self.verbose:
            for (hi, pi), p in self.per.items():
                print('   ', c.HARNESSES[hi].name, self.params(hi, pi), 'paths', p['completed'], 'checks', p['checks'], 'open', p['open'],
                      'inconcl', p['inconclusive'], 'cand', p['candidates'],
                      'queries', p['stats'].queries, 'unk', p['stats'].unknown, 'solver', round(p['stats'].solver_s, 1), 'cpu', round(p['cpu'], 1))
        if self.confirmed:
            for cd, r in self.confirmed[:3]:
                rp = self.write_replay(cd, r)
                print('  %s %s: %s' % (cd['harness'], cd['params'], r[1][:300]))
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        for x in incomplete[:20]:
            print('INCOMPLETE (time budget): ' + x)
        for x in notreached:
            print('UNREACHED: ' + x)
        for x in sorted(set(self.inconclusive))[:20 if not self.verbose else 200]:
            print('INCONCLUSIVE: ' + x)
        for x in self.errors:
            print('ERROR: ' + x)
        for u in self.unconfirmed[:10]:
            print('UNREPRODUCED: %s %s: %s -> %s' % (u[0]['harness'], u[0]['params'], u[0]['what'], u[1]))
        for m in mismatches[:10]:
            print('MISMATCH: %s %s %s: %s' % (m[0]['harness'], m[0]['params'], m[0]['env'] if self.verbose else '', m[1][:2]))
        if self.errors or not s.paths:
            return 2
        if mismatches:
            # the real code fails a check on a path model, or disagrees with the encoding
            viol = [m for m in mismatches if violates(m[1])]
            if viol:
                for cd, r in viol[:3]:
                    print('  %s %s: %s' % (cd['harness'], cd['params'], r[1][:300]))
                    print('VIOLATION property=%s replay=%s' % (self.pid, self.write_replay(cd, r)))
                return 1
            return 3
        return 0        # candidates the real code does not reproduce are listed in the evidence as inconclusive

    def write_replay(self, cd, r):
        n = 1
        while os.path.exists(VERIF + '/evidence/%s-replay-%d.json' % (self.pid, n)):
            n += 1
        p = VERIF + '/evidence/%s-replay-%d.json' % (self.pid, n)
        json.dump({'property': self.pid, 'harness': cd['harness'], 'params': cd['params'], 'env': cd['env'], 'choices': cd['choices'],
                   'what': cd.get('what'), 'kind': cd.get('kind'), 'observed_on_real_code': r[:2],
                   'rerun': './check %s --replay %s' % (self.pid, p)}, open(p, 'w'), indent=1, default=str)
        return p


def diff_obs(a, b):
    if len(a) != len(b):
        return '%d observations instead of %d' % (len(b), len(a))
    for (n, x), (m, y) in zip(a, b):
        d = diff_val(x, y)
        if n != m or d:
            return '%s: encoding %s, real code %s' % (n, str(x)[:200], str(y)[:200])
    return None


def diff_val(x, y):
    if x is None:
        return False
    if isinstance(x, list) or isinstance(y, list):
        return not isinstance(y, list) or not isinstance(x, list) or len(x) != len(y) or any(diff_val(p, q) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x != y
    if x != x or y != y:
        return (x != x) != (y != y)
    if abs(x) > 1e300 or abs(y) > 1e300:
        return x != y
    return not abs(x - y) <= 1e-5 * (1 + abs(x))


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return [l.split('(')[0] if not l.startswith('(') else l for l in r.stdout.split('\n') if l] if r.returncode == 0 else names


def load_known(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]


def match_known(known, c, r):
    for k in known:
        if k['harness'] == c['harness'] and k['what'] in (r[1] or '') and all(c['params'].get(a) == b for a, b in k.get('params', {}).items()):
            return k
    return None


def replay(pid, path):
    from . import realbuild
    cd = json.load(open(path))
    b = realbuild.RealBuild(cd.get('kind') == 'mem')
    try:
        b.build()
        r = run_concrete(b, pid, [cd], 180)[0]
    finally:
        b.clean()
    print(r[:2])
    return 1 if violates(r) else 0


def cli(argv):
    import argparse
    if argv == ['--selftest']:
        from . import syme
        w = syme.World()
        print('encoding ok: %d functions registered' % len(w.registered))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.pid, a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return Runner(a.pid, a.tier, seed, a.v, a.only, a.budget).main()
    except Exception:
        traceback.print_exc()
        return 2
