"""
Batches of simulated runs: deterministic plans per (VERIF_SEED, run index), forked workers, minimisation, replay, evidence.

    python -m dsim.runner check C01          one check, tier and seed from the environment
    python -m dsim.runner replay FILE        re-executes a recorded violation; exit 1 if it happens again
    python -m dsim.runner hashes C01 N       event-log hash of the first N runs (determinism audit)
"""
import copy
import hashlib
import importlib
import itertools
import json
import os
import pickle
import random
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.time
_mono = time.monotonic
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200e6:
                base = None
        SCRATCH = tempfile.mkdtemp(prefix='dsim-', dir=base)
        os.makedirs(SCRATCH + '/mpl')
        os.environ['MPLCONFIGDIR'] = SCRATCH + '/mpl'
    return SCRATCH


def cleanup():
    if FAR['proc'] is not None:
        try:
            FAR['proc'].stdin.close()
            FAR['proc'].wait(20)
        except Exception:
            FAR['proc'].kill()
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


# ---------------------------------------------------------------------------------- an interpreter of another start
# A second warm simulator whose interpreter was started with another hash seed: parts of a run can be executed there.
FAR = {'proc': None, 'sock': None}
FAR_HASHSEED = '20221'


def far_start(cid):
    path = scratch() + '/far.sock'
    env = dict(os.environ, PYTHONHASHSEED=FAR_HASHSEED, DSIM_SOCK=path)
    FAR['proc'] = subprocess.Popen([sys.executable, '-m', 'dsim.runner', 'far', cid], env=env, cwd=VERIF,
                                   stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
    FAR['sock'] = path


def far_call(cid, req):
    from dsim.world import Infra
    if FAR['sock'] is None:
        far_start(cid)
    t = _mono()
    while True:
        c = socket.socket(socket.AF_UNIX)
        try:
            c.connect(FAR['sock'])
            break
        except OSError:
            c.close()
            if _mono() - t > 180:
                raise Infra('the second simulator does not start')
            select.select([], [], [], 0.2)
    with c:
        f = c.makefile('rwb')
        pickle.dump(req, f)
        f.flush()
        res = pickle.load(f)
    if 'infra' in res:
        raise Infra(res['infra'])
    return res


def main_far(cid):
    check = load_check(cid)
    setup(check)
    s = socket.socket(socket.AF_UNIX)
    s.bind(os.environ['DSIM_SOCK'])
    s.listen(64)
    while True:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            pass
        r, _, _ = select.select([s, 0], [], [], 1.0)
        if 0 in r:
            return 0
        if s not in r:
            continue
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                s.close()
                f = c.makefile('rwb')
                method, args = pickle.load(f)
                ctx = Ctx('%s/f%d' % (scratch(), os.getpid()), 0)
                try:
                    res = {'ret': getattr(check, method)(ctx, *args)}
                except BaseException:
                    res = {'infra': traceback.format_exc()}
                ctx.finish()
                shutil.rmtree(ctx.root, ignore_errors=True)
                res.update(stats=ctx.stats, hash=ctx.hash.hexdigest())
                pickle.dump(res, f)
                f.flush()
            finally:
                os._exit(0)
        c.close()


class Ctx:
    """What a check sees of one simulated run."""

    def __init__(self, root, i):
        self.root, self.i, self.n = root, i, 0
        self.violations = []
        self.stats = {}
        self.states = set()
        self.probes = {}
        self.worlds = []
        self.hash = hashlib.sha256()
        self.scheds = set()

    def world(self, seed, **k):
        from dsim.world import World
        self.n += 1
        w = World('%s/r%d_%d' % (self.root, self.i, self.n), seed, stats=self.stats, **k)
        self.worlds.append(w)
        return w

    def far(self, check, method, *args):
        """Executes a method of the check in the second simulator, with a context of its own."""
        res = far_call(check.id, (method, args))
        for k, v in res['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.hash.update(res['hash'].encode())
        return res['ret']

    def violate(self, cls, msg):
        self.violations.append([cls, msg[:1500]])

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def finish(self):
        for w in self.worlds:
            self.hash.update(w.hash.hexdigest().encode())
            tr = [x for k, x in enumerate(w.sched_trace) if k == 0 or w.sched_trace[k - 1] != x]
            if len(tr) > len(set(tr)):           # processes really overlapped
                self.scheds.add(hashlib.sha256(repr(w.sched_trace).encode()).hexdigest()[:16])
            w.close()


def np_error():
    import numpy as np
    return np.linalg.LinAlgError


def execute(check, plan, i=0):
    """One simulated run. Returns a JSON-able record."""
    from dsim.world import Hang
    ctx = Ctx(scratch(), i)
    t = _mono()
    cwd = os.getcwd()
    rec = {'i': i}
    try:
        check.run(plan, ctx)
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ArithmeticError, np_error()):
        # what the commands wrote does not have the form it is documented to have
        ctx.violate('malformed', 'the results cannot be examined: ' + traceback.format_exc()[-1200:])
    finally:
        os.chdir(cwd)
        ctx.finish()
    rec.update(v=ctx.violations, stats=ctx.stats, states=sorted(ctx.states), probes=ctx.probes,
               hash=ctx.hash.hexdigest(), scheds=sorted(ctx.scheds), dur=_mono() - t)
    return rec


def load_check(cid):
    m = importlib.import_module('dsim.checks.' + cid.lower())
    return m.CHECK


def plan_of(check, seed, i, tier):
    rng = random.Random('%s/%s/%s' % (check.id, seed, i))
    return check.gen(rng, tier, i)


# --------------------------------------------------------------------------------------------------- forked workers
class Pool:
    """Forked workers that execute jobs (JSON in, JSON out) one at a time."""

    def __init__(self, n, fn):
        self.fn = fn
        self.w = []
        for k in range(n):
            self.w.append(self._spawn())

    def _spawn(self):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(a_w)
                os.close(b_r)
                for o in self.w:
                    os.close(o['in'])
                    os.close(o['out'])
                from dsim.world import _recv, _send
                while True:
                    job = _recv(a_r)
                    if job is None:
                        os._exit(0)
                    try:
                        res = self.fn(job)
                    except BaseException:
                        res = {'infra': traceback.format_exc()}
                    _send(b_w, res)
            finally:
                os._exit(3)
        os.close(a_r)
        os.close(b_w)
        return {'pid': pid, 'in': a_w, 'out': b_r, 'busy': None}

    def map(self, jobs, deadline=None, hard=400, stop=None):
        """Yields (job, result) as they complete. No new job starts after the deadline or once stop() holds."""
        from dsim.world import _recv, _send
        jobs = iter(jobs)
        pending = 0
        exhausted = False
        while True:
            for w in self.w:
                if w['busy'] is None and not exhausted:
                    if (deadline is not None and _mono() > deadline) or (stop is not None and stop()):
                        exhausted = True
                        break
                    try:
                        j = next(jobs)
                    except StopIteration:
                        exhausted = True
                        break
                    _send(w['in'], j)
                    w['busy'], w['t'] = j, _mono()
                    pending += 1
            if not pending:
                return
            busy = [w for w in self.w if w['busy'] is not None]
            r, _, _ = select.select([w['out'] for w in busy], [], [], 1.0)
            for w in busy:
                if w['out'] in r:
                    res = _recv(w['out'])
                    j, w['busy'] = w['busy'], None
                    pending -= 1
                    if res is None:
                        res = {'infra': 'worker died'}
                        self._replace(w)
                    yield j, res
                elif _mono() - w['t'] > hard:
                    j, w['busy'] = w['busy'], None
                    pending -= 1
                    self._replace(w)
                    yield j, {'infra': 'run exceeded %d s' % hard}

    def _replace(self, w):
        _kill(w['pid'])
        os.close(w['in'])
        os.close(w['out'])
        w.clear()
        self.w = [x for x in self.w if x]
        n = self._spawn()
        self.w.append(n)

    def close(self):
        for w in self.w:
            os.close(w['in'])
        for w in self.w:
            _kill(w['pid'])
        self.w = []


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


# --------------------------------------------------------------------------------------------------- minimisation
def candidates(plan, check):
    """Simpler plans, most aggressive first."""
    yield from check.simplify(plan)
    for key in ('faults', 'ops', 'procs', 'follow'):
        if isinstance(plan.get(key), list) and len(plan[key]) > (0 if key == 'faults' else 1):
            xs = plan[key]
            if len(xs) > 2:
                for half in (xs[:len(xs) // 2], xs[len(xs) // 2:]):
                    p = copy.deepcopy(plan)
                    p[key] = copy.deepcopy(half)
                    yield p
            for k in range(len(xs)):
                p = copy.deepcopy(plan)
                del p[key][k]
                yield p
    for key in ('ops', 'procs', 'follow'):
        for k, o in enumerate(plan.get(key) or []):
            if isinstance(o, dict):
                if o.get('faults'):
                    for j in range(len(o['faults'])):
                        p = copy.deepcopy(plan)
                        del p[key][k]['faults'][j]
                        yield p
                for c in list(o.get('conf') or {}):
                    p = copy.deepcopy(plan)
                    del p[key][k]['conf'][c]
                    yield p


def minimise(check, pool, plan, cls, budget):
    end = _mono() + budget
    tried = 0
    improved = True
    seen = set()
    while improved and _mono() < end:
        improved = False
        batch = []
        for c in candidates(plan, check):
            k = json.dumps(c, sort_keys=True)
            if k not in seen and k != json.dumps(plan, sort_keys=True):
                seen.add(k)
                batch.append(c)
        best = None
        results = {}
        for start in range(0, len(batch), len(pool.w)):
            if _mono() > end:
                break
            chunk = batch[start:start + len(pool.w)]
            jobs = [{'plan': c, 'i': 100000 + tried + n, 'k': n} for n, c in enumerate(chunk)]
            tried += len(chunk)
            ok = []
            for j, r in pool.map(jobs, hard=120):
                if not r.get('infra') and any(v[0] == cls for v in r['v']):
                    ok.append(j['k'])
            if ok:
                best = chunk[min(ok)]
                break
        if best is not None:
            plan = best
            improved = True
    return plan, tried


# --------------------------------------------------------------------------------------------------- known findings
def known_findings(cid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [k for k in json.load(h)['findings'] if k['property'] == cid]


def is_known(check, plan, v, findings):
    for k in findings:
        if k.get('status') == 'open' and k['class'] == v[0] and check.matches_known(k, plan, v):
            return k
    return None


# --------------------------------------------------------------------------------------------------- commands
def setup(check):
    scratch()
    from dsim import envs
    envs.boot(plots=check.plots)
    os.chdir(scratch())
    out = sys.stdout
    if check.warm:
        put_back = remember(envs.REPO)
        try:
            for p in check.warm_plans():
                _warm(p)
        except Exception:
            traceback.print_exc(file=sys.stderr)     # a broken repository fails later, as a verdict on its properties
        put_back()
    sys.stdout = out


def remember(repo):
    """
    The warm simulator keeps compiled code, but nothing the repository remembers: what its modules hold (also in
    containers, classes, functions and objects) is put back to what it was before.
    """
    import types
    root = os.path.realpath(repo) + os.sep
    seen, saved, keep = set(), [], []

    def own(x):
        m = sys.modules.get(getattr(x, '__module__', None) or '')
        return m is not None and os.path.realpath(getattr(m, '__file__', None) or '/').startswith(root)

    def visit(o, depth):
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, (dict, list, set)):
            saved.append((o, o.copy()))
            keep.append(o)
            for x in (list(o.values()) if isinstance(o, dict) else list(o)):
                visit(x, depth + 1)
        elif isinstance(o, tuple):
            for x in o:
                visit(x, depth + 1)
        elif isinstance(o, types.FunctionType):
            if own(o) or hasattr(o, 'cache_clear'):
                keep.append(o)
                visit(o.__dict__, depth + 1)
                for x in (o.__defaults__ or ()) + tuple((o.__kwdefaults__ or {}).values()):
                    visit(x, depth + 1)
                for c in o.__closure__ or ():
                    try:
                        visit(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(o, type):
            if own(o):
                keep.append(o)
                saved.append((o, dict(vars(o))))
                for x in list(vars(o).values()):
                    visit(x, depth + 1)
        elif isinstance(o, (staticmethod, classmethod)):
            visit(o.__func__, depth + 1)
        elif own(type(o)) and hasattr(o, '__dict__'):
            keep.append(o)
            visit(o.__dict__, depth + 1)

    mods = [m for n, m in sorted(sys.modules.items()) if m is not None and
            os.path.realpath(getattr(m, '__file__', None) or '/').startswith(root)]
    for m in mods:
        visit(vars(m), 0)

    def put_back():
        for n in [n for n, m in sys.modules.items() if m is not None and m not in mods and
                  os.path.realpath(getattr(m, '__file__', None) or '/').startswith(root)]:
            del sys.modules[n]
        for o, c in saved:
            if isinstance(o, type):
                for k in [k for k in vars(o) if k not in c]:
                    delattr(o, k)
                for k, v in c.items():
                    if vars(o).get(k) is not v:
                        try:
                            setattr(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif isinstance(o, list):
                o[:] = c
            elif isinstance(o, dict):
                for k in [k for k in o if k not in c]:
                    del o[k]
                for k, v in c.items():
                    if k not in o or o[k] is not v:
                        o[k] = v
            else:
                o.clear()
                o.update(c)
        for o in keep:
            if callable(getattr(o, 'cache_clear', None)):
                o.cache_clear()
    return put_back


def _warm(p):
    """Runs commands in this process so that forked processes inherit warm code; results are thrown away."""
    import io as _io
    from dsim import envs
    from dsim.world import World
    w = World(scratch() + '/warm', 'warm')
    envs.prepare(w, p['env'])
    cwd = os.getcwd()
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _io.StringIO()
    try:
        os.chdir(w.root)
        for op in p['ops']:
            envs.command(p['env'], op)
    finally:
        sys.stdout, sys.stderr = out, err
        os.chdir(cwd)
        w.close()


def main_check(cid):
    t0 = _mono()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    check = load_check(cid)
    if check.second:
        far_start(cid)
    setup(check)
    nruns, cap = check.budget[tier]
    cap = float(os.environ.get('DSIM_CAP', cap))
    nruns = int(os.environ.get('DSIM_RUNS', nruns))
    workers = int(os.environ.get('DSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)

    def job(j):
        plan = j.get('plan') or plan_of(check, seed, j['i'], tier)
        return execute(check, plan, j['i'])

    pool = Pool(workers, job)
    recs, infra, bad, known = [], [], [], {}
    findings = known_findings(cid)
    tstart = _mono()
    stop = {'x': False}
    # the recorded histories of the open findings come first: their violation is expected
    plans = {}
    for n, k in enumerate(findings):
        if k.get('status') == 'open' and k.get('history'):
            with open(os.path.join(VERIF, k['history'])) as h:
                plans[-1 - n] = json.load(h)['plan']
    jobs = [{'i': i, 'plan': plans[i]} for i in sorted(plans)]

    def planned(i):
        return plans[i] if i in plans else plan_of(check, seed, i, tier)
    for j, r in pool.map(itertools.chain(jobs, ({'i': i} for i in range(nruns))), deadline=tstart + cap,
                         stop=lambda: stop['x']):
        if r.get('infra'):
            infra.append((j['i'], r['infra']))
            if len(infra) > 3:
                stop['x'] = True
            continue
        recs.append(r)
        fresh = []
        for v in r['v']:
            k = is_known(check, planned(r['i']), v, findings)
            if k:
                known[k['id']] = k
            else:
                fresh.append(v)
        if fresh:
            bad.append((r['i'], fresh))
            if tier == 'quick' or len(bad) >= 20:
                stop['x'] = True
    trun = _mono() - tstart
    # determinism: one run is executed a second time and must leave the same event log
    again = None
    if recs and not bad and not infra:
        k = min(recs, key=lambda r: (r['i'] < 0, r['dur'] > 8, r['i']))
        for j, r in pool.map([{'i': k['i'], 'plan': planned(k['i'])}]):
            again = None if r.get('infra') else (r['hash'] == k['hash'])
    code = 0
    for k in known.values():
        print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
    if bad:
        code = 1
        report(check, pool, seed, tier, bad, planned)
    pool.close()
    evidence(check, seed, tier, recs, infra, bad, trun, workers, again, t0, nruns)
    if infra:
        for i, m in infra[:3]:
            print('INFRA run %s: %s' % (i, m[-1500:]), file=sys.stderr)
        if not bad:
            code = 2
    if not recs and not bad:
        code = code or 2
    if code == 0:
        print('%s: held on %d simulated runs in %.0f s (seed %d, %s)' % (cid, len(recs), trun, seed, tier))
    return code


def report(check, pool, seed, tier, bad, planned):
    bad.sort()
    done = set()
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    for i, vs in bad:
        cls, msg = vs[0]
        if cls in done:
            continue
        done.add(cls)
        plan = planned(i)
        small, tried = minimise(check, pool, plan, cls, check.shrink_s if tier == 'quick' else 300)
        last = None
        for j, r in pool.map([{'plan': small, 'i': i}]):
            last = r
        msgs = [v for v in (last or {}).get('v', []) if v[0] == cls] or [[cls, msg]]
        f = os.path.join(d, '%s-seed%d-run%d-%s.json' % (check.id, seed, i, cls))
        with open(f, 'w') as h:
            json.dump({'property': check.id, 'seed': seed, 'run': i, 'tier': tier, 'class': cls,
                       'violation': msgs[0][1], 'event_hash': (last or {}).get('hash'), 'shrink_runs': tried,
                       'plan': small}, h, indent=1)
        rep = None
        try:
            rep = subprocess.run([sys.executable, '-m', 'dsim.runner', 'replay', f], cwd=VERIF, timeout=240,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
        except subprocess.TimeoutExpired:
            pass
        print('%s [%s] %s' % (check.id, cls, msgs[0][1]))
        print('  found by run %d, minimised in %d runs, replay in a fresh process: %s'
              % (i, tried, {1: 'reproduced', 0: 'NOT reproduced'}.get(rep, rep)))
        print('VIOLATION property=%s replay=%s' % (check.id, f))
        sys.stdout.flush()
        if len(done) >= (1 if tier == 'quick' else 5):
            break


def evidence(check, seed, tier, recs, infra, bad, trun, workers, again, t0, nruns):
    stats, probes, states, hashes, scheds = {}, {}, set(), set(), set()
    for r in recs:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
        scheds.update(r['scheds'])
        if r['states']:
            hashes.add(r['hash'])
    n = len(recs)
    samples = []
    for r in sorted((r for r in recs if r['i'] >= 0), key=lambda r: r['i'])[:2]:
        samples.append({'run': r['i'], 'plan': plan_of(check, seed, r['i'], tier), 'event_hash': r['hash'],
                        'probes': r['probes']})
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(hashes),
        'rule': check.rule + ' Distinct: different event logs (operations, schedule, faults, outcomes); non-trivial: '
                             'the oracle of the property was evaluated at least once in the run.',
        'samples': samples,
        'planned_runs': nruns,
        'runs_per_hour': round(n / max(trun, 1e-9) * 3600),
        'seeds_per_hour': round(n / max(trun, 1e-9) * 3600),
        'simulated_seconds': round(stats.get('sim_s', 0.0), 3),
        'simulated_processes': stats.get('processes', 0),
        'simulated_operations': stats.get('ops', 0),
        'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
        'probes': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'state_measure': check.measure,
        'distinct_interleavings': len(scheds),
        'interleaving_measure': 'hash of the sequence of scheduled processes of a world in which processes overlapped',
        'rerun_same_event_log': again,
        'workers': workers,
        'real_components': check.real,
        'stubs': check.stubs,
        'harness_errors': len(infra),
    }
    e = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
         'assumptions': check.assumptions, 'wall_s': round(_mono() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


def main_replay(f):
    with open(f) as h:
        rec = json.load(h)
    check = load_check(rec['property'])
    setup(check)
    r = execute(check, rec['plan'], rec.get('run', 0))
    hit = [v for v in r['v'] if v[0] == rec['class']]
    print('event log %s (recorded %s)' % (r['hash'], rec.get('event_hash')))
    if hit:
        print('[%s] %s' % tuple(hit[0]))
        print('VIOLATION property=%s replay=%s' % (rec['property'], f))
        return 1
    print('not reproduced; violations: %s' % r['v'])
    return 0


def main_hashes(cid, n):
    check = load_check(cid)
    setup(check)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if check.second:
        far_start(cid)
    pool = Pool(int(os.environ.get('DSIM_WORKERS', '8')),
                lambda j: execute(check, plan_of(check, seed, j['i'], 'quick'), j['i']))
    out = {}
    for j, r in pool.map({'i': i} for i in range(n)):
        out[j['i']] = r.get('hash') or r
    pool.close()
    for i in sorted(out):
        print(i, out[i])
    return 0


def main(argv):
    if os.environ.get('PYTHONHASHSEED') is None or 'DSIM_ENV' not in os.environ:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1', DSIM_ENV='1', PYPY_GC_NURSERY=os.environ.get('PYPY_GC_NURSERY', '32MB'))
        env.setdefault('PYTHONHASHSEED', '0')
        env['PYTHONPATH'] = VERIF
        os.execve(sys.executable, [sys.executable, '-m', 'dsim.runner'] + argv, env)
    parent = os.getpid()
    try:
        if argv[0] == 'check':
            return main_check(argv[1])
        if argv[0] == 'replay':
            return main_replay(argv[1])
        if argv[0] == 'far':
            return main_far(argv[1])
        if argv[0] == 'hashes':
            return main_hashes(argv[1], int(argv[2]))
        print('unknown command', argv)
        return 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        if os.getpid() == parent:
            cleanup()


if __name__ == '__main__':
    c = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(c)
