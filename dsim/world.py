"""
Simulated world: one scratch data folder, a simulated clock and a set of simulated operating-system processes that run
the repository's real commands.  The world decides, from the seed of the plan, which process performs its next
operation, what the clock shows, and which faults the operation meets.

A simulated process is a forked copy of the (warm) simulator: a crash of it loses exactly the memory of the process and
keeps what reached the file system.  Processes never run in parallel: between two operations only the scheduled one
runs, and it stops at its next operation.
"""
import errno
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import traceback

from dsim import seams

BENIGN = ('short',)
HANG_S = 120


class Infra(Exception):
    """The machinery itself failed (never a verdict on the repository)."""


class Hang(Exception):
    pass


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd, timeout=None):
    def exact(n):
        out = b''
        while len(out) < n:
            if timeout is not None and not select.select([fd], [], [], timeout)[0]:
                raise Hang()
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = exact(4)
    if h is None:
        return None
    b = exact(struct.unpack('<I', h)[0])
    return None if b is None else json.loads(b)


class Kernel:
    """Process side of the simulator."""

    def __init__(self, rfd, wfd, entropy):
        self.r, self.w, self.t = rfd, wfd, 0.0
        self.rng = random.Random(entropy)
        self.quiet = False

    def op(self, kind, path, **info):
        if self.quiet:
            return {'a': 'go'}
        info['k'] = kind
        if path is not None:
            info['p'] = path
        _send(self.w, info)
        d = _recv(self.r)
        if d is None:
            os._exit(139)
        self.t = max(d['t'], self.t) if not d.get('jump') else d['t']
        return d

    def now(self):
        self.t += 1e-6
        return self.t

    def entropy(self, n):
        return bytes(self.rng.getrandbits(8) for _ in range(n))


class Proc:
    def __init__(self, idx, name):
        self.idx, self.name = idx, name
        self.pending = None      # operation the process waits to perform
        self.nops = 0
        self.kinds = {}
        self.status = None       # None while running; 0 success; >0 failure; 137 killed
        self.exc = None
        self.out = ''
        self.data = None
        self.ops = []
        self.faults_hit = []

    @property
    def done(self):
        return self.status is not None

    @property
    def ok(self):
        return self.status == 0


class World:
    def __init__(self, root, seed, t0=None, stats=None, log_ops=True):
        self.root = root
        self.seed = seed
        self.rng = random.Random('world/%s' % seed)
        self.t0 = self.t = 1.6e9 + self.rng.random() * 3e8 if t0 is None else t0
        self.procs = []
        self.log = []
        self.hash = hashlib.sha256()
        self.list_seed = self.rng.getrandbits(32)
        self.stats = stats if stats is not None else {}
        self.dirty = {}          # path -> content before it was last opened for writing without a later fsync
        self.dt = 0.004
        self.sched_trace = []
        self.covered = 0.0
        self.entropy_salt = ''
        self.saves = set()
        os.makedirs(root, exist_ok=True)

    # ---------------------------------------------------------------- bookkeeping
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def note(self, *ev):
        self.log.append(ev)
        self.hash.update(json.dumps(ev, sort_keys=True, default=str).encode())

    def path(self, rel):
        return os.path.join(self.root, rel)

    def save(self, key='saved'):
        """Keeps a copy of the data folder (outside of the simulation), with everything written having reached the disk."""
        self.settle()
        self.saves.add(self.root + '.' + key)
        shutil.rmtree(self.root + '.' + key, True)
        shutil.copytree(self.path('data'), self.root + '.' + key)

    def restore(self, key='saved'):
        self.dirty.clear()
        shutil.rmtree(self.path('data'), True)
        shutil.copytree(self.root + '.' + key, self.path('data'))

    # ---------------------------------------------------------------- processes
    def start(self, name, fn, faults=(), entropy=None):
        """Forks a simulated process that runs fn() with the seams attached."""
        p = Proc(len(self.procs), name)
        p.faults = [dict(f) for f in faults]
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        ent = 'e/%s/%s/%d/%s' % (self.seed, self.entropy_salt, p.idx, entropy)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(c2p_r)
                os.close(p2c_w)
                for q in self.procs:
                    if not q.done:
                        os.close(q.r)
                        os.close(q.w)
                code = _child(p2c_r, c2p_w, ent, self.root, fn)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                sys.__stderr__.flush()
            finally:
                os._exit(code)
        os.close(c2p_w)
        os.close(p2c_r)
        p.pid, p.r, p.w = pid, c2p_r, p2c_w
        self.procs.append(p)
        self.count('processes')
        self._await(p)
        return p

    def _await(self, p):
        """Waits until the process reaches its next operation or ends."""
        try:
            m = _recv(p.r, HANG_S)
        except Hang:
            os.kill(p.pid, signal.SIGKILL)
            self._reap(p, 124)
            p.exc = 'Hang'
            return
        if m is None:
            self._reap(p, None)
        elif m['k'] == 'exit':
            p.exc, p.out, p.data = m.get('exc'), m.get('out', ''), m.get('data')
            p.tb = m.get('tb')
            self._reap(p, m['code'])
            if m['code'] == 70:
                raise Infra('simulated process %s: %s' % (p.name, m.get('tb')))
        else:
            p.pending = m

    def _reap(self, p, status):
        _, st = os.waitpid(p.pid, 0)
        if status is None:
            status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)
            if status not in (137,):
                p.exc = p.exc or 'process died with status %d' % status
        os.close(p.r)
        os.close(p.w)
        p.pending = None
        p.status = status
        self.note('end', p.idx, status, p.exc)

    def kill(self, p):
        if not p.done:
            os.kill(p.pid, signal.SIGKILL)
            self._reap(p, 137)

    def _fault_for(self, p, m):
        """First armed fault of the process that matches this operation."""
        for f in p.faults:
            if f.get('fired') and not f.get('persist'):
                continue
            if f.get('fired') and f.get('persist') and not self._matches(f, m):
                continue
            if not f.get('fired'):
                if not self._matches(f, m):
                    continue
                f['seen'] = f.get('seen', 0) + 1
                if f['seen'] <= f.get('nth', 0):
                    continue
            return f
        return None

    @staticmethod
    def _matches(f, m):
        on = f.get('on', '*')
        if on != '*' and m['k'] not in on.split('|'):
            return False
        return f.get('path') is None or f['path'] in m.get('p', '')

    def step(self, p):
        """Lets the process perform the operation it waits for."""
        m = p.pending
        p.nops += 1
        self.count('ops')
        p.kinds[m['k']] = p.kinds.get(m['k'], 0) + 1
        self.t += self.rng.expovariate(1.0) * self.dt
        d = {'a': 'go'}
        f = self._fault_for(p, m)
        if f is not None:
            f['fired'] = f.get('fired', 0) + 1
            p.faults_hit.append(f['kind'])
            self.count('fault:' + f['kind'])
            d = self._directive(f, m)
        if m['k'] == 'sleep':
            self.t += m['s']
        if m['k'] == 'list':
            d['s'] = self.list_seed
        rel = m.get('p')
        if m['k'] == 'open_w' and rel is not None and d['a'] in ('go', 'short'):
            self._snapshot(rel)
        if m['k'] == 'rename' and d['a'] == 'go' and m.get('to') is not None:
            self._snapshot(m['to'])
        if m['k'] == 'fsync' and rel is not None and d['a'] == 'go':
            self.dirty.pop(rel, None)
        if m['k'] == 'rename' and d['a'] == 'go' and rel not in self.dirty and m.get('to') is not None:
            self.dirty.pop(m['to'], None)          # a synced file moved over the old one: either is acceptable
        d['t'] = self.t
        ev = (p.idx, m['k'], rel, m.get('n'), d['a'])
        p.ops.append((m['k'], rel))
        self.note(*ev)
        self.sched_trace.append(p.idx)
        p.pending = None
        _send(p.w, d)
        self._await(p)

    def _snapshot(self, rel):
        if rel in self.dirty:
            return
        try:
            with open(self.path(rel), 'rb') as f:
                self.dirty[rel] = f.read()
        except OSError:
            self.dirty[rel] = None

    def _directive(self, f, m):
        k = f['kind']
        if k in ('ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS'):
            d = {'a': 'err', 'e': getattr(errno, k)}
            if m['k'] == 'write':
                d['f'] = f.get('f', 0.0)
            return d
        if k in ('KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'LinAlgError'):
            return {'a': 'exc', 'x': k}
        if k == 'crash':
            return {'a': 'torn', 'f': f.get('f', 0.0)} if m['k'] == 'write' and f.get('f') else {'a': 'crash'}
        if k == 'torn':
            return {'a': 'torn', 'f': f.get('f', 0.5)} if m['k'] == 'write' else {'a': 'crash'}
        if k == 'short':
            return {'a': 'short', 'f': f.get('f', 0.5)}
        if k == 'delay':
            self.t += f.get('s', 1.0)
            return {'a': 'go'}
        if k == 'clockjump':
            self.t += f.get('s', -3600.0)
            return {'a': 'go', 'jump': 1}
        if k == 'nan':
            return {'a': 'nan'} if m['k'] == 'solve' else {'a': 'go'}
        raise Infra('unknown fault %r' % (f,))

    # ---------------------------------------------------------------- running
    def run(self, pick=None):
        """Runs all processes to their end. pick(list of runnable) chooses the next one."""
        t = self.t
        while True:
            live = [p for p in self.procs if not p.done]
            if not live:
                break
            p = live[0] if len(live) == 1 else (pick(live) if pick else self.rng.choice(live))
            self.step(p)
        self.covered += max(0.0, self.t - t)
        self.stats['sim_s'] = self.stats.get('sim_s', 0.0) + max(0.0, self.t - t)

    def call(self, name, fn, faults=(), entropy=None):
        p = self.start(name, fn, faults, entropy)
        self.run()
        return p

    def settle(self):
        """Everything written so far reaches the disk."""
        self.dirty.clear()

    def power_loss(self, seed):
        """
        Kills everything. A file written since it was last synced keeps its new content, its old content, a prefix of
        the new one, a zero-filled tail, or nothing.
        """
        for p in self.procs:
            self.kill(p)
        rng = random.Random('power/%s' % seed)
        for rel in sorted(self.dirty):
            old = self.dirty[rel]
            full = self.path(rel)
            try:
                with open(full, 'rb') as f:
                    new = f.read()
            except OSError:
                continue
            how = rng.choice(['new', 'new', 'old', 'prefix', 'zeros', 'empty', 'absent'])
            if how == 'old':
                data = old
            elif how == 'prefix':
                data = new[:rng.randrange(len(new) + 1)]
            elif how == 'zeros':
                k = rng.randrange(len(new) + 1)
                data = new[:k] + b'\0' * (len(new) - k)
            elif how == 'empty':
                data = b''
            elif how == 'absent':
                data = None if old is None else old
            else:
                data = new
            if data is None:
                os.unlink(full)
            elif data != new:
                with open(full, 'wb') as f:
                    f.write(data)
            self.note('power', rel, how)
            self.count('fault:power_' + how)
        self.dirty.clear()
        self.count('fault:power_loss')

    def close(self):
        for p in self.procs:
            self.kill(p)
        for d in sorted(self.saves) + [self.root]:
            shutil.rmtree(d, ignore_errors=True)


class _Out:
    """Captured standard output of a simulated process."""
    encoding = 'utf-8'
    errors = 'replace'

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return ''.join(self.parts)


def _child(rfd, wfd, ent, root, fn):
    import numpy as np
    gc.disable()                         # a short life: a major collection would only copy the shared memory
    k = Kernel(rfd, wfd, ent)
    out = _Out()
    sys.stdout = sys.stderr = out
    os.chdir(root)
    np.random.seed(k.rng.getrandbits(32))
    random.seed(k.rng.getrandbits(64))
    d = k.op('start', None)
    seams.attach(k, root)
    if d['a'] == 'crash':
        os._exit(137)
    res = {'k': 'exit', 'code': 0, 'exc': None}
    try:
        try:
            res['data'] = fn()
        finally:
            k.quiet_end = True
    except SystemExit as e:
        c = e.code
        res['code'] = 0 if c is None else (c if isinstance(c, int) else 1)
        res['exc'] = 'SystemExit(%r)' % (c,)
    except Infra:
        res['code'], res['tb'] = 70, traceback.format_exc()
    except BaseException as e:
        res['code'] = 130 if isinstance(e, KeyboardInterrupt) else 1
        res['exc'] = type(e).__name__ + ': ' + str(e)[:300]
        res['tb'] = traceback.format_exc()[-3000:]
    seams.KERNEL = None
    res['out'] = out.getvalue()[-20000:]
    _send(wfd, res)
    return 0
