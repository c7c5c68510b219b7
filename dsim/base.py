"""Base class of the checks."""
import copy
import random

from dsim import envs


class Check:
    id = None
    rule = ''
    measure = ''
    level = 'exploration'
    plots = False
    three = False
    second = False         # a second simulator with another string hash seed is needed
    warm = True
    shrink_s = 90
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    real = ['simulate_network / identify_network command lines (click, in process)', 'src.simulation', 'src.identification',
            'src.models', 'pandapower, numpy, scipy, pandas', 'file system below a scratch folder (real files, seamed calls)']
    stubs = ['wall clock (simulated)', 'process entropy (seeded)', 'directory listing order (seeded)',
             'process scheduling (seeded, one operation at a time)', 'networks, household profiles and configuration (generated)',
             'GPU path (cupy is not installed)']
    assumptions = ['numpy, scipy, pandas and pandapower are trusted to do what they document',
                   'a crash keeps the bytes handed to the operating system, a power loss may lose or tear unsynced files',
                   'sampled schedules and faults: evidence, not proof']

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        return iter(())

    def matches_known(self, k, plan, v):
        return False

    def warm_plans(self):
        rng = random.Random(3)
        net = envs.gen_net3(rng, 'w', n=3) if self.three else envs.gen_net(rng, 'w', n=4)
        env = {'nets': [net], 'profiles': envs.gen_profiles(rng),
               'conf': envs.gen_conf(rng, net, minutes=6 if self.three else 12)}
        t = ['-t', '-q'] if self.three else []
        yield {'env': env, 'ops': [{'cmd': 'simulate', 'args': ['-n', 'w'] + envs.LOADS + t},
                                   {'cmd': 'identify', 'args': ['-n', 'w', '-i', '3']},
                                   {'cmd': 'identify', 'args': ['-n', 'w', '-i', '2', '-w', '-u']}]}


def start(world, env, op, name=None, faults=None, entropy=None):
    """Starts one simulated process running one command (or several in one interpreter)."""
    if 'cmds' in op:
        fn = lambda: envs.commands(env, op['cmds'], tolerate=op.get('tolerate', True))
    else:
        fn = lambda: envs.command(env, op)
    return world.start(name or op.get('cmd', 'multi'), fn, faults if faults is not None else op.get('faults', ()), entropy)


def call(world, env, op, **k):
    p = start(world, env, op, **k)
    world.run()
    return p


def strip(op):
    o = {k: v for k, v in op.items() if k != 'faults'}
    return o


# ------------------------------------------------------------------------------------------------ fault generators
IO_ERR = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT']


def gen_error_fault(rng, where=None):
    """A fault that may make a command fail."""
    k = rng.random()
    if k < 0.30:
        return {'on': rng.choice(['write', 'open_w', 'close', 'write|close']), 'kind': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']),
                'nth': int(rng.expovariate(1 / 9.0)), 'f': rng.choice([0.0, 0.3, 0.9]), 'persist': rng.random() < 0.4}
    if k < 0.45:
        return {'on': 'open_w|mkdir', 'kind': rng.choice(['EACCES', 'EMFILE', 'EROFS', 'ENOSPC']),
                'nth': rng.randrange(12), 'persist': rng.random() < 0.4}
    if k < 0.62:
        return {'on': rng.choice(['read', 'open_r', 'read|open_r']), 'kind': rng.choice(['EIO', 'EACCES', 'EMFILE']),
                'nth': rng.randrange(18), 'persist': rng.random() < 0.3}
    if k < 0.72:
        return {'on': 'list|stat', 'kind': 'EIO', 'nth': rng.randrange(14)}
    if k < 0.80:
        return {'on': 'solve', 'kind': rng.choice(['MemoryError', 'RuntimeError', 'KeyboardInterrupt']),
                'nth': int(rng.expovariate(1 / rng.choice([4.0, 15.0])))}
    if k < 0.87:
        return {'on': 'dense', 'kind': rng.choice(['MemoryError', 'MemoryError', 'LinAlgError']), 'nth': rng.randrange(4),
                'persist': rng.random() < 0.2}
    if k < 0.90:
        return {'on': rng.choice(['alloc', '*']), 'kind': 'MemoryError', 'nth': int(rng.expovariate(1 / 20.0))}
    if k < 0.93:
        return gen_path_fault(rng, ['res_bus', 'sim_loads_', 'sim_results_', 'filtered_', 'standard_', 'bayesian_',
                                    'reference_', 'fim_', 'uncertainty_'])
    return {'on': '*', 'kind': 'KeyboardInterrupt', 'nth': rng.randrange(150)}


def gen_path_fault(rng, paths):
    return {'on': rng.choice(['write', 'write', 'open_w']), 'kind': rng.choice(['ENOSPC', 'EIO']), 'nth': rng.randrange(4),
            'f': rng.random(), 'path': rng.choice(paths), 'persist': rng.random() < 0.5}


def gen_benign_fault(rng):
    k = rng.random()
    if k < 0.45:
        return {'on': 'write', 'kind': 'short', 'nth': rng.randrange(25), 'f': rng.random(), 'persist': rng.random() < 0.5}
    if k < 0.75:
        return {'on': 'read', 'kind': 'short', 'nth': rng.randrange(12), 'f': rng.random(), 'persist': rng.random() < 0.5}
    if k < 0.88:
        return {'on': '*', 'kind': 'delay', 'nth': rng.randrange(100), 's': rng.choice([0.7, 30.0, 86400.0])}
    return {'on': '*', 'kind': 'clockjump', 'nth': rng.randrange(100), 's': rng.choice([-3600.0, 1.0, -1.0, 3600.0])}


def gen_crash(rng, span=200):
    k = rng.random()
    if k < 0.35:
        return {'on': '*', 'kind': 'crash', 'nth': rng.randrange(span)}
    if k < 0.75:
        return {'on': 'write', 'kind': 'torn', 'nth': rng.randrange(40), 'f': rng.random()}
    if k < 0.9:
        return {'on': rng.choice(['open_w', 'close', 'mkdir']), 'kind': 'crash', 'nth': rng.randrange(10)}
    return {'on': 'rename|fsync', 'kind': 'crash', 'nth': rng.randrange(3)}


def sim_args(rng, name, three=False, stage=None, gauss=None):
    a = ['-n', name]
    if gauss:
        a += ['-g', str(gauss)]
    else:
        a += envs.LOADS
    if three:
        a += ['-t', '-q']
    return a


def merged(env, *confs):
    c = dict(env['conf'])
    for x in confs:
        c.update(x or {})
    return c


# ------------------------------------------------------------------------------------------------ turbulence
def gen_turb(rng, env, op, heavy=True):
    """
    Circumstances that must not change the outcome of the command op: an earlier attempt that failed or died (possibly
    with a power loss), another network's command at the same time, slow and short transfers, clock jumps.
    """
    t = {'benign': [gen_benign_fault(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
    k = rng.random()
    if k < (0.3 if heavy else 0.1):
        o = copy.deepcopy(op)
        if o['cmd'] == 'simulate':
            o['conf'] = dict(o.get('conf') or {}, seed=rng.randrange(1000), safety_factor=rng.choice([1, 3, 7]))
        o['faults'] = [gen_crash(rng, 120) if rng.random() < 0.6 else gen_error_fault(rng)]
        t['before'] = o
        t['power'] = rng.random() < 0.4
    if heavy and rng.random() < 0.15 and len(env['nets']) > 1:
        t['beside'] = {'cmd': 'simulate', 'args': ['-n', env['nets'][1]['name'], '-g', '0.3', '-p']}
    return t


def run_turb(ctx, world, env, op, turb, seed=0):
    """Runs op in the given circumstances; returns its process."""
    turb = turb or {}
    world.settle()                       # results of earlier commands have reached the disk
    if turb.get('before') and not (op['cmd'] == 'identify' and '-c' in op['args']):   # which needs its earlier result
        p = call(world, env, turb['before'])
        ctx.probe('earlier attempt: %s' % ('killed' if p.status == 137 else 'failed' if p.status else 'completed'))
        if turb.get('power'):
            world.power_loss(seed)
        else:
            world.settle()
    p = start(world, env, op, faults=turb.get('benign', ()))
    if turb.get('beside'):
        start(world, env, turb['beside'])
        ctx.probe('other command at the same time')
    world.run()
    return p


def ran(ctx, p, what):
    """The command must complete in circumstances that are no excuse to fail."""
    if p.ok:
        return True
    if p.status == 124:
        ctx.violate('hang', '%s does not come to an end' % what)
    else:
        ctx.violate('failed', '%s fails without a reason: status %s, %s\n%s'
                    % (what, p.status, p.exc, (getattr(p, 'tb', '') or '')[-800:]))
    return False


def read(ctx, world, kind, name):
    """A result that must exist and be readable."""
    try:
        d = envs.load(world, kind, name)
    except envs.Unreadable as e:
        ctx.violate('unreadable', 'result %s of %s is unreadable after a successful command: %s' % (kind, name, e))
        return None
    if d is None:
        ctx.violate('missing', 'result %s of %s is missing after a successful command' % (kind, name))
    return d


def simplify_turb(plan):
    for k in ('before', 'beside', 'power', 'benign'):
        if plan.get('turb', {}).get(k):
            p = copy.deepcopy(plan)
            p['turb'].pop(k)
            yield p


def base_env(rng, three=False, minutes=None, names=('n0',), **k):
    nets = []
    for n in names:
        nets.append(envs.gen_net3(rng, n, asym=0.75, passive=k.get('passive', 0.3), n=k.get('n')) if three else envs.gen_net(rng, n, passive=k.get('passive', 0.3),
                                                                     radial=rng.random() < 0.7, gap=rng.random() < 0.3,
                                                                     n=k.get('n'), odd_loads=k.get('odd_loads', 0.0)))
    big = max(nets, key=lambda n: len(n['buses']))
    conf = envs.gen_conf(rng, big, minutes=minutes or (rng.choice([5, 6, 8]) if three else None),
                         hidden=k.get('hidden', 0.0), noise=k.get('noise', True), **k.get('conf', {}))
    return {'nets': nets, 'profiles': envs.gen_profiles(rng), 'conf': conf}
