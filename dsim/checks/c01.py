"""C01: results depend only on data, configuration and options."""
import copy
import os
import random

from dsim import envs
from dsim.base import Check, base_env, call, start, gen_error_fault


class C01(Check):
    id = 'C01'
    title = 'reproducible results'
    three = True
    second = True
    budget = {'quick': (160, 45), 'thorough': (4000, 1500)}
    rule = ('One chain of commands is run in a clean world and again in a perturbed one (other process entropy and '
            'generator state, other clock, an interpreter with another string hash seed, other directory listing order, verbosity, results and output folders left by '
            'earlier completed or interrupted runs, other commands before it in the same interpreter).')
    measure = 'hash of (options of the chain, kinds of perturbation)'

    def gen(self, rng, tier, i):
        three = rng.random() < (0.06 if tier == 'quick' else 0.15)
        env = base_env(rng, three, names=('n0',), hidden=0.3)
        if not three:
            env['nets'].append(envs.gen_net(rng, 'n1', n=rng.randint(3, 4)))
        t = ['-t', '-q'] if three else []
        lap = ['-l'] if rng.random() < 0.25 and not three else []
        gauss = rng.random() < 0.35
        sim = ['-n', 'n0'] + (['-g', str(rng.choice([0.2, 0.5]))] if gauss else envs.LOADS) + t + lap
        if rng.random() < 0.4:
            sim.append('-e')
        ops = [{'cmd': 'simulate', 'args': sim}]
        if rng.random() < 0.25 and not three:
            k = rng.choice([['-p'], ['-s'], ['-d'], ['-p', '-s'], ['-s', '-d']])
            ops.append({'cmd': 'simulate', 'args': sim + k})
        idf = ['-n', 'n0', '-i', str(rng.randint(1, 4))] + lap
        if three:
            idf += ['-p', rng.choice(['0', '1', '2', '012']), '-q']
        if rng.random() < 0.4:
            idf.append('-w')
        if rng.random() < 0.35 and not three and not lap:
            idf.append('-u')
        if rng.random() < 0.8:
            ops.append({'cmd': 'identify', 'args': idf})
            if rng.random() < 0.3:
                ops.append({'cmd': 'identify', 'args': idf + [rng.choice(['-b', '-c', '-s'])]})
        kinds = ['entropy', 'clock', 'listing', 'verbose', 'leftover', 'preamble', 'stale_dirs', 'interrupted', 'delay', 'hashing']
        var = sorted(rng.sample(kinds, rng.randint(1, 4)))
        if three:
            var = [v for v in var if v not in ('leftover', 'preamble', 'interrupted')] or ['entropy', 'listing']
        other = copy.deepcopy(env['conf'])
        other.update(seed=rng.randrange(1000), days=env['conf']['days'] + rng.choice([0, 1]),
                     safety_factor=3, current_magnitude_sd=2e-4)
        other['time_steps'] = max(2, other['time_steps'] - 1)
        return {'three': three, 'env': env, 'ops': ops, 'var': var, 'seed': rng.randrange(2 ** 31), 'other': other,
                'pre': rng.choice(['other', 'fail', 'profiles', 'profiles'] + ([] if three else ['self', 'id'])), 'fault': gen_error_fault(rng)}

    def simplify(self, plan):
        for v in plan['var']:
            p = copy.deepcopy(plan)
            p['var'].remove(v)
            if p['var']:
                yield p

    def run(self, plan, ctx):
        env, ops, var, three = plan['env'], plan['ops'], plan['var'], plan['three']
        a = ctx.world(plan['seed'])
        envs.prepare(a, env)
        outa = []
        for op in ops:
            p = call(a, env, op)
            outa.append((p.status, p.exc))
        sa = envs.snapshot(a, ['n0'])

        if 'hashing' in var:
            outb, sb = ctx.far(self, 'perturbed', plan, a.t0, a.list_seed)
        else:
            outb, sb = self.perturbed(ctx, plan, a.t0, a.list_seed)
        for k, (x, y) in enumerate(zip(outa, outb)):
            if (x[0] == 0) != (y[0] == 0):
                ctx.violate('outcome', 'command %d %s: outcome %s in a clean world, %s with %s'
                            % (k, ops[k], x, y, var))
                return
        if any(x[0] for x in outa):
            ctx.probe('command failed: %s' % [x[1] for x in outa if x[0]][0][:60])
            # results of commands that did not run successfully may be left over
            return
        ctx.state(three, [o['cmd'] + ' '.join(x for x in o['args'] if x.startswith('-')) for o in ops], var)
        for v in var:
            ctx.probe('var:' + v)
        for key in sorted(sa):
            d = envs.diff(sa[key], sb.get(key))
            if d:
                ctx.violate('differs', "result '%s' differs between two runs of the same commands (%s): %s"
                            % (key[1], ', '.join(var), d))
                return

    def perturbed(self, ctx, plan, t0, list_seed):
        env, ops, var = plan['env'], plan['ops'], plan['var']
        b = ctx.world(plan['seed'] + 1 if 'entropy' in var else plan['seed'], t0=None if 'clock' in var else t0)
        if 'clock' in var:
            b.t = b.t0 = b.t0 + random.Random(plan['seed']).choice([0.0, 86400.0 * 200, -3.2e8])
        if 'listing' not in var:
            b.list_seed = list_seed
        envs.prepare(b, env)
        rng = random.Random('v/%d' % plan['seed'])
        if 'stale_dirs' in var:
            self._stale_dirs(b, rng)
        if 'leftover' in var or 'interrupted' in var:
            conf = plan['other']
            first = {'cmd': 'simulate', 'args': ops[0]['args'], 'conf': conf}
            call(b, env, first, faults=[plan['fault']] if 'interrupted' in var else ())
            if ops[-1]['cmd'] == 'identify' and 'leftover' in var:
                call(b, env, {'cmd': 'identify', 'args': [x for x in ops[-1]['args'] if x not in ('-c', '-s', '-b')],
                              'conf': conf})
        outb = []
        for k, op in enumerate(ops):
            o = dict(op)
            if 'verbose' in var:
                o['args'] = list(o['args']) + ['-v']
            if 'preamble' in var:
                full = not set(op['args']) & {'-b', '-c', '-s', '-d', '-p'}
                kind = plan['pre'] if full else {'self': 'other', 'id': 'fail'}.get(plan['pre'], plan['pre'])
                pre = {'other': {'cmd': 'simulate', 'args': ['-n', 'n1', '-g', '0.4', '-p']},
                       'profiles': {'cmd': 'simulate', 'args': ['-n', 'n1'] + envs.LOADS + ['-p']},
                       'self': dict(op),
                       'fail': {'cmd': 'simulate', 'args': ['-n', 'n0', '-a', 'none.npy', '-r', 'none.npy']},
                       'id': {'cmd': 'identify', 'args': ['-n', 'n0', '-i', '1']}}[kind]
                o = {'cmds': [pre, o], 'cmd': op['cmd']}
                if kind == 'profiles':
                    # the household profiles were others before
                    old = dict(env['profiles'], seed=env['profiles']['seed'] + 1)
                    o['cmds'] = [{'cmd': '_profiles', 'profiles': old}, pre,
                                 {'cmd': '_profiles', 'profiles': env['profiles']}, o['cmds'][1]]
            faults = []
            if 'delay' in var:
                faults = [{'on': '*', 'kind': 'delay', 'nth': rng.randrange(40), 's': 86400.0},
                          {'on': '*', 'kind': 'clockjump', 'nth': rng.randrange(80), 's': -5000.0}]
            p = call(b, env, o, faults=faults)
            if 'cmds' in o and p.ok:
                last = (p.data or ['?'])[-1]
                outb.append((0 if last == 'ok' else 1, last))
            else:
                outb.append((p.status, p.exc))
        return outb, envs.snapshot(b, ['n0'])

    @staticmethod
    def _stale_dirs(w, rng):
        """Output folders of earlier simulations, some with the name the next run would like to use."""
        import time
        for k in range(3):
            stamp = time.strftime('%Y%m%d_%H%M%S', time.gmtime(w.t + k - 1))
            d = w.path('data/simulations_output/sim_' + stamp)
            os.makedirs(d + '/res_bus', exist_ok=True)
            for v in ('vm_pu', 'va_degree', 'p_mw', 'q_mvar'):
                with open(d + '/res_bus/%s.csv' % v, 'w') as f:
                    f.write(';1;2\n0;1.0;1.0\n')
        with open(w.path('data/simulations_output/filtered_results_n0.npz.tmp'), 'w') as f:
            f.write('garbage')


CHECK = C01()
