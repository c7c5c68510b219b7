"""C03: redoing some stages of a simulation uses exactly the latest results of the other ones."""
import copy

from dsim import base, envs
from dsim.base import Check

STAGES = ('loads', 'sim', 'filtered', 'final')
LOADS_KEYS = ('seed', 'days', 'load_constantness')
NOISE_SD = ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd')
FLAGS = {'-p': 'loads', '-s': 'sim', '-d': 'filtered'}


class C03(Check):
    id = 'C03'
    title = 'partial re-simulation'
    three = True
    budget = {'quick': (200, 45), 'thorough': (8000, 1500)}
    rule = ('A history of full and partial simulations with changing configuration, load source and options, some of '
            'which fail or are killed. Every stored stage equals what one complete simulation with the configuration '
            'this stage and its inputs were made with produces; a stage that is not redone is not touched.')
    measure = 'hash of the history (stages redone, what changed, which commands died)'

    def gen(self, rng, tier, i):
        three = rng.random() < (0.04 if tier == 'quick' else 0.12)
        env = base.base_env(rng, three, hidden=0.35, n=None if three else rng.choice([3, 4]), passive=0.2)
        env['conf']['constant_load_hidden_nodes'] = rng.random() < 0.5
        net = env['nets'][0]
        cand = [b[0] for b in net['buses'] if b[1] == 1 and b[2] != 0]
        gauss = str(rng.choice([0.2, 0.4])) if rng.random() < 0.5 else None
        ops, conf = [], {}
        lap = False
        days = env['conf']['days']
        eq = rng.random() < 0.3
        for k in range(rng.randint(2, 3 if three else 5)):
            fl = [] if k == 0 or rng.random() < 0.12 else rng.choice(
                [['-p'], ['-s'], ['-d'], ['-d'], ['-p', '-s'], ['-s', '-d'], ['-p', '-d'], ['-p', '-s', '-d']])
            redo = {FLAGS[f] for f in fl} or set(STAGES[:3])
            conf = dict(conf)
            what = []
            # the configuration also changes while the stages that use it are not redone
            def may(stage, chance):
                return k and rng.random() < chance * (1.0 if stage in redo else 0.3)
            if may('loads', 0.3) or may('filtered', 0.25):
                conf['seed'] = rng.randrange(1000)
                what.append('seed')
            if len(redo) == 3 and k and rng.random() < 0.3:
                days = env['conf']['days'] + rng.choice([1, 2])
                what.append('days')
            conf['days'] = days
            if 'loads' not in redo and rng.random() < 0.3:          # of no meaning to the stored loads
                conf['days'] = env['conf']['days'] + rng.choice([-1, -2, 1, 2])
                what.append('days of other loads')
            if 'loads' in redo and k and rng.random() < 0.6:
                gauss = rng.choice([None, '0.2', '0.5'])
                what.append('loads')
            if may('loads', 0.4):
                conf['load_constantness'] = rng.choice([0.3, 0.9])
            if may('filtered', 0.7):
                for x in NOISE_SD:
                    if rng.random() < 0.5:
                        conf[x] = 10 ** rng.uniform(-5, -3)
                if rng.random() < 0.5:
                    conf['safety_factor'] = rng.choice([1, 2, 5])
                if rng.random() < 0.5:
                    conf['time_steps'] = max(2, env['conf']['time_steps'] - rng.randint(1, 4))
                if rng.random() < 0.2:
                    conf['measurement_frequency'] = env['conf']['measurement_frequency'] * 2
                eq = rng.random() < 0.4
                what.append('noise')
            if not three and k and not env['conf']['constant_load_hidden_nodes'] and rng.random() < 0.4 and len(cand) > 2:
                conf['hidden_nodes'] = rng.choice([[], [rng.choice(cand)]])
                what.append('hidden')
            if not three and rng.random() < 0.25 and not env['conf']['constant_load_hidden_nodes']:
                lap = not lap
            a = ['-n', 'n0'] + (['-g', gauss] if gauss else envs.LOADS) + fl
            if three:
                a += ['-t', '-q']
            if eq:
                a.append('-e')
            if lap:
                a.append('-l')
            o = {'cmd': 'simulate', 'args': a, 'conf': conf, 'what': what, 'redo': sorted(redo)}
            if k and rng.random() < 0.18:
                o['faults'] = [base.gen_crash(rng, 120) if rng.random() < 0.6 else base.gen_error_fault(rng)]
            ops.append(o)
        return {'three': three, 'env': env, 'ops': ops, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        n = len(plan['ops'])
        for k in range(n - 1, 0, -1):
            p = copy.deepcopy(plan)
            p['ops'].pop(k)
            yield p
        for k, o in enumerate(plan['ops']):
            if o.get('faults'):
                p = copy.deepcopy(plan)
                p['ops'][k].pop('faults')
                yield p

    def run(self, plan, ctx):
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        prov = {s: None for s in STAGES}
        refs = {}
        hist = []
        for k, op in enumerate(plan['ops']):
            before = {s: self.bytes(w, s) for s in STAGES}
            p = base.call(w, env, op)
            redo = set(op['redo'])
            hist.append((op['redo'], op['what'], p.status, '-l' in op['args']))
            for s in STAGES[:3]:
                if s not in redo and self.bytes(w, s) != before[s]:
                    return ctx.violate('touched', "command %d (%s) changed '%s', which it was not asked to redo"
                                       % (k, ' '.join(op['args']), s))
            cur = dict(op.get('conf') or {})
            src = ('g', op['args'][3]) if op['args'][2] == '-g' else ('profiles',)
            lap, eq = '-l' in op['args'], '-e' in op['args']
            if not p.ok:
                if not op.get('faults'):
                    if any(prov[s] is None for s in STAGES[:3] if s not in redo):
                        continue            # it could not find what it needs
                    return base.ran(ctx, p, 'command %d (%s)' % (k, ' '.join(op['args'])))
                ctx.probe('a command %s' % ('was killed' if p.status == 137 else 'failed'))
                for s in redo | {'final'}:
                    prov[s] = None
                continue
            missing = [s for s in STAGES[:3] if s not in redo and before[s] is None]
            if missing:
                return ctx.violate('invented', 'command %d (%s) succeeds without the stored %s it needs'
                                   % (k, ' '.join(op['args']), missing))
            if 'loads' in redo:
                prov['loads'] = {'src': src, 'c': {x: cur[x] for x in LOADS_KEYS if x in cur}}
            if 'sim' in redo:
                prov['sim'] = prov['loads'] and {'loads': prov['loads']}
            if 'filtered' in redo:
                prov['filtered'] = prov['sim'] and {'sim': prov['sim'], 'eq': eq,
                                                    'c': {x: v for x, v in cur.items()
                                                          if x == 'seed' or x not in LOADS_KEYS + ('hidden_nodes',)}}
            prov['final'] = prov['filtered'] and {'filtered': prov['filtered'], 'lap': lap,
                                                  'hidden': cur.get('hidden_nodes', env['conf'].get('hidden_nodes', []))}
            for s in reversed(STAGES):
                if prov[s] is None:
                    continue
                msg = self.compare(ctx, plan, w, env, refs, s, prov[s])
                if msg:
                    return ctx.violate('stale', "after command %d (%s), '%s' is not what its inputs and configuration "
                                       "give: %s" % (k, ' '.join(op['args']), s, msg))
        ctx.state(hist)
        ctx.probe('partial commands', sum(1 for o in plan['ops'] if len(o['redo']) < 3))

    def compare(self, ctx, plan, w, env, refs, stage, pv):
        # configuration of one complete run
        f = pv if stage == 'final' else None
        fl = f['filtered'] if f else pv if stage == 'filtered' else None
        sm = fl['sim'] if fl else pv if stage == 'sim' else None
        ld = sm['loads'] if sm else pv
        conf = dict(ld['c'])
        if fl:
            conf.update({k: v for k, v in fl['c'].items() if k not in LOADS_KEYS})
        if f:
            conf['hidden_nodes'] = f['hidden']
        args = ['-n', 'n0'] + (['-g', ld['src'][1]] if ld['src'][0] == 'g' else envs.LOADS)
        if plan['three']:
            args += ['-t', '-q']
        if fl and fl['eq']:
            args.append('-e')
        if f and f['lap']:
            args.append('-l')
        todo = [(args, conf)]
        if fl and fl['c'].get('seed') != ld['c'].get('seed'):
            # the noise was drawn with another seed than the loads
            noise = {k: v for k, v in conf.items() if k != 'seed'}
            if 'seed' in fl['c']:
                noise['seed'] = fl['c']['seed']
            todo.append((args + ['-d'], noise))
        got = envs.load(w, stage, 'n0')
        for key, ref in refs.items():
            if stage in ref['prov'] and ref['prov'][stage] == pv:
                return envs.diff(got, ref['data'][stage])
        r = ctx.world(plan['seed'] + 100 + len(refs))
        envs.prepare(r, env)
        for a, c in todo:
            p = base.call(r, env, {'cmd': 'simulate', 'args': a, 'conf': c})
            if not p.ok:
                r.close()
                return None
        ref = {'data': {s: envs.load(r, s, 'n0') for s in STAGES}, 'prov': {stage: pv}}
        if f:
            ref['prov'].update(filtered=fl)
        if fl:
            ref['prov'].update(sim=sm)
        if sm:
            ref['prov'].update(loads=ld)
        refs[len(refs)] = ref
        r.close()
        return envs.diff(got, ref['data'][stage])

    @staticmethod
    def bytes(w, stage):
        try:
            with open(envs.out_path(w, stage, 'n0'), 'rb') as f:
                return f.read()
        except OSError:
            return None


CHECK = C03()
