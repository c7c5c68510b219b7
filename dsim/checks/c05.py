"""C05: after a crash or a power loss, commands either fail or work with consistent results; a full run recovers."""
import copy

from dsim import base, envs
from dsim.base import Check

STAGES = ('loads', 'sim', 'filtered', 'final')


class C05(Check):
    id = 'C05'
    title = 'crash recovery'
    three = True
    budget = {'quick': (300, 45), 'thorough': (12000, 1500)}
    rule = ('A simulation or an identification is killed at a random operation (possibly in the middle of a write, '
            'possibly with the loss of unsynced data), over old results or none. What is left for each result is the '
            'old one, the new one, or nothing that can be read; following commands fail or give the results of the '
            'configuration their inputs were made with; a complete repetition gives the fault-free results.')
    measure = 'hash of (command, kind of the last operation before the crash, number of operations, what was left)'

    def gen(self, rng, tier, i):
        three = rng.random() < (0.03 if tier == 'quick' else 0.1)
        given = not three and rng.random() < 0.3               # measured data instead of a simulation
        env = base.base_env(rng, three, hidden=0.2, n=None if three else rng.choice([3, 4]), passive=0.2)
        t = ['-t', '-q'] if three else []
        loads = (['-g', '0.3'] if rng.random() < 0.5 else envs.LOADS)
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0'] + loads + t + (['-e'] if rng.random() < 0.5 else [])}
        its = rng.randint(1, 3)
        idf = {'cmd': 'identify', 'args': ['-n', 'n0', '-i', str(its)] + (['-w'] if rng.random() < 0.3 else [])
               + (['-u'] if rng.random() < 0.2 and not three else [])}
        if given:
            seqs = rng.random() < 0.75
            sim = envs.gen_data(rng, 'n0', seqs, t=rng.choice([12, 20]))
            three = seqs
        if three:
            idf['args'] += ['-p', rng.choice(['1', '012', '012'] if given else ['1', '012']), '-q']
        old = {}
        if rng.random() < 0.8:
            old = {'seed': rng.randrange(1000), 'safety_factor': rng.choice([1, 3])}
            if rng.random() < 0.5:
                old['time_steps'] = max(2, env['conf']['time_steps'] - 1)
        slow = three and not given
        trials = []
        for k in range(2 if slow else rng.choice([6, 8])):
            victim = 'identify' if given or rng.random() < 0.45 else 'simulate'
            u = rng.random()
            if u < 0.45:                        # anywhere in the command
                crash = {'on': '*', 'kind': 'crash', 'at': rng.random()}
            elif u < 0.75:                      # just before a result is written
                crash = {'on': 'open_w', 'kind': 'crash', 'nth': 0,
                         'path': rng.choice(['sim_results_', 'filtered_', 'filtered_', 'simulations_output/n0'] if
                                            victim == 'simulate' else ['standard_', 'bayesian_', 'fim_', 'uncertainty_'])}
            elif u < 0.9:                      # aim at the files that are passed on
                crash = {'on': rng.choice(['write', 'write', 'write', 'open_w', 'close']),
                         'kind': 'torn', 'nth': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), 'f': rng.random(),
                         'path': rng.choice(['sim_loads_', 'sim_results_', 'filtered_', 'simulations_output/n0'] if
                                            victim == 'simulate' else
                                            ['standard_', 'bayesian_', 'reference_', 'bayesian_', 'uncertainty_'])}
            elif u < 0.95 and victim == 'simulate':  # with the power flow on disk
                crash = {'on': 'open_r|read|close', 'kind': 'crash', 'nth': rng.randrange(14), 'path': 'res_bus'}
            else:
                crash = base.gen_crash(rng, 160 if victim == 'simulate' else 40)
            other = bool(old) and victim == 'simulate' and rng.random() < 0.3
            trials.append({'other': other, 'victim': victim, 'crash': crash, 'power': rng.random() < 0.4,
                           'part': rng.choice([[], ['-d'], ['-s'], ['-s'], ['-s', '-d'], ['-p'], ['-p'], ['-p', '-s'], ['-p', '-s']]),
                           'recover': rng.random() < (0.5 if slow or given else 0.15)})
        return {'three': three, 'env': env, 'sim': sim, 'idf': idf, 'old': old or None, 'trials': trials,
                'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        tr = plan['trials']
        if len(tr) > 1:
            for t in tr:
                yield dict(copy.deepcopy(plan), trials=[copy.deepcopy(t)])
            return
        for x, v in (('power', False), ('part', []), ('recover', False)):
            if tr[0][x]:
                p = copy.deepcopy(plan)
                p['trials'][0][x] = v
                yield p

    def solo(self, ctx, env, plan, conf, n):
        w = ctx.world(plan['seed'] + n)
        envs.prepare(w, env)
        size = {}
        for k, o in (('simulate', plan['sim']), ('identify', plan['idf'])):
            p = base.call(w, env, dict(o, conf=conf))
            if not p.ok:
                return None, None
            size[k] = p.nops
        return size, envs.snapshot(w, ['n0'])

    def same_as_clean(self, ctx, env, plan, o, label, got, part, cleans):
        """A partial simulation of what a crash left, against one of the same stages made by complete commands."""
        conf = [label.get(s, {}) for s in STAGES[:3]]
        key = repr((conf, part))
        if key not in cleans:
            ref = ctx.world(plan['seed'] + 7 + len(cleans))
            envs.prepare(ref, env)
            todo = [([], conf[2])]
            if conf[1] != conf[2]:
                todo.append((['-p', '-s'], conf[1]))
            if conf[0] != conf[1]:
                todo.append((['-p'], conf[0]))
            cleans[key] = None
            for fl, c in todo:
                if not base.call(ref, env, dict(plan['sim'], conf=c, args=plan['sim']['args'] + fl)).ok:
                    break
            else:
                if not base.ran(ctx, base.call(ref, env, o), 'simulate %s of complete stages' % ' '.join(part)):
                    return False
                cleans[key] = envs.snapshot(ref, ['n0'], STAGES)
            ref.close()
        want = cleans[key]
        if want is None:
            ctx.probe('the clean history fails')
            return True
        for s in STAGES:
            d = envs.diff(got.get(('n0', s)), want.get(('n0', s)))
            if d:
                ctx.violate('partial', "simulate %s after a killed one, which left %s, gives another '%s' than after complete "
                            "commands: %s" % (' '.join(part), sorted((k, 'new' if v == {} else 'old')
                                                                             for k, v in label.items()), s, d))
                return False
        ctx.probe('partial simulations after a crash compared')
        return True

    def run(self, plan, ctx):
        env, old = plan['env'], plan['old']
        size, new_ref = self.solo(ctx, env, plan, {}, 1)
        if new_ref is None:
            ctx.probe('not identifiable')
            return
        old_ref = {}
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        if old is not None:
            for o in (plan['sim'], plan['idf']):
                if not base.ran(ctx, base.call(w, env, dict(o, conf=old)), 'the first %s' % o['cmd']):
                    return
            old_ref = envs.snapshot(w, ['n0'])
        w.save('simulate')
        if any(t['victim'] == 'identify' for t in plan['trials']):
            if not base.ran(ctx, base.call(w, env, plan['sim']), 'simulate'):
                return
            w.save('identify')
        cleans = {}
        for t in plan['trials']:
            w.restore(t['victim'])
            if not self.trial(ctx, plan, w, t, old_ref, new_ref, size, cleans):
                return

    def trial(self, ctx, plan, w, t, old_ref, new_ref, size, cleans):
        """One crash and what follows; False if something is wrong."""
        env, old, victim = plan['env'], plan['old'], t['victim']

        def bad(*a):
            ctx.violate(*a)
            return False
        op = copy.deepcopy(plan['sim'] if victim == 'simulate' else plan['idf'])
        crash = dict(t['crash'])
        if 'at' in crash:
            crash['nth'] = int(crash.pop('at') * size[victim])
        op['faults'] = [crash]
        p = base.call(w, env, op)
        if p.ok:
            ctx.probe('crash point not reached')
        elif p.status != 137:
            return base.ran(ctx, p, victim)
        if t['power']:
            w.power_loss(plan['seed'])
        else:
            w.settle()
        left = envs.snapshot(w, ['n0'])
        what = []
        label = {}
        for key in sorted(set(left) | set(old_ref)):
            got = left.get(key)
            if got is None:
                # an old result may only vanish when it is being replaced by a power loss
                if not t['power']:
                    return bad('lost', "a killed %s removes the earlier result '%s'" % (victim, key[1]))
                continue
            if isinstance(got, str):
                what.append(key[1] + ':torn')
                continue
            if key in old_ref and envs.diff(got, old_ref[key]) is None:
                what.append(key[1] + ':old')
                label[key[1]] = old
            elif key in new_ref and envs.diff(got, new_ref[key]) is None:
                what.append(key[1] + ':new')
                label[key[1]] = {}
            elif key[1] == 'fim':
                pass                              # scratch file of two analyses, one after the other
            else:
                return bad('mixture', "a killed %s leaves a readable result '%s' that is neither the old nor the "
                                   "new one: %s" % (victim, key[1], envs.diff(got, new_ref.get(key))))
        last = p.ops[-1] if p.ops else None
        ctx.state(victim, last and last[0], p.nops, what)
        ctx.probe('left: %s' % ('readable' if not any('torn' in x for x in what) else 'torn'))

        if t.get('other'):
            # the next simulation has another configuration
            q = base.call(w, env, dict(plan['sim'], conf=old))
            if not base.ran(ctx, q, 'simulate after a killed one'):
                return False
            got = envs.snapshot(w, ['n0'], STAGES)
            for key in sorted(got):
                d = envs.diff(got[key], old_ref[key])
                if d:
                    return bad('after', "a simulation after one that was killed, with another configuration, gives a wrong "
                                        "'%s': %s" % (key[1], d))
            ctx.probe('other simulations after a crash')
            return True

        # what happens next: an identification, possibly after redoing a part of the simulation
        nxt = []
        if victim == 'simulate' and t['part'] and p.status == 137:
            o = copy.deepcopy(plan['sim'])
            o['args'] += t['part']
            nxt.append(o)
        state = {k: v for k, v in left.items()}
        for o in nxt:
            q = base.call(w, env, o)
            if q.ok:
                # every stage it read must have been there and complete
                req = {'loads', 'sim', 'filtered'} - {{'-d': 'filtered', '-s': 'sim', '-p': 'loads'}[x] for x in t['part']}
                for s in sorted(req):
                    if not isinstance(state.get(('n0', s)), dict):
                        return bad('torn input', "simulate %s succeeds although the stored '%s' is %s"
                                           % (' '.join(t['part']), s, state.get(('n0', s), 'missing')))
                if not self.same_as_clean(ctx, env, plan, o, label, envs.snapshot(w, ['n0'], STAGES), t['part'], cleans):
                    return False
        fin = envs.snapshot(w, ['n0'], ['final']).get(('n0', 'final'))
        q = base.call(w, env, plan['idf'])
        if q.ok:
            if not isinstance(fin, dict):
                return bad('torn input', 'identify succeeds although the simulated data are %s' % (fin or 'missing'))
            if not nxt:
                got = envs.snapshot(w, ['n0'], ['standard', 'bayes'])
                is_old = old_ref and envs.diff(fin, old_ref[('n0', 'final')]) is None
                ref = None
                if is_old:
                    ref = old_ref
                elif envs.diff(fin, new_ref[('n0', 'final')]) is None:
                    ref = new_ref
                for s in ('standard', 'bayes'):
                    d = ref and envs.diff(got.get(('n0', s)), ref[('n0', s)])
                    if d:
                        return bad('follow-up', "identify after a killed %s gives '%s' results that belong to "
                                           "neither configuration: %s" % (victim, s, d))
        elif isinstance(fin, dict) and not nxt:
            return base.ran(ctx, q, 'identify after a killed %s, with complete data,' % victim)
        if not t['recover']:
            return True
        # full recovery
        for o in (plan['sim'], plan['idf']):
            q = base.call(w, env, o)
            if not base.ran(ctx, q, '%s after a crash' % o['cmd']):
                return False
        got = envs.snapshot(w, ['n0'])
        for key in sorted(new_ref):
            d = envs.diff(got.get(key), new_ref[key])
            if d:
                return bad('recovery', "after a crash and a complete repetition, result '%s' is not the fault-free "
                                   "one: %s" % (key[1], d))
        return True


CHECK = C05()
