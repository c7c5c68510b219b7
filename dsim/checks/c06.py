"""C06: an error of the system is reported as a failure, never as success with wrong results."""
import copy

from dsim import base, envs
from dsim.base import Check


def gen_numeric_fault(rng):
    on = rng.choice(['dense', 'dense', 'solve', 'alloc', 'dense|solve|alloc'])
    return {'on': on, 'kind': rng.choice(['MemoryError', 'MemoryError', 'LinAlgError', 'RuntimeError']
                                         if on == 'dense' else ['MemoryError', 'RuntimeError', 'KeyboardInterrupt']),
            'nth': rng.randrange(3) if rng.random() < 0.5 else int(rng.expovariate(1 / 12.0)), 'persist': rng.random() < 0.3}


class C06(Check):
    id = 'C06'
    title = 'errors are not swallowed'
    three = True
    budget = {'quick': (300, 45), 'thorough': (12000, 1500)}
    rule = ('A chain of commands meets input/output errors, full disks, missing permissions, exhausted memory, '
            'interrupts, or only short and slow transfers. A command that ends with success has written the fault-free '
            'results; short and slow transfers alone never make it fail; a command that fails leaves of each result the '
            'old one, the new one or nothing that can be read.')
    measure = 'hash of (command, fault, operation that met it, outcome)'

    def gen(self, rng, tier, i):
        three = rng.random() < (0.03 if tier == 'quick' else 0.1)
        env = base.base_env(rng, three, hidden=0.2, n=None if three else rng.choice([3, 4]), passive=0.2)
        t = ['-t', '-q'] if three else []
        loads = (['-g', '0.3'] if rng.random() < 0.35 else envs.LOADS)
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0'] + loads + t + (['-e'] if rng.random() < 0.5 else [])}
        idf = {'cmd': 'identify', 'args': ['-n', 'n0', '-i', str(rng.randint(1, 3))] + (['-w'] if rng.random() < 0.4 else [])
               + (['-u'] if rng.random() < 0.3 and not three else [])}
        if three:
            idf['args'] += ['-p', rng.choice(['1', '012']), '-q']
        ops = [sim, idf]
        if rng.random() < 0.5 and not three:
            ops.append({'cmd': 'identify', 'args': idf['args'] + [rng.choice(['-c', '-b', '-s'])]})
        if rng.random() < 0.3 and not three:
            ops.insert(1, {'cmd': 'simulate', 'args': sim['args'] + rng.choice([['-s'], ['-d'], ['-p'], ['-s', '-d']])})
        trials = []
        for k, o in enumerate(ops):
            full = o['cmd'] == 'simulate' and k == 0
            for _ in range(1 if full and three else 2 if o['cmd'] == 'simulate' else 4):
                benign = rng.random() < 0.15
                if benign:
                    faults = [base.gen_benign_fault(rng) for _ in range(rng.randint(1, 4))]
                else:
                    faults = [gen_numeric_fault(rng) if o['cmd'] == 'identify' and rng.random() < 0.5 else
                              base.gen_error_fault(rng)]
                    if '-u' in o['args'] and rng.random() < 0.3:
                        faults = [base.gen_path_fault(rng, ['fim_', 'uncertainty_'])]
                    if rng.random() < 0.25:
                        faults.append(base.gen_error_fault(rng))
                    if rng.random() < 0.2:
                        faults.append(base.gen_benign_fault(rng))
                trials.append({'k': k, 'faults': faults, 'benign': benign})
        rng.shuffle(trials)
        return {'three': three, 'env': env, 'ops': ops, 'trials': trials, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        tr = plan['trials']
        if len(tr) > 1:
            for t in tr:
                yield dict(copy.deepcopy(plan), trials=[copy.deepcopy(t)])
        for j, t in enumerate(tr):
            for k in range(len(t['faults'])):
                if len(t['faults']) > 1:
                    p = copy.deepcopy(plan)
                    p['trials'][j]['faults'].pop(k)
                    yield p
        last = max(t['k'] for t in tr)
        if last < len(plan['ops']) - 1:
            p = copy.deepcopy(plan)
            p['ops'] = p['ops'][:last + 1]
            yield p

    def run(self, plan, ctx):
        env, ops = plan['env'], plan['ops']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        refs = []
        for k, o in enumerate(ops):
            w.save('k%d' % k)
            p = base.call(w, env, o)
            refs.append((p.ok, envs.snapshot(w, ['n0'])))
            if not p.ok:
                break
        p, last = None, 0
        for tr in plan['trials']:
            k = tr['k']
            if k >= len(refs) or not refs[k][0]:
                ctx.probe('the command fails without faults')
                continue
            w.restore('k%d' % k)
            before = envs.snapshot(w, ['n0'])
            o = dict(copy.deepcopy(ops[k]), faults=tr['faults'])
            p, last = base.call(w, env, o), k
            ctx.state(o['cmd'], o['args'][2:], p.faults_hit[:3], p.ops[-1] if p.ops else None, p.ok)
            ctx.probe('%s: %s' % (o['cmd'], 'success' if p.ok else 'failure') + (' with fault' if p.faults_hit else ''))
            if not self.judge(ctx, w, o, k, tr, p, before, refs[k][1]):
                return
        if p is None:
            return
        # the system is healthy again after the last of them: the same commands give the fault-free results
        k = last
        for j in range(0 if not p.ok else k + 1, len(refs)):
            if not refs[j][0]:
                break
            q = base.call(w, env, ops[j])
            if not base.ran(ctx, q, 'command %d (%s) after the fault is over' % (j, ops[j]['cmd'])):
                return
            k = j
        got = envs.snapshot(w, ['n0'])
        for key in sorted(refs[k][1]):
            d = envs.diff(got.get(key), refs[k][1][key])
            if d:
                return ctx.violate('recovery', "repeating the commands after a fault, result '%s' is not the "
                                   "fault-free one: %s" % (key[1], d))

    def judge(self, ctx, w, o, k, tr, p, before, ref):
        """Judges the end of one command; ref are the results without faults."""
        hit = list(p.faults_hit)
        got = envs.snapshot(w, ['n0'])
        if p.ok:
            for key in sorted(ref):
                d = envs.diff(got.get(key), ref[key])
                if d:
                    return ctx.violate('success', "%s ends with success although it met %s, but its result '%s' is "
                                       "wrong: %s" % (' '.join([o['cmd']] + o['args']), hit, key[1], d))
            return True
        if p.status == 124:
            return base.ran(ctx, p, '%s with %s' % (o['cmd'], hit))
        if not hit or tr['benign']:
            return base.ran(ctx, p, 'command %d (%s) with only %s' % (k, o['cmd'], hit))
        # failed: every result is old, new or not readable
        for key in sorted(set(got) | set(before)):
            g = got.get(key)
            if g is None:
                return ctx.violate('lost', "a failing %s removes the earlier result '%s'" % (o['cmd'], key[1]))
            if isinstance(g, str):
                continue
            if key in before and envs.diff(g, before[key]) is None:
                continue
            if key in ref and envs.diff(g, ref[key]) is None:
                continue
            if '-u' in o['args'] and key[1] == 'fim':
                continue                    # two analyses share this file, one after the other
            return ctx.violate('mixture', "a failing %s leaves a readable result '%s' that is neither the old nor the "
                               "new one: %s" % (o['cmd'], key[1], envs.diff(g, ref.get(key))))
        return True


CHECK = C06()
