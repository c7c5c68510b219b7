"""C02: commands for different networks that share a data folder do not influence each other."""
import copy
import hashlib
import os

from dsim import base, envs
from dsim.base import Check

STEMS = ['n', 'grid', 'feeder_north', 'village', 'ieee123', 'district.heat.network', 'substation-transformer-secondary']


def gen_names(rng, k):
    """Names that are easily taken for each other: common beginnings or ends, differing in one place, case or length."""
    stem = rng.choice(STEMS)
    alt = rng.choice(['1', '2', '_1', '_loads', '.1', 'x', '-b', '_results'])
    pos = rng.randrange(1, len(stem) + 1)
    pool = [stem, stem + alt, stem + alt + alt[-1], stem[:pos] + 'q' + stem[pos:], stem[:pos] + 'z' + stem[pos:], 'a' + stem,
            stem.capitalize(), stem.upper(), stem + '_' + stem, stem[:pos] or 'n', 'sim_' + stem, stem + '1', stem + '2', stem + '3',
            stem + '_%d' % rng.randrange(1000), stem + '_%d' % rng.randrange(1000), stem + 'a%d' % rng.randrange(10 ** 9)]
    if rng.random() < 0.2:                        # differing behind the last dot
        pool = [stem + x for x in ('', '.1', '.2', '.2021', '.npz', '.a.1', '.a.2')]
    pool = sorted({x for x in pool if x})
    a = rng.choice(pool)
    # the others preferably share much with the first
    rest = sorted((x for x in pool if x != a), key=lambda x: (-_common(a, x) + 4 * rng.random(), x))
    return [a] + rest[:k - 1]


def _common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    m = 0
    while m < min(len(a), len(b)) and a[-1 - m] == b[-1 - m]:
        m += 1
    return max(n, m)



def run_users(world, env, users, policy, rng):
    """Every user runs his commands one after the other; the users' operations are interleaved."""
    left = [list(u) for u in users]
    cur = [None] * len(users)
    out = [[] for _ in users]
    t = world.t
    last, run = None, 0
    while True:
        for k in range(len(users)):
            if cur[k] is not None and cur[k].done:
                out[k].append(cur[k])
                if not cur[k].ok:
                    left[k] = []
                cur[k] = None
            if cur[k] is None and left[k]:
                cur[k] = base.start(world, env, left[k].pop(0))
        live = [k for k in range(len(users)) if cur[k] is not None and not cur[k].done]
        if not live:
            if any(c is not None for c in cur) or any(left):
                continue
            break
        if policy == 'random':
            k = rng.choice(live)
        elif policy == 'robin':
            k = min(live, key=lambda j: cur[j].nops)
        else:                                       # long stretches, few switches
            if last not in live or run <= 0:
                last, run = rng.choice(live), 1 + int(rng.expovariate(1 / 60.0))
            run -= 1
            k = last
        world.step(cur[k])
    world.covered += max(0.0, world.t - t)
    world.stats['sim_s'] = world.stats.get('sim_s', 0.0) + max(0.0, world.t - t)
    return out


def tree_hash(world, sub):
    h = {}
    for d, _, fs in os.walk(world.path(sub)):
        for f in sorted(fs):
            with open(os.path.join(d, f), 'rb') as s:
                h[os.path.relpath(os.path.join(d, f), world.root)] = hashlib.sha256(s.read()).hexdigest()
    return h


class C02(Check):
    id = 'C02'
    title = 'isolation'
    three = True
    budget = {'quick': (200, 45), 'thorough': (8000, 1500)}
    rule = ('Two or three users run their commands on networks of their own in the same data folder at the same time, '
            'interleaved operation by operation by the seed; one of them may fail or be killed. The results of the '
            'others equal those of running alone.')
    measure = 'hash of the sequence of context switches (process, operation) of the run'

    def gen(self, rng, tier, i):
        k = 2 if rng.random() < 0.75 else 3
        names = gen_names(rng, k)
        rng.shuffle(names)
        env = base.base_env(rng, False, names=names, hidden=0.0, n=3 if rng.random() < 0.6 else 4)
        three = None
        if i % (24 if tier == 'quick' else 8) == 7:
            # the first user has a three-phase network (long commands)
            three = names[0]
            n3 = envs.gen_net3(rng, three, n=3)
            env['nets'] = [n3] + env['nets'][1:]
            env['conf'].update(days=6, measurement_frequency=0.5, time_steps=30)
        users = []
        for n in names:
            if n == three:
                ops = [{'cmd': 'simulate', 'args': ['-n', n, '-t', '-q', '-g', '0.3'] + rng.choice([[], ['-e']])}]
                if rng.random() < 0.7:
                    ops.append({'cmd': 'identify', 'args': ['-n', n, '-i', '2', '-q', '-p', rng.choice(['012', '1', '0'])]})
                users.append(ops)
                continue
            sim = ['-n', n] + (['-g', '0.3'] if rng.random() < 0.5 else envs.LOADS)
            if rng.random() < 0.4:
                sim.append('-e')
            conf = {'seed': rng.choice([env['conf']['seed'], rng.randrange(1000)])}
            ops = [{'cmd': 'simulate', 'args': sim, 'conf': conf}]
            while rng.random() < 0.5 and len(ops) < 4:
                # later stages again, from the stored earlier ones of this network
                ops.append({'cmd': 'simulate', 'args': sim + rng.choice([['-d'], ['-s', '-d'], ['-s'], ['-p'], ['-d', '-p']]),
                            'conf': conf})
            if rng.random() < 0.7:
                idf = ['-n', n, '-i', str(rng.randint(1, 3))]
                for o, p in (('-w', 0.3), ('-u', 0.25)):
                    if rng.random() < p:
                        idf.append(o)
                ops.append({'cmd': 'identify', 'args': idf})
                if rng.random() < 0.3:
                    ops.append({'cmd': 'identify', 'args': idf + [rng.choice(['-c', '-b', '-s'])]})
            users.append(ops)
        if rng.random() < 0.35:
            u = rng.randrange(k)
            o = rng.choice(users[u])
            o['faults'] = [base.gen_crash(rng) if rng.random() < 0.6 else base.gen_error_fault(rng)]
        return {'env': env, 'users': users, 'policy': rng.choice(['random', 'robin', 'long', 'long']),
                'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for u in range(len(plan['users'])):
            if len(plan['users']) > 2:
                p = copy.deepcopy(plan)
                p['users'].pop(u)
                yield p
            for k in range(1, len(plan['users'][u])):
                p = copy.deepcopy(plan)
                p['users'][u] = p['users'][u][:k]
                yield p
                break
            for o in plan['users'][u]:
                if o.get('faults'):
                    p = copy.deepcopy(plan)
                    for q in p['users'][u]:
                        q.pop('faults', None)
                    yield p
        for pol in ('robin', 'long'):
            if plan['policy'] != pol:
                yield dict(copy.deepcopy(plan), policy=pol)

    def run(self, plan, ctx):
        env, users = plan['env'], plan['users']
        import random
        rng = random.Random('c02/%d' % plan['seed'])
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        prof = tree_hash(w, 'data/profiles')
        out = run_users(w, env, users, plan['policy'], rng)
        if tree_hash(w, 'data/profiles') != prof:
            return ctx.violate('inputs', 'the household profiles were modified')
        sw, ops = [], []
        for a in w.sched_trace:
            if not sw or sw[-1][0] != a:
                sw.append([a, 0])
            sw[-1][1] += 1
        ctx.state(sw)
        ctx.probe('context switches', len(sw))
        for u, ops in enumerate(users):
            name = ops[0]['args'][1]
            faulty = any(o.get('faults') for o in ops)
            if faulty and any(not p.ok for p in out[u]):
                ctx.probe('one user %s' % ('killed' if any(p.status == 137 for p in out[u]) else 'failed'))
                continue
            s = ctx.world(plan['seed'] + 1 + u)
            envs.prepare(s, env)
            ref = []
            for o in ops:
                ref.append(base.call(s, env, base.strip(o)))
                if not ref[-1].ok:
                    break
            a, b = [p.ok for p in out[u]], [p.ok for p in ref]
            if a != b:
                bad = next((p for p in out[u] if not p.ok), None)
                return ctx.violate('outcome', 'commands of %s: completed %s next to others, %s alone (%s)'
                                   % (name, a, b, bad and bad.exc))
            if not all(b):
                continue
            x, y = envs.snapshot(w, [name]), envs.snapshot(s, [name])
            for key in sorted(set(x) | set(y)):
                d = envs.diff(x.get(key), y.get(key))
                if d:
                    return ctx.violate('differs', "result '%s' of %s depends on commands for other networks: %s"
                                       % (key[1], name, d))


CHECK = C02()
