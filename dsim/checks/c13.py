"""C13: continuing an identification appends to the stored history and starts from the stored estimate."""
import copy

from dsim import base, envs
from dsim.base import Check
from dsim.checks.c04 import raw
from dsim.checks.c11 import stepper, compare, rel


class C13(Check):
    id = 'C13'
    title = 'continuation'
    three = True
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A history of identifications and continuations of them (one phase or all sequences) with changing options and '
            'limits, some of which fail or are killed, with stored results missing, torn or lost. A continuation that '
            'succeeds keeps all earlier iterations as they were, appends its own, takes its first step from the stored '
            'estimate and stores its last; without a readable stored result it fails.')
    measure = 'hash of the history (options, outcomes, numbers of iterations)'

    def gen(self, rng, tier, i):
        three = rng.random() < 0.3
        env = base.base_env(rng, three, hidden=0 if three else 0.2, n=3 if three else rng.choice([3, 4, 4, 5]), passive=0.2)
        c = env['conf']
        n = len(env['nets'][0]['buses'])
        c['days'] = max(c['days'], n + 3)
        c['measurement_frequency'] = rng.choice([0.5, 1, 2])
        c['time_steps'] = min(max(c['time_steps'], n + 2), int((c['days'] - 1) * 60 * c['measurement_frequency']), 60)
        for x in c:
            if x.endswith('_sd'):
                c[x] = 10 ** rng.uniform(-5, -3.5)
        lap = ['-l'] if rng.random() < 0.2 and not three else []
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0', '-g', '0.4'] + (['-t', '-q'] if three else [])
               + (['-e'] if rng.random() < 0.5 else []) + lap}
        if three and rng.random() < 0.8:
            sim = envs.gen_data(rng, 'n0')
        ops = []
        for k in range(rng.randint(3, 8)):
            w = rng.random() < 0.35
            a = ['-n', 'n0', '-i', str(rng.choice([1, 2, 3, 5]))] + lap + (['-q', '-p', '012'] if three else []) \
                + (['-w'] if w else [])
            if k and rng.random() < 0.8 or rng.random() < 0.1:
                a += ['-c'] + rng.choice([[], [], ['-b'], ['-b'], ['-s'], ['-s', '-b']])
            o = {'cmd': 'identify', 'args': a,
                 'conf': {'lambda_eiv': 10 ** (rng.uniform(1, 6) if w else rng.uniform(-4, 0)),
                          'lambdaprime': rng.choice([2, 50, 200]), 'abs_tol': rng.choice([0.0, 0.0, 1e-6, 1.0]), 'rel_tol': 0.0,
                          'contrast_each_row': rng.random() < 0.7, 'use_tls_diag': rng.random() < 0.3}}
            u = rng.random()
            if u < 0.2:
                o['faults'] = [base.gen_crash(rng, 60) if rng.random() < 0.5 else base.gen_error_fault(rng)]
                o['power'] = rng.random() < 0.4
            elif u < 0.4:
                o['faults'] = [base.gen_benign_fault(rng) for _ in range(rng.randint(1, 3))]
                o['benign'] = True
            elif u < 0.5 and k:
                o['damage'] = rng.choice(['absent', 'torn', 'empty'])
            elif u < 0.57 and not three:
                o['resim'] = rng.randrange(1000)
            ops.append(o)
        return {'three': three, 'env': env, 'sim': sim, 'ops': ops, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['ops']) - 1, -1, -1):
            p = copy.deepcopy(plan)
            p['ops'].pop(k)
            yield p
            for x in ('faults', 'damage', 'resim'):
                if plan['ops'][k].get(x):
                    p = copy.deepcopy(plan)
                    p['ops'][k].pop(x)
                    yield p

    def run(self, plan, ctx):
        np = envs.R['np']
        env, three = plan['env'], plan['three']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        if not base.ran(ctx, base.call(w, env, plan['sim']), 'simulate'):
            return
        hist = []
        for k, o in enumerate(plan['ops']):
            args = o['args']
            what = 'command %d (identify %s)' % (k, ' '.join(args))
            if o.get('resim') is not None:
                if not base.ran(ctx, base.call(w, env, dict(plan['sim'], conf={'seed': o['resim']})), 'simulate'):
                    return
            if o.get('damage'):
                damage(w, o['damage'])
                ctx.probe('stored result ' + o['damage'])
            w.settle()
            before = raw(w, 'bayes')
            try:
                old = envs.load(w, 'bayes', 'n0')
            except envs.Unreadable:
                old = None
            std = raw(w, 'standard')
            p = base.call(w, env, {x: o[x] for x in ('cmd', 'args', 'conf', 'faults') if x in o})
            cont, redo = '-c' in args, '-b' in args or '-s' not in args
            needs_std = '-b' in args and '-s' not in args
            hist.append(([a for a in args[2:] if a != '012'], p.status))
            if not p.ok:
                if o.get('faults') and not o.get('benign'):
                    ctx.probe('a command died')
                    if o.get('power'):
                        w.power_loss(plan['seed'] + k)
                    continue
                if (cont or not redo) and old is None or needs_std and std is None:
                    ctx.probe('refused')
                    if redo and cont and raw(w, 'bayes') != before:
                        return ctx.violate('touched', what + ' fails but changes the stored result')
                    continue
                try:
                    lost = needs_std and envs.load(w, 'standard', 'n0') is None
                except envs.Unreadable:
                    lost = True
                if lost:
                    continue
                return base.ran(ctx, p, what)
            if not redo:
                if raw(w, 'bayes') != before:
                    return ctx.violate('touched', what + ' changes the stored result, which it was not asked to redo')
                continue
            if cont and old is None:
                return ctx.violate('invented', what + ' succeeds without a readable stored result')
            b = base.read(ctx, w, 'bayes', 'n0')
            d = base.read(ctx, w, 'final', 'n0')
            s = base.read(ctx, w, 'standard', 'n0')
            if b is None or d is None or s is None:
                return
            m = len(old['it']) if cont else 0
            its = int(args[args.index('-i') + 1])
            if not m + 1 <= len(b['it']) <= m + its:
                return ctx.violate('length', '%s: %d iterations, %d of them from before, with a limit of %d'
                                   % (what, len(b['it']), m, its))
            if b['it'][m:].tolist() != list(range(len(b['it']) - m)):
                return ctx.violate('numbers', '%s: iterations %s' % (what, b['it'].tolist()))
            if cont and m:
                for x in ('it', 'iy', 'if'):
                    if not np.array_equal(b[x][:m], old[x], equal_nan=True):
                        return ctx.violate('prefix', what + ' changes the earlier iterations')
                ctx.probe('continued')
            # the sequences may take different numbers of iterations: the last common one is kept
            if rel(np, b['iy'][-1], b['y']) > 0 and not three:
                return ctx.violate('last', what + ': the result is not the last iteration')
            y0 = old['y'] if cont else (s['t'] + s['t'].T) / 2
            c = dict(envs.DEFAULT_CONF, **base.merged(env, o.get('conf')))
            for q in sorted(set(d['h'].tolist())):
                x = np.flatnonzero(d['h'] == q)
                dq = dict(d, v=d['v'][:, x], i=d['i'][:, x], p=d['p'][x])
                yq, first = y0[np.ix_(x, x)], b['iy'][m][np.ix_(x, x)]
                try:
                    bad, _ = compare(np, ctx, stepper(np, dq, c, args, yq), yq, first, '-l' in args, '-w' in args)
                except np.linalg.LinAlgError:
                    bad = None
                if bad and bad != 'ill':
                    return ctx.violate('start', '%s: the first new iteration%s is not the step from the %s: %s'
                                       % (what, ' of sequence %d' % q if three else '',
                                          'stored estimate' if cont else 'symmetric total least squares estimate', bad))
                ctx.probe('first steps compared' + (' by sequence' if three else ''))
            if not three:
                pass
            elif not cont or o['conf']['abs_tol'] == 0:
                if o['conf']['abs_tol'] == 0 and rel(np, b['iy'][-1], b['y']) > 0:
                    return ctx.violate('last', what + ': the result is not the last iteration')
                ctx.probe('all sequences')
        ctx.state(hist)


def damage(w, how):
    import os
    f = envs.out_path(w, 'bayes', 'n0')
    if not os.path.exists(f):
        return
    with open(f, 'rb') as h:
        b = h.read()
    if how == 'absent':
        os.unlink(f)
    else:
        with open(f, 'wb') as h:
            h.write(b'' if how == 'empty' else b[:len(b) // 2])


CHECK = C13()
