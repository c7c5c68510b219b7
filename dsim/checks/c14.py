"""C14: identifying all sequences is identifying each of them."""
import copy

from dsim import base, envs
from dsim.base import Check


class C14(Check):
    id = 'C14'
    title = 'sequences'
    three = True
    budget = {'quick': (200, 50), 'thorough': (20000, 1500)}
    rule = ('A three-phase network is simulated in sequence values and identified (complete and partial commands, '
            'continuations, changing options and limits) with all sequences at once and one at a time, in any order, after '
            'interrupted attempts. Every block of the complete results is the result of the single sequence, the other '
            'blocks are zero, and the history holds the common iterations.')
    measure = 'hash of (sizes, order, options, numbers of iterations of the sequences)'

    def gen(self, rng, tier, i):
        n = rng.choice([2, 3, 3, 4])
        env = base.base_env(rng, True, n=n, passive=0.3)
        c = env['conf']
        c['days'] = n + rng.choice([3, 4, 6])
        c['measurement_frequency'] = rng.choice([0.5, 1])
        c['time_steps'] = min(rng.choice([12, 20, 40]), int((c['days'] - 1) * 60 * c['measurement_frequency']))
        c['safety_factor'] = rng.choice([1, 4])
        for x in c:
            if x.endswith('_sd'):
                c[x] = 10 ** rng.uniform(-6, -3.5)
        lap = ['-l'] if rng.random() < 0.2 else []
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0', '-t', '-q', '-g', '0.4'] + lap + (['-e'] if rng.random() < 0.5 else [])}
        if rng.random() < 0.7:
            sim = envs.gen_data(rng, 'n0', n=n, spread=[10 ** rng.uniform(-4.5, -1.5) for _ in range(3)])
        progs = []
        for k in range(rng.randint(2, 5)):
            chain = []
            for m in range(rng.choice([1, 1, 2, 3])):
                w = rng.random() < 0.4
                a = ['-i', str(rng.choice([1, 2, 3, 6, 12]))] + lap
                if w:
                    a.append('-w')
                    if rng.random() < 0.3:
                        a.append('-r')
                if rng.random() < 0.2:
                    a.append('-v')
                if m:
                    a += rng.choice([['-c'], ['-c', '-b'], ['-b'], ['-s']])
                chain.append({'cmd': 'identify', 'args': a,
                              'conf': {'lambda_lasso': 10 ** rng.uniform(-10, -4),
                                       'lambda_eiv': 10 ** (rng.uniform(1, 6) if w else rng.uniform(-6, 0)),
                                       'lambdaprime': rng.choice([2, 50, 200]), 'rel_tol': 0.0,
                                       'abs_tol': rng.choice([0.0, 1e-6, 1e-3, 1.0, 30.0]),
                                       'contrast_each_row': rng.random() < 0.7, 'use_tls_diag': rng.random() < 0.3}})
            order = ['0', '1', '2', '012']
            rng.shuffle(order)
            o = {'cmd': 'identify', 'args': ['-n', 'n0', '-q', '-p', rng.choice(['012', '012', '1', '2'])] + chain[0]['args'],
                 'conf': chain[0]['conf']}
            progs.append({'chain': chain, 'order': order, 'turb': base.gen_turb(rng, env, o, heavy=rng.random() < 0.7)})
            progs[-1]['turb'].pop('beside', None)
        return {'env': env, 'sim': sim, 'ops': progs, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['ops'])):
            if len(plan['ops']) > 1:
                p = copy.deepcopy(plan)
                p['ops'].pop(k)
                yield p
        for k, o in enumerate(plan['ops']):
            if len(o['chain']) > 1:
                p = copy.deepcopy(plan)
                p['ops'][k]['chain'].pop()
                yield p
            for x in ('before', 'benign', 'power'):
                if o['turb'].get(x):
                    p = copy.deepcopy(plan)
                    p['ops'][k]['turb'].pop(x)
                    yield p

    def run(self, plan, ctx):
        np = envs.R['np']
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        if not base.ran(ctx, base.call(w, env, plan['sim']), plan['sim']['cmd']):
            return
        d = base.read(ctx, w, 'final', 'n0')
        if d is None:
            return
        h = d['h']
        if sorted(set(h.tolist())) != [0, 1, 2]:
            return ctx.violate('labels', 'the columns of the data carry the sequences %s' % h.tolist())
        for k, prog in enumerate(plan['ops']):
            got = {}
            for seq in prog['order']:
                res = []
                for m, o in enumerate(prog['chain']):
                    op = {'cmd': 'identify', 'conf': o['conf'], 'args': ['-n', 'n0', '-q', '-p', seq] + o['args']}
                    what = 'identify %s' % ' '.join(op['args'])
                    p = base.run_turb(ctx, w, env, op, prog['turb'] if m == 0 and seq == '012' else None, plan['seed'] + k)
                    if not base.ran(ctx, p, what):
                        return
                    s, b = base.read(ctx, w, 'standard', 'n0'), base.read(ctx, w, 'bayes', 'n0')
                    if s is None or b is None:
                        return
                    res.append((s, b))
                got[seq] = res
            ctx.state(d['y'].shape, prog['order'], [o['args'] for o in prog['chain']],
                      [len(b['it']) for s in '012' for _, b in got[s]])
            for m, o in enumerate(prog['chain']):
                one = [got[s][m] for s in '012']
                what = 'identification %d: %s' % (k, ' then '.join(' '.join(x['args']) for x in prog['chain'][:m + 1]))
                s, b = got['012'][m]
                for x, name in (('o', 'OLS'), ('t', 'TLS'), ('l', 'Lasso')):
                    if not blocks(np, ctx, what, name + ' estimate', s[x], [z[0][x] for z in one], h):
                        return
                if not blocks(np, ctx, what, 'Bayesian estimate', b['y'], [z[1]['y'] for z in one], h):
                    return
                # common iterations of every command that redid the Bayesian method
                segs = segments(prog['chain'][:m + 1])
                at, pos = 0, [0, 0, 0]
                for j in segs:
                    prev = [len(got[z][j - 1][1]['it']) if continues(prog['chain'][j]) else 0 for z in '012']
                    lens = [len(got[z][j][1]['it']) - prev[int(z)] for z in '012']
                    for r in range(min(lens)):
                        if at >= len(b['it']):
                            return ctx.violate('history', '%s: the history of all sequences has only %d iterations, each '
                                               'sequence has at least %d' % (what, len(b['it']), at + 1))
                        if not blocks(np, ctx, what, 'iteration %d' % at, b['iy'][at],
                                      [z[1]['iy'][prev[q] + r] for q, z in enumerate(one)], h):
                            return
                        t = sum(z[1]['if'][prev[q] + r] for q, z in enumerate(one))
                        if not abs(t - b['if'][at]) <= 1e-9 * abs(t) and np.isfinite(t):
                            return ctx.violate('target', '%s: target of iteration %d is %s, that of the sequences adds up to %s'
                                               % (what, at, b['if'][at], t))
                        at += 1
                if at != len(b['it']):
                    return ctx.violate('history', '%s: the history of all sequences has %d iterations, the sequences have %d in '
                                       'common' % (what, len(b['it']), at))
                ctx.probe('complete results compared')
        return


def continues(o):
    return '-c' in o['args'] and ('-b' in o['args'] or '-s' not in o['args'])


def segments(chain):
    """Commands whose iterations are in the history after the last one."""
    out = []
    for j, o in enumerate(chain):
        if '-s' in o['args'] and '-b' not in o['args']:
            continue
        out = out + [j] if continues(o) else [j]
    return out


def blocks(np, ctx, what, name, all_, ones, h):
    n = len(h)
    if all_.shape != (n, n):
        ctx.violate('shape', '%s: the %s of all sequences is %s instead of %s' % (what, name, all_.shape, (n, n)))
        return False
    for i in range(3):
        idx = np.flatnonzero(h == i)
        got, ref = all_[np.ix_(idx, idx)], ones[i]
        if ref.shape != got.shape:
            ctx.violate('shape', '%s: the %s of sequence %d is %s instead of %s' % (what, name, i, ref.shape, got.shape))
            return False
        e, s = np.max(np.abs(got - ref)), np.max(np.abs(ref))
        if not e <= 1e-9 * s and np.isfinite(s):
            ctx.violate('block', '%s: block %d of the %s differs from that of the single sequence by %.3g of %.3g'
                        % (what, i, name, e, s))
            return False
    off = np.where(h[:, None] == h[None, :], 0, all_)
    if np.any(off != 0):
        ctx.violate('coupling', '%s: the %s couples different sequences (%.3g)' % (what, name, np.max(np.abs(off))))
        return False
    return True


CHECK = C14()
