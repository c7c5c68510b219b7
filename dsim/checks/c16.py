"""C16: loads are households or Gaussian draws around the nominal powers, for the selected weeks."""
import copy
import os

from dsim import base, envs, refmodel as rm
from dsim.base import Check
from dsim.checks.c08 import C08

WEEK = 7 * 1440


class C16(Check):
    id = 'C16'
    title = 'loads'
    three = True
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A network is simulated and its loads are recomputed again and again with other profiles, weeks, durations, seeds, '
            'hidden nodes and distributions, under random circumstances (earlier attempts that failed or died, slow and short '
            'transfers, clock jumps). The stored loads of every node and phase are taken apart: whole households of the '
            'selected weeks in the number the nominal power asks for, drawn without preference, or Gaussian draws of the '
            'requested spread; constant loads are blended in for hidden nodes exactly.')
    measure = 'hash of (options, weeks, durations, numbers of households, hidden nodes)'
    assumptions = Check.assumptions + ['statistical tests with thresholds far beyond 6 standard deviations']

    def gen(self, rng, tier, i):
        three = rng.random() < 0.2
        env = base.base_env(rng, three, passive=0.3, hidden=0.0)
        net = env['nets'][0]
        weeks = rng.choice([1, 1, 2, 3])
        cols = rng.randint(3, 9)
        env['profiles'] = envs.gen_profiles(rng, rows=WEEK * (weeks - 1) + 60, cols=cols)
        if rng.random() < 0.4:
            env['profiles']['signed'] = True
        other = envs.gen_profiles(rng, rows=WEEK * (weeks - 1) + rng.choice([50, 70]), cols=rng.randint(3, 9))
        shape = {'single': rng.random() < 0.3, 'extra': rng.choice([0, 0, 7]), 'qcols': rng.choice([0, 0, -1])}
        cand = [b[0] for b in net['buses'] if b[1] == 1 and b[2] != 0]
        ops = []
        for k in range(rng.randint(2, 6)):
            sel = rng.sample(range(weeks), min(weeks, rng.choice([1, 1, 2, 3])))
            per = max(cols, 9) + rng.randint(1, 8)
            per += (-per) % 2
            c = {'selected_weeks': sel, 'days': per if len(sel) == 1 else len(sel) * max(4, per // len(sel) + 2),
                 'seed': rng.randrange(10 ** 6), 'measurement_frequency': 0.5, 'time_steps': 8}
            if len(cand) > 2 and rng.random() < 0.5:
                c.update(hidden_nodes=rng.sample(cand, rng.randint(1, len(cand) - 2)),
                         constant_load_hidden_nodes=rng.random() < 0.75, load_constantness=rng.choice([0.0, 0.5, 0.84, 1.0]))
            a = ['-n', 'n0']
            if rng.random() < 0.3:
                a += ['-g', str(rng.choice([0.02, 0.1, 0.4, 1.5]))]
                if rng.random() < 0.5:
                    a += envs.LOADS
                if not three:
                    c['days'] = rng.choice([20, 100, 300]) if k else c['days']
            else:
                a += envs.LOADS if rng.random() < 0.7 else ['-a', 'data/profiles/p2.npy', '-r', 'data/profiles/q2.npy']
            if three:
                a += ['-t'] + (['-q'] if rng.random() < 0.8 else [])
            elif rng.random() < 0.25:
                a += ['-l']
            if rng.random() < 0.2:
                a.append('-v')
            if k:
                a.append('-p')
            else:
                g = '-g' in a
                c.update(selected_weeks=sel[:1], days=c['days'] if len(sel) == 1 else per)
                if g:
                    a[a.index('-g') + 1] = '0.1'
            op = {'cmd': 'simulate', 'args': a, 'conf': c}
            turb = base.gen_turb(rng, env, op, heavy=k and rng.random() < 0.7)
            turb.pop('beside', None)
            ops.append({'op': op, 'turb': turb})
        return {'env': env, 'three': three, 'other': other, 'shape': shape, 'ops': ops, 'lib': gen_readers(rng),
                'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        if plan.get('lib'):
            yield dict(copy.deepcopy(plan), lib=[])
            yield dict(copy.deepcopy(plan), ops=[])
        for k in range(len(plan.get('lib') or [])):
            if len(plan['lib']) > 1:
                yield dict(copy.deepcopy(plan), lib=[copy.deepcopy(plan['lib'][k])])
        for k in range(len(plan['ops'])):
            if k:
                p = copy.deepcopy(plan)
                p['ops'].pop(k)
                yield p
        for k, o in enumerate(plan['ops']):
            for x in ('before', 'benign', 'power'):
                if o['turb'].get(x):
                    p = copy.deepcopy(plan)
                    p['ops'][k]['turb'].pop(x)
                    yield p

    def run(self, plan, ctx):
        np = envs.R['np']
        env, sh = plan['env'], plan['shape']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        prof = {}
        for x, spec in (('', env['profiles']), ('2', plan['other'])):
            p, q = envs.profiles(spec)
            if x:
                if sh['single']:
                    p, q = p.astype(np.float32), q.astype(np.float32)
                if sh['extra']:
                    q = np.vstack((q, 1e3 * q[:sh['extra']]))
                if sh['qcols']:
                    q = q[:, :sh['qcols']]
                np.save(w.path('data/profiles/p2.npy'), p)
                np.save(w.path('data/profiles/q2.npy'), q)
            prof[x] = (p.astype(float), q.astype(float))
        for k, spec in enumerate(plan.get('lib') or []):
            bad = readers(np, ctx, w, spec, k)
            if bad:
                return ctx.violate(*bad)
        if not plan['ops'] or '-p' in plan['ops'][0]['op']['args']:
            return
        tally = {}
        hist = []
        for k, o in enumerate(plan['ops']):
            op = o['op']
            what = 'simulate %s' % ' '.join(op['args'])
            p = base.run_turb(ctx, w, env, op, o['turb'] if k else {'benign': o['turb'].get('benign', ())}, plan['seed'] + k)
            if not base.ran(ctx, p, what):
                return
            r = base.read(ctx, w, 'loads', 'n0')
            if r is None:
                return
            c = base.merged(env, op['conf'])
            bad = self.judge(np, ctx, env['nets'][0], c, op['args'], prof, r, plan['three'], tally, hist)
            if bad:
                return ctx.violate(bad[0], '%s: %s' % (what, bad[1]))
        ctx.state(hist)
        # households have no preference
        for (f, cols), counts in sorted(tally.items()):
            n = sum(counts)
            if n >= 12 * cols:
                chi = sum((x - n / cols) ** 2 for x in counts) / (n / cols)
                lim = (cols - 1) + 9 * (2 * (cols - 1)) ** 0.5 + 40
                if chi > lim:
                    return ctx.violate('preference', 'the households of the %s profiles are drawn %s times' % (f, counts))
                ctx.probe('household draws', n)

    def judge(self, np, ctx, net, c, args, prof, r, three, tally, hist):
        m = c['days']
        if not np.array_equal(r['t'], 60 * np.arange(m)):
            return 'times', 'the instants are not the %d minutes of the simulation' % m
        buses = net['buses']
        asym = [b for b in buses if isinstance(b[2], (list, tuple))]
        symm = [b for b in buses if b not in asym]
        # (array, column, nominal power, node, reactive, label)
        series = []
        for name, x, k in (('p', r['p'], 2), ('q', r['q'], 3)):
            if x.shape != (m, len(symm)):
                return 'shape', 'loads %s have shape %s for %d minutes and %d nodes' % (name, x.shape, m, len(symm))
            series += [(x[:, j], 0.0 if b[1] == 3 else float(b[k]), b, name == 'q', '%s of node %s' % (name, b[0]))
                       for j, b in enumerate(symm)]
        if three:
            a = np.asarray(r['a'])
            if a.shape != (6, m, len(asym)):
                return 'shape', 'asymmetric loads have shape %s' % (a.shape,)
            for z in range(6):
                for j, b in enumerate(asym):
                    series.append((a[z][:, j], float(b[2 + z // 3][z % 3]), b, z > 2,
                                   '%s of phase %s of node %s' % ('pq'[z // 3], 'abc'[z % 3], b[0])))
        gauss = float(args[args.index('-g') + 1]) if '-g' in args else 0
        const = [b for b in (c.get('hidden_nodes') or [])] if c.get('constant_load_hidden_nodes', True) else []
        part = c.get('load_constantness', 0.84)
        zs = {}
        if not gauss:
            pq = prof['2' if 'data/profiles/p2.npy' in args else '']
            per = m // len(c['selected_weeks'])
            win, mean = [], []
            for x in pq:
                y = np.vstack([x[s * WEEK:s * WEEK + per] for s in c['selected_weeks']]) / 1e6
                win.append(y)
                mean.append(np.mean(np.percentile(np.abs(y), 90, axis=0)))
            sol = [np.linalg.pinv(y) for y in win]
        picks = {}
        ns = []
        for x, nom, b, q, label in series:
            if not np.all(np.isfinite(x)):
                return 'finite', label + ' is not finite'
            if b[0] in const:
                if part == 1.0:
                    if not np.max(np.abs(x - nom)) <= 1e-12 * max(1, abs(nom)):
                        return 'constant', label + ' is not constant although the node is hidden'
                    continue
                x = (x - part * nom) / (1 - part)
            if gauss:
                if nom == 0:
                    if np.max(np.abs(x)) > 1e-15:
                        return 'gaussian', label + ' is not zero'
                    continue
                z = (x - nom) / (abs(nom) * gauss)
                bad = C08.test(np, z)
                if bad and m >= 10:
                    return 'gaussian', '%s %s' % (label, bad)
                zs[label] = z
                continue
            y = win[q]
            f = y.shape[1]
            want = round(nom / mean[q])
            edge = abs(abs(nom / mean[q] % 1) - 0.5) < 1e-9
            got = sol[q] @ x
            cnt = np.round(got)
            err = np.max(np.abs(y @ cnt - x))
            if not err <= 1e-9 * max(np.max(np.abs(x)), np.max(np.abs(y))):
                return 'households', ('%s is no sum of households of the selected weeks (closest numbers %s)'
                                      % (label, np.round(got, 3).tolist()))
            if np.any(cnt < 0) or not (cnt.sum() == want or edge and abs(cnt.sum() - want) <= 1):
                return 'number', ('%s is made of %s households, %d are needed for its nominal power %s at %.4g each'
                                  % (label, cnt.astype(int).tolist(), want, nom, mean[q]))
            picks.setdefault(bool(q), []).append(cnt)
            ns.append(int(cnt.sum()))
            t = tally.setdefault(('reactive' if q else 'active', f), [0] * f)
            for j in range(f):
                t[j] += int(cnt[j])
        if zs and m >= 20:
            z = np.array(list(zs.values()))
            z = z - z.mean(axis=1, keepdims=True)
            z /= np.sqrt(np.mean(z ** 2, axis=1, keepdims=True))
            cc = z @ z.T / m
            np.fill_diagonal(cc, 0)
            lim = 7.5 / np.sqrt(m)
            if lim < 1 and np.max(np.abs(cc)) > lim:
                i, j = np.unravel_index(np.argmax(np.abs(cc)), cc.shape)
                return 'dependent', 'the loads %s and %s are correlated (%.2f)' % (list(zs)[i], list(zs)[j], cc[i, j])
            ctx.probe('Gaussian loads compared', len(zs))
        for q, v in sorted(picks.items()):
            f = len(v[0])
            v = [x for x in v if x.sum() >= 8]
            k = len(v) * (len(v) - 1) // 2
            if np.sqrt(k * (f - 1)) > 13:
                u = np.array([(x - x.sum() / f) / np.sqrt(x.sum() / f) for x in v])
                s = ((u @ u.T).sum() - np.sum(u * u)) / 2
                if s > 10 * np.sqrt(k * (f - 1)):
                    return 'dependent', 'all nodes are made of the same households: %s' % [x.astype(int).tolist() for x in v]
            ctx.probe('household loads compared', len(v))
        hist.append((args[2:4], c['selected_weeks'], m, ns, c.get('hidden_nodes')))
        return None


def gen_readers(rng):
    """The readers of household profiles on their own, from csv and npy files, with any parts of the files."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        cols, n = rng.randint(3, 7), rng.randint(1, 4)
        many = rng.random() < 0.5                    # about as many draws as there are households
        if many:
            cols, n = rng.randint(8, 14), rng.randint(4, 9)
        wins = []
        at = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            at += rng.choice([0, 1, 5, 12])
            ln = rng.randint(9, 16) + 7 * many
            wins.append([at, ln])
            at += ln
        rng.shuffle(wins)
        out.append({'kind': rng.choice(['csv', 'csv', 'npy']), 'cols': cols, 'rows': at + rng.choice([0, 1, 8]), 'wins': wins,
                    'qless': rng.choice([0, 0, 1]), 'seed': rng.randrange(10 ** 6), 'verbose': rng.random() < 0.2,
                    'nom': [[[round((0.00196, 0.00074)[f] * cols * rng.uniform(0.6, 0.95), 6) for f in range(2)]
                             for _ in range(n)] for _ in range(rng.choice([1, 1, 3]))] if many else
                           [[[round(0.0012 * (1 + f) * rng.random() * rng.choice([0, 1, 4, 12]), 6) for f in range(2)]
                             for _ in range(n)] for _ in range(rng.choice([1, 3]))],
                    'faults': [base.gen_benign_fault(rng) for _ in range(rng.choice([0, 0, 1, 2]))]})
    return out


def readers(np, ctx, w, spec, k):
    p, q = envs.profiles({'seed': spec['seed'], 'rows': spec['rows'], 'cols': spec['cols']})
    q = q[:, :q.shape[1] - spec['qless']]
    files = []
    for x, name in ((p, 'pl'), (q, 'ql')):
        f = w.path('data/profiles/%s%d.%s' % (name, k, spec['kind']))
        if spec['kind'] == 'csv':
            np.savetxt(f, x, fmt='%.17g', delimiter=';')
        else:
            np.save(f, x)
        files.append(f)
    nom = np.array(spec['nom'])                     # phase, node, active or reactive
    skip, length = np.array([x[0] for x in spec['wins']]), np.array([x[1] for x in spec['wins']])

    def fn():
        from src.simulation import load_profile as L
        if spec['kind'] == 'csv':
            read, end = L.load_profile_from_csv, spec['rows'] - skip - length
        else:
            read, end = L.load_profile_from_numpy, length
        ph = [nom[z, :, x] for z in range(1, len(nom)) for x in (0, 1)]
        res = read(files[0], files[1], skip, end, nom[0, :, 0], nom[0, :, 1], *ph, verbose=spec['verbose'])
        return [np.asarray(x).tolist() for x in res]
    c = w.start('readers', fn, spec['faults'])
    w.run()
    what = 'reading %s files' % spec['kind']
    if not base.ran(ctx, c, what):
        return None
    ctx.probe(what)
    if len(c.data) != 2 * len(nom):
        return 'shape', '%s gives %d matrices for %d phases' % (what, len(c.data), len(nom))
    luck = {}
    for j, x in enumerate(c.data):
        x = np.array(x)
        z, f = (j % len(nom), j // len(nom))
        y = np.vstack([(p, q)[f][a:a + b] for a, b in spec['wins']]) / 1e6
        if x.shape != (len(y), nom.shape[1]):
            return 'shape', '%s gives loads of shape %s instead of %s' % (what, x.shape, (len(y), nom.shape[1]))
        mean = np.mean(np.percentile(np.abs(y), 90, axis=0))
        for i in range(nom.shape[1]):
            cnt = np.round(np.linalg.pinv(y) @ x[:, i])
            label = '%s, %s loads of node %d, phase %d' % (what, 'pq'[f], i, z)
            if not np.max(np.abs(y @ cnt - x[:, i])) <= 1e-9 * np.max(np.abs(y)) * max(1, cnt.sum()):
                return 'households', label + ': no sum of households of the selected lines'
            want = nom[z, i, f] / mean
            if np.any(cnt < 0) or abs(cnt.sum() - want) > 0.5 + 1e-9:
                return 'number', '%s: %s households for %.3f' % (label, cnt.astype(int).tolist(), want)
            # independent draws: probability that no household is drawn twice
            m, d = y.shape[1], int(cnt.sum())
            if 2 <= d <= m:
                for key in ((f, z), (f, 'all')):
                    e = luck.setdefault(key, [0.0, 0])
                    e[0] += float(np.sum(np.log1p(-np.arange(d) / m)))
                    e[1] += int(np.max(cnt) > 1)
    for (f, z), (logp, twice) in sorted(luck.items(), key=str):
        if not twice and logp < np.log(1e-10):
            return 'preference', ('%s: no household is drawn twice for any of the %s loads of phase %s (probability %.1g)'
                                  % (what, 'pq'[f], z, np.exp(logp)))
        ctx.probe('coincidences tested', int(logp < np.log(1e-10)))
    return None


CHECK = C16()
