"""C10: exact data and no regularisation give back the reference network."""
from dsim import base, envs, refmodel as rm
from dsim.base import Check

SD = ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd')


class C10(Check):
    id = 'C10'
    title = 'exact recovery'
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A random network is simulated without noise, possibly after an interrupted attempt and next to other commands, '
            'and identified by every method without regularisation; every estimate equals the reference admittance matrix '
            'within the accuracy the conditioning of the data allows.')
    measure = 'hash of (topology, options, order of magnitude of the conditioning)'

    def gen(self, rng, tier, i):
        env = base.base_env(rng, False, noise=False, passive=0.35, n=rng.choice([3, 4, 4, 5, 6]))
        c = env['conf']
        n = len(env['nets'][0]['buses'])
        c['days'] = max(c['days'], n + 4)
        c['time_steps'] = max(c['time_steps'], n + 3)
        c['hidden_nodes'] = []
        c['measurement_frequency'] = rng.choice([0.5, 1, 2])
        c['time_steps'] = min(c['time_steps'], int((c['days'] - 1) * 60 * c['measurement_frequency']))
        env['nets'].append(envs.gen_net(rng, 'n1', n=3))
        lap = ['-l'] if rng.random() < 0.35 else []
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0'] + (['-g', str(rng.choice([0.3, 0.6]))] if rng.random() < 0.7
                                                          else envs.LOADS) + lap + (['-e'] if rng.random() < 0.5 else [])}
        given = rng.random() < 0.45                 # exact data of one phase or of three sequences
        three = given and rng.random() < 0.75
        if given:
            lap = []
            over = {'spread': [10 ** rng.uniform(-3.5, -1.5) for _ in range(3)]}
            if rng.random() < 0.5:
                over['aligned'] = 10 ** rng.uniform(-5, -0.5)
            sim = envs.gen_data(rng, 'n0', three, noise=0.0, **over)
        idfs = []
        for k in range(rng.randint(1, 4)):
            conf = {'lambda_lasso': 0.0, 'lambda_eiv': 0.0, 'contrast_each_row': rng.random() < 0.5,
                    'use_tls_diag': rng.random() < 0.5, 'lambdaprime': rng.choice([1, 200])}
            a = ['-n', 'n0', '-i', str(rng.choice([1, 2, 5]))] + lap
            if three:
                q = rng.choice(['012', '012', '0', '1', '2']) if not k or rng.random() < 0.5 else q
                a += ['-q', '-p', q]
            if rng.random() < 0.4 and not lap:
                a.append('-w')
                conf.update({x: 10 ** rng.uniform(-5, -3) for x in SD})
            if k and rng.random() < 0.4 and (not three or idfs[-1]['args'][idfs[-1]['args'].index('-p') + 1] == q):
                a.append(rng.choice(['-b', '-c']))
            o = {'cmd': 'identify', 'args': a, 'conf': conf}
            if rng.random() < 0.3:
                o['turb'] = base.gen_turb(rng, env, {'cmd': 'identify', 'args': a, 'conf': conf})
            idfs.append(o)
        return {'env': env, 'sim': sim, 'ops': idfs, 'turb': base.gen_turb(rng, env, sim), 'seed': rng.randrange(2 ** 31)}

    simplify = staticmethod(base.simplify_turb)

    def run(self, plan, ctx):
        np = envs.R['np']
        env, net = plan['env'], plan['env']['nets'][0]
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        p = base.run_turb(ctx, w, env, plan['sim'], plan['turb'], plan['seed'])
        if not base.ran(ctx, p, 'simulate'):
            return
        d = base.read(ctx, w, 'final', 'n0')
        if d is None:
            return
        lap = '-l' in plan['sim']['args']
        if np.linalg.norm(d['v'] - d['w']) > 0 and not np.allclose(d['v'], d['w'], rtol=1e-12, atol=0):
            return
        given = 'data' in plan['sim']
        three = given and plan['sim']['data']['three']
        h = np.asarray(d['h'])
        parts = {q: np.flatnonzero(h == q) for q in (0, 1, 2)} if three else {1: np.arange(len(h))}
        tols = {q: self.tolerances(ctx, np, {k: v[:, c] for k, v in d.items() if k in 'wj'}, d['y'][np.ix_(c, c)], lap, given)
                for q, c in parts.items()}
        if not any(tols.values()):
            ctx.probe('not enough excitation')
            return
        ctx.probe('recovered')
        if three:
            ctx.probe('three sequences')
        for o in plan['ops']:
            if any(o.get('conf', {}).get(k) != 0.0 for k in ('lambda_lasso', 'lambda_eiv')):
                continue                            # (a minimised plan)
            p = base.run_turb(ctx, w, env, {k: v for k, v in o.items() if k != 'turb'}, o.get('turb'), plan['seed'] + 1)
            if not base.ran(ctx, p, 'identify %s' % ' '.join(o['args'])):
                return
            s, b = base.read(ctx, w, 'standard', 'n0'), base.read(ctx, w, 'bayes', 'n0')
            ref = base.read(ctx, w, 'reference', 'n0')
            if s is None or b is None or ref is None:
                return
            ctx.state([z[:2] for z in net['lines']], o['args'], sorted(int(np.log10(x[2])) for x in tols.values() if x))
            one = three and o['args'][o['args'].index('-p') + 1] != '012'
            cols = parts[int(o['args'][o['args'].index('-p') + 1])] if one else np.arange(len(h))
            y = d['y'][np.ix_(cols, cols)]
            if ref['y'].shape != y.shape or not np.allclose(ref['y'], y, rtol=1e-12, atol=0):
                return ctx.violate('reference', 'the stored reference network is not the one of the data')
            for name, got in (('OLS', s['o']), ('TLS', s['t']), ('Lasso', s['l']), ('MAP', b['y'])):
                if got.shape != y.shape:
                    return ctx.violate('recover', "identify %s: the %s estimate has shape %s" % (' '.join(o['args']), name, got.shape))
                for q, c in parts.items():
                    if not tols[q] or one and not np.array_equal(c, cols):
                        continue
                    tol, cond = tols[q][0 if name == 'OLS' else 3 if name == 'TLS' else 1], tols[q][2]
                    if tol > 1e-3 or name == 'MAP' and '-w' in o['args'] and tol > 1e-6:
                        continue
                    if name == 'MAP' and '-w' in o['args']:
                        tol = max(tol, 1e-4)
                    g, r = (got, y) if one else (got[np.ix_(c, c)], y[np.ix_(c, c)])
                    e = np.linalg.norm(g - r) / np.linalg.norm(r)
                    if not e <= tol:
                        return ctx.violate('recover', "identify %s: from exact data the %s estimate%s is wrong by %.3g of the "
                                           "network (tolerance %.1g, conditioning %.1g)" %
                                           (' '.join(o['args']), name, ' of sequence %d' % q if three else '', e, tol, cond))
            ctx.probe('estimates compared', 4)

    @staticmethod
    def tolerances(ctx, np, d, y, lap, given):
        """What rounding allows for least squares, for the others, the conditioning, and for total least squares."""
        x = d['w'] - d['w'].mean() if lap else rm.centre(d['w'])
        t, n = x.shape
        if t < n + 1:
            return None
        sv = np.linalg.svd(x, compute_uv=False)
        cond = sv[0] / max(sv[-1], 1e-300)
        ny = np.linalg.norm(y)
        # rounding of the data, amplified by the smallest excitation
        err = 2e-15 * np.sqrt(t * n) * np.max(np.abs(d['w'])) * ny / max(sv[-1], 1e-300) / ny
        # the power flow itself is solved up to a mismatch of 1e-8
        if not given and t == d['j'].shape[0]:
            e = np.minimum(np.abs(d['j'] - d['w'] @ y.T), 1e-7)
            err += np.linalg.norm(e) / max(sv[-1], 1e-300) / ny
        tol1 = max(30 * err, 1e-11)
        tol2 = max(100 * err, 1e-14 * cond ** 2 * 100, 1e-9)
        if not np.isfinite(tol1) or tol1 > 1e-3:
            return None
        return tol1, tol2, cond, tol1 * (np.linalg.cond(y) if given else 1.0)


CHECK = C10()
