"""C11: every identification result is the solution its method is defined by, iteration by iteration."""
import copy

from dsim import base, envs, refmodel as rm
from dsim.base import Check

SD = ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd')


class C11(Check):
    id = 'C11'
    title = 'estimators'
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('Noisy data of a random network are identified with random regularisation, priors, weights, tolerances and '
            'iteration limits, after interrupted attempts and with slow or short transfers. OLS, TLS and Lasso equal a dense '
            'reference implementation; every stored Bayesian iteration is the exact minimiser of the surrogate problem at '
            'the one before it; structure, numbering, stopping and the final result agree with the history.')
    measure = 'hash of (options, regularisation decade, number of iterations, number of nodes)'

    def gen(self, rng, tier, i):
        env = base.base_env(rng, False, passive=0.2, hidden=0.2, n=rng.choice([3, 4, 4, 5, 6]))
        c = env['conf']
        n = len(env['nets'][0]['buses'])
        c['days'] = max(c['days'], n + 3)
        c['measurement_frequency'] = rng.choice([0.5, 1, 2])
        c['time_steps'] = min(max(c['time_steps'], n + 2), int((c['days'] - 1) * 60 * c['measurement_frequency']), 80)
        for x in SD:
            c[x] = 10 ** rng.uniform(-5, -3)
        lap = ['-l'] if rng.random() < 0.3 else []
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0', '-g', str(rng.choice([0.3, 0.6]))] + lap
               + (['-e'] if rng.random() < 0.5 else [])}
        ops = []
        for k in range(rng.randint(3, 7)):
            wt = rng.random()
            a = ['-n', 'n0', '-i', str(rng.choice([1, 2, 3, 3, 5, 8]))] + lap
            if wt < 0.35:
                a.append('-w')
            elif wt < 0.5:
                a += ['-w', '-r']
            ex = rng.random() < 0.6
            conf = {'lambda_lasso': 10 ** rng.uniform(-12, -5),
                    'lambda_eiv': 10 ** (rng.uniform(1, 10) if wt < 0.5 else rng.uniform(-5, 2)),
                    'contrast_each_row': rng.random() < 0.6, 'use_tls_diag': rng.random() < 0.5,
                    'regularize_diag': rng.random() < 0.3 and not lap, 'lambdaprime': 10 ** rng.uniform(-1, 3),
                    'abs_tol': 0.0 if ex else rng.choice([1e-13, 1e-6, 1e-2, 10.0]),
                    'rel_tol': 0.0 if ex else rng.choice([1e-16, 1e-6, 1e-2])}
            o = {'cmd': 'identify', 'args': a, 'conf': conf}
            if rng.random() < 0.25:
                o['turb'] = base.gen_turb(rng, env, dict(o))
                o['turb'].pop('beside', None)
            ops.append(o)
        return {'env': env, 'sim': sim, 'ops': ops, 'turb': base.gen_turb(rng, env, sim, heavy=False),
                'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        yield from base.simplify_turb(plan)
        for k, o in enumerate(plan['ops']):
            if o.get('turb'):
                p = copy.deepcopy(plan)
                p['ops'][k].pop('turb')
                yield p

    def matches_known(self, k, plan, v):
        return k['class'] == 'lasso-weights'

    def run(self, plan, ctx):
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        p = base.run_turb(ctx, w, env, plan['sim'], plan['turb'], plan['seed'])
        if not base.ran(ctx, p, 'simulate'):
            return
        d = base.read(ctx, w, 'final', 'n0')
        if d is None:
            return
        for o in plan['ops']:
            p = base.run_turb(ctx, w, env, {k: v for k, v in o.items() if k != 'turb'}, o.get('turb'), plan['seed'] + 1)
            if not base.ran(ctx, p, 'identify %s' % ' '.join(o['args'])):
                return
            r = {k: base.read(ctx, w, k, 'n0') for k in ('standard', 'bayes', 'reference')}
            if any(v is None for v in r.values()):
                return
            c = dict(envs.DEFAULT_CONF, **base.merged(env, o.get('conf')))
            for v in examine(ctx, d, r, c, o['args']):
                ctx.violate(v[0], 'identify %s: %s' % (' '.join(o['args']), v[1]))
                if v[0] != 'lasso-weights':
                    return


def rel(np, a, b):
    return np.linalg.norm(a - b) / max(np.linalg.norm(b), 1e-300)


def examine(ctx, d, r, c, args):
    np = envs.R['np']
    lap, wt, uns = '-l' in args, '-w' in args, '-r' in args
    its = int(args[args.index('-i') + 1])
    v, i, s, b = d['v'], d['i'], r['standard'], r['bayes']
    n = v.shape[1]
    if not np.allclose(r['reference']['y'], d['y'], rtol=1e-12, atol=0):
        yield 'reference', 'the stored reference network is not the one of the data'
        return
    x, z = (v - v.mean(), i) if lap else (rm.centre(v), rm.centre(i))
    sv = np.linalg.svd(x, compute_uv=False)
    cond = sv[0] / max(sv[-1], 1e-300)
    if x.shape[0] < n or cond > 1e6:
        ctx.probe('ill-conditioned data')
        return
    t1 = max(1e-9, 1e-13 * cond ** 2)
    e = rel(np, s['o'], rm.ols(x, z))
    if not e <= t1:
        yield 'ols', 'the least squares estimate is wrong by %.3g' % e
        return
    sj = np.linalg.svd(np.hstack((x, z)), compute_uv=False)
    if x.shape[0] >= 2 * n and sj[n - 1] > 1.001 * sj[n]:
        yt = rm.tls(x, z)
        vv = np.linalg.svd(np.hstack((x, z)))[2].conj().T
        amp = np.linalg.cond(vv[n:, n:]) * sj[0] / (sj[n - 1] - sj[n])
        e = rel(np, s['t'], yt)
        if amp < 1e9 and not e <= max(1e-9, 1e-14 * amp * 100):
            yield 'tls', 'the total least squares estimate is wrong by %.3g' % e
            return
        ctx.probe('tls compared')
    # ------------------------------------------------------------------------------------------ lasso
    if c['abs_tol'] == 0 and c['rel_tol'] == 0:
        got = s['l']
        if rel(np, got, got.T) > 1e-9:
            yield 'structure', 'the Lasso estimate is not symmetric'
            return
        res = {}
        for name, up in (('documented', -1), ('inverted', 1)):
            p = rm.real_vector(rm.from_matrix(s['o'], lap))
            pr = (np.diag(np.abs(p) ** up), np.zeros(len(p)), 1e-5)
            for _ in range(its):
                p, h, g = rm.lasso_step(x, z, p, pr, c['lambda_lasso'], lap)
            y = rm.matrices(p, n, lap)
            sc = 1 / np.sqrt(np.abs(np.diag(h)))
            res[name] = (rel(np, got, y), max(1e-8, 1e-13 * np.linalg.cond(h * sc[:, None] * sc[None, :])), y)
        if not res['documented'][0] <= res['documented'][1]:
            if res['inverted'][0] <= res['inverted'][1]:
                if rel(np, res['inverted'][2], res['documented'][2]) > 1e-6:
                    ctx.probe('lasso compared')
                    yield 'lasso-weights', ('the Lasso estimate uses the weights lambda |y_ols| instead of the documented '
                                            'lambda / |y_ols|')
            elif res['inverted'][1] < 1e-3:
                yield 'lasso', 'the Lasso estimate is wrong by %.3g after %d iterations' % (res['inverted'][0], its)
                return
    # ------------------------------------------------------------------------------------------ Bayesian
    k = len(b['it'])
    if k < 1 or k > its or b['it'].tolist() != list(range(k)):
        yield 'history', 'iterations %s for a limit of %d' % (b['it'].tolist(), its)
        return
    if rel(np, b['iy'][-1], b['y']) > 0:
        yield 'history', 'the result is not the last iteration'
        return
    f = b['if'].real

    def stationary(j):
        df = abs(f[j] - f[j - 1])
        return (df < c['abs_tol'] or df / abs(f[j - 1]) < c['rel_tol']) and f[j - 1] >= f[j]
    if np.all(np.isfinite(f)):
        early = [j for j in range(1, k - 1) if stationary(j)]
        if early:
            yield 'stop', 'it goes on after iteration %d met the stopping rule' % early[0]
            return
        if k < its and not (k > 1 and stationary(k - 1)):
            yield 'stop', 'it stops after %d of %d iterations although the stopping rule is not met' % (k, its)
            return
    for j in range(k):
        y = b['iy'][j]
        if rel(np, y, y.T) > 1e-9:
            yield 'structure', 'iteration %d is not symmetric' % j
            return
        if lap and np.max(np.abs(y.sum(axis=1))) > 1e-6 * np.max(np.abs(y)):
            yield 'structure', 'rows of iteration %d do not sum to zero' % j
            return
    y = (s['t'] + s['t'].T) / 2
    step = stepper(np, d, c, args, y)
    for j in range(k):
        got = b['iy'][j]
        try:
            bad, tgt = compare(np, ctx, step, y, got, lap, wt)
        except np.linalg.LinAlgError:
            ctx.probe('singular step')
            return
        if bad == 'ill':
            return
        if bad:
            yield 'step', 'iteration %d is not the minimiser of the problem at the iteration before it: %s' % (j, bad)
            return
        if tgt is not None:
            tg, ttol = tgt
            if not abs(tg - b['if'][j].real) <= ttol * abs(tg):
                yield 'target', 'the objective of iteration %d is %.9g, stored %.9g' % (j, tg, b['if'][j].real)
                return
            ctx.probe('objectives compared')
        ctx.probe('weighted steps' if wt else 'unweighted steps')
        y = got
    ctx.state([a for a in args if a.startswith('-')], int(np.log10(c['lambda_eiv'])), k, n)


def stepper(np, d, c, args, y0):
    """y -> (next y, H, g, tolerance, objective, its tolerance), for the problem whose prior is made from y0."""
    lap, wt, uns = '-l' in args, '-w' in args, '-r' in args
    v, i = d['v'], d['i']
    n = v.shape[1]
    x, z = (v - v.mean(), i) if lap else (rm.centre(v), rm.centre(i))
    prior = rm.map_prior(y0, c['lambdaprime'], lap, c['use_tls_diag'], c['contrast_each_row'], c['regularize_diag'])
    if wt:
        fl = np.sqrt(float(d['f']))
        sv_, si, pv, pi = (c['voltage_magnitude_sd'] / fl, c['current_magnitude_sd'] / fl * d['p'][None, :],
                           c['voltage_phase_sd'] / fl, c['current_phase_sd'] / fl)
        if uns:
            va, ia = np.abs(v) + 0j, i * v.conj() / np.abs(v)
            x, z = (va - va.mean(), ia) if lap else (rm.centre(va), rm.centre(ia))
            rr, ii, ri = rm.linear_cov(va, sv_, 100 * pv)
            wx = (1 / rr, 1 / ii, 0 * ri)
            wz = rm.invert_cov(*rm.linear_cov(i, si, pi))
        else:
            wx = rm.invert_cov(*rm.polar_cov(v, sv_, pv))
            wz = rm.invert_cov(*rm.polar_cov(i, si, pi))
    lam = c['lambda_eiv']

    def step(y):
        if wt:
            q, h, g, tg = rm.wmap_step(x, z, y, prior, lam, wx, wz, lap, True)
            q2, _, _, tg2 = rm.wmap_step(x, z, y, prior, lam, wx, wz, lap, False)
            tol = max(1e-6, 10 * rel(np, q2, q))
            ttol = max(1e-5, 10 * abs(tg - tg2) / max(abs(tg), 1e-300))
        else:
            q, h, g = rm.map_step(x, z, y, prior, lam, lap)
            tol, tg, ttol = 1e-6, None, None
        # the sparse solver used for the step is backward stable with respect to the unscaled system only
        tol = max(tol, 4e-16 * np.linalg.cond(h))
        return rm.matrices(q, n, lap), h, g, tol, tg, ttol
    return step


def compare(np, ctx, step, y, got, lap, wt):
    """(None | 'ill' | what is wrong, (objective, tolerance) or None) of the step from y to got."""
    want, h, g, tol, tg, ttol = step(y)
    e = rel(np, got, want)
    if not np.all(np.isfinite(y)) or not np.all(np.isfinite(want)) or not np.all(np.isfinite(h)):
        ctx.probe('degenerate estimate')
        return 'ill', None
    # the sub-problem of the voltage errors may be numerically singular (always for weighted Laplacian problems)
    if not np.all(np.isfinite(got)) and (tol > 1e-5 or lap and wt):
        ctx.probe('singular step')
        return 'ill', None
    if not e <= tol:
        p = rm.real_vector(rm.from_matrix(got, lap))
        be = np.max(np.abs(h @ p - g) / (np.abs(h) @ np.abs(p) + np.abs(g)))
        if be <= ((1e-5 if lap else 1e-6) if wt else 1e-10) or (wt and tol > 1e-2):
            ctx.probe('ill-conditioned step')
            return 'ill', None
        return 'difference %.3g, residual %.3g' % (e, be), None
    if wt and tol < 1e-4 and ttol < 1e-2:
        return None, (tg, ttol + 1e2 * tol)
    return None, None


CHECK = C11()
