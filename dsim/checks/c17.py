"""C17: the uncertainty report belongs to the stored data and estimate and is what its definition gives."""
import copy

from dsim import base, envs, refmodel as rm
from dsim.base import Check

SD = ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd')


class C17(Check):
    id = 'C17'
    title = 'uncertainty'
    three = True
    budget = {'quick': (300, 45), 'thorough': (20000, 1500)}
    rule = ('A history of identifications with and without uncertainty report, with changing noise levels, options and '
            'data, some of which fail or are killed. Every report that succeeds is the inverse of the information of a '
            'dense reference model: once from the exact data and the reference network, once from the measurements and the '
            'stored Bayesian estimate; it is repeated exactly whatever happened before, and it scales with the noise.')
    measure = 'hash of (sizes, options, decade of the noise, outcomes)'

    def gen(self, rng, tier, i):
        three = rng.random() < 0.06
        env = base.base_env(rng, three, passive=0.2, hidden=0 if three else 0.2, n=rng.choice([3, 3, 4, 4, 5]) if not three else 3)
        c = env['conf']
        n = len(env['nets'][0]['buses'])
        c['days'] = n + rng.choice([3, 4, 6])
        c['measurement_frequency'] = rng.choice([0.5, 1])
        c['time_steps'] = min(rng.choice([n + 2, 12, 30]), int((c['days'] - 1) * 60 * c['measurement_frequency']))
        for x in SD:
            c[x] = 10 ** rng.uniform(-5, -3)
        lap = ['-l'] if rng.random() < 0.25 and not three else []
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0', '-g', str(rng.choice([0.3, 0.6]))] + lap
               + (['-t', '-q'] if three else []) + (['-e'] if rng.random() < 0.4 else [])}
        ops = []
        for k in range(rng.randint(2, 6)):
            a = ['-n', 'n0', '-i', str(rng.choice([1, 2, 4]))] + lap
            if three:
                a += ['-q', '-p', rng.choice('012')]
            wt = rng.random() < 0.4
            if wt:
                a.append('-w')
            if k and rng.random() < 0.4:
                a += rng.choice([['-s'], ['-b'], ['-c'], ['-s', '-b']])
            if rng.random() < 0.85:
                a.append('-u')
            if rng.random() < 0.2:
                a.append('-v')
            conf = {'lambda_eiv': 10 ** (rng.uniform(1, 6) if wt else rng.uniform(-5, 0)),
                    'lambdaprime': rng.choice([2, 50, 200]), 'contrast_each_row': rng.random() < 0.6,
                    'use_tls_diag': rng.random() < 0.5, 'abs_tol': rng.choice([0.0, 1e-3]), 'rel_tol': 0.0}
            if rng.random() < 0.5:
                conf.update({x: 10 ** rng.uniform(-5, -3) for x in SD})
            o = {'cmd': 'identify', 'args': a, 'conf': conf}
            u = rng.random()
            if u < 0.15:
                o['faults'] = [base.gen_crash(rng, 60) if rng.random() < 0.5 else base.gen_error_fault(rng)]
                o['power'] = rng.random() < 0.4
            elif u < 0.35:
                o['turb'] = {'benign': [base.gen_benign_fault(rng) for _ in range(rng.randint(1, 3))]}
            elif u < 0.5 and not three:
                o['resim'] = rng.randrange(1000)
            elif u < 0.65:
                o['scale'] = rng.choice([0.1, 0.5, 2.0])
            ops.append(o)
        return {'three': three, 'env': env, 'sim': sim, 'ops': ops, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['ops']) - 1, -1, -1):
            p = copy.deepcopy(plan)
            p['ops'].pop(k)
            if p['ops']:
                yield p
            for x in ('faults', 'turb', 'resim', 'scale', 'power'):
                if plan['ops'][k].get(x):
                    p = copy.deepcopy(plan)
                    p['ops'][k].pop(x)
                    yield p

    def run(self, plan, ctx):
        np = envs.R['np']
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        if not base.ran(ctx, base.call(w, env, plan['sim']), 'simulate'):
            return
        hist = []
        for k, o in enumerate(plan['ops']):
            what = 'command %d (identify %s)' % (k, ' '.join(o['args']))
            if o.get('resim') is not None:
                if not base.ran(ctx, base.call(w, env, dict(plan['sim'], conf={'seed': o['resim']})), 'simulate'):
                    return
            w.settle()
            op = {x: o[x] for x in ('cmd', 'args', 'conf')}
            before = {x: raw(w, x) for x in ('uncertainty', 'fim')}
            have = readable(w, 'bayes') and readable(w, 'standard')
            if o.get('faults'):
                p = base.call(w, env, dict(op, faults=o['faults']))
            else:
                p = base.run_turb(ctx, w, env, op, o.get('turb'), plan['seed'] + k)
            hist.append((o['args'][2:], p.status, int(np.log10(base.merged(env, o['conf'])[SD[0]]))))
            if not p.ok:
                if o.get('faults'):
                    ctx.probe('a command died')
                    if o.get('power'):
                        w.power_loss(plan['seed'] + k)
                    continue
                if not have and set(o['args']) & {'-s', '-b', '-c'}:
                    ctx.probe('refused')
                    continue
                if 'LinAlgError' in str(p.exc) and degenerate(np, w):
                    ctx.probe('degenerate estimate')
                    continue
                return base.ran(ctx, p, what)
            if '-u' not in o['args']:
                for x, y in before.items():
                    if raw(w, x) != y:
                        return ctx.violate('touched', what + ' changes the uncertainty report, which it was not asked for')
                continue
            got = report(ctx, w, what)
            if got is None:
                return
            c = dict(envs.DEFAULT_CONF, **base.merged(env, o['conf']))
            if not self.judge(ctx, w, c, o['args'], got, what, p):
                return
            if o.get('scale'):
                # the same identification once more with scaled noise levels and without a weighted estimate in between
                a = [x for x in o['args'] if x not in ('-c', '-b', '-s')] + ['-s']
                con = dict(o['conf'], **{x: c[x] * o['scale'] for x in SD})
                p = base.call(w, env, {'cmd': 'identify', 'args': a, 'conf': con})
                if not base.ran(ctx, p, 'identify %s' % ' '.join(a)):
                    return
                g2 = report(ctx, w, what)
                if g2 is None:
                    return
                for x in 'eb':
                    s1, s2 = got[x] * o['scale'] ** 2, g2[x]
                    if trusted(np, got[x]) and not np.max(np.abs(s1 - s2)) <= 1e-2 * np.max(np.abs(s1)):
                        return ctx.violate('scale', "%s: with %g times the noise the covariance '%s' is not %g times as large"
                                           % (what, o['scale'], x, o['scale'] ** 2))
                ctx.probe('scaled')
            elif k % 2:
                # the report does not depend on the process
                q = base.call(w, env, dict(op, args=[x for x in o['args'] if x not in ('-c', '-b', '-s')] + ['-s']),
                              entropy='again')
                if not base.ran(ctx, q, 'identify -s'):
                    return
                g2 = report(ctx, w, what)
                if g2 is None:
                    return
                for x in sorted(got):
                    if not np.array_equal(got[x], g2[x]):
                        return ctx.violate('repeat', "%s: repeating the report changes '%s'" % (what, x))
                if [l for l in q.out.splitlines() if 'Cramer' in l] != [l for l in p.out.splitlines() if 'Cramer' in l]:
                    return ctx.violate('repeat', what + ': repeating the report prints other bounds')
                ctx.probe('repeated')
        ctx.state(hist)

    def judge(self, ctx, w, c, args, got, what, p):
        np = envs.R['np']
        d, b, s = (base.read(ctx, w, x, 'n0') for x in ('final', 'bayes', 'standard'))
        if d is None or b is None or s is None:
            return False
        d = dict(d)
        if '-p' in args:
            k = np.flatnonzero(d['h'] == int(args[args.index('-p') + 1]))
            for x in 'vijw':
                d[x] = d[x][:, k]
            d['y'], d['p'] = d['y'][np.ix_(k, k)], d['p'][k]
        lap = '-l' in args
        n = d['v'].shape[1]
        for x, v, i, y, name in (('e', d['w'], d['j'], d['y'], 'exact data'), ('b', d['v'], d['i'], b['y'], 'measurements')):
            f = information(np, v, i, y, d['p'], c, d['f'], lap)
            cov = got[x]
            if cov.shape != (2 * n * n, 2 * n * n):
                ctx.violate('shape', "%s: covariance '%s' is %s" % (what, x, cov.shape))
                return False
            sc = 1 / np.sqrt(np.diag(f))
            fs = f * sc[:, None] * sc[None, :]
            cond = np.linalg.cond(fs)
            if not cond < 1e9:
                ctx.probe('not enough excitation')
                continue
            cs = cov / sc[:, None] / sc[None, :]
            tol = 1e-6 + 1e-13 * cond ** 2 if cond < 1e4 else 1e-5 + 1e-14 * cond ** 2
            if tol > 1e-2:
                continue
            e = np.linalg.norm(cs @ fs - np.eye(len(f))) / np.sqrt(len(f))
            if not e <= max(tol, 1e-7 * cond):
                ctx.violate('bound', "%s: the covariance from the %s is not the inverse of their information (%.3g)"
                            % (what, name, e))
                return False
            if not np.max(np.abs(cs - cs.T)) <= 1e-10 * cond * np.max(np.abs(cs)):
                ctx.violate('symmetric', '%s: the covariance from the %s is not symmetric' % (what, name))
                return False
            if not np.linalg.eigvalsh((cs + cs.T) / 2)[0] > -1e-9 * np.max(np.abs(cs)):
                ctx.violate('positive', '%s: the covariance from the %s is not positive' % (what, name))
                return False
            ctx.probe('reports compared')
        for x, ref, name in (('fv', d['v'], 'measured voltages'), ('fi', d['i'], 'measured currents'), ('fy', b['y'], 'estimate'),
                             ('fc', got['b'], 'covariance')):
            if got[x].shape != ref.shape or not np.array_equal(got[x], ref):
                ctx.violate('stored', '%s: the stored information does not belong to the %s' % (what, name))
                return False
        g = got['ff']
        e = np.linalg.norm(g @ got['b'] - np.eye(len(g))) / np.sqrt(len(g))
        if not e <= 1e-9 * np.linalg.cond(g):
            ctx.violate('inverse', '%s: the stored information and covariance are not inverse (%.3g)' % (what, e))
            return False
        if not np.isfinite(got['fe']) or not got['fe'] >= 0:
            ctx.violate('expected', '%s: expected error %s' % (what, got['fe']))
            return False
        return True


def raw(w, kind):
    try:
        with open(envs.out_path(w, kind, 'n0'), 'rb') as f:
            return f.read()
    except OSError:
        return None


def readable(w, kind):
    try:
        return envs.load(w, kind, 'n0') is not None
    except envs.Unreadable:
        return False


def degenerate(np, w):
    """The estimate is not a finite matrix (badly scaled weighted problems) or the data do not determine it."""
    d, b = envs.load(w, 'final', 'n0'), envs.load(w, 'bayes', 'n0')
    if b is None or not np.all(np.isfinite(b['y'])) or np.max(np.abs(b['y'])) > 1e6 * np.max(np.abs(d['y'])):
        return True
    return d['v'].shape[0] <= d['v'].shape[1]


def trusted(np, c):
    s = np.sqrt(np.abs(np.diag(c)))
    return np.linalg.cond(c / s[:, None] / s[None, :]) < 1e7


def report(ctx, w, what):
    u, f = base.read(ctx, w, 'uncertainty', 'n0'), base.read(ctx, w, 'fim', 'n0')
    if u is None or f is None:
        return None
    np = envs.R['np']
    return dict({x: u[x] for x in 'eb'}, **{'f' + x: np.asarray(f[x]) for x in 'yvifce'})


def information(np, v, i, y, ratings, c, f, lap):
    """Information of the parameters (real parts, then imaginary ones, by columns) in the approximation of the tool."""
    t, n = v.shape
    q = np.sqrt(float(f))
    vr, vi, vc = rm.polar_cov(v, c['voltage_magnitude_sd'] / q, c['voltage_phase_sd'] / q)
    zr, zi, zc = rm.polar_cov(i, (c['current_magnitude_sd'] / q * ratings)[None, :], c['current_phase_sd'] / q)
    # noise of the voltages seen through all lines
    g = np.sum(y.real ** 2, axis=0), np.sum(y.imag ** 2, axis=0), np.sum(y.real * y.imag, axis=0)
    s = vr @ g[0] + vi @ g[1] + 2 * (vc @ g[2])
    x = v - v.mean() if lap else rm.centre(v)
    k = n * n
    out = np.zeros((2 * k, 2 * k))
    for m in range(n):
        a, b, o = s + zr[:, m], s + zi[:, m], zc[:, m]
        det = a * b - o * o
        wr, wi, wo = b / det, a / det, -o / det
        z = slice(m * n, (m + 1) * n)
        zz = slice(k + m * n, k + (m + 1) * n)
        out[z, z] = (x.real.T * wr) @ x.real
        out[zz, zz] = (x.imag.T * wi) @ x.imag
        out[z, zz] = (x.real.T * wo) @ x.imag
        out[zz, z] = (x.imag.T * wo) @ x.real
    return out


CHECK = C17()
