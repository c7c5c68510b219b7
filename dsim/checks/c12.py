"""C12: an estimator, a prior and the measurements can be used again, by several users, also after an interrupted fit."""
import copy
import os

from dsim import envs, seams, threads
from dsim.base import Check

KINDS = ('ols', 'tls', 'lasso', 'eiv', 'weiv')


class C12(Check):
    id = 'C12'
    title = 'reuse of estimators'
    warm = True
    budget = {'quick': (1500, 40), 'thorough': (60000, 1500)}
    rule = ('One to three threads of one process fit estimators of all kinds again and again to different data, sharing '
            'priors and data, interleaved at source lines by the seed; fits are interrupted or fail in the solver. Every '
            'completed fit equals that of a fresh estimator with a fresh prior in a process of its own; an interrupted '
            'one leaves the earlier estimate; data, priors and earlier histories stay as they were.')
    measure = 'hash of (kinds of fits per thread, faults)'
    real = ['src.models (estimators, priors, covariances, matrix operations)', 'numpy, scipy']
    stubs = ['thread scheduling (seeded, handed over at source lines)', 'data sets and priors (generated)',
             'failures of the sparse solver (injected)']

    def gen(self, rng, tier, i):
        n = rng.choice([2, 3, 3, 4])
        nd = rng.randint(2, 4)
        data = [{'seed': rng.randrange(10 ** 6), 't': rng.choice([2 * n + 1, 8, 12, 20]), 'noise': 10 ** rng.uniform(-4, -2)}
                for _ in range(nd)]
        priors = [{'seed': rng.randrange(10 ** 6), 'dense': rng.random() < 0.3, 'contrast': rng.random() < 0.5,
                   'exact': rng.random() < 0.4, 'order': rng.choice([1, 1, 2]), 'base': None} for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.4:
            priors.append(dict(priors[0], base=0, seed=rng.randrange(10 ** 6), contrast=False, exact=True))
        if n > 2 and rng.random() < 0.5:          # the same size with another structure
            priors.append({'seed': rng.randrange(10 ** 6), 'dense': rng.random() < 0.3, 'contrast': rng.random() < 0.5,
                           'exact': rng.random() < 0.4, 'order': rng.choice([1, 1, 2]), 'base': None, 'lap': True})
        ests = []
        for _ in range(rng.randint(1, 4)):
            ests.append({'kind': rng.choice(KINDS + KINDS[2:]), 'prior': rng.randrange(len(priors)),
                         'lam': 10 ** rng.uniform(-4, 0), 'its': rng.choice([1, 2, 4, 6]),
                         'abs': rng.choice([0.0, 1e-6, 1e-2])})
        tasks = [[] for _ in range(rng.choice([1, 2, 2, 3]))]
        owner = [rng.randrange(len(tasks)) for _ in ests]         # an estimator is used by one thread
        for _ in range(rng.randint(3, 9)):
            e = rng.randrange(len(ests))
            tasks[owner[e]].append({'e': e, 'd': rng.randrange(nd), 'init': rng.choice(['ols', 'true', 'zero+']),
                                    'buffer': rng.random() < 0.3})
        if rng.random() < 0.4:
            for d in data:                        # so that the arrays of a buffer can be used again
                d['t'] = data[0]['t']
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            faults.append({'on': rng.choice(['solve', 'dense', 'solve|dense|alloc']), 'kind': rng.choice(['MemoryError', 'RuntimeError', 'KeyboardInterrupt']),
                           'nth': rng.randrange(30)})
        return {'n': n, 'data': data, 'priors': priors, 'ests': ests, 'tasks': tasks, 'faults': faults,
                'rate': rng.choice([0.002, 0.01, 0.05, 0.2]), 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['faults'])):
            p = copy.deepcopy(plan)
            p['faults'].pop(k)
            yield p
        for t in range(len(plan['tasks'])):
            for k in range(len(plan['tasks'][t])):
                p = copy.deepcopy(plan)
                p['tasks'][t].pop(k)
                yield p

    def run(self, plan, ctx):
        w = ctx.world(plan['seed'])
        p = w.start('users', lambda: users(plan), plan['faults'])
        w.run()
        if not p.ok:
            return ctx.violate('failed', 'fitting fails without a reason: %s %s\n%s'
                               % (p.status, p.exc, (getattr(p, 'tb', '') or '')[-800:]))
        q = w.start('reference', lambda: reference(plan), [])
        w.run()
        if not q.ok:
            return ctx.violate('failed', 'fitting fails without a reason: %s %s\n%s'
                               % (q.status, q.exc, (getattr(q, 'tb', '') or '')[-800:]))
        np = envs.R['np']
        ref = {tuple(k): v for k, v in q.data}
        ctx.state([[plan['ests'][s['e']]['kind'] for s in t] for t in plan['tasks']], [f['kind'] for f in plan['faults']])
        ctx.probe('thread switches', p.data['switches'])
        for r in p.data['changed']:
            return ctx.violate('changed', r)
        for r in p.data['fits']:
            t, k = r['at']
            step = plan['tasks'][t][k]
            what = 'fit %d of thread %d (%s)' % (k, t, plan['ests'][step['e']]['kind'])
            if r.get('exc'):
                ctx.probe('interrupted fits')
                if not r['kept']:
                    return ctx.violate('interrupted', what + ', interrupted by %s, changes the estimate of the completed '
                                       'fit before it' % r['exc'])
                continue
            ctx.probe('completed fits')
            want = ref[(step['e'], step['d'], step['init'])]
            for key in ('y', 'its', 'targets', 'n'):
                a, b = np.array(r[key]), np.array(want[key])
                if a.shape != b.shape:
                    return ctx.violate('history', what + ': %s of shape %s, a fresh estimator gives %s' % (key, a.shape, b.shape))
                sc = max(np.max(np.abs(b)), 1e-300) if b.size else 1
                if np.array_equal(a, b, equal_nan=True):
                    continue
                if a.size and not np.max(np.abs(a - b)) <= 1e-6 * sc:
                    return ctx.violate('fit', what + ': %s differs from that of a fresh estimator by %.3g of %.3g'
                                       % (key, np.max(np.abs(a - b)), sc))


def lib():
    from src.models.regression import ComplexRegression, BayesianRegression
    from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
    from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
    from src.models.noise_transformation import average_true_noise_covariance
    from src.models.matrix_operations import duplication_matrix, elimination_sym_matrix, \
        transformation_matrix, elimination_lap_matrix
    return locals()


def dataset(d, n, L):
    np = envs.R['np']
    rng = np.random.RandomState(d['seed'])
    b = np.tril(rng.rand(n, n) * (1 - 0.6j) * 10 * (rng.rand(n, n) < 0.7), -1)
    y = -(b + b.T)
    y += np.diag(-y.sum(axis=1) + 1.0)
    x = rng.randn(d['t'], n) + 1j * rng.randn(d['t'], n)
    z = x @ y
    e = d['noise']
    x = x + e * (rng.randn(*x.shape) + 1j * rng.randn(*x.shape))
    z = z + e * (rng.randn(*x.shape) + 1j * rng.randn(*x.shape))
    wx = L['average_true_noise_covariance'](x, e * 1.0, e * 1.0, True)
    wz = L['average_true_noise_covariance'](z, e * np.ones(n), e * 1.0, True)
    return {'x': x, 'z': z, 'wx': wx, 'wz': wz,
            'init': {'true': y, 'ols': np.linalg.lstsq(x, z, rcond=None)[0], 'zero+': 0 * y + 0.1 * np.eye(n)}}


def prior(p, n, priors, L):
    np = envs.R['np']
    rng = np.random.RandomState(p['seed'])
    k = n * (n - 1) if p.get('lap') else n * (n + 1)
    cls = L['SmoothPrior'] if p['dense'] else L['SparseSmoothPrior']
    o = p['order']
    b = cls(smoothness_param=1e-4, n=k, other=priors[p['base']]) if p['base'] is not None else cls(smoothness_param=1e-4, n=k)
    if p['base'] is None:
        b.add_adaptive_sparsity_prior(np.arange(k), 0.1 + rng.rand(k), orders=o)
    if p['contrast']:
        b.add_contrast_prior(indices=np.array([[0, 1], [k // 2, k // 2 + 1]]), values=1 + rng.rand(2),
                             weights=np.array([-1.0, 1.0]), orders=o)
    if p['exact']:
        b.add_exact_prior(indices=np.array([0, k - 1]), values=rng.rand(2), weights=None, orders=o)
    return b


def estimator(e, priors, L, specs):
    if e['kind'] == 'ols':
        return L['ComplexRegression']()
    if e['kind'] == 'tls':
        return L['TotalLeastSquares']()
    cls = L['BayesianRegression'] if e['kind'] == 'lasso' else L['BayesianEIVRegression']
    dt, el = L['duplication_matrix'], L['elimination_sym_matrix']
    if specs[e['prior']].get('lap'):
        dt = lambda n: L['duplication_matrix'](n) @ L['transformation_matrix'](n)
        el = lambda n: L['elimination_lap_matrix'](n) @ L['elimination_sym_matrix'](n)
    return cls(priors[e['prior']], lambda_value=e['lam'], abs_tol=e['abs'], rel_tol=0.0, max_iterations=e['its'], verbose=False,
               dt_matrix_builder=dt, e_matrix_builder=el)


def fit(m, e, d, init):
    y0 = d['init'][init]
    if e['kind'] in ('ols', 'tls'):
        m.fit(d['x'], d['z'])
    elif e['kind'] == 'lasso':
        m.fit(d['x'], d['z'], y_init=y0)
    elif e['kind'] == 'eiv':
        m.fit(d['x'], d['z'], None, None, y_init=y0)
    else:
        m.fit(d['x'], d['z'], d['wx'], d['wz'], y_init=y0)


def out(m, e):
    np = envs.R['np']
    y = np.asarray(m.fitted_admittance_matrix)
    r = {'y': [y.real.tolist(), y.imag.tolist()], 'its': [], 'targets': [], 'n': []}
    if e['kind'] not in ('ols', 'tls'):
        its = list(m.iterations)
        r['n'] = [int(i.iteration) for i in its]
        r['its'] = [[np.asarray(i.fitted_parameters).real.tolist(), np.asarray(i.fitted_parameters).imag.tolist()] for i in its]
        if e['kind'] != 'eiv':                      # its objective is not meaningful without weights
            r['targets'] = [float(np.real(i.target_function)) for i in its]
    return r


def arrays(o):
    """Copies of everything that must not change."""
    np = envs.R['np']
    if hasattr(o, 'toarray'):
        return o.toarray()
    return np.array(o)


def freeze(data, priors):
    f = {}
    for k, d in enumerate(data):
        for a in ('x', 'z', 'wx', 'wz'):
            f['data set %d: %s' % (k, a)] = arrays(d[a])
        for a, v in d['init'].items():
            f['data set %d: initial guess %s' % (k, a)] = arrays(v)
    for k, p in enumerate(priors):
        for a in ('L', 'mu', 'gamma', 'alpha'):
            if hasattr(p, a):
                f['prior %d: %s' % (k, a)] = arrays(getattr(p, a))
    return f


def users(plan):
    np = envs.R['np']
    L = lib()
    n = plan['n']
    seams.KERNEL.quiet = True                  # not part of the simulated program
    data = [dataset(d, n, L) for d in plan['data']]
    seams.KERNEL.quiet = False
    priors = []
    changed = []
    for p in plan['priors']:
        before = freeze([], priors)
        priors.append(prior(p, n, priors, L))
        after = freeze([], priors[:-1])
        changed += ['%s changes when another prior is made' % k for k in before
                    if before[k].shape != after[k].shape or np.any(before[k] != after[k])]
    ests = [estimator(e, priors, L, plan['priors']) for e in plan['ests']]
    before = freeze(data, priors)
    fits, kept = [], []
    last = {}

    def task(t):
        held = {}

        def buffered(d):
            """The data in arrays of the thread's own, used again for data of the same size."""
            b = held.setdefault(d['x'].shape, {a: d[a].copy() for a in ('x', 'z', 'wx', 'wz')})
            for a in ('x', 'z'):
                b[a][...] = d[a]
            b['wx'], b['wz'] = d['wx'], d['wz']
            return dict(b, init=d['init'])

        def body():
            for k, s in enumerate(plan['tasks'][t]):
                e, m = plan['ests'][s['e']], ests[s['e']]
                try:
                    fit(m, e, buffered(data[s['d']]) if s.get('buffer') else data[s['d']], s['init'])
                except (MemoryError, RuntimeError, KeyboardInterrupt) as x:
                    y = m.fitted_admittance_matrix
                    o = last.get(s['e'])
                    ok = y is None if o is None else y is not None and np.array_equal(np.asarray(y), o)
                    fits.append({'at': [t, k], 'exc': type(x).__name__, 'kept': bool(ok)})
                    continue
                last[s['e']] = np.array(m.fitted_admittance_matrix)
                r = out(m, e)
                fits.append(dict(r, at=[t, k]))
                if e['kind'] not in ('ols', 'tls'):
                    kept.append((t, k, m.iterations, r, m.fitted_admittance_matrix, last[s['e']]))
        return body
    sched = threads.Tasks(plan['seed'], plan['rate'], os.path.join(os.path.realpath(envs.REPO), 'src') + '/')
    sched.run([task(t) for t in range(len(plan['tasks']))])
    after = freeze(data, priors)
    changed += ['%s is changed by fitting' % k for k in before
                if before[k].shape != after[k].shape or np.any(before[k] != after[k])]
    for t, k, its, r, y, y0 in kept:
        if [int(i.iteration) for i in its] != r['n'] or not np.array_equal(
                np.array([[np.real(i.fitted_parameters), np.imag(i.fitted_parameters)] for i in its]), np.array(r['its'])) \
                or not np.array_equal(y, y0):
            changed.append('the history returned by fit %d of thread %d is changed by later fits' % (k, t))
    return {'fits': fits, 'changed': changed, 'switches': sched.switches}


def reference(plan):
    L = lib()
    n = plan['n']
    res = []
    for key in sorted({(s['e'], s['d'], s['init']) for t in plan['tasks'] for s in t}):
        e = plan['ests'][key[0]]
        data = dataset(plan['data'][key[1]], n, L)
        priors = []
        for p in plan['priors']:
            priors.append(prior(p, n, priors, L))
        m = estimator(e, priors, L, plan['priors'])
        fit(m, e, data, key[2])
        res.append([key, out(m, e)])
    return res


CHECK = C12()
