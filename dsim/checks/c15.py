"""C15: the plotting tool reports the true errors of the stored results and changes none of them."""
import copy
import hashlib
import json
import os
import re

from dsim import base, envs, refmodel as rm
from dsim.base import Check

NUM = r'([-+0-9.einfa]+)'
LINE = re.compile(r'ErrorMetrics\(fro_error=%s, max_error=%s, rrms_error=%s, map_error=%s\)' % (NUM, NUM, NUM, NUM))


class C15(Check):
    id = 'C15'
    title = 'reports'
    plots = True
    three = True
    budget = {'quick': (300, 40), 'thorough': (20000, 1500)}
    rule = ('Results of one or two networks (one phase, one sequence, all sequences; complete, partial or continued '
            'identifications) are reported again and again, next to other commands, with slow and short transfers, errors '
            'and crashes. Every successful report shows the errors of the stored estimates with respect to the stored '
            'reference, on the console, in the text files, the data files and the figures; no report changes a result.')
    measure = 'hash of (results present, options, kind of network, faults)'
    real = Check.real + ['plot_results command line, src.identification.utils, pandas, matplotlib axes']
    stubs = Check.stubs + ['rendering of figures (a saved figure is the data drawn in it)', 'tikzplotlib, seaborn.heatmap']

    def gen(self, rng, tier, i):
        three = rng.random() < (0.12 if tier == 'quick' else 0.2)
        nets, envd = ('n0',) if three else ('n0', 'n1')[:rng.choice([1, 2])], None
        env = base.base_env(rng, three, names=nets, hidden=0 if three or len(nets) > 1 else 0.2, n=3 if three else None, passive=0.2)
        seq = rng.random() < 0.75
        lap = {n: not three and rng.random() < 0.25 for n in nets}
        ops = []
        for n in nets:
            ops.append({'cmd': 'simulate', 'args': ['-n', n, '-g', '0.4'] + (['-t'] + (['-q'] if seq else []) if three else [])
                        + (['-l'] if lap[n] else [])})
        first = True
        for k in range(rng.randint(2, 4)):
            for n in nets:
                if not first and rng.random() < 0.4:
                    continue
                a = ['-n', n, '-i', str(rng.choice([1, 2, 4]))] + (['-l'] if lap[n] else [])
                if three:
                    a += ['-q', '-p', rng.choice(['012', '012', '1', '2', '0'])] if seq else \
                        ['-p', rng.choice(['1', '2', '3'])] if rng.random() < 0.6 else ['-p', '123', '-s']
                elif rng.random() < 0.3:
                    a.append('-w')
                if '123' not in a:
                    if first:
                        a += rng.choice([[], [], [], ['-u'], ['-u']]) if not three else []
                    else:
                        a += rng.choice([[], ['-b'], ['-c'], ['-u'], ['-c', '-b']]) if not three else []
                ops.append({'cmd': 'identify', 'args': a,
                            'conf': {'lambda_eiv': 10 ** (rng.uniform(2, 6) if '-w' in a else rng.uniform(-4, 0))}})
            first = False
            n = rng.choice(nets)
            o = {'cmd': 'plot', 'args': ['-n', n] + (['-q'] if rng.random() < 0.4 and three else [])
                 + (['-c', '1.0'] if rng.random() < 0.3 else []) + (['-v'] if rng.random() < 0.2 else [])}
            u = rng.random()
            if u < 0.25:
                o['faults'] = [base.gen_crash(rng, 150) if rng.random() < 0.5 else base.gen_error_fault(rng)]
            elif u < 0.55:
                o['faults'] = [base.gen_benign_fault(rng) for _ in range(rng.randint(1, 3))]
                o['benign'] = True
            if len(nets) == 2 and rng.random() < 0.3:
                m = nets[1] if n == nets[0] else nets[0]
                o['beside'] = {'cmd': 'identify', 'args': ['-n', m, '-i', '2'] + (['-l'] if lap[m] else [])}
            ops.append(o)
        return {'three': three, 'env': env, 'ops': ops, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['ops']) - 1, -1, -1):
            for x in ('faults', 'beside'):
                if plan['ops'][k].get(x):
                    p = copy.deepcopy(plan)
                    p['ops'][k].pop(x)
                    yield p
            if plan['ops'][k]['cmd'] != 'simulate':
                p = copy.deepcopy(plan)
                p['ops'].pop(k)
                yield p

    def warm_plans(self):
        for p in super().warm_plans():
            p['ops'].append({'cmd': 'plot', 'args': ['-n', 'w']})
            yield p

    def run(self, plan, ctx):
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        known = set()
        for k, o in enumerate(plan['ops']):
            what = 'command %d (%s %s)' % (k, o['cmd'], ' '.join(o['args']))
            if o['cmd'] == 'simulate':
                known.add(o['args'][1])
            elif o['args'][1] not in known:
                continue                  # not a meaningful history
            if o['cmd'] != 'plot':
                p = base.call(w, env, o)
                if '123' in o['args'] and not p.ok:
                    continue
                if not base.ran(ctx, p, what):
                    return
                continue
            name = o['args'][1]
            before = results(w, env, None if not o.get('beside') else o['beside']['args'][1])
            p = base.start(w, env, {x: o[x] for x in ('cmd', 'args')}, faults=o.get('faults', ()))
            if o.get('beside'):
                q = base.start(w, env, o['beside'])
                ctx.probe('identification at the same time')
            w.run()
            w.settle()
            if o.get('beside') and not base.ran(ctx, q, 'the other command'):
                return
            after = results(w, env, None if not o.get('beside') else o['beside']['args'][1])
            if before != after:
                d = sorted(set(before.items()) ^ set(after.items()))
                return ctx.violate('changed', what + ' changes %s' % d[0][0])
            r = {s: base_load(w, s, name) for s in ('final', 'reference', 'standard', 'bayes', 'uncertainty')}
            if not p.ok:
                if o.get('faults') and not o.get('benign'):
                    ctx.probe('a report died')
                    continue
                if r['reference'] is None or r['standard'] is None:
                    continue              # nothing to report: refused
                return base.ran(ctx, p, what)
            if r['reference'] is None:
                return ctx.violate('invented', what + ' succeeds without a reference')
            ctx.state(sorted(s for s in r if r[s] is not None), o['args'], plan['three'],
                      [f['kind'] for f in o.get('faults', ())])
            for v in examine(w, r, '-q' in o['args'], p.out):
                return ctx.violate(v[0], what + ': ' + v[1])
            ctx.probe('reports compared')


def base_load(w, s, name):
    try:
        return envs.load(w, s, name)
    except envs.Unreadable:
        return None


def results(w, env, skip):
    out = {}
    for n in env['nets']:
        if n['name'] == skip:
            continue
        for k in envs.PREFIXES:
            f = envs.out_path(w, k, n['name'])
            if os.path.exists(f):
                with open(f, 'rb') as h:
                    out[(n['name'], k)] = hashlib.sha256(h.read()).hexdigest()
    return out


def metrics(np, y, x):
    d = y - x
    nz = y != 0
    return (np.linalg.norm(d), np.max(np.abs(d)), 100 * np.linalg.norm(d) / np.linalg.norm(y),
            100 * np.linalg.norm(d[nz]) / np.linalg.norm(y[nz]))


def same(np, a, b, tol=1e-6, ref=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    na, nb = np.isfinite(a), np.isfinite(b)
    if np.any(na != nb):
        return False
    if not np.any(na):
        return True
    return np.max(np.abs(a[na] - b[nb])) <= tol * max(np.max(np.abs(b[nb])), ref or 1e-300)


def examine(w, r, q, out):
    np = envs.R['np']
    ref, fin = r['reference'], r['final']
    phases, lap = str(ref['p']), bool(ref['l'])
    h, v = fin['h'], fin['w']
    turned = False
    conv = lambda y: y
    if phases == '012' and not q:
        m = v.shape[1] // 3
        conv = lambda y: np.kron(np.eye(m), rm.T_ABC) @ y @ np.kron(np.eye(m), rm.T_012)
        v, turned = v @ np.kron(np.eye(m), rm.T_ABC).T, True
    elif phases == '123' and q:
        m = v.shape[1] // 3
        conv = lambda y: np.kron(np.eye(m), rm.T_012) @ y @ np.kron(np.eye(m), rm.T_ABC)
        v, turned = v @ np.kron(np.eye(m), rm.T_012).T, True
    elif phases not in ('012', '123') and np.any(h != 1):
        v = v[:, h == int(phases)]
    y = conv(ref['y'])
    n = y.shape[0]
    if v.shape[1] != n:
        return
    est = {}
    if r['standard'] is not None:
        est.update(ols=conv(r['standard']['o']), tls=conv(r['standard']['t']), lasso=conv(r['standard']['l']))
    if r['bayes'] is not None:
        est['sparse_tls'] = conv(r['bayes']['y'])
    shown = [tuple(float(x) for x in g) for g in LINE.findall(out)]
    for k, (name, x) in enumerate(est.items()):
        if x.shape != y.shape:
            return
        want = metrics(np, y, x)
        with open(w.path('data/%s_error_metrics.txt' % name)) as f:
            got = LINE.findall(f.read())
        if len(got) != 1:
            yield 'report', 'the %s report is incomplete' % name
            return
        got = tuple(float(z) for z in got[0])
        cmp = slice(0, 3 if turned else 4)         # exact zeros are lost by the transformation
        for src, g in (('file', got), ('console', shown[k] if k < len(shown) else None)):
            if g is None or not same(np, np.array(g)[cmp], np.array(want)[cmp], 0) and \
                    any(not same(np, g[j], want[j], 1e-6) for j in range(4)[cmp]):
                yield 'metrics', 'the %s errors of the %s estimate are %s, they should be %s' % (src, name, g, want)
                return
    if r['uncertainty'] is not None and r['standard'] is not None:
        want = metrics(np, r['uncertainty']['e'], r['uncertainty']['b'])
        if len(shown) != len(est) + 3 or any(not same(np, shown[len(est)][j], want[j], 1e-6) for j in range(4)):
            yield 'metrics', 'the difference of the covariances is reported as %s, it should be %s' % (shown[len(est):], want)
            return
    # -------------------------------------------------------------------------------------- data and figures
    heat = {'y_bus': np.abs(y)}
    if r['standard'] is not None:
        heat.update(y_ols=np.abs(est['ols']), y_tls=np.abs(est['tls']), y_lasso=np.abs(est['lasso']))
    if r['bayes'] is not None:
        heat['y_sparse_tls_cov'] = np.abs(est['sparse_tls'])
        heat['y_sparse_tls_cov_errors'] = np.abs(est['sparse_tls'] - y)
    if r['uncertainty'] is not None and r['standard'] is not None and 'tls' in est:
        heat['tls_errors'] = np.abs(est['tls'] - y)
    big = np.max(np.abs(y))
    for name, want in heat.items():
        got = data(np, w, name)
        if not same(np, got, want, 1e-8, big):
            yield 'data', 'the data of %s are wrong' % name
            return
        fig = figure(w, name, 'png')
        if fig is None or not same(np, np.array(fig['heat'], dtype=float), want, 1e-8, big):
            yield 'figure', 'the figure of %s does not show it' % name
            return
    c = v - v.mean(axis=0)
    series = {'correlations': np.log10(np.sqrt(np.abs(np.linalg.eigvals(c.T @ c))))}
    if r['bayes'] is not None and r['standard'] is not None:
        b = r['bayes']
        series['errors'] = np.array([metrics(np, y, conv(x))[2] for x in b['iy']])
        series['targets'] = b['if'][1:].real
        low = [(i, j) for j in range(n) for i in range(j + 1, n)]
        pick = lambda x, ij: 0.5 * (x[ij[0], ij[1]] + x[ij[1], ij[0]])
        lines = [ij for ij in low if abs(pick(np.abs(y), ij)) > 0]
        want = np.abs(np.array([[pick(x, ij) for x in (est['ols'], est['tls'], est['lasso'], est['sparse_tls'], y)]
                                for ij in lines])).reshape(-1, 5)
        got = data(np, w, 'comparison')
        if not turned and not same(np, np.sort(got, axis=0), np.sort(want, axis=0), 1e-8) :
            yield 'data', 'the comparison of the lines is wrong'
            return
        fig = figure(w, 'comparison', 'pdf')
        if fig is None or len(fig['lines']) != 5 or not all(same(np, fig['lines'][k], got[:, k], 1e-8) for k in range(5)):
            yield 'figure', 'the comparison figure does not show its data'
            return
        if not turned:
            none = [(i, j) for j in range(n) for i in range(j + (1 if lap else 0), n) if (i, j) not in lines]
            with open(w.path('data/sparsity_metrics.txt')) as f:
                txt = f.read()
            rows = [tuple(float(x) for x in g) for g in LINE.findall(txt)]
            if len(none):
                for k, (label, x) in enumerate((('OLS', est['ols']), ('TLS', est['tls']), ('Lasso', est['lasso']),
                                                ('MLE', est['sparse_tls']))):
                    d = np.array([2 * pick(x - y, ij) for ij in none])
                    if len(rows) != 4 or not same(np, rows[k][0], np.linalg.norm(d), 1e-6) or \
                            not same(np, rows[k][1], np.max(np.abs(d)), 1e-6):
                        yield 'metrics', 'the errors of %s outside of the lines are %s' % (label, rows[k:k + 1])
                        return
    for name, want in series.items():
        got = data(np, w, name)
        if name == 'correlations':
            a, b = np.sort(10.0 ** got[:, 0]), np.sort(10.0 ** want)
        else:
            a, b = got[:, 0], want
        if not same(np, np.real(a), b, 1e-6):
            yield 'data', 'the data of the %s series are wrong' % name
            return
        fig = figure(w, name, 'pdf')
        if fig is None or len(fig['lines']) != 1 or not same(np, np.array(fig['lines'][0]), np.real(got[:, 0]), 1e-8):
            yield 'figure', 'the figure of the %s series does not show its data' % name
            return


def data(np, w, name):
    with np.load(w.path('data/simulations_output/plot_data/%s.npz' % name)) as z:
        return z['m']


def figure(w, name, ext):
    with open(w.path('data/%s.%s' % (name, ext))) as f:
        t = f.read()
    try:
        return json.loads(t)
    except ValueError:
        return None


CHECK = C15()
