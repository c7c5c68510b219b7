"""
Environments of simulated runs as JSON-able plans: networks, household profiles, configuration, commands.

`boot()` imports the repository once (after the seams are installed), `prepare()` creates the data folder of a world and
`command()` runs one of the repository's command-line tools inside a simulated process.
"""
import fractions
import os
import pickle
import random
import sys
import warnings
import zipfile
from pathlib import Path

from dsim import seams

REPO = os.environ.get('DSIM_REPO', '/repo')
R = {}        # repository modules

SIM_KEYS = ('days', 'selected_weeks', 'time_steps', 'measurement_frequency', 'safety_factor', 'hidden_nodes',
            'constant_load_hidden_nodes', 'load_constantness', 'current_magnitude_sd', 'voltage_magnitude_sd',
            'current_phase_sd', 'voltage_phase_sd')
ID_KEYS = ('lambda_lasso', 'lambda_eiv', 'lambdaprime', 'abs_tol', 'rel_tol', 'use_tls_diag', 'contrast_each_row',
           'regularize_diag')

DATA = 'data'
OUT = 'data/simulations_output'

DEFAULT_CONF = dict(seed=131, days=30, selected_weeks=[0], time_steps=30, measurement_frequency=1, safety_factor=4,
                    hidden_nodes=[], constant_load_hidden_nodes=True, load_constantness=0.84,
                    current_magnitude_sd=1e-4, voltage_magnitude_sd=1e-4, current_phase_sd=1.7e-4,
                    voltage_phase_sd=1.7e-4, lambda_lasso=4e-10, lambda_eiv=1e-6, lambdaprime=200,
                    abs_tol=1e-13, rel_tol=1e-16, use_tls_diag=False, contrast_each_row=True, regularize_diag=False)


class Days(int):
    """A number of days that may be a fraction (given in minutes), so that simulated runs stay short."""

    def __new__(cls, minutes):
        o = int.__new__(cls, max(1, minutes // 1440))
        o.f = fractions.Fraction(minutes, 1440)
        return o

    def __mul__(self, k):
        return _Frac(self.f) * k
    __rmul__ = __mul__

    def __truediv__(self, k):
        return float(self.f / int(k)) * (1 + 1e-14)


class _Frac:
    def __init__(self, f):
        self.f = f

    def __mul__(self, k):
        if k != int(k):
            return float(self.f) * k
        f = self.f * int(k)
        return int(f) if f.denominator == 1 else _Frac(f)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return float(self.f) / k * (1 + 1e-14)

    def __floordiv__(self, k):
        return int(self.f / int(k))

    def __float__(self):
        return float(self.f) * (1 + 1e-14)

    def __int__(self):
        return int(self.f)
    __index__ = __int__


def boot(plots=False):
    """Imports the repository with all seams in place. Called once, in the process that forks the simulated ones."""
    if R:
        return R
    seams.install()
    sys.path.insert(0, REPO)
    warnings.filterwarnings('ignore')
    import numpy as np
    import scipy.sparse.linalg  # noqa: F401
    import pandapower  # noqa: F401
    seams.install_solvers()
    # The repository creates its data folder at import time: keep that inside a scratch folder.
    import conf.conf as C
    C.DATA_DIR = Path(DATA)
    C.SIM_DIR = Path(OUT)
    import conf.simulation as S
    import conf.identification as I
    import simulate_network
    import identify_network
    from src.simulation import net_templates as T1, net_templates_3ph as T3
    from src.simulation.load_profile import BusData
    from src.simulation.lines import LineData
    R.update(np=np, C=C, S=S, I=I, simulate=simulate_network.simulate, identify=identify_network.identify,
             T1=T1, T3=T3, BusData=BusData, LineData=LineData)
    if plots:
        import plot_results
        R['plot'] = plot_results.plot_results
        R['plot_mod'] = plot_results
    seams.install_solvers()
    R['conf0'] = {(m, k): getattr(mod, k) for m, mod, keys in (('S', S, SIM_KEYS), ('I', I, ID_KEYS)) for k in keys}
    return R


# -------------------------------------------------------------------------------------------------- configuration
def apply_conf(conf):
    np, S, I, C = R['np'], R['S'], R['I'], R['C']
    c = dict(DEFAULT_CONF)
    c.update(conf)
    C.seed = c['seed']
    for k in SIM_KEYS:
        v = c[k]
        if k == 'days':
            v = Days(v)
        elif k == 'selected_weeks':
            v = np.array(v)
        elif k == 'hidden_nodes':
            v = list(v)
        setattr(S, k, v)
    for k in ID_KEYS:
        setattr(I, k, c[k])
    for name, m in list(sys.modules.items()):      # "from conf.conf import seed" keeps a copy
        if m is not None and name.startswith('src.') and 'seed' in vars(m) and isinstance(vars(m)['seed'], int):
            m.seed = c['seed']


def apply_net(net):
    T, B, L = (R['T3'] if net['three'] else R['T1']), R['BusData'], R['LineData']
    buses = [B(b[0], b[1], tuple(b[2]) if isinstance(b[2], list) else b[2],
               tuple(b[3]) if isinstance(b[3], list) else b[3], kv=b[4]) for b in net['buses']]
    if net['three']:
        lines = [L(l[0], l[1], l=l[2], typ=l[3]) for l in net['lines']]
    else:
        lines = [L(l[0], l[1], r=l[2], x=l[3], l=l[4], s=l[5]) for l in net['lines']]
    setattr(T, net['name'] + '_bus', buses)
    setattr(T, net['name'] + '_net', lines)


def apply_env(env, conf=None):
    for n in env['nets']:
        apply_net(n)
    c = dict(env.get('conf', {}))
    c.update(conf or {})
    apply_conf(c)


def command(env, op):
    """Body of a simulated process: one invocation of a tool. op = {cmd, args, conf}"""
    if op['cmd'] in ('_data', '_profiles'):
        return given(env, op)
    apply_env(env, op.get('conf'))
    tool = R[op['cmd']]
    if op['cmd'] == 'plot':
        stub_rendering()
    tool.main(list(op['args']), standalone_mode=False)
    return None


def given(env, op):
    """Files given to the tools from outside: measured data or household profiles. Not part of the simulation."""
    np = R['np']
    seams.KERNEL.quiet = True
    try:
        if op['cmd'] == '_profiles':
            p, q = profiles(op['profiles'])
            np.save('data/profiles/p.npy', p)
            np.save('data/profiles/q.npy', q)
        else:
            c = dict(env.get('conf', {}), **(op.get('conf') or {}))
            np.savez('%s/%s.npz' % (OUT, op['args'][1]), **synthetic(op['data'], c.get('seed', 0)))
    finally:
        seams.KERNEL.quiet = False


def synthetic(s, seed=0):
    """Final data of a measured network: n nodes, t samples, one phase or three sequences."""
    np = R['np']
    rng = np.random.RandomState((s['seed'] + 7919 * seed) % 2 ** 32)
    n, t = s['n'], s['t']
    h = np.tile([0, 1, 2], n) if s['three'] else np.ones(n, dtype=int)
    y = np.zeros((len(h), len(h)), dtype=complex)
    w = np.zeros((t, len(h)), dtype=complex)
    for q in sorted(set(h.tolist())):
        idx = np.flatnonzero(h == q)
        z = s.get('scale', 60.0) * rng.uniform(0.4, 2, (n, n)) / (1 + 1j * rng.uniform(0.4, 2.5, (n, n)))
        b = np.zeros((n, n), dtype=complex)
        for k in range(n):
            a = rng.randint(-1, k)                    # -1: the point of common coupling
            if a >= 0:
                b[a, k] = b[k, a] = -z[a, k]
            else:
                b[k, k] += z[k, k]
        b -= np.diag(np.sum(b - np.diag(np.diag(b)), axis=1))
        y[np.ix_(idx, idx)] = b
        w[:, idx] = (1.0 if q == 1 else 0.0) + (s['spread'][q] if 'spread' in s else 0.01) * (rng.randn(t, n) + 1j * rng.randn(t, n)) - 0.01
    if 'aligned' in s:                                # some nodes nearly move together
        for q in sorted(set(h.tolist())):
            a, b = np.flatnonzero(h == q)[[0, -1]]
            w[:, b] = (1 - s['aligned']) * w[:, a] + s['aligned'] * w[:, b]
    j = (w - (h == 1)[None, :]) @ y
    v, i = (x + s['noise'] * np.abs(x) * (rng.randn(*x.shape) + 1j * rng.randn(*x.shape)) for x in (w, j))
    return dict(i=i, v=v, j=j, w=w, y=y, p=s.get('rating', 1.0) * rng.uniform(0.5, 2, len(h)), f=s['f'], h=h)


def gen_data(rng, name, three=True, **over):
    """Operation that provides such data."""
    n = rng.choice([2, 3, 3, 4])
    s = dict(three=three, n=n, t=rng.choice([3 * n, 12, 20, 40]), seed=rng.randrange(10 ** 6), noise=10 ** rng.uniform(-6, -4),
             f=rng.choice([1, 2, 5]), rating=rng.choice([0.01, 1.0, 4.0]))
    s.update(over)
    return {'cmd': '_data', 'args': ['-n', name], 'data': s}


def stub_rendering():
    """
    Figures are made but not rendered: a saved one is a short file with the data drawn since the figure was cleared.
    """
    import json
    import matplotlib.figure
    np = R['np']
    pf, u = sys.modules['proplot.figure'], sys.modules['src.identification.utils']
    u.tikzplotlib.get_tikz_code = lambda *a, **k: '% stub'
    import matplotlib.pyplot as plt
    import seaborn

    def heatmap(data, *a, **k):
        fig = plt.gcf()
        ax = fig.axes[0] if fig.axes else fig.add_subplot(111)
        fig._dsim = np.asarray(data)
        return ax

    def savefig(self, fname, *a, **k):
        m = getattr(self, '_dsim', None)
        d = {'heat': None if m is None else np.asarray(m, dtype=float).tolist(),
             'lines': [np.asarray(l.get_ydata(), dtype=float).tolist() for ax in self.axes for l in ax.lines]}
        self._dsim = None
        with open(fname, 'wb') as f:
            f.write(json.dumps(d).encode())
    seaborn.heatmap = heatmap
    matplotlib.figure.Figure.savefig = savefig
    pf.Figure.savefig = savefig


def commands(env, ops, tolerate=True):
    """Several invocations in one interpreter. Returns the outcome of each."""
    out = []
    for op in ops:
        try:
            command(env, op)
            out.append('ok')
        except SystemExit as e:
            out.append('ok' if e.code in (None, 0) else 'SystemExit')
        except Exception as e:
            if not tolerate:
                raise
            out.append(type(e).__name__)
    return out


# -------------------------------------------------------------------------------------------------- data folder
def profiles(spec):
    np = R['np']
    rng = np.random.RandomState(spec['seed'])
    rows, cols = spec['rows'], spec['cols']
    p = rng.lognormal(0, 0.7, (rows, cols)) * spec.get('pscale', 800.0)
    q = rng.lognormal(0, 0.7, (rows, cols)) * spec.get('qscale', 300.0)
    if spec.get('signed'):
        p *= np.where(rng.rand(rows, cols) < 0.15, -0.3, 1.0)
    return p, q


_prof_cache = {}


def prepare(world, env):
    """Creates the data folder of a world (outside of the simulation)."""
    np = R['np']
    for d in ('tikz', 'simulations_output/plot_data', 'profiles'):
        os.makedirs(world.path('data/' + d), exist_ok=True)
    spec = env.get('profiles')
    if spec:
        key = repr(sorted(spec.items()))
        if key not in _prof_cache:
            _prof_cache.clear()
            _prof_cache[key] = profiles(spec)
        p, q = _prof_cache[key]
        np.save(world.path('data/profiles/p.npy'), p)
        np.save(world.path('data/profiles/q.npy'), q)


LOADS = ['-a', 'data/profiles/p.npy', '-r', 'data/profiles/q.npy']

PREFIXES = {'loads': 'sim_loads_', 'sim': 'sim_results_', 'filtered': 'filtered_results_', 'final': '',
            'reference': 'reference_results_', 'standard': 'standard_results_', 'bayes': 'bayesian_results_',
            'uncertainty': 'uncertainty_results_', 'fim': 'fim_results_'}


def out_path(world, kind, name):
    return world.path('%s/%s%s.npz' % (OUT, PREFIXES[kind], name))


class Unreadable(Exception):
    pass


def load(world, kind, name):
    """None if the result does not exist, dict of arrays if it can be loaded, Unreadable otherwise."""
    np = R['np']
    f = out_path(world, kind, name)
    if not os.path.exists(f):
        return None
    try:
        with np.load(f, allow_pickle=True) as z:
            d = {k: z[k] for k in z.files}
            if not d:
                raise ValueError('no entries')     # all a power loss left is the mark of an archive's end
    except Exception as e:
        raise Unreadable('%s%s: %s: %s' % (PREFIXES[kind], name, type(e).__name__, str(e)[:200]))
    if kind == 'bayes' and 'i' in d:
        try:
            its = [(int(i.iteration), np.asarray(i.fitted_parameters), complex(i.target_function)) for i in d['i']]
        except Exception as e:
            raise Unreadable('%s%s: history: %s' % (PREFIXES[kind], name, e))
        d['i'] = np.zeros(0)
        d['it'] = np.array([x[0] for x in its])
        d['iy'] = np.array([x[1] for x in its])
        d['if'] = np.array([x[2] for x in its])
    return d


def snapshot(world, names, kinds=None):
    """All results of the given networks: {(name, kind): dict | 'unreadable'}"""
    out = {}
    for n in names:
        for k in kinds or PREFIXES:
            try:
                d = load(world, k, n)
            except Unreadable as e:
                d = 'unreadable: %s' % e
            if d is not None:
                out[(n, k)] = d
    return out


def diff(a, b, rtol=1e-9):
    """Description of the first difference between two results, None if equal."""
    np = R['np']
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a is b else 'one of them is missing or unreadable (%s / %s)' % (_brief(a), _brief(b))
    if sorted(a) != sorted(b):
        return 'different contents %s / %s' % (sorted(a), sorted(b))
    for k in sorted(a):
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return "array '%s': shape %s / %s" % (k, x.shape, y.shape)
        if x.dtype.kind in 'OUSb' or y.dtype.kind in 'OUSb':
            if x.tolist() != y.tolist():
                return "array '%s': %s / %s" % (k, _brief(x.tolist()), _brief(y.tolist()))
            continue
        if x.size == 0:
            continue
        nx, ny = np.isfinite(x), np.isfinite(y)
        if np.any(nx != ny):
            return "array '%s': %d / %d non-finite values" % (k, int(np.sum(~nx)), int(np.sum(~ny)))
        if not np.any(nx):
            continue
        scale = max(float(np.max(np.abs(x[nx]))), float(np.max(np.abs(y[nx]))))
        err = float(np.max(np.abs(x[nx] - y[nx])))
        if err > rtol * scale:
            return "array '%s': differs by %.3g (largest value %.3g)" % (k, err, scale)
    return None


def _brief(x):
    if isinstance(x, dict):
        return 'present'
    return str(x)[:120]


# -------------------------------------------------------------------------------------------------- generators
def gen_net(rng, name, n=None, tree=None, pcc=None, kv=None, pload=(0.02, 0.25), passive=0.0, radial=True, gap=False,
            odd_loads=0.0):
    """Random single-phase network. Node ids ascend; the PCC may be anywhere."""
    n = n or rng.randint(3, 6)
    kv = kv or rng.choice([4.16, 10.0, 12.47, 20.0])
    first = rng.choice([0, 1, 1])
    ids = list(range(first, first + n))
    if gap:
        ids = sorted(rng.sample(range(first, first + 3 * n), n))
    pcc = ids[rng.choice([0, n - 1, rng.randrange(n)])] if pcc is None else (ids[pcc] if isinstance(pcc, int) else pcc)
    buses = []
    free = [i for i in ids if i != pcc]
    npas = sum(1 for _ in free[:-2] if rng.random() < passive)
    pas = set(rng.sample(free, npas)) if npas else set()
    for i in ids:
        if i == pcc:
            buses.append([i, 3, 1000.0, 1000.0, kv])
        elif i in pas:
            buses.append([i, 1, 0.0, 0.0, kv])
        else:
            p = round(rng.uniform(*pload), 4)
            q = round(p * rng.uniform(0.2, 0.6), 4)
            odd = rng.random()                    # a load may be purely active or purely reactive
            buses.append([i, 1, 0.0 if odd < odd_loads else p, 0.0 if odd > 1 - odd_loads else q, kv])
    zb = kv * kv
    lines = []
    order = ids[:]
    rng.shuffle(order)
    for k in range(1, n):
        f, t = order[rng.randrange(k)], order[k]
        lines.append(_line(rng, f, t, zb))
    odd = random.Random(repr(lines))
    if odd.random() < 0.15:                       # two lines side by side
        f, t = rng.choice(lines)[:2]
        lines.append(_line(rng, *rng.choice([(f, t), (t, f)]), zb))
    if odd.random() < 0.15:                       # a line out of service
        f, t = rng.sample(ids, 2)
        lines.insert(rng.randrange(len(lines) + 1), _line(rng, f, t, zb)[:5] + [0])
    if not radial and n > 3:
        have = {tuple(sorted(l[:2])) for l in lines}
        f, t = rng.sample(ids, 2)
        if tuple(sorted((f, t))) not in have:
            lines.append(_line(rng, f, t, zb))
    return {'name': name, 'three': False, 'buses': buses, 'lines': lines}


def _line(rng, f, t, zb):
    r = zb * 10 ** rng.uniform(-4.0, -2.7)
    x = r * rng.uniform(0.3, 2.5)
    if rng.random() < 0.5:
        f, t = t, f
    return [f, t, float('%.5g' % r), float('%.5g' % x), rng.choice([1, 1, 0.5, 2.0]), 1]


TYPES3 = None


def gen_net3(rng, name, n=None, passive=0.0, asym=1.0):
    """Random three-phase network."""
    T3 = R['T3']
    n = n or rng.randint(3, 4)
    kv = 4.16
    ids = list(range(1, n + 1))
    pcc = ids[-1] if rng.random() < 0.6 else rng.choice(ids)
    buses = []
    for i in [k for k in ids if k != pcc]:
        if rng.random() < passive and len([b for b in buses if b[2] != 0]) > 0:
            buses.append([i, 1, 0.0, 0.0, kv])
        elif rng.random() < asym:
            p = [round(rng.uniform(0.02, 0.12), 4) for _ in range(3)]
            buses.append([i, 1, p, [round(v * rng.uniform(0.2, 0.6), 4) for v in p], kv])
        else:
            p = round(rng.uniform(0.06, 0.3), 4)
            buses.append([i, 1, p, round(p * 0.4, 4), kv])
    if all(not isinstance(b[2], list) for b in buses):
        buses[0] = [buses[0][0], 1, [0.05, 0.08, 0.06], [0.02, 0.03, 0.025], kv]
    buses.append([pcc, 3, 1000.0, 1000.0, kv])
    buses.sort(key=lambda b: b[0])
    types = sorted(T3.ieee123_types)
    lines = []
    order = ids[:]
    rng.shuffle(order)
    for k in range(1, n):
        lines.append([order[rng.randrange(k)], order[k], round(rng.uniform(0.1, 1.0), 3), rng.choice(types)])
    return {'name': name, 'three': True, 'buses': buses, 'lines': lines}


def gen_conf(rng, net, minutes=None, hidden=0.0, noise=True, **over):
    n = len(net['buses'])
    m = minutes or rng.choice([n + 3, n + 4, n + 5, n + 8, 2 * n + 4])
    f = rng.choice([0.2, 0.5, 1, 1, 2])
    total = round((m - 1) * 60 * f)
    c = dict(days=m, selected_weeks=[0], measurement_frequency=f,
             time_steps=max(2, min(total, rng.choice([total // 2, total // 5, 60, 40, total // 12]))),
             seed=rng.choice([131, 0, 7, rng.randrange(10 ** 6)]),
             safety_factor=rng.choice([1, 2, 4, 10]))
    if c['time_steps'] > 600:
        c['time_steps'] = 600
    if noise:
        lv = rng.choice([0.1, 1, 1, 10])
        for k in ('current_magnitude_sd', 'voltage_magnitude_sd'):
            c[k] = 1e-4 * lv * rng.choice([1, 1, 0.5, 2])
        for k in ('current_phase_sd', 'voltage_phase_sd'):
            c[k] = 1.745e-4 * lv * rng.choice([1, 1, 0.5, 2])
    else:
        for k in ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd'):
            c[k] = 0.0
    if hidden and rng.random() < hidden:
        cand = [b[0] for b in net['buses'] if b[1] == 1 and b[2] != 0]
        if len(cand) > 2:
            c['hidden_nodes'] = [rng.choice(cand)]
        c['constant_load_hidden_nodes'] = rng.random() < 0.7
        c['load_constantness'] = rng.choice([0.84, 1.0, 0.5])
    c.update(over)
    return c


def gen_profiles(rng, rows=120, **over):
    s = dict(seed=rng.randrange(10 ** 6), rows=rows, cols=rng.randint(8, 40), pscale=rng.choice([800.0, 3000.0]),
             qscale=rng.choice([300.0, 900.0]))
    s.update(over)
    return s
