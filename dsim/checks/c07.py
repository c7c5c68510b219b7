"""C07: simulated data obey the power flow; the reference network is the Kron reduction of the real one."""
import copy

from dsim import base, envs, refmodel as rm
from dsim.base import Check


def gen_sim(rng, tier, three_p=0.15, hidden=0.4, names=('n0',), **k):
    """Environment and simulate command of one run."""
    three = rng.random() < three_p
    env = base.base_env(rng, three, names=names, hidden=hidden, passive=0.35, odd_loads=0.12, **k)
    if not three:
        env['nets'].append(envs.gen_net(rng, 'n1', n=3))
    conf = env['conf']
    net = env['nets'][0]
    if rng.random() < 0.3 and conf.get('hidden_nodes'):
        cand = [b[0] for b in net['buses'] if b[1] == 1 and (b[2] or b[3]) and b[0] not in conf['hidden_nodes']]
        if len(cand) > 2:
            conf['hidden_nodes'] = conf['hidden_nodes'] + [rng.choice(cand)]
    a = ['-n', 'n0']
    if rng.random() < 0.4:
        a += ['-g', str(rng.choice([0.1, 0.3, 0.6]))]
    else:
        a += envs.LOADS
    if three:
        a += ['-t']
        if rng.random() < 0.85:
            a += ['-q']
    elif rng.random() < 0.3:
        a += ['-l']
    if rng.random() < 0.5:
        a += ['-e']
    op = {'cmd': 'simulate', 'args': a}
    return {'three': three, 'env': env, 'op': op, 'turb': base.gen_turb(rng, env, op, heavy=not three),
            'seed': rng.randrange(2 ** 31)}


def simulate(ctx, plan):
    """Runs the command of the plan; returns the world, or None."""
    w = ctx.world(plan['seed'])
    envs.prepare(w, plan['env'])
    p = base.run_turb(ctx, w, plan['env'], plan['op'], plan.get('turb'), plan['seed'])
    if not base.ran(ctx, p, 'simulate %s' % ' '.join(plan['op']['args'])):
        return None
    return w


class C07(Check):
    id = 'C07'
    title = 'physics'
    three = True
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A random network (PCC anywhere, passive and hidden nodes, meshed or radial, one or three phases) is simulated '
            'under random circumstances; voltages, currents, loads and the reference matrix are compared with a dense '
            'reference model.')
    measure = 'hash of (topology, PCC position, passive and hidden nodes, options)'

    def gen(self, rng, tier, i):
        return gen_sim(rng, tier, 0.12 if tier == 'quick' else 0.25)

    def simplify(self, plan):
        yield from base.simplify_turb(plan)
        for h in plan['env']['conf'].get('hidden_nodes') or []:
            p = copy.deepcopy(plan)
            p['env']['conf']['hidden_nodes'].remove(h)
            yield p

    def run(self, plan, ctx):
        w = simulate(ctx, plan)
        if w is None:
            return
        np = envs.R['np']
        net, conf, three = plan['env']['nets'][0], plan['env']['conf'], plan['three']
        r = {k: base.read(ctx, w, k, 'n0') for k in ('loads', 'sim', 'filtered', 'final')}
        if any(v is None for v in r.values()):
            return
        ctx.state(net['lines'] and [l[:2] for l in net['lines']], rm.pcc(net), rm.passive(net),
                  conf.get('hidden_nodes'), [x for x in plan['op']['args'] if len(x) == 2])
        for v in r['sim'].values():
            if not np.all(np.isfinite(v)):
                return ctx.violate('nonfinite', 'simulated data contain non-finite values')
        msg = (self.three_phase if three else self.single_phase)(np, net, conf, plan['op']['args'], r)
        if msg:
            ctx.violate(*msg)

    # ------------------------------------------------------------------------------------------------
    def single_phase(self, np, net, conf, args, r):
        n = len(net['buses'])
        s, ld, fl, fi = r['sim'], r['loads'], r['filtered'], r['final']
        y = rm.ybus1(net)
        if s['y'].shape != y.shape or not close(np, s['y'], y, 1e-9):
            return 'ybus', 'admittance matrix of the network is not the one of its lines: %s' % where(np, s['y'], y)
        t = len(ld['t'])
        if s['v'].shape != (t, n) or s['i'].shape != (t, n) or ld['p'].shape != (t, n):
            return 'shape', 'simulated arrays have shapes %s %s for %d instants and %d nodes' % (
                s['v'].shape, s['i'].shape, t, n)
        if not close(np, s['i'], s['v'] @ y, 1e-9):
            return 'ohm', 'currents are not the admittance matrix times the voltages: %s' % where(np, s['i'], s['v'] @ y)
        pc = rm.pcc(net)
        dem = ld['p'] + 1j * ld['q']
        bal = s['v'] * np.conj(s['i']) + dem
        bal[:, pc] = 0
        if np.max(np.abs(bal)) > 1e-6 * max(1.0, np.max(np.abs(dem))):
            k = np.unravel_index(np.argmax(np.abs(bal)), bal.shape)
            return 'power', ('node %s draws %s MVA at minute %d although its load is %s MVA'
                             % (net['buses'][k[1]][0], -(bal - dem)[k], k[0], dem[k]))
        if not close(np, s['v'][:, pc], np.ones((t, len(pc))), 1e-9):
            return 'slack', 'the voltage of the external grid is not 1 p.u. at angle 0'
        lap = '-l' in args
        hid = list(conf.get('hidden_nodes') or [])
        if not lap:
            hid += [net['buses'][k][0] for k in pc]
        keep, yr = rm.reduced1(net, fl['w'], fl['j'], hid, lap)
        if fi['y'].shape != yr.shape:
            return 'reduced', 'reference matrix has shape %s for %d remaining nodes' % (fi['y'].shape, len(keep))
        if not close(np, fi['y'], yr, 1e-7):
            return 'reduced', ('reference matrix is not the Kron reduction of the network (remaining nodes %s): %s'
                               % ([net['buses'][k][0] for k in keep], where(np, fi['y'], yr)))
        for a, b in (('i', 'i'), ('v', 'v'), ('j', 'j'), ('w', 'w')):
            if not close(np, fi[a], fl[b][:, keep], 1e-12):
                return 'columns', "final array '%s' does not hold the measurements of the remaining nodes %s" % (
                    a, [net['buses'][k][0] for k in keep])
        if fi['h'].shape != (len(keep),) or np.any(fi['h'] != 1) or fi['p'].shape != (len(keep),):
            return 'columns', 'phase labels or ratings do not describe the remaining nodes'
        if not [h for h in conf.get('hidden_nodes') or []]:
            w, j = (fi['w'], fi['j']) if lap else (rm.centre(fi['w']), rm.centre(fi['j']))
            res = np.max(np.abs(w @ fi['y'] - j))
            if res > 5e-7:
                return 'consistent', 'exact data do not satisfy i = v Y with the reference matrix (error %.3g p.u.)' % res
            if lap and np.max(np.abs(fi['y'].sum(axis=1))) > 1e-9 * np.max(np.abs(fi['y'])):
                return 'laplacian', 'rows of the Laplacian reference matrix do not sum to zero'
        if not close(np, fi['y'], fi['y'].T, 1e-9):
            return 'symmetry', 'reference matrix is not symmetric'

    def three_phase(self, np, net, conf, args, r):
        n = len(net['buses'])
        s, ld, fl, fi = r['sim'], r['loads'], r['filtered'], r['final']
        types = envs.R['T3'].ieee123_types
        pc = rm.pcc(net)
        rest = [k for k in range(n) if k not in pc]
        big = np.kron(np.eye(n), rm.T_012) @ s['y'] @ np.kron(np.eye(n), rm.T_ABC)
        scale = np.max(np.abs(rm.yseq3(net, types, 1)))
        seqs = []
        for q in range(3):
            yq = rm.yseq3(net, types, q)[np.ix_(rest, rest)]
            got = big[q::3, q::3][np.ix_(rest, rest)]
            if np.max(np.abs(got - yq)) > 1e-9 * scale:
                return 'ybus', 'sequence %d admittance matrix is not the one of the lines: %s' % (q, where(np, got, yq))
            seqs.append(yq)
        if not close(np, s['i'], s['v'] @ s['y'], 1e-9):
            return 'ohm', 'currents are not the admittance matrix times the voltages'
        asym = [k for k, b in enumerate(net['buses']) if isinstance(b[2], (list, tuple))]
        symm = [k for k in range(n) if k not in asym]
        t = len(ld['t'])
        dem = np.zeros((t, 3 * n), dtype=complex)
        for k in range(n):
            for ph in range(3):
                if k in asym:
                    c = asym.index(k)
                    dem[:, 3 * k + ph] = ld['a'][ph][:, c] + 1j * ld['a'][3 + ph][:, c]
                else:
                    c = symm.index(k)
                    dem[:, 3 * k + ph] = (ld['p'][:, c] + 1j * ld['q'][:, c]) / 3
        bal = s['v'] * np.conj(s['i']) + dem
        for k in pc:
            bal[:, 3 * k:3 * k + 3] = 0
        if np.max(np.abs(bal)) > 1e-5 * max(1.0, np.max(np.abs(dem))):
            k = np.unravel_index(np.argmax(np.abs(bal)), bal.shape)
            return 'power', ('phase %d of node %s draws %s MVA at minute %d although its load is %s MVA'
                             % (k[1] % 3, net['buses'][k[1] // 3][0], -(bal - dem)[k], k[0], dem[k]))
        rot = np.array([1, rm.A ** 2, rm.A])
        for k in pc:
            if np.max(np.abs(s['v'][:, 3 * k:3 * k + 3] - rot)) > 0.02:
                return 'slack', 'the voltages of the external grid are not a balanced 1 p.u. system'
        # reduction, sequence by sequence
        hid = [rest.index(k) for k in range(n) if net['buses'][k][0] in (conf.get('hidden_nodes') or [])]
        out = sorted(set(hid) | {rest.index(k) for k in rm.passive(net)})
        keep = [k for k in range(len(rest)) if k not in out]
        m = len(keep)
        yf = np.zeros((3 * m, 3 * m), dtype=complex)
        for q in range(3):
            y = seqs[q].copy()
            for h in hid:
                cols = [3 * rest[h] + ph for ph in range(3)]
                y[h, h] += np.mean(np.mean(fl['j'][:, cols], axis=0) / np.mean(fl['w'][:, cols], axis=0))
            yf[q::3, q::3] = rm.schur(y, out)
        cols = [3 * rest[k] + ph for k in keep for ph in range(3)]
        if '-q' in args:
            tr = np.kron(np.eye(m), rm.T_012)
            data = {a: fl[a][:, cols] @ tr for a in 'ivjw'}
            lab = np.tile([0, 1, 2], m)
        else:
            yf = np.kron(np.eye(m), rm.T_ABC) @ yf @ np.kron(np.eye(m), rm.T_012)
            data = {a: fl[a][:, cols] for a in 'ivjw'}
            lab = np.tile([1, 2, 3], m)
        if fi['y'].shape != yf.shape:
            return 'reduced', 'reference matrix has shape %s for %d remaining nodes' % (fi['y'].shape, m)
        if not close(np, fi['y'], yf, 1e-7):
            return 'reduced', 'reference matrix is not the reduction of the network: %s' % where(np, fi['y'], yf)
        for a in 'ivjw':
            if not close(np, fi[a], data[a], 1e-10):
                return 'columns', "final array '%s' does not hold the measurements of the remaining nodes" % a
        if fi['h'].tolist() != lab.tolist() or fi['p'].shape != (3 * m,):
            return 'columns', 'phase labels or ratings do not describe the remaining nodes'


def close(np, a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.max(np.abs(a - b)) <= tol * max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-300))


def where(np, a, b):
    d = np.abs(np.asarray(a) - np.asarray(b))
    k = np.unravel_index(np.argmax(d), d.shape)
    return 'entry %s is %s, expected %s' % (tuple(int(x) for x in k), np.asarray(a)[k], np.asarray(b)[k])


CHECK = C07()
