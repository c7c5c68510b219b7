"""C08: measurement noise follows the configured law and the meters' ratings."""
import math

from dsim import base, envs, refmodel as rm
from dsim.base import Check
from dsim.checks.c07 import gen_sim, simulate, close

SIG = 6.5      # of the order of 1e-10 per comparison


class C08(Check):
    id = 'C08'
    title = 'noise law'
    three = True
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A network is simulated with random noise levels, sampling rate, filter length and seed under random '
            'circumstances; the noise of every measured series is compared with the variance the configuration implies '
            '(first order, exact sample by sample), tested for bias and for dependence.')
    measure = 'hash of (noise levels, filter length, options, number of nodes)'
    assumptions = Check.assumptions + ['statistical tests with thresholds of %.1f standard deviations' % SIG]

    def gen(self, rng, tier, i):
        plan = gen_sim(rng, tier, 0.08, hidden=0.2)
        c = plan['env']['conf']
        k = rng.random()
        if k < 0.15:
            for x in ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd'):
                c[x] = 0.0
        elif k < 0.45:
            x = rng.choice(['current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd'])
            c[x] = 0.0
        else:
            for x in ('current_magnitude_sd', 'voltage_magnitude_sd'):
                c[x] = 10 ** rng.uniform(-5, -2.5)
            for x in ('current_phase_sd', 'voltage_phase_sd'):
                c[x] = 10 ** rng.uniform(-4.5, -2.5)
        # long series: several samples per second
        c['measurement_frequency'] = rng.choice([1, 2, 5, 10])
        total = int((c['days'] - 1) * 60 * c['measurement_frequency'])
        c['time_steps'] = max(2, int(total / rng.choice([1, 1, 2, 3, 5, 7.5])))
        return plan

    simplify = staticmethod(base.simplify_turb)

    def run(self, plan, ctx):
        w = simulate(ctx, plan)
        if w is None:
            return
        np = envs.R['np']
        net, c, three = plan['env']['nets'][0], plan['env']['conf'], plan['three']
        args = plan['op']['args']
        r = {k: base.read(ctx, w, k, 'n0') for k in ('loads', 'sim', 'filtered', 'final')}
        if any(v is None for v in r.values()):
            return
        f, s = r['filtered'], r['sim']
        ts, fl, ret = rm.grid(r['loads']['t'], c['measurement_frequency'], c['time_steps'], '-e' in args)
        if int(r['final']['f']) != ret:
            return ctx.violate('length', 'stored filter length %s, but blocks of %d samples were averaged' % (r['final']['f'], ret))
        rat = ratings(np, net, c['safety_factor'], three)
        fin = self.kept(np, net, c, args, three, rat)
        if fin is not None and r['final']['p'].shape == fin.shape:
            if not close(np, r['final']['p'], fin, 1e-9):
                return ctx.violate('ratings', 'ratings of the meters are %s, expected %s' % (r['final']['p'], fin))
        ctx.state(sorted((k, v) for k, v in c.items() if k.endswith('sd')), fl, args, len(rat))
        div = np.sqrt(ret) if '-e' in args else 1.0
        sets = []
        for what, noisy, exact, src, sm, sp in (
                ('voltage', f['v'], f['w'], s['v'], c['voltage_magnitude_sd'] * np.ones(len(rat)), c['voltage_phase_sd']),
                ('current', f['i'], f['j'], s['i'], c['current_magnitude_sd'] * rat, c['current_phase_sd'])):
            if noisy.shape != exact.shape:
                return ctx.violate('shape', 'noisy and exact data have different shapes')
            x, ex = rm.resample(r['loads']['t'], src, ts, fl)
            if ex.shape != exact.shape:
                return ctx.violate('shape', '%d %s samples, expected %d' % (exact.shape[0], what, ex.shape[0]))
            if np.max(np.abs(sm)) == 0 and sp == 0:
                if not close(np, noisy, exact, 1e-12):
                    return ctx.violate('zero', '%s noise is configured to be zero but the data are noisy (%.3g)'
                                       % (what, np.max(np.abs(noisy - exact))))
                ctx.probe('zero noise')
                continue
            n = exact.shape[0]
            e = noisy - exact
            m, ph = np.abs(x), np.angle(x)
            u = np.exp(1j * ph)
            for k in range(x.shape[1]):
                if np.min(m[:, k]) < 1e-9 * np.max(m):
                    continue                         # no current: the angle is not defined
                q = np.mean(x[:n * fl, k].reshape(n, fl), axis=1)
                d = q / np.abs(q)
                for name, sd, vec, rotate in (('magnitude', sm[k], m[:, k] * u[:, k], 1.0),
                                              ('phase', sp, 1j * m[:, k] * ph[:, k] * u[:, k], 1j)):
                    dirn = d * rotate
                    ee = np.real(e[:, k] * np.conj(dirn))

                    def var(sdx, v):
                        pr = np.real(v[:n * fl].reshape(n, fl) * np.conj(dirn)[:, None])
                        return (sdx / div) ** 2 * np.sum(pr ** 2, axis=1) / fl ** 2
                    va = var(sm[k], m[:, k] * u[:, k]) + var(sp, 1j * m[:, k] * ph[:, k] * u[:, k])
                    if sd == 0:
                        # the other component leaks into this direction only through the curvature
                        lim = (40 * np.max(m[:, k]) * max((sp * np.max(np.abs(ph[:, k])) / div) ** 2, 1e-14)
                               + 8 * np.sqrt(va))
                        if np.any(np.abs(ee) > lim):
                            return ctx.violate('leak', '%s %s noise of node column %d is configured to be zero but is %.3g'
                                               % (what, name, k, np.max(np.abs(ee))))
                        continue
                    second = np.mean(m[:, k]) * ((sp * np.max(np.abs(ph[:, k])) / div) ** 2
                                                 + (sm[k] / div) * (sp * np.max(np.abs(ph[:, k])) / div)) + 1e-14
                    if np.sqrt(np.mean(va)) < 100 * second:
                        continue
                    z = ee / np.sqrt(va)
                    sets.append((what, name, k, z))
        n = min([len(z) for *_, z in sets], default=0)
        if n < 20:
            return
        ctx.probe('series tested', len(sets))
        for what, name, k, z in sets:
            bad = self.test(np, z)
            if bad:
                return ctx.violate('law', '%s %s noise of node column %d %s' % (what, name, k, bad))
        for what in ('voltage', 'current'):
            for name in ('magnitude', 'phase'):
                zs = [z for a, b, _, z in sets if (a, b) == (what, name)]
                if zs:
                    bad = self.test(np, np.concatenate(zs), serial=False)
                    if bad:
                        return ctx.violate('law', '%s %s noise of all nodes %s' % (what, name, bad))
                    # so many samples and no large error: the probability of that
                    top = max(np.max(np.abs(z)) for z in zs)
                    tail = math.erfc(1.01 * top / math.sqrt(2))
                    if sum(len(z) for z in zs) * math.log1p(-min(tail, 0.999999)) < math.log(1e-10):
                        return ctx.violate('law', '%s %s noise of all nodes never exceeds %.2f standard deviations in %d samples'
                                           % (what, name, top, sum(len(z) for z in zs)))
        z = np.array([x[:n] for *_, x in sets])
        z = z - z.mean(axis=1, keepdims=True)
        z /= np.sqrt(np.mean(z ** 2, axis=1, keepdims=True))
        cc = z @ z.T / n
        np.fill_diagonal(cc, 0)
        if np.max(np.abs(cc)) > SIG / np.sqrt(n):
            a, b = np.unravel_index(np.argmax(np.abs(cc)), cc.shape)
            return ctx.violate('dependent', 'noises of %s and %s are correlated (%.2f)'
                               % (sets[a][:3], sets[b][:3], cc[a, b]))
        # the same at any distance in time, forwards and backwards
        if n >= 80:
            size = 2 * n
            ft = np.fft.fft(z, size, axis=1)
            for back in (False, True):
                for a in range(len(sets)):
                    x = np.real(np.fft.ifft(ft * (ft[a] if back else np.conj(ft[a])), axis=1))
                    if back:
                        x[a] /= np.sqrt(2)
                    else:
                        x[a, 0] = 0
                    k = np.unravel_index(np.argmax(np.abs(x)), x.shape)
                    if abs(x[k]) > 8.5 * np.sqrt(n):
                        return ctx.violate('dependent', 'noises of %s and %s are correlated %s (%.1f standard deviations)'
                                           % (sets[a][:3], sets[k[0]][:3], 'backwards in time' if back else
                                              'at another time', x[k] / np.sqrt(n)))
            ctx.probe('dependence at other times tested')

    @staticmethod
    def test(np, z, serial=True):
        n = len(z)
        if abs(np.mean(z)) > SIG / np.sqrt(n):
            return 'is biased: mean %.3f standard deviations over %d samples' % (np.mean(z), n)
        v = np.mean(z ** 2)
        lim = SIG * np.sqrt(2.0 / n)
        if not (1 - min(lim, 0.9) < v < 1 + lim + lim * lim):
            return 'has %.3f times the variance that is configured (%d samples)' % (v, n)
        if n > 50 and np.max(np.abs(z)) > 8.5:
            return 'has an outlier of %.1f standard deviations' % np.max(np.abs(z))
        if serial and n > 50:
            r = np.mean(z[1:] * z[:-1]) / v
            if abs(r) > SIG / np.sqrt(n):
                return 'is correlated in time (%.2f)' % r

    @staticmethod
    def kept(np, net, c, args, three, rat):
        """Ratings of the remaining nodes."""
        pos = {b: k for k, b in enumerate(rm.ids(net))}
        gone = {pos[h] for h in c.get('hidden_nodes') or []} | set(rm.passive(net))
        if three or '-l' not in args:
            gone |= set(rm.pcc(net))
        keep = [k for k in range(len(pos)) if k not in gone]
        if three:
            keep = [3 * k + p for k in keep for p in range(3)]
        return rat[keep]


def ratings(np, net, factor, three):
    """Ratings of all meters: proportional to the square of the nominal power; the PCC supplies everything."""
    if not three:
        return rm.ratings1(net, factor)
    n = len(net['buses'])
    p = np.zeros((n, 3))
    for k, b in enumerate(net['buses']):
        if b[1] != 3:
            for h in range(3):
                P, Q = (b[2][h], b[3][h]) if isinstance(b[2], (list, tuple)) else (b[2], b[3])
                p[k, h] = factor * (P * P + Q * Q)
    for k in rm.pcc(net):
        p[k] = p.sum(axis=0)
    return p.reshape(3 * n)


CHECK = C08()
