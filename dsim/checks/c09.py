"""C09: the exact data are the interpolated block means of the simulated ones; noise-free data equal them."""
from dsim import base, envs, refmodel as rm
from dsim.base import Check
from dsim.checks.c07 import gen_sim, simulate, close, where


class C09(Check):
    id = 'C09'
    title = 'resampling'
    three = True
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A network is simulated with random sampling rate, number of time steps and filter mode under random '
            'circumstances; exact and noise-free data are compared with interpolation and block means computed apart.')
    measure = 'hash of (minutes, frequency, time steps, filter mode)'

    def gen(self, rng, tier, i):
        plan = gen_sim(rng, tier, 0.08, hidden=0.2)
        c = plan['env']['conf']
        if rng.random() < 0.3:
            for x in ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd', 'voltage_phase_sd'):
                c[x] = 0.0
        c['measurement_frequency'] = rng.choice([0.05, 0.1, 1 / 60.0, 1 / 30.0, 0.2, 0.3, 1, 1, 2, 1.7])
        total = round((c['days'] - 1) * 60 * c['measurement_frequency'])
        c['time_steps'] = max(1, min(total, rng.choice([total, total // 2, total // 3, 2 * total // 3, total // 5, 10,
                                                        total - 1, total // 7 + 1])))
        return plan

    simplify = staticmethod(base.simplify_turb)

    def run(self, plan, ctx):
        w = simulate(ctx, plan)
        if w is None:
            return
        np = envs.R['np']
        c, args = plan['env']['conf'], plan['op']['args']
        r = {k: base.read(ctx, w, k, 'n0') for k in ('loads', 'sim', 'filtered', 'final')}
        if any(v is None for v in r.values()):
            return
        t = r['loads']['t']
        if t.tolist() != [60 * k for k in range(c['days'])]:
            return ctx.violate('times', 'instants of the loads are %s... for %d minutes' % (t[:5].tolist(), c['days']))
        eq = '-e' in args
        ts, fl, ret = rm.grid(t, c['measurement_frequency'], c['time_steps'], eq)
        ctx.state(c['days'], c['measurement_frequency'], c['time_steps'], eq)
        if int(r['final']['f']) != ret:
            return ctx.violate('length', 'reported filter length %s, expected %d' % (r['final']['f'], ret))
        ctx.probe('filter length %s' % ('1' if ret == 1 else '2-5' if ret < 6 else 'more'))
        for a, b, noisy in (('v', 'w', 'v'), ('i', 'j', 'i')):
            _, ex = rm.resample(t, r['sim'][a], ts, fl)
            got = r['filtered'][b]
            if got.shape != ex.shape:
                return ctx.violate('shape', "exact data '%s' have shape %s, expected %s" % (b, got.shape, ex.shape))
            if not close(np, got, ex, 1e-11):
                return ctx.violate('mean', "exact data '%s' are not the means of the simulated ones: %s"
                                   % (b, where(np, got, ex)))
            if r['filtered'][noisy].shape != ex.shape:
                return ctx.violate('shape', "noisy data '%s' have shape %s, expected %s"
                                   % (noisy, r['filtered'][noisy].shape, ex.shape))
            if all(c.get(k) == 0 for k in ('current_magnitude_sd', 'voltage_magnitude_sd', 'current_phase_sd',
                                           'voltage_phase_sd')):
                ctx.probe('noise-free')
                if not close(np, r['filtered'][noisy], ex, 1e-11):
                    return ctx.violate('noisefree', "without noise, data '%s' differ from the exact ones: %s"
                                       % (noisy, where(np, r['filtered'][noisy], ex)))


CHECK = C09()
