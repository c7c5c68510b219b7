"""C04: redoing only one part of an identification uses the stored other part and leaves it alone."""
import copy
import os
import shutil

from dsim import base, envs
from dsim.base import Check

KINDS = ('standard', 'bayes', 'reference')


class C04(Check):
    id = 'C04'
    title = 'partial re-identification'
    budget = {'quick': (400, 45), 'thorough': (20000, 1500)}
    rule = ('A history of complete and partial identifications (and new simulations) with changing regularisation, '
            'iteration limits and options, some of which fail or are killed. Stored standard and Bayesian results each '
            'equal those of one complete identification with the same data and configuration; what is not redone is '
            'not touched.')
    measure = 'hash of the history (parts redone, options, which commands died)'

    def gen(self, rng, tier, i):
        env = base.base_env(rng, False, hidden=0.2, n=rng.choice([3, 4, 4, 5]), passive=0.2)
        lap = rng.random() < 0.2
        sim = {'cmd': 'simulate', 'args': ['-n', 'n0', '-g', '0.4'] + (['-e'] if rng.random() < 0.5 else [])
               + (['-l'] if lap else [])}
        ops, conf, its, w = [sim], {}, 3, False
        for k in range(rng.randint(2, 6)):
            if k and rng.random() < 0.1:
                ops.append(dict(copy.deepcopy(sim), conf={'seed': rng.randrange(1000)}))
                continue
            fl = [] if rng.random() < (0.8 if k == 0 else 0.25) else rng.choice([['-s'], ['-b'], ['-b'], ['-s', '-b']])
            conf = dict(conf)
            for x, vals in (('lambda_lasso', (1e-12, 4e-10, 1e-7)), ('lambda_eiv', (1e-9, 1e-6, 1e-3)),
                            ('lambdaprime', (2, 200, 5000)), ('abs_tol', (1e-13, 1e-6)),
                            ('contrast_each_row', (True, False)), ('use_tls_diag', (True, False))):
                if rng.random() < 0.3:
                    conf[x] = rng.choice(vals)
            if rng.random() < 0.5:
                its = rng.randint(1, 6)
            if rng.random() < 0.3:
                w = not w
            a = ['-n', 'n0', '-i', str(its)] + (['-w'] if w else []) + (['-l'] if lap else []) + fl
            if rng.random() < 0.1 and not lap:
                a.append('-u')
            o = {'cmd': 'identify', 'args': a, 'conf': conf}
            if k and rng.random() < 0.2:
                o['faults'] = [base.gen_crash(rng, 40) if rng.random() < 0.6 else base.gen_error_fault(rng)]
            ops.append(o)
        return {'env': env, 'ops': ops, 'seed': rng.randrange(2 ** 31)}

    def simplify(self, plan):
        for k in range(len(plan['ops']) - 1, 0, -1):
            p = copy.deepcopy(plan)
            p['ops'].pop(k)
            yield p
            if plan['ops'][k].get('faults'):
                p = copy.deepcopy(plan)
                p['ops'][k].pop('faults')
                yield p

    def run(self, plan, ctx):
        env = plan['env']
        w = ctx.world(plan['seed'])
        envs.prepare(w, env)
        data = 0
        std = bay = None           # (data, conf, args) they were made with
        hist, refs = [], {}
        for k, op in enumerate(plan['ops']):
            if op['cmd'] == 'simulate':
                p = base.call(w, env, op)
                if not base.ran(ctx, p, 'simulate'):
                    return
                data += 1
                hist.append('sim')
                continue
            before = {s: raw(w, s) for s in KINDS}
            inp = raw(w, 'final'), raw(w, 'sim'), raw(w, 'filtered'), raw(w, 'loads')
            p = base.call(w, env, op)
            if (raw(w, 'final'), raw(w, 'sim'), raw(w, 'filtered'), raw(w, 'loads')) != inp:
                return ctx.violate('inputs', 'command %d (%s) changed the simulated data' % (k, ' '.join(op['args'])))
            fl = {x for x in op['args'] if x in ('-s', '-b')}
            ds, db = not fl or '-s' in fl, not fl or '-b' in fl
            hist.append((sorted(x for x in op['args'] if x.startswith('-')), p.status))
            for s, redo in (('standard', ds), ('bayes', db)):
                if not redo and raw(w, s) != before[s]:
                    return ctx.violate('touched', "command %d (%s) changed the '%s' results, which it was not asked to "
                                       "redo" % (k, ' '.join(op['args']), s))
            key = (data, tuple(sorted((op.get('conf') or {}).items())), tuple(x for x in op['args'] if x not in fl))
            if not p.ok:
                if not op.get('faults'):
                    if (not ds and std is None) or (not db and bay is None):
                        # results it needs are missing or of a command that died; what it redid first is complete
                        if ds:
                            std = key
                        if db and std is not None:
                            bay = None
                        continue
                    return base.ran(ctx, p, 'command %d (%s)' % (k, ' '.join(op['args'])))
                ctx.probe('a command %s' % ('was killed' if p.status == 137 else 'failed'))
                if ds:
                    std = None
                if db:
                    bay = None
                continue
            if (not ds and before['standard'] is None) or (not db and before['bayes'] is None):
                return ctx.violate('invented', 'command %d (%s) succeeds without the stored results it needs'
                                   % (k, ' '.join(op['args'])))
            if ds:
                std = key
            if db:
                # the starting point is the stored standard result, whatever its regularisation
                bay = key if std is not None and std[0] == data else None
            for s, made in (('standard', std), ('bayes', bay)):
                if made is None:
                    continue
                got = base.read(ctx, w, s, 'n0')
                if got is None:
                    return
                ref = self.reference(ctx, plan, w, env, refs, made, data)
                if ref is None:
                    continue
                d = envs.diff(got, ref[s])
                if d:
                    return ctx.violate('stale', "after command %d (%s), the '%s' results differ from those of one complete "
                                       "identification with their configuration: %s" % (k, ' '.join(op['args']), s, d))
        ctx.state(hist)

    def reference(self, ctx, plan, w, env, refs, made, data):
        if made not in refs:
            if made[0] != data:
                return None
            r = ctx.world(plan['seed'] + 10 + len(refs))
            envs.prepare(r, env)
            shutil.copyfile(envs.out_path(w, 'final', 'n0'), envs.out_path(r, 'final', 'n0'))
            p = base.call(r, env, {'cmd': 'identify', 'args': list(made[2]), 'conf': dict(made[1])})
            refs[made] = {s: envs.load(r, s, 'n0') for s in ('standard', 'bayes')} if p.ok else None
        return refs[made]


def raw(w, kind):
    try:
        with open(envs.out_path(w, kind, 'n0'), 'rb') as f:
            return f.read()
    except OSError:
        return None


CHECK = C04()
