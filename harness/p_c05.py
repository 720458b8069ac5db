"""C05: the magnetised prism."""
import numpy as np
from scipy.constants import mu_0
from gen import asked, logu, unit
from p_c01 import box, box_points
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (box, magnetisation, region, quantity) enumerated by TLC, seeded values'


def magnetization(rng, kind):
    if kind in ('x', 'y', 'z'):
        v = np.zeros(3)
        v['xyz'.index(kind)] = logu(rng, -5, 6)
        return v
    if kind == 'neg':
        return -logu(rng, -2, 2, 3)
    if kind == 'generic':
        return rng.normal(size=3) * logu(rng, -6, 6)
    if kind == 'int':
        return [int(v) for v in rng.integers(-5, 6, 3)]
    if kind == 'zero':
        return np.zeros(3)


METH = dict(phi='scalar_potential', H='magnetic_field', B='magnetic_flux_density', dH='magnetic_field_gradient')


def run(ctx):
    from geoana.em import static
    m = ctx.model('MC_MagPrism')
    laws = Laws(m['terms'])
    n = 12 if ctx.tier == 'quick' else 60
    for rep in range(1 if ctx.tier == 'quick' else 8):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            reg = cfg['region']
            lo, hi = box(rng, cfg['box'])
            pts = box_points(rng, lo, hi, reg, n)
            if cfg['mag'] == 'default':
                M = [0.0, 0.0, 1.0]
                make = lambda: static.MagneticPrism(lo, hi)
            else:
                M = magnetization(rng, cfg['mag'])
                make = lambda: static.MagneticPrism(lo, hi, magnetization=M)
            env = dict(mu0=mu_0, x=pts[:, 0], y=pts[:, 1], z=pts[:, 2],
                       **{'m' + k: np.full(n, float(v)) for k, v in zip('xyz', M)})
            for j, (a, b) in zip('xyz', zip(lo, hi)):
                env[j + '1'], env[j + '2'] = float(a), float(b)
            inside = np.all((pts >= np.asarray(lo)) & (pts <= np.asarray(hi)), axis=1)
            desc = dict(min=str(lo), max=str(hi), M=str(M))
            scale = float(np.max(np.asarray(hi, float) - np.asarray(lo, float)))
            for qty in sorted(rules):
                if qty == 'moment':
                    env1 = {k: (np.asarray(v)[:1] if np.ndim(v) else v) for k, v in env.items()}
                    lawrun.check(ctx, cfg, qty, lambda: np.asarray(make().moment)[None], [(slice(None), laws['moment'])],
                                 env1, desc, rule=rules[qty])
                    continue
                if qty == 'B':
                    parts = [(inside, laws['Bin']), (~inside, laws['Bout'])]
                else:
                    parts = [(slice(None), laws[qty])]
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), METH[qty]), pts), parts, env, desc, scale=scale,
                             rule=rules[qty], maxmp=30)
    return ctx.validate('TR_MagPrism')
