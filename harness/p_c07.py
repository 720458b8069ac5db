"""C07: transient electric dipole in a whole space."""
import numpy as np
from gen import asked, logu, unit, location, strength, around, orientation
from terms import Laws
from p_c06 import medium, samples, spread
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (time form, orientation, placement, region, medium, quantity) enumerated by TLC'
METH = dict(A='vector_potential', E='electric_field', J='current_density', H='magnetic_field', B='magnetic_flux_density',
            dH='magnetic_field_time_deriv', dB='magnetic_flux_density_time_deriv')


def run(ctx):
    from geoana.em import tdem
    m = ctx.model('MC_Transient')
    laws = Laws(m['terms'])
    n = 8 if ctx.tier == 'quick' else 40
    for rep in range(1 if ctx.tier == 'quick' else 12):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            reg = cfg['region']
            sig, mu, eps = medium(rng, cfg['medium'])
            arg, ts, scalar = samples(rng, cfg['time'], -8, 0, n)
            L = float(np.sqrt(4 * ts.max() / (mu * sig)))      # 1/theta at the latest time
            if reg == 'early':
                L *= rng.uniform(1.5, 3)
            elif reg == 'late':
                L *= logu(rng, -6, -1)
            loc = location(rng, cfg['loc'], L)
            oarg, o = orientation(rng, cfg['orient'])
            if reg in ('early', 'late'):
                pts = np.asarray(loc, float) + unit(rng, n) * L * rng.uniform(0.8, 2, (n, 1))
            elif reg == 'generic':
                pts = np.asarray(loc, float) + unit(rng, n) * L * logu(rng, -1, 0.5, (n, 1))
            else:
                pts = around(rng, loc, L / 20, reg, n, axis=o)
            amp = strength(rng, rng.choice(['pos', 'neg', 'int', 'zero'], p=[.5, .3, .15, .05]))
            ln = float(logu(rng, -2, 2))
            make = lambda: tdem.ElectricDipoleWholeSpace(arg, current=amp, length=ln, location=loc, orientation=oarg,
                                                         sigma=sig, mu=mu)
            env, t, post = spread(ts, scalar, pts, (3,))
            env.update(t=t, p=amp * ln, sig=sig, mu=mu, **{'c' + k: float(v) for k, v in zip('xyz', loc)},
                       **{'o' + k: float(v) for k, v in zip('xyz', o)})
            desc = dict(time=str(arg), strength=amp * ln, location=str(loc), orientation=str(oarg), sigma=sig, mu=mu)
            for qty in sorted(rules):
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), METH[qty]), pts), [(slice(None), laws[qty])], env,
                             desc, scale=L, rule=rules[qty], post=post)
    return ctx.validate('TR_Transient')
