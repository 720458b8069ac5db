"""C06: harmonic dipoles in a whole space."""
import numpy as np
from scipy.constants import mu_0, epsilon_0
from gen import asked, logu, unit, location, strength, around, orientation
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (source, quasistatic, frequency form, orientation, placement, region, medium, quantity) enumerated by TLC'
METH = dict(A='vector_potential', E='electric_field', J='current_density', H='magnetic_field', B='magnetic_flux_density')


def medium(rng, kind):
    sig, mu, eps = float(logu(rng, -4, 1)), mu_0, epsilon_0
    if kind == 'resistive':
        sig = float(logu(rng, -8, -5))
    elif kind == 'conductive':
        sig = float(logu(rng, 1, 7))
    elif kind == 'magnetic':
        mu = mu_0 * float(logu(rng, -1, 2))
    elif kind == 'dielectric':
        eps = epsilon_0 * float(logu(rng, 0.3, 2))
    elif kind == 'noeps':
        eps = 0.0
    return sig, mu, eps


def samples(rng, kind, lo, hi, n_obs):
    """(argument, list of values) for a frequency or time"""
    if kind == 'zero':
        return 0.0, np.array([0.0]), True
    if kind == 'scalar':
        v = float(logu(rng, lo, hi))
        return v, np.array([v]), True
    if kind == 'int':
        v = int(rng.integers(1, 900))
        return v, np.array([float(v)]), True
    if kind == 'one':
        v = logu(rng, lo, hi, 1)
        return v, v.copy(), False
    k = n_obs if kind == 'square' else int(rng.integers(2, 5))
    v = logu(rng, lo, hi) * logu(rng, 0, 1.3, k)
    return (list(map(float, v)) if kind == 'list' else v), v.copy(), False


def spread(samp, scalar, pts, tail):
    """environment entries and a reshape for (samples, points) results"""
    n, k = len(pts), len(samp)
    env = dict(x=np.tile(pts[:, 0], k), y=np.tile(pts[:, 1], k), z=np.tile(pts[:, 2], k))
    s = np.repeat(samp, n)

    def post(g):
        g = np.asarray(g)
        want = (n,) + tail if scalar else (k, n) + tail
        if g.shape != want:
            return np.zeros((0,) + g.shape)          # wrong layout
        return g.reshape((k * n,) + tail)
    return env, s, post


def run(ctx):
    from geoana.em import fdem
    m = ctx.model('MC_Harmonic')
    laws = Laws(m['terms'])
    n = 8 if ctx.tier == 'quick' else 40
    for rep in range(1 if ctx.tier == 'quick' else 12):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            sig, mu, eps = medium(rng, cfg['medium'])
            arg, fr, scalar = samples(rng, cfg['freq'], -2, 9 if rng.random() < .3 else 5, n)
            w = 2 * np.pi * max(fr.max(), 1e-3)
            e_eff = 0.0 if cfg['qs'] == 'quasi' else eps
            L = 1.0 / abs(np.sqrt(complex(w * w * mu * e_eff, -w * mu * sig)))
            L = float(np.clip(L, 1e-6, 1e6))
            if cfg['loc'] == 'int':
                L = max(L, 0.1)
            loc = location(rng, cfg['loc'], L)
            oarg, o = orientation(rng, cfg['orient'])
            if reg == 'far':
                pts = np.asarray(loc, float) + unit(rng, n) * L * logu(rng, 0.7, 2.4, (n, 1))
            else:
                pts = around(rng, loc, L if reg in ('generic', 'near') else L / 5, reg, n, axis=o)
            kind = rng.choice(['pos', 'neg', 'int', 'zero'], p=[.5, .3, .15, .05])
            amp = strength(rng, kind)
            kw = dict(location=loc, orientation=oarg, sigma=sig, mu=mu, epsilon=eps)
            if cfg['qs'] == 'quasi':
                kw['quasistatic'] = True
            elif rng.random() < .5:
                kw['quasistatic'] = False
            if src == 'Electric':
                ln = float(logu(rng, -2, 2))
                p = amp * ln
                make = lambda: fdem.ElectricDipoleWholeSpace(arg, current=amp, length=ln, **kw)
            else:
                p = float(amp)
                make = lambda: fdem.MagneticDipoleWholeSpace(arg, moment=amp, **kw)
            env, f, post = spread(fr, scalar, pts, (3,))
            env.update(f=f, p=p, sig=sig, mu=mu, eps=e_eff, **{'c' + k: float(v) for k, v in zip('xyz', loc)},
                       **{'o' + k: float(v) for k, v in zip('xyz', o)})
            desc = dict(frequency=str(arg), strength=p, location=str(loc), orientation=str(oarg), sigma=sig, mu=mu, epsilon=eps)
            for qty in sorted(rules):
                dev = laws[src, qty + 'dev'] if src == 'Electric' and qty in 'EJ' else None
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), METH[qty]), pts), [(slice(None), laws[src, qty])], env,
                             desc, scale=L, rule=rules[qty], post=post, dev=dev)
    return ctx.validate('TR_Harmonic')
