"""C08: plane waves."""
import numpy as np
from gen import asked, logu, strength
from terms import Laws
from p_c06 import medium, samples, spread
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (wave, quasistatic, sample form, polarisation, depth region, medium, amplitude, quantity) enumerated by TLC'
METH = dict(E='electric_field', J='current_density', H='magnetic_field', B='magnetic_flux_density')


def polarisation(rng, kind):
    if kind in 'XYxy':
        v = np.zeros(3)
        v['xy'.index(kind.lower())] = 1
        return kind, v
    if kind == 'neg':
        v = np.zeros(3)
        v[rng.integers(2)] = -1.0
        return v.copy(), v
    if kind == 'int':
        w = [int(rng.integers(1, 5)) * int(rng.choice([-1, 1])), int(rng.integers(-4, 5)), 0]
        return w, np.array(w, float) / np.linalg.norm(w)
    w = np.append(rng.normal(size=2), 0.0)
    u = w / np.linalg.norm(w)
    return (u.copy() if kind == 'generic' else u * logu(rng, -3, 3)), u


def run(ctx):
    from geoana.em import fdem, tdem
    m = ctx.model('MC_PlaneWave')
    laws = Laws(m['terms'])
    n = 6 if ctx.tier == 'quick' else 30
    for rep in range(1 if ctx.tier == 'quick' else 12):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            sig, mu, eps = medium(rng, cfg['medium'])
            har = src == 'Harmonic'
            arg, sm, scalar = samples(rng, cfg['samp'], *((-2, 8) if har else (-8, 0)), n)
            e_eff = 0.0 if cfg['qs'] == 'quasi' else eps
            if har:
                w = 2 * np.pi * sm.max()
                L = 1 / abs(np.sqrt(complex(w * w * mu * e_eff, -w * mu * sig)))
            else:
                L = np.sqrt(4 * sm.min() / (mu * sig))
            z = dict(generic=-logu(rng, -1, 0.7, n), datum=np.zeros(n), shallow=-logu(rng, -7, -2, n), deep=-(logu(rng, 0.6, 2.5, n) if har else rng.uniform(4, 20, n)),
                     above=logu(rng, -2, 0.5, n), grid=-np.arange(n) * 0.5)[reg] * L
            pts = np.c_[rng.normal(size=(n, 2)) * L * 10, z]
            parg, o = polarisation(rng, cfg['orient'])
            kw = dict(sigma=sig, mu=mu)
            if cfg['amp'] != 'default':
                kw['amplitude'] = strength(rng, cfg['amp'])
            e0 = kw.get('amplitude', 1.0)
            if cfg['orient'] != 'X' or rng.random() < .5:
                kw['orientation'] = parg
            if har:
                kw['epsilon'] = eps
                kw['quasistatic'] = cfg['qs'] == 'quasi'
                make = lambda: fdem.HarmonicPlaneWave(frequency=arg, **kw)
            else:
                make = lambda: tdem.TransientPlaneWave(time=arg, **kw)
            env, s, post = spread(sm, scalar, pts, (3,))
            env.update(e0=float(e0), sig=sig, mu=mu, eps=e_eff, ox=o[0], oy=o[1], **({'f': s} if har else {'t': s}))
            desc = dict(sample=str(arg), amplitude=e0, orientation=str(parg), sigma=sig, mu=mu, epsilon=eps)
            for qty in sorted(rules):
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), METH[qty]), pts), [(slice(None), laws[src, qty])], env,
                             desc, scale=L, rule=rules[qty], post=post)
    return ctx.validate('TR_PlaneWave')
