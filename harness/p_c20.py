"""C20: cylindrical input and output of the static magnetic sources."""
import numpy as np
from gen import logu, location, strength, orientation
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (source, orientation, placement, region of (rho, phi, z), form of the points, quantity) enumerated by TLC; dipole and pole against the law in cylindrical components, the loop against its Cartesian answer resolved on the local frame'
METH = dict(A='vector_potential', B='magnetic_flux_density', H='magnetic_field')


def cpoints(rng, region, n):
    r, ph, z = logu(rng, -1, 1, n), rng.uniform(-np.pi, np.pi, n), rng.normal(size=n) * 3
    if region == 'turns':
        ph = ph + 2 * np.pi * rng.integers(-3, 4, n)
    elif region == 'quarters':
        ph = np.pi / 2 * rng.integers(-4, 5, n)
    elif region == 'tinyrho':
        r = logu(rng, -12, -5, n)
    elif region == 'largerho':
        r = logu(rng, 2, 4, n)
    elif region.startswith('zaxis'):
        r = np.zeros(n)
        if region == 'zaxis0':
            ph = np.zeros(n)
    return np.stack([r, ph, z], 1)


def frame(cyl, car, ph):
    try:
        g, c = cyl(), car()
        best, err = ph.copy(), np.full(len(ph), np.inf)
        for a in (ph, 0 * ph, 0 * ph + np.pi):
            e = np.abs(g[:, 0] - c[:, 0] * np.cos(a) - c[:, 1] * np.sin(a)) + np.abs(g[:, 1] + c[:, 0] * np.sin(a) - c[:, 1] * np.cos(a))
            best, err = np.where(e < err, a, best), np.minimum(e, err)
        return best
    except Exception:
        return ph


def run(ctx):
    from geoana.em import static
    m = ctx.model('MC_Cylindrical')
    laws = Laws(m['terms'])
    cls = dict(Dipole=static.MagneticDipoleWholeSpace, Pole=static.MagneticPoleWholeSpace, Loop=static.CircularLoopWholeSpace)
    for cfg, rules in m['cases']:
        for rep in range(12 if ctx.tier == 'thorough' else 1):
            rng = ctx.rng(sorted(cfg.items()), rep)
            named = cfg['form'] in ('name', 'case')
            loc = np.asarray(location(rng, 'offset' if named else cfg['loc'], 1.0), float)
            if cfg['loc'] == 'axis':
                loc = np.array([0, 0, rng.normal() * 2])
            oarg, o = orientation(rng, 'generic' if named else cfg['orient'])
            q, mu = strength(rng, rng.choice(['pos', 'neg'])), float(4e-7 * np.pi * logu(rng, -1, 2))
            n = 1 if cfg['form'] == 'one' else 8
            p = cpoints(rng, 'generic' if named else cfg['region'], n)
            shape = dict(grid=(2, 4), one=()).get(cfg['form'], (n,))
            arg = p.reshape(shape + (3,)).copy()
            if cfg['form'] == 'tuple':
                arg = tuple(p.T.copy())
            elif cfg['form'] == 'list':
                arg = p.tolist()
            kw = dict(location=loc, orientation=oarg, mu=mu)
            if cfg['src'] == 'Loop':
                a = float(logu(rng, -.7, .7))
                kw.update(current=q, radius=a)
            else:
                kw.update(moment=q)
            desc = dict(cfg=cfg, params={k: str(v) for k, v in kw.items()}, points=p.tolist())
            cart = np.stack([p[:, 0] * np.cos(p[:, 1]), p[:, 0] * np.sin(p[:, 1]), p[:, 2]], 1)
            for qty, rule in rules.items():
                if cfg['form'] == 'name':
                    out = 'ok'
                    try:
                        getattr(cls[cfg['src']](**kw), METH[qty])(arg, coordinates=cfg['orient'])
                    except Exception as ex:
                        out = type(ex).__name__
                    ctx.evals += 1
                    ctx.event(desc, cfg=cfg, qty=qty, out=out, shape=True, d=999, c=0)
                    continue
                name = cfg['orient'] if cfg['form'] == 'case' else 'cylindrical'

                def call():
                    r = np.asarray(getattr(cls[cfg['src']](**kw), METH[qty])(arg, coordinates=name))
                    return r.reshape(n, 3) if r.shape == shape + (3,) else r[None, None]
                env = dict(r=p[:, 0], ph=p[:, 1], zz=p[:, 2])
                if name.lower() == 'cartesian':
                    env = dict(r=0 * p[:, 0], ph=0 * p[:, 0], zz=0 * p[:, 0])
                if cfg['region'] == 'zaxis':
                    # on the axis the frame is a matter of convention: the given angle, or the one of the Cartesian point (0 or pi, by the sign of zero)
                    env['ph'] = frame(call, lambda: np.asarray(getattr(cls[cfg['src']](**kw), METH[qty])(cart)), p[:, 1])
                if cfg['src'] == 'Loop' or cfg['form'] == 'case':
                    try:
                        c = np.asarray(getattr(cls[cfg['src']](**kw), METH[qty])(p if name.lower() == 'cartesian' else cart))
                    except Exception:
                        c = np.full((n, 3), np.nan)
                    if c.shape != (n, 3):
                        c = np.full((n, 3), np.nan)
                    law = laws['same']
                    env.update({'v%d' % (k + 1): c[:, k] for k in range(3)})
                else:
                    law = laws[cfg['src'], qty]
                    env.update(m=q, mu=mu, **{'c' + k: float(v) for k, v in zip('xyz', loc)}, **{'o' + k: float(v) for k, v in zip('xyz', o)})
                lawrun.check(ctx, cfg, qty, call, [(slice(None), law)], env, desc, rule=rule, pts=())
    return ctx.validate('TR_Cylindrical')
