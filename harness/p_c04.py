"""C04: spheres in a uniform field."""
import numpy as np
from scipy.constants import epsilon_0
from gen import asked, logu, unit, location
from p_c01 import sphere_points
from terms import Laws
import lawrun
from core import agree

LEVEL = 'model_checking'
RULE = 'one case per (sphere, contrast, primary field, placement, region, quantity) enumerated by TLC, seeded values'


def primary(rng, kind):
    if kind in 'xyz':
        v = np.zeros(3)
        v['xyz'.index(kind)] = logu(rng, -2, 3)
        return v
    if kind == 'neg':
        return -logu(rng, -2, 2, 3) * rng.integers(0, 2, 3) - np.array([1e-3, 0, 0])
    if kind == 'generic':
        return rng.normal(size=3) * logu(rng, -2, 4)
    if kind == 'int':
        return [int(v) for v in rng.integers(-5, 6, 3)]
    return np.zeros(3)


def run(ctx):
    from geoana.em import static
    m = ctx.model('MC_Spheres')
    laws = Laws(m['terms'])
    n = 12 if ctx.tier == 'quick' else 80
    for rep in range(1 if ctx.tier == 'quick' else 8):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            R = logu(rng, -2, 4) if cfg['loc'] != 'int' else float(rng.integers(1, 9))
            loc = location(rng, cfg['loc'], R)
            F = primary(rng, cfg['primary'])
            s0 = float(logu(rng, -8, 2))
            s1 = s0 * float(dict(more=logu(rng, 0.05, 2), less=logu(rng, -2, -0.05), equal=1.0, huge=logu(rng, 4, 9),
                                 tiny=logu(rng, -9, -4))[cfg['contrast']])
            pts = sphere_points(rng, loc, R, reg, n)
            r = np.linalg.norm(pts - np.asarray(loc, float), axis=1)
            inside = r <= R
            env = dict(R=R, s0=s0, s1=s1, eps0=epsilon_0, **{'c' + k: float(v) for k, v in zip('xyz', loc)},
                       **{'f' + k: np.full(n, float(v)) for k, v in zip('xyz', F)},
                       x=pts[:, 0], y=pts[:, 1], z=pts[:, 2])
            desc = dict(R=R, location=str(loc), F=str(F), s0=s0, s1=s1)
            if src == 'Electrostatic':
                make = lambda: static.ElectrostaticSphere(R, s1, s0, primary_field=F, location=loc)
                meth = dict(V='potential', F='electric_field', D='current_density')
            else:
                make = lambda: static.MagnetostaticSphere(R, s1, s0, primary_field=F, location=loc)
                meth = dict(V='potential', F='magnetic_field', D='magnetic_flux_density')
            for qty in sorted(rules):
                if qty == 'charge':
                    default = rng.random() < .5          # the default width is 5 % of the radius
                    dr = R * 0.05 if default else R * float(logu(rng, -3, .3))
                    if not default and rng.random() < .1:
                        dr = 0.0                         # an empty shell
                    w = (dr or .05 * R) * rng.uniform(-1.5, 1.5, n // 2)
                    u = unit(rng, n // 2)
                    qp = np.concatenate([np.asarray(loc, float) + u * (R + w)[:, None], pts[n // 2:]])
                    r = np.linalg.norm(qp - np.asarray(loc, float), axis=1)
                    cenv = dict(env, x=qp[:, 0], y=qp[:, 1], z=qp[:, 2])
                    shell = np.abs(r - R) < 0.49 * dr
                    far = np.abs(r - R) > 0.51 * dr
                    use = shell | far
                    got = lambda: asked(make().charge_density, qp) if default else asked(lambda p: make().charge_density(p, dr=dr), qp)
                    # outside the shell the density is reported as zero
                    def post(v):
                        v = np.asarray(v)
                        if v.shape != (n,):
                            return v
                        out = v.copy()
                        ref = laws['charge'].np(cenv)[0]
                        k = ~shell
                        out[k & far] = np.where(v[k & far] == 0, ref[k & far], np.nan)
                        out[~use] = ref[~use]
                        return out
                    lawrun.check(ctx, cfg, qty, got, [(slice(None), laws['charge'])], cenv, dict(desc, dr=dr), scale=R, rule=rules[qty],
                                 post=post)
                    continue
                name, fld = meth[qty[0]], dict(t='total', p='primary', s='secondary')[qty[1]]
                pos = 'tps'.index(qty[1])

                def call():
                    o = make()
                    a = asked(lambda p: getattr(o, name)(p, field=fld), pts)
                    b = getattr(o, name)(pts)[pos] if rng.random() < .5 else getattr(o, name)(pts, field='all')[pos]
                    ref = np.max(np.abs(np.asarray(getattr(o, name)(pts, field='total'))), initial=0) \
                        + np.max(np.abs(np.asarray(getattr(o, name)(pts, field='primary'))), initial=0)
                    if np.shape(a) != np.shape(b) or agree(a, b, scale=ref) < 100:
                        raise AssertionError('field=%r differs from the entry of field="all"' % fld)
                    return a
                lawrun.check(ctx, cfg, qty, call, [(inside, laws['in', qty]), (~inside, laws['out', qty])], env, desc,
                             scale=R, rule=rules[qty])
    return ctx.validate('TR_Spheres')
