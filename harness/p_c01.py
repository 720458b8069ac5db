"""C01: gravity."""
import numpy as np
from scipy.constants import G
from gen import asked, logu, unit, location, strength, around
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = ('one case per (body, strength, placement, region) configuration enumerated by TLC, instantiated with seeded '
        'sizes over 5 decades; non-trivial: a finite law value at a point of the stated region')


def sphere_points(rng, c, R, region, n):
    c = np.asarray(c, float)
    if region == 'inside':
        return c + unit(rng, n) * R * rng.uniform(0.02, 0.97, (n, 1))
    if region == 'outside':
        return c + unit(rng, n) * R * (1 + logu(rng, -1.5, 1, (n, 1)))
    if region == 'centre':
        d = unit(rng, n) * R * logu(rng, -9, -4, (n, 1))
        d[0] = 0
        return c + d
    if region == 'justinside':
        return c + unit(rng, n) * R * (1 - logu(rng, -6, -3, (n, 1)))
    if region == 'justoutside':
        return c + unit(rng, n) * R * (1 + logu(rng, -6, -3, (n, 1)))
    if region == 'surface':
        p = c + unit(rng, n) * R
        p[0] = c + [R, 0, 0]
        p[1] = c - [0, R, 0]
        p[2] = c + [0, 0, R]
        return p
    if region == 'far':
        return c + unit(rng, n) * R * logu(rng, 2, 4, (n, 1))
    if region == 'axis':
        d = np.zeros((n, 3))
        d[np.arange(n), rng.integers(3, size=n)] = rng.choice([-1, 1], n) * R * np.where(
            rng.random(n) < .5, rng.uniform(0.01, 0.98, n), 1.02 + logu(rng, -1, 1, n))
        return c + d


def box(rng, kind):
    L = logu(rng, -2, 4)
    if kind == 'cube':
        h = np.full(3, L)
        c = np.zeros(3)
    elif kind == 'slab':
        h = L * np.ones(3)
        h[rng.integers(3)] *= 0.02
        c = rng.uniform(-2, 2, 3) * L
    elif kind == 'needle':
        h = 0.03 * L * np.ones(3)
        h[rng.integers(3)] = L
        c = rng.uniform(-2, 2, 3) * L
    elif kind == 'octant':
        h = L * rng.uniform(0.3, 1, 3)
        c = h * rng.uniform(1.0, 2, 3) * rng.choice([-1, 1], 3)
    elif kind == 'far':
        h = L * rng.uniform(0.3, 1, 3)
        c = rng.uniform(-1, 1, 3) * L * 1e3
    elif kind == 'int':
        a = rng.integers(-5, 5, 3)
        b = a + rng.integers(1, 6, 3)
        return [int(v) for v in a], [int(v) for v in b]
    return c - h / 2, c + h / 2


def box_points(rng, lo, hi, region, n):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    c, h = (lo + hi) / 2, (hi - lo)
    L = np.max(h)
    idx = np.arange(n)

    def out(m):
        # beyond the box in at least one coordinate
        p = c + rng.uniform(-1.5, 1.5, (m, 3)) * np.maximum(h, 0.1 * L)
        k = rng.integers(3, size=m)
        s = rng.choice([-1, 1], m)
        p[np.arange(m), k] = (c + s[:, None] * (h / 2 * (1 + logu(rng, -1, 0.7, (m, 1))) + 0.02 * L))[np.arange(m), k]
        return p
    if region == 'outside':
        return out(n)
    if region == 'inside':
        p = c + rng.uniform(-0.49, 0.49, (n, 3)) * h
        p[::5] = c                               # at the centre, and very near it
        p[1::5] = c + rng.uniform(-0.49, 0.49, (len(p[1::5]), 3)) * h * logu(rng, -9, -1, (len(p[1::5]), 1))
        return p
    if region in ('above', 'below'):
        p = c + rng.uniform(-0.49, 0.49, (n, 3)) * h
        d = logu(rng, -2, 1, n) * L
        p[:, 2] = hi[2] + d if region == 'above' else lo[2] - d
        return p
    if region == 'faceplane':
        p = out(n)
        k = rng.integers(3, size=n)
        # put another coordinate out of the box, then this one on a face plane
        k2 = (k + rng.integers(1, 3, n)) % 3
        s = rng.choice([-1, 1], n)
        p[idx, k2] = (c + s[:, None] * (h * 0.5 + logu(rng, -1.5, 0.7, (n, 1)) * L))[idx, k2]
        p[idx, k] = np.where(rng.random(n) < .5, lo[k], hi[k])
        return p
    if region == 'edgeline':
        p = np.where(rng.random((n, 3)) < .5, lo, hi)
        k = rng.integers(3, size=n)
        s = rng.choice([-1, 1], n)
        p[idx, k] = (c + s[:, None] * (h * 0.5 + logu(rng, -1.5, 0.7, (n, 1)) * L))[idx, k]
        return p
    if region == 'axis':
        p = out(n)
        k = rng.integers(3, size=n)
        p[idx, k] = c[k]
        two = rng.random(n) < .5
        # keep the coordinate that is outside
        o = np.argmax(np.abs(p - c) / h, axis=1)
        q = p.copy()
        q[:] = c
        q[idx, o] = p[idx, o]
        return np.where(two[:, None], q, p)
    if region == 'near':
        # close to a face, an edge line or a corner, but off it
        p = c + rng.uniform(-0.5, 0.5, (n, 3)) * h
        m = rng.integers(1, 4, n)
        perm = np.argsort(rng.random((n, 3)), axis=1)
        for j in range(n):
            for k in perm[j, :m[j]]:
                p[j, k] = (lo if rng.random() < .5 else hi)[k] + rng.choice([-1, 1]) * logu(rng, -7, -3) * L
        return p
    if region == 'surface':
        p = c + rng.uniform(-0.5, 0.5, (n, 3)) * h
        m = rng.integers(1, 4, n)
        perm = np.argsort(rng.random((n, 3)), axis=1)
        for j in range(n):
            for k in perm[j, :m[j]]:
                p[j, k] = lo[k] if rng.random() < .5 else hi[k]
        return p
    if region == 'far':
        return c + unit(rng, n) * L * logu(rng, 0.7, 2.8, (n, 1))


METH = dict(U='gravitational_potential', g='gravitational_field', T='gravitational_gradient')


def run(ctx):
    from geoana import gravity
    m = ctx.model('MC_Gravity')
    laws = Laws(m['terms'])
    n = 24 if ctx.tier == 'quick' else 120
    for rep in range(1 if ctx.tier == 'quick' else 8):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            q = strength(rng, cfg['strength'])
            env = dict(G=G)
            if src == 'Prism':
                lo, hi = box(rng, cfg['loc'])
                pts = box_points(rng, lo, hi, reg, n)
                make = lambda: gravity.Prism(lo, hi, rho=q)
                env.update(rho=q, **{k + '1': float(a) for k, a in zip('xyz', lo)},
                           **{k + '2': float(a) for k, a in zip('xyz', hi)})
                law = lambda qty: laws['Prism', qty]
                mass = laws['PrismMass', 'm']
                desc = dict(min=list(map(float, lo)), max=list(map(float, hi)), rho=q)
            else:
                L = logu(rng, -2, 4)
                loc = location(rng, cfg['loc'], L)
                env.update({'c' + k: float(a) for k, a in zip('xyz', loc)})
                if src == 'PointMass':
                    make = lambda: gravity.PointMass(mass=q, location=loc)
                    pts = around(rng, loc, L, reg, n)
                    env.update(m=q)
                    law = lambda qty: laws['PointMass', qty]
                    mass = laws['PointMassMass', 'm']
                else:
                    R = 2.0 ** np.round(np.log2(L)) if reg == 'surface' else L
                    make = lambda: gravity.Sphere(radius=R, rho=q, location=loc)
                    pts = sphere_points(rng, loc, R, reg, n)
                    env.update(rho=q, R=R)
                    inside = np.linalg.norm(pts - np.asarray(loc, float), axis=1) < R
                    law = None
                    mass = laws['SphereMass', 'm']
                    desc = None
                desc = dict(loc=list(map(float, loc)), strength=q, L=L)
            env.update(x=pts[:, 0], y=pts[:, 1], z=pts[:, 2])
            scale = L if src != 'Prism' else float(np.max(np.asarray(hi, float) - np.asarray(lo, float)))
            for qty in sorted(rules):
                if qty == 'm':
                    continue
                call = lambda: asked(getattr(make(), METH[qty]), pts)
                if law is not None:
                    lawrun.check(ctx, cfg, qty, call, [(slice(None), law(qty))], env, desc, scale=scale, rule=rules[qty])
                else:
                    lawrun.check(ctx, cfg, qty, call, [(inside, laws['SphereIn', qty]), (~inside, laws['SphereOut', qty])],
                                 env, desc, scale=scale, rule=rules[qty])
            def masses():
                o = make()
                if src != 'Sphere':
                    return np.array([o.mass])
                p = gravity.Sphere(radius=R, rho=-2.5 if q > 0 else 2.5, location=loc)
                p.mass = o.mass                          # given by its mass instead
                return np.array([o.mass, p.mass, gravity.Sphere(radius=R, rho=p.rho).mass])
            lawrun.check(ctx, cfg, 'm', masses, [(slice(None), mass)],
                         {k: np.full(3 if src == 'Sphere' else 1, v) for k, v in env.items() if np.ndim(v) == 0}, desc)
    return ctx.validate('TR_Gravity')
