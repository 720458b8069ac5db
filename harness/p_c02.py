"""C02: static magnetic sources."""
import numpy as np
from gen import asked, logu, unit, location, strength, around, orientation
from terms import Laws, EPS
import lawrun

LEVEL = 'model_checking'
RULE = ('one case per (source, orientation, placement, region, quantity) enumerated by TLC, instantiated with seeded '
        'sizes, strengths of either sign and permeabilities')
METH = dict(A='vector_potential', B='magnetic_flux_density', H='magnetic_field')


def loop_points(rng, c, o, a, region, n):
    c = np.asarray(c, float)
    z = rng.choice([-1, 1], n) * logu(rng, -2, 1, n) * a
    v = unit(rng, n)
    v -= (v @ o)[:, None] * o
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    if region == 'generic':
        p = unit(rng, n) * logu(rng, -0.7, 0.9, (n, 1)) * a
        return c + p
    if region == 'oaxis':
        z[0] = 0
        return c + z[:, None] * o
    if region == 'nearaxis':
        rho = np.sqrt(a * a + z * z) * logu(rng, -9, -3.05, n)
    elif region == 'midaxis':
        rho = np.sqrt(a * a + z * z) * logu(rng, -3.3, -1.8, n)
    elif region == 'paraxis':
        rho = np.sqrt(a * a + z * z) * logu(rng, -2, -0.6, n)
    elif region == 'inplane':
        z[:] = 0
        rho = np.where(rng.random(n) < .5, a * rng.uniform(0.05, 0.95, n), a * (1.05 + logu(rng, -1, 1, n)))
    elif region == 'oplane':
        z = rng.choice([-1, 1], n) * logu(rng, -9, -3, n) * a
        rho = np.where(rng.random(n) < .5, a * rng.uniform(0.05, 0.95, n), a * (1.05 + logu(rng, -1, 1, n)))
    elif region == 'nearwire':
        t = rng.uniform(0, 2 * np.pi, n)
        e = logu(rng, -5, -1.2, n) * a
        rho, z = a + e * np.cos(t), e * np.sin(t)
    elif region == 'far':
        return c + unit(rng, n) * logu(rng, 1, 3, (n, 1)) * a
    return c + z[:, None] * o + rho[:, None] * v


def polyline(rng, kind, lockind, L):
    c = np.asarray(location(rng, lockind, L), float)
    n = dict(n1=1, n2=2, n3=3, n4=4, closed3=3, n9=9, closed4=4, closed9=9, axisaligned=3, almostaligned=3, repeated=3)[kind]
    if lockind == 'int':
        while True:
            p = c + rng.integers(-6, 7, (n + 1, 3))
            if kind.startswith('closed'):
                p[-1] = p[0]
            if (np.abs(np.diff(p, axis=0)).sum(1) > 0).all():
                break
    elif kind in ('axisaligned', 'almostaligned'):
        k = rng.permutation(3)
        p = np.zeros((4, 3))
        for j in range(3):
            p[j + 1] = p[j]
            p[j + 1, k[j]] += rng.choice([-1, 1]) * L * logu(rng, -1, 0.5)
            if kind == 'almostaligned':
                p[j + 1] += rng.normal(size=3) * np.linalg.norm(p[j + 1] - p[j]) * logu(rng, -8, -2)
        p = p + c
        if rng.random() < .4:
            p = p[:2]
    else:
        p = c + rng.normal(size=(n + 1, 3)) * L
        if n > 1 and rng.random() < .4:          # one much shorter segment
            j = rng.integers(1, n)
            p[j] = p[j - 1] + unit(rng, 1)[0] * L * logu(rng, -5, -1)
    if kind.startswith('closed'):
        p[-1] = p[0]
    return p


def line_points(rng, nodes, L, region, n):
    j = rng.integers(len(nodes) - 1, size=n)
    p0, p1 = nodes[j], nodes[j + 1]
    l = p1 - p0
    ll = np.linalg.norm(l, axis=1, keepdims=True)
    lh = l / ll
    v = unit(rng, n)
    v -= (v * lh).sum(1, keepdims=True) * lh
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    cm = nodes.mean(0)
    if region == 'generic':
        return cm + unit(rng, n) * logu(rng, -0.5, 0.9, (n, 1)) * L
    if region == 'far':
        return cm + unit(rng, n) * logu(rng, 1.3, 3, (n, 1)) * L
    if region == 'plane':
        return np.where(np.arange(3) == rng.integers(3, size=n)[:, None], p0, cm + unit(rng, n) * logu(rng, -0.5, 0.9, (n, 1)) * L)
    if region == 'near':
        return p0 + rng.uniform(0.05, 0.95, (n, 1)) * l + v * logu(rng, -5, -1, (n, 1)) * ll
    s = logu(rng, -1.5, 1, (n, 1)) * ll
    e = np.where(rng.random((n, 1)) < .5, p0 - s * lh, p1 + s * lh)
    if region == 'extension':
        return e
    if region == 'nearextension':
        return e + v * s * logu(rng, -12, -2, (n, 1))


def seg_dist(p, nodes):
    a, b = nodes[:-1], nodes[1:]
    l = b - a
    t = np.clip(((p[:, None] - a) * l).sum(-1) / (l * l).sum(-1), 0, 1)
    return np.min(np.linalg.norm(p[:, None] - (a + t[..., None] * l), axis=-1), axis=1)


def run(ctx):
    from geoana.em import static
    m = ctx.model('MC_StaticMagnetics')
    laws = Laws(m['terms'])
    n = 16 if ctx.tier == 'quick' else 80
    for rep in range(1 if ctx.tier == 'quick' else 8):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            L = logu(rng, -4, 4)
            q = strength(rng, rng.choice(['pos', 'neg', 'int', 'pos', 'neg', 'zero']))
            mu = float(4e-7 * np.pi * (1 if rng.random() < .3 else logu(rng, -1, 3)))
            env = dict(mu=mu)
            scale = L
            if src == 'Line':
                nodes = polyline(rng, cfg['orient'], cfg['loc'], L)
                if cfg['loc'] == 'int':
                    L = scale = 5.0
                pts = line_points(rng, nodes, L, reg, 3 * n)
                pts = pts[seg_dist(pts, nodes) > (1e-9 if reg == 'near' else 1e-3) * L][:n]
                given = nodes
                if cfg['orient'] == 'repeated':           # the same wire, with nodes given more than once
                    given = np.repeat(nodes, rng.choice([[2, 1, 1, 1], [1, 1, 1, 2], [1, 2, 1, 1], [1, 3, 2, 1], [2, 2, 2, 2]]), axis=0)
                arg = given.astype(int).tolist() if cfg['loc'] == 'int' else given.copy()
                make = lambda: static.LineCurrentWholeSpace(arg, current=q, mu=mu)
                env.update(I=q)
                for j, p in enumerate(nodes):
                    env.update({'p%d%s' % (j, k): v for k, v in zip('xyz', p)})
                law = lambda qty: laws['Line', 'n%d' % (len(nodes) - 1), qty]
                desc = dict(nodes=given.tolist(), current=q, mu=mu)
                loc = nodes[0]
            else:
                loc = location(rng, cfg['loc'], L)
                oarg, o = orientation(rng, cfg['orient'])
                env.update({'c' + k: float(a) for k, a in zip('xyz', loc)})
                env.update({'o' + k: float(a) for k, a in zip('xyz', o)})
                desc = dict(location=list(map(float, loc)), orientation=str(oarg), strength=q, mu=mu, L=L)
                if src == 'Loop':
                    make = lambda: static.CircularLoopWholeSpace(radius=L, current=q, location=loc, orientation=oarg, mu=mu)
                    env.update(a=L, I=q)
                    pts = loop_points(rng, loc, o, L, reg, n)
                else:
                    cls = static.MagneticDipoleWholeSpace if src == 'Dipole' else static.MagneticPoleWholeSpace
                    make = lambda: cls(moment=q, location=loc, orientation=oarg, mu=mu)
                    env.update(m=q)
                    pts = around(rng, loc, L, reg, n, axis=o)
                law = lambda qty: laws[src, qty]
            env.update(x=pts[:, 0], y=pts[:, 1], z=pts[:, 2])
            big = np.max(np.abs(pts), axis=1) + np.max(np.abs(np.asarray(loc, float))) + L
            for qty in sorted(rules):
                rule = rules[qty]
                af = None
                if rule['mode'] == 'input':
                    if src == 'Loop':
                        r = pts - np.asarray(loc, float)
                        z = r @ o
                        t3 = np.sqrt(L * L + z * z) ** 3
                        af = EPS * big * abs(mu * q) * L * L / t3 * (0.25 if qty == 'A' else 1 / np.sqrt(L * L + z * z))
                        if qty == 'H':
                            af = af / mu
                    else:
                        # distance to the nearest node bounds the gradient; field of the other segments
                        dist = np.min(np.linalg.norm(pts[:, None] - nodes, axis=2), axis=1)
                        B = abs(mu * q) / (4 * np.pi)
                        af = EPS * big * B * len(nodes) * (1 / dist if qty == 'A' else 1 / dist ** 2)
                        af = af + EPS * B * len(nodes) * (10 if qty == 'A' else 1 / dist)
                        if qty == 'H':
                            af = af / mu
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), METH[qty]), pts), [(slice(None), law(qty))], env, desc,
                             scale=scale, rule=rule, afloor=af)
    return ctx.validate('TR_StaticMagnetics')
