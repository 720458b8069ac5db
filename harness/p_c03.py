"""C03: direct-current electrodes."""
import numpy as np
from gen import asked, logu, unit, location, strength, around
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (source, placement, strength, region, quantity) enumerated by TLC, instantiated with seeded values'


def below(p):
    p = np.array(p, float)
    p[..., 2] = -np.abs(p[..., 2])
    return p


def electrode(rng, kind, L):
    if kind == 'surface':
        v = rng.uniform(-3, 3, 3) * L
        v[2] = 0
        return v
    if kind == 'map':
        return below(np.round(rng.uniform(0.3, 3, 3) * 1e6) * L * np.array([1, 1, 1e-3]))
    if kind in ('buried', 'close'):
        return below(rng.uniform(-3, 3, 3) * L)
    if kind == 'shallow':
        v = below(rng.uniform(-3, 3, 3) * L)
        v[2] *= logu(rng, -6, -2)
        return v
    if kind == 'mixed':
        return electrode(rng, rng.choice(['surface', 'buried', 'shallow']), L)
    if kind == 'int':
        v = rng.integers(-9, 10, 3)
        return [int(v[0]), int(v[1]), -abs(int(v[2]))]
    if kind == 'far':
        return below(rng.uniform(-1, 1, 3) * 1e4 * L)


def half_points(rng, c, L, region, n):
    c = np.asarray(c, float)
    if region == 'generic':
        return below(c + unit(rng, n) * logu(rng, -0.7, 0.9, (n, 1)) * L)
    if region == 'surface':
        p = c + unit(rng, n) * logu(rng, -0.7, 0.9, (n, 1)) * L
        p[:, 2] = 0
        return p
    if region == 'below':
        p = np.tile(c, (n, 1))
        p[:, 2] -= logu(rng, -2, 1, n) * L
        return p
    if region == 'near':
        return below(c + unit(rng, n) * logu(rng, -5, -2, (n, 1)) * L)
    if region == 'far':
        return below(c + unit(rng, n) * logu(rng, 2, 4, (n, 1)) * L)
    if region == 'above':
        p = below(c + unit(rng, n) * logu(rng, -0.7, 0.9, (n, 1)) * L)
        k = rng.integers(n)
        p[k, 2] = logu(rng, -9, 1) * L
        return p


METH = dict(V='potential', E='electric_field', J='current_density')


def run(ctx):
    from geoana.em import static
    m = ctx.model('MC_DirectCurrent')
    laws = Laws(m['terms'])
    n = 20 if ctx.tier == 'quick' else 100
    for rep in range(1 if ctx.tier == 'quick' else 10):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            src, reg = cfg['src'], cfg['region']
            L = 5.0 if cfg['place'] == 'int' else logu(rng, -2, 4)
            I = strength(rng, cfg['strength'])
            rho = float(logu(rng, -6, 10)) if rng.random() < .8 else int(rng.integers(2, 1000))
            env = dict(I=I, rho=rho)
            meth = METH
            extra = ()
            put = lambda p, v: env.update({p + k: float(a) for k, a in zip('xyz', v)})
            law = src
            if src == 'Point':
                a = location(rng, cfg['place'], L)
                put('a', a)
                pts = around(rng, a, L, reg, n)
                make = lambda: static.PointCurrentWholeSpace(rho, current=I, location=a)
                desc = dict(location=str(a))
            elif src == 'Wire':
                k = dict(single=0, n1=1, n2=2, n4=4, n9=9, closed3=3, closed7=7, int=2, short=1, map=2)[cfg['place']]
                if cfg['place'] == 'int':
                    nodes = np.cumsum(rng.integers(1, 4, (3, 3)) * rng.choice([-1, 1], (3, 3)), axis=0)
                    if (nodes[0] == nodes[-1]).all():
                        nodes[-1, 0] += 1
                else:
                    nodes = rng.normal(size=(k + 1, 3)) * L
                if cfg['place'] == 'short':
                    nodes = nodes[:1] + np.array([[0.0], [1.0]]) * unit(rng) * logu(rng, -6, -2) * L
                if cfg['place'] == 'map':
                    nodes = nodes + np.round(rng.uniform(0.3, 3, 3) * 1e6) * L
                if cfg['place'].startswith('closed'):
                    nodes[-1] = nodes[0]
                put('a', nodes[-1])
                put('b', nodes[0])
                law = 'Point' if k == 0 else 'Wire'
                c = nodes[rng.integers(len(nodes))].astype(float)
                pts = around(rng, nodes.mean(0) if reg != 'near' else c, L, reg, n)
                if reg == 'plane':
                    pts[:, rng.integers(3)] = c[0]
                meth = dict(METH, V='scalar_potential')
                arg = nodes.tolist() if cfg['place'] == 'int' else nodes.copy()
                make = lambda: static.LineCurrentWholeSpace(arg, current=I, sigma=1.0 / rho)
                desc = dict(nodes=nodes.tolist())
            elif src == 'Half':
                a = electrode(rng, cfg['place'], L)
                put('a', a)
                pts = half_points(rng, a, L, reg, n)
                make = lambda: static.PointCurrentHalfSpace(rho, current=I, location=a)
                desc = dict(location=str(a))
            else:
                a = electrode(rng, cfg['place'], L)
                b = electrode(rng, cfg['place'], L)
                if cfg['place'] == 'close':
                    b = below(np.asarray(a) + unit(rng) * logu(rng, -6, -2) * L)
                if cfg['place'] == 'map':
                    b = below(np.asarray(a) + rng.normal(size=3) * L)
                while np.linalg.norm(np.asarray(a, float) - b) < 1e-9 * L:
                    b = electrode(rng, cfg['place'], L)
                put('a', a)
                put('b', b)
                pts = half_points(rng, a if rng.random() < .5 else b, L, reg, n)
                make = lambda: static.DipoleHalfSpace(rho, location_a=a, location_b=b, current=I)
                desc = dict(a=str(a), b=str(b))
                if src == 'DipMN':
                    q = half_points(rng, a if rng.random() < .5 else b, L, reg, n)
                    if reg == 'above' and rng.random() < .5:
                        q, pts = pts, below(q)      # only the second receiver is above
                    elif reg == 'above':
                        q = below(q)
                    if reg != 'above' and rng.random() < .35:
                        q = q[0]                    # one remote receiver for all
                        put('n', q)
                    elif reg != 'above' and rng.random() < .25:
                        env.update(nx=q[:, 0], ny=q[:, 1], nz=q[:, 2])
                        pts = pts[0]                # one fixed receiver, the other one moves
                    else:
                        env.update(nx=q[:, 0], ny=q[:, 1], nz=q[:, 2])
                    extra = (q,)
            if rng.random() < .3 and src != 'Wire':
                # the same electrode array, reached by assignments
                mk0 = make

                def make(mk0=mk0, src=src, a=a):
                    o = mk0()
                    o.rho, o.current = 77.0, 3.0
                    if src in ('Point', 'Half'):
                        o.location = [0.0, 1.0, -2.0]
                        o.location = a
                    else:
                        o.location_a = [0.0, 1.0, -2.0]
                        o.location_a = a
                    o.current, o.rho = I, rho
                    return o
            env.update(x=pts[..., 0], y=pts[..., 1], z=pts[..., 2])
            desc.update(rho=rho, current=I)
            for qty in sorted(rules):
                lawrun.check(ctx, cfg, qty, lambda: asked(getattr(make(), meth[qty]), pts, *extra), [(slice(None), laws[law, qty])],
                             env, desc, scale=L, rule=rules[qty])
    return ctx.validate('TR_DirectCurrent')
