"""C13: coordinate conversions and rotations."""
import numpy as np
from gen import logu, unit
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (conversion or rotation, place, form of the arguments, quantity) enumerated by TLC'


def carts(rng, where, n, integer=False):
    p = rng.normal(size=(n, 3)) * logu(rng, -1, 1)
    if where == 'octants':
        s = np.array([[a, b, c] for a in (1, -1) for b in (1, -1) for c in (1, -1)])
        p = np.abs(p) * s[np.arange(n) % 8]
    elif where == 'axes':
        p = np.zeros((n, 3))
        p[np.arange(n), np.arange(n) % 3] = rng.choice([-1, 1], n) * logu(rng, -1, 1, n)
    elif where == 'planes':
        p[np.arange(n), np.arange(n) % 3] = 0
    elif where == 'origin':
        p = np.zeros((n, 3))
    elif where == 'nearaxis':
        k = np.arange(n) % 3
        for j in range(3):
            p[:, j] = np.where(k == j, p[:, j], p[:, j] * 10 ** rng.uniform(-12, -4, n))
    elif where == 'large':
        p *= logu(rng, 6, 12)
    elif where == 'small':
        p *= logu(rng, -12, -6)
    if integer:
        p = np.where(p == 0, 0, np.sign(p) * np.ceil(np.abs(p) * 9))
    return p


def curvi(rng, what, where, n, integer):
    """points given in the curvilinear coordinates"""
    p = carts(rng, where, n)
    rho = np.hypot(p[:, 0], p[:, 1])
    ph = np.arctan2(p[:, 1], p[:, 0])
    ph = ph + 2 * np.pi * rng.integers(-1, 2, n)          # any representative of the angle
    q = np.stack([rho, ph, p[:, 2]], 1) if what.startswith('cyl') else \
        np.stack([np.linalg.norm(p, axis=1), ph, np.arctan2(rho, p[:, 2])], 1)
    return np.round(q * 3) if integer else q


def present(a, form, shape):
    if form == 'list':
        return a.reshape(shape).tolist()
    if form == 'tuplerow':
        return tuple(a[0].tolist())
    if form == 'int':
        return a.reshape(shape).astype(int)
    if form == 'single':
        return a.reshape(shape).astype(np.float32)
    if form == 'strided':
        b = np.full((2 * len(a) + 1, 2 * a.shape[1] + 1), np.nan)
        v = b[1::2, ::-2][:, :a.shape[1]]
        v[...] = a
        return v
    b = a.reshape(shape).copy()
    b.setflags(write=False)
    return b


def conv(ctx, cfg, rules, laws, sp, rng):
    what, where, form = cfg['what'], cfg['where'], cfg['form']
    dim = 2 if what.endswith('2') and len(what) == 9 else 3
    base = what[:8]
    n = dict(one=1, tuplerow=1, empty=0, grid=24).get(form, 24)
    shape = dict(one=(dim,), tuplerow=(dim,), grid=(4, 6, dim), empty=(0, dim)).get(form, (n, dim))
    a, b = base.split('2')
    integer = form == 'int'
    src = carts(rng, where, n, integer) if a == 'cart' else curvi(rng, base, where, n, integer)
    vec = rng.normal(size=(n, 3)) * logu(rng, -3, 3)
    if integer:
        vec = np.round(vec * 5)
    src, vec = src[:, :dim], vec[:, :dim]
    if form == 'single':
        src, vec = src.astype(np.float32).astype(float), vec.astype(np.float32).astype(float)
    names = dict(cyl='cylindrical', sph='spherical', cart='cartesian')
    f = getattr(sp, names[a] + ('_2_' if cfg['alias'] == 'yes' else '_to_') + names[b])
    g, w = present(src, form, shape), present(vec, form, shape)
    kind = b if a == 'cart' else a
    nm = dict(cyl=('r', 'ph', 'zz'), sph=('r', 'ph', 'th'))[kind]
    desc = dict(points=str(src)[:300], vectors=str(vec)[:300])
    out = {}

    def flat(r):
        r = np.asarray(r)
        return r.reshape(-1, dim).astype(float) if r.shape == shape else np.zeros((0, 0, 0))
    sl = slice(None)
    if a != 'cart':
        env = {nm[k]: src[:, k] for k in range(dim)}
        law = laws[kind + 'map' + ('2' if dim == 2 else '')]
        lawrun.check(ctx, cfg, 'points', lambda: flat(f(g)), [(sl, law)], env, desc, rule=rules['points'], pts=())
    else:
        def call():
            r = flat(f(g))
            out['r'] = r
            return r
        try:
            call()
            r = out['r']
            ok = r.shape == (n, dim)
        except Exception as ex:
            ctx.event(dict(error=str(ex), setup=desc), cfg=cfg, qty='points', out=type(ex).__name__, shape=True, d=0, c=0)
            ctx.event(dict(error=str(ex), setup=desc), cfg=cfg, qty='vectors', out=type(ex).__name__, shape=True, d=0, c=0)
            return
        if not ok:
            ctx.event(dict(setup=desc), cfg=cfg, qty='points', out='ok', shape=False, d=0, c=0)
            r = np.full((n, dim), np.nan)
        else:
            env = {nm[k]: r[:, k] for k in range(dim)}
            law = laws[kind + 'map' + ('2' if dim == 2 else '')]
            e = lawrun.check(ctx, cfg, 'points', lambda: src, [(sl, law)], env, desc, rule=rules['points'], pts=())
            tol = 1e-6 if form == 'single' else 1e-14
            rg = (r[:, 0] >= 0).all() and (np.abs(r[:, 1]) <= np.pi + tol).all()
            if kind == 'sph':
                rg = rg and (r[:, 2] >= 0).all() and (r[:, 2] <= np.pi + tol).all()
            e['range'] = bool(rg)
    # vectors: with the frame at the (reported) curvilinear position
    pos = src if a != 'cart' else r
    env = {nm[k]: pos[:, k] for k in range(dim)}
    env.update({'v%d' % (k + 1): vec[:, k] if k < dim else np.zeros(n) for k in range(3)})
    law = laws[kind + ('tocart' if a != 'cart' else 'fromcart')]

    def call():
        r = flat(f(g, w))
        return np.c_[r, np.zeros(n)] if dim == 2 and r.ndim == 2 else r
    lawrun.check(ctx, cfg, 'vectors', call, [(sl, law)], env, desc, rule=rules['vectors'], pts=())


def directions(rng, where):
    n = unit(rng)
    m = unit(rng)
    if where == 'same':
        m = n.copy()
    elif where == 'opposite':
        m = -n
    elif where in ('nearsame', 'nearopposite', 'closeopposite'):
        m = n + unit(rng) * logu(rng, *((-7, -3) if where != 'closeopposite' else (-16, -8)))
        if where != 'nearsame':
            m = -m
    elif where in ('axes', 'negaxes'):
        i = rng.integers(3)
        j = (i + rng.integers(1, 3)) % 3 if where == 'axes' else i
        n, m = np.zeros(3), np.zeros(3)
        n[i] = rng.choice([-1., 1.])
        m[j] = -n[i] if where == 'negaxes' else rng.choice([-1., 1.])
    elif where == 'right':
        m = np.cross(n, m)
    return n, m / np.linalg.norm(m)


def rot(ctx, cfg, rules, laws, sp, rng):
    out, arg = [], []
    where, form = cfg['where'], cfg['form']
    K = 6
    for _ in range(K):
        n, m = directions(rng, where)
        if form == 'unnorm':
            n, m = n * logu(rng, -4, 4), m * logu(rng, -4, 4)
        if form == 'int':
            if where in ('axes', 'negaxes'):
                n, m = n * rng.integers(1, 9), m * rng.integers(1, 9)
            else:
                n, m = np.round(n * 30), np.round(m * 30)
                if where in ('same', 'nearsame'):
                    m = n * 2
                if where in ('opposite', 'nearopposite', 'closeopposite'):
                    m = -n * 3
                if not n.any() or not m.any():
                    n, m = np.array([1., 2, 3]), np.array([3., 1, -2])
        arg.append((n, m))

    def conv(v):
        if form == 'list':
            return v.tolist()
        if form == 'int':
            return v.astype(int)
        if form == 'column':
            return v[:, None]
        b = v.copy()
        b.setflags(write=False)
        return b
    err = None
    for n, m in arg:
        try:
            r = sp.rotation_matrix_from_normals(conv(n), conv(m), as_matrix=False).as_matrix() if form == 'object' else \
                sp.rotation_matrix_from_normals(conv(n), conv(m))
            r = np.asarray(r)
            if r.shape != (3, 3):
                raise ValueError('shape %s' % (r.shape,))
            out.append(r)
        except Exception as ex:
            err = ex
    desc = dict(directions=[(n.tolist(), m.tolist()) for n, m in arg])
    if err is not None:
        for q in rules:
            ctx.event(dict(error=str(err), setup=desc), cfg=cfg, qty=q, out=type(err).__name__, shape=True, d=0, c=0)
        return
    R = np.array(out)
    env = {'w%d' % (k + 1): R.reshape(K, 9)[:, k] for k in range(9)}
    for j, c in enumerate('xyz'):
        env['n' + c] = np.array([a[0][j] for a in arg])
        env['m' + c] = np.array([a[1][j] for a in arg])
    sl = slice(None)
    for q in sorted(rules):
        if q == 'matrix':
            lawrun.check(ctx, cfg, q, lambda: R, [(sl, laws['rot'])], env, desc, rule=rules[q], pts=())
        elif q == 'gram':
            lawrun.check(ctx, cfg, q, lambda: np.broadcast_to(np.eye(3), (K, 3, 3)), [(sl, laws['gram'])], env, desc, rule=rules[q], pts=())
        elif q == 'det':
            lawrun.check(ctx, cfg, q, lambda: np.ones(K), [(sl, laws['det'])], env, desc, rule=rules[q], pts=())
        else:
            m = np.array([a[1] / np.linalg.norm(a[1]) for a in arg])
            lawrun.check(ctx, cfg, q, lambda: m, [(sl, laws['took'])], env, desc, rule=rules[q], pts=())


def rotp(ctx, cfg, rules, laws, sp, rng):
    n, m = directions(rng, cfg['where'])
    k = 0 if cfg['form'] == 'empty' else 12
    x = rng.normal(size=(k, 3)) * logu(rng, -2, 3)
    c = rng.normal(size=3) * logu(rng, -2, 6) if cfg['alias'] == 'centre' else np.zeros(3)
    if cfg['where'] != 'opposite' and rng.random() < .5:
        x = x + c                                # about a far centre
    g = present(x, cfg['form'], (k, 3))
    opp = cfg['where'] == 'opposite'
    desc = dict(n=n.tolist(), m=m.tolist(), centre=c.tolist(), points=str(x)[:200])

    def call():
        return sp.rotate_points_from_normals(g, n, m, c) if cfg['alias'] == 'centre' else sp.rotate_points_from_normals(g, n, m)
    if opp:                                   # any proper rotation taking n to m: compare with the reported matrix
        R = sp.rotation_matrix_from_normals(n, m)
        env = {'w%d' % (j + 1): R.reshape(9)[j] for j in range(9)}
        s = np.linalg.norm(x - c, axis=1)
        for j, a in enumerate('xyz'):
            env['n' + a] = (x - c)[:, j]
        lawrun.check(ctx, cfg, 'points', lambda: (call() - c) / s[:, None] if k else call(), [(slice(None), laws['took'])], env, desc,
                     rule=rules['points'], pts=())
        return
    env = {}
    for j, a in enumerate('xyz'):
        env[a], env['n' + a], env['m' + a], env['c' + a] = x[:, j], n[j], m[j], c[j]
    lawrun.check(ctx, cfg, 'points', call, [(slice(None), laws['rotp'])], env, desc, rule=rules['points'], pts=())


def metric(ctx, cfg, rules, laws, sp, rng):
    form = cfg['form']
    n = dict(one_row=1, empty=0).get(form, 15)
    x = carts(rng, cfg['where'], n, form == 'int')
    c = rng.normal(size=3) * (np.abs(x).max() if n else 1.0)
    if cfg['alias'] == 'default':
        c0 = np.zeros(3)
    else:
        c0 = c
    g = present(x, form, (n, 3))
    env = {}
    for j, a in enumerate('xyz'):
        env[a] = x[:, j]
        env['c' + a] = c0[j]
    e2 = dict(env)
    for j, a in enumerate('xyz'):
        e2['c' + a] = c[j]
    args = () if cfg['alias'] == 'default' else (c,)
    desc = dict(points=str(x)[:300], centre=c.tolist())
    sl = slice(None)
    lawrun.check(ctx, cfg, 'dist', lambda: sp.distance(g, *args), [(sl, laws['dist'])], env, desc, rule=rules['dist'], pts=())
    lawrun.check(ctx, cfg, 'vdist', lambda: sp.vector_distance(g, *args), [(sl, laws['vdist'])], env, desc, rule=rules['vdist'], pts=())
    lawrun.check(ctx, cfg, 'vdot', lambda: sp.vector_dot(g, c), [(sl, laws['vdot'])], e2, desc, rule=rules['vdot'], pts=())
    lawrun.check(ctx, cfg, 'vmag', lambda: sp.vector_magnitude(g), [(sl, laws['vmag'])], env, desc, rule=rules['vmag'], pts=())


def run(ctx):
    import geoana.spatial as sp
    m = ctx.model('MC_Coordinates')
    laws = Laws(m['terms'])
    for rep in range(1 if ctx.tier == 'quick' else 40):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted(cfg.items()))
            w = cfg['what']
            (rot if w == 'rot' else rotp if w == 'rotp' else metric if w == 'metric' else conv)(ctx, cfg, rules, laws, sp, rng)
    return ctx.validate('TR_Coordinates')
