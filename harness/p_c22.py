"""C22: grids, flattening and point checks (exhaustive over the bounded shapes of the specification)."""
import numpy as np

POINT = ('vector_distance', 'distance', 'vector_dot', 'magnitude', 'dipole.vector_distance', 'dipole.distance', 'dipole.dot_orientation', 'dipole.cross_orientation')
LEVEL = 'model_checking'
RULE = 'every (function, shape, argument form, option) of the bounded model, with entries that identify their position'


def numbered(sh):
    return np.arange(int(np.prod(sh)), dtype=float).reshape(sh)


def observe(cfg, ut, sp, rng):
    f, sh, how, arg = cfg['f'], tuple(cfg['sh']), cfg['how'], cfg['arg']
    if f == 'ndgrid':
        # arbitrary distinct coordinates, so that a value identifies its index
        ax = [rng.permutation(np.arange(n) * 1.7 + rng.normal()) for n in sh]
        kw = {} if how == 'default' else dict(vector=how == 'vector')
        r = ut.ndgrid(*ax, **kw) if arg == 'args' else ut.ndgrid(list(ax), **kw)
        look = [{float(v): i for i, v in enumerate(a)} for a in ax]
        if len(sh) == 1:
            return np.shape(r), [[look[0].get(float(v), -1) for v in np.ravel(r)]], True
        if how == 'arrays':
            if len(r) != len(sh) or len({np.shape(a) for a in r}) != 1:
                return (), [], True
            return np.shape(r[0]), [[look[j].get(float(v), -1) for v in np.ravel(r[j])] for j in range(len(sh))], True
        r = np.asarray(r)
        if r.ndim != 2 or r.shape[1] != len(sh):
            return r.shape, [], True
        return r.shape, [[look[j].get(float(v), -1) for v in r[:, j]] for j in range(len(sh))], True
    if f == 'mkvc':
        a = numbered(sh)
        if arg == 'F':
            a = np.asfortranarray(a)
        elif arg == 'strided':
            b = np.full(tuple(2 * n + 1 for n in sh), -7.0)
            v = b[tuple(slice(2 * n - 1, None, -2) if n else slice(0, 0) for n in sh)]
            v[...] = a
            a = v
        elif arg == 'readonly':
            a.setflags(write=False)
        elif arg == 'matrix':
            a = np.matrix(a)
        r = ut.mkvc(a) if how == 'default' else ut.mkvc(a, int(how))
        return np.shape(r), [np.ravel(r).astype(int).tolist()], True
    if f == 'check':
        if arg.startswith('tuple') or arg == 'ragged':
            n = int(arg[5]) if arg != 'ragged' else 3
            a = [1000.0 * k + numbered(sh) for k in range(n)]
            if arg == 'ragged':
                a[2] = numbered(sh + (2,))
            a = tuple(a)
        else:
            a = numbered(sh)
            a = dict(array=a, list=a.tolist(), int=a.astype(int), single=a.astype(np.float32))[arg]
        r = ut.check_xyz_dim(a) if how == 'default' else ut.check_xyz_dim(a, int(how))
        return r.shape, [np.ravel(r).astype(int).tolist()], r.dtype == float
    if f == 'append':
        a = 0.0 if arg == 'scalar' else numbered(sh)
        r = ut.append_ndim(a, int(how))
        return np.shape(r), [np.ravel(r).astype(int).tolist()], True
    a = numbered(sh)
    r = sp.repeat_scalar(a) if how == 'default' else sp.repeat_scalar(a, int(how))
    return np.shape(r), [np.ravel(r).astype(int).tolist()], True


Q = 1024


def quantise(x, q, sq=False):
    """integers of x in units of 1/q (of x^2 for lengths), and whether nothing is left"""
    v = np.asarray(x, float)
    y = v * v * q if sq else v * q
    k = np.round(y)
    return k, bool((np.abs(y - k) <= 1e-13 * np.abs(k) + (0 if sq else 1e-15)).all()) if np.isfinite(y).all() and (np.abs(y) < 2e9).all() else False


def pointwise(cfg, sp, rng):
    import geoana.em.fdem as fd, geoana.em.static as st
    f, sh, how, arg = cfg['f'], tuple(cfg['sh']), cfg['how'], cfg['arg']
    full = sh if f == 'magnitude' or f.startswith('dipole') else sh + (3,)
    P = rng.integers(-8 * Q, 8 * Q + 1, full)
    if how == 'int':
        P = P // Q * Q
    x = P / Q
    o = np.zeros(3, int)
    if not f.startswith('dipole'):
        x = dict(array=x, F=np.asfortranarray(x), readonly=x.copy(), int=x.astype(int), strided=np.repeat(np.repeat(x, 2, 0), 2, -1)[::2, ..., ::2] if x.ndim > 1 else x)[how]
        if how == 'readonly':
            x.setflags(write=False)
        if f == 'magnitude':
            r = sp.vector_magnitude(x)
        else:
            o = dict(default=o, int=rng.integers(-8, 9, 3) * Q, list=rng.integers(-8 * Q, 8 * Q + 1, 3), dyadic=rng.integers(-8 * Q, 8 * Q + 1, 3),
                     near=rng.integers(-7, 8, 3) * Q + rng.integers(-6, 7, 3))[arg]
            a = dict(int=(o // Q), list=(o / Q).tolist()).get(arg, o / Q)
            g = getattr(sp, f)
            r = g(x) if arg == 'default' else g(x, a)
    else:
        cls = dict(magnetic=st.MagneticDipoleWholeSpace, electric=fd.ElectricDipoleWholeSpace, loop=st.CircularLoopWholeSpace, pole=st.MagneticPoleWholeSpace)[arg]
        kw = dict(frequency=10.0) if arg == 'electric' else {}
        loc = rng.integers(-8 * Q, 8 * Q + 1, 3)
        i = dict(X=0, y=1, Z=2).get(how, int(rng.integers(3)))
        u = np.eye(3, dtype=int)[i] * (-1 if how == 'minus' else 1)
        ob = cls(location=loc / Q, orientation=how if how in 'XyZ' else u * 5.0, **kw)
        m = f.split('.')[1]
        o = loc if 'distance' in m else u * Q
        r = getattr(ob, m)(x)
    rank1 = f in ('vector_distance', 'dipole.vector_distance', 'dipole.cross_orientation')
    q = Q if f.endswith('vector_distance') else Q * Q
    k, exact = quantise(r, q, sq=f.endswith('distance') and not rank1 or f == 'magnitude')
    n = int(np.prod(full[:-1])) if full[:-1] else 1
    vals = k.reshape(n, -1).astype(int).tolist() if np.isfinite(k).all() and (np.abs(k) < 2e9).all() and k.size % n == 0 else []
    return dict(shape=list(np.shape(r)), vals=vals, exact=exact, pts=P.reshape(n, -1).tolist(), vec=[int(v) for v in o])


def run(ctx):
    import geoana.utils as ut
    import geoana.spatial as sp
    m = ctx.model('MC_Grid')
    for cfg, rules in m['cases']:
        rng = ctx.rng(sorted((k, str(v)) for k, v in cfg.items()))
        e = dict(cfg=cfg, qty='call', out='ok', shape=[], vals=[], float=True)
        try:
            if cfg['f'] in POINT:
                e.update(pointwise(cfg, sp, rng))
                ctx.evals += 1
                ctx.event(**e)
                continue
            sh, v, fl = observe(cfg, ut, sp, rng)
            e.update(shape=list(sh), vals=v, float=bool(fl))
        except Exception as ex:
            e.update(out=type(ex).__name__)
        ctx.evals += 1
        ctx.event(**e)
    return ctx.validate('TR_Grid')
