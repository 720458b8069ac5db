"""C26: pictures show each value at its place."""
import os, warnings
import numpy as np
import core
from gen import logu

LEVEL = 'model_checking'
RULE = 'every (picture, shape, pixel, holes, wrapping) and a thinned product of contour options enumerated by TLC; every pixel and sampled lattice nodes of the drawn picture'


def close(a, b, tol=1e-9):
    return bool(abs(a - b) <= tol * max(abs(a), abs(b), 1e-300))


def mesh_of(out):
    while isinstance(out, (tuple, list)):
        out = out[0]
    return out


def cells(mesh, x0, y0, dx, dy, values, fringe=None):
    """[east, north, entries shown] of every pixel drawn, from the corner (x0, y0) in units of dx, dy"""
    A = np.ma.masked_invalid(np.ma.asarray(mesh.get_array()))
    if hasattr(mesh, 'get_coordinates'):
        C = np.asarray(mesh.get_coordinates())
    else:                                           # an image
        l, r, b, t = mesh.get_extent()
        ny, nx = A.shape
        if mesh.origin == 'upper':
            A = A[::-1]
        C = np.stack(np.meshgrid(np.linspace(l, r, nx + 1), np.linspace(b, t, ny + 1)), -1)
    A = A.reshape(C.shape[0] - 1, C.shape[1] - 1)
    m = np.ma.getmaskarray(A)
    scale = np.nanmax(np.abs(values), initial=0)
    tx, ty = (1e-6 * abs(d) + 1e-9 * abs(o) for d, o in ((dx, x0), (dy, y0)))
    out = []
    for r in range(A.shape[0]):
        for c in range(A.shape[1]):
            q = C[r:r + 2, c:c + 2].reshape(4, 2)
            e, n = (q[:, 0].mean() - x0) / dx - .5, (q[:, 1].mean() - y0) / dy - .5
            ie, jn = int(round(e)), int(round(n))
            xs, ys = np.sort([x0 + ie * dx, x0 + (ie + 1) * dx]), np.sort([y0 + jn * dy, y0 + (jn + 1) * dy])
            if abs(q[:, 0].min() - xs[0]) > tx or abs(q[:, 0].max() - xs[1]) > tx or abs(q[:, 1].min() - ys[0]) > ty or abs(q[:, 1].max() - ys[1]) > ty:
                ie = jn = -999
            if m[r, c]:
                h = [-1]
            else:
                d = np.abs(values - float(A[r, c]))
                if fringe:
                    d = d % fringe
                    d = np.minimum(d, fringe - d)
                h = [int(k) for k in np.where(d <= 1e-9 * max(scale, fringe or 0))[0]]
            out.append([ie, jn, h])
    return out, A


SH = dict(wide=(5, 3), tall=(3, 6), square=(4, 4), row=(6, 1), column=(1, 5), large=(23, 17))


def interferogram(cfg, rng, oksar, scaled=True):
    nx, ny = SH[cfg['shape']]
    n = nx * ny
    data = rng.permutation(np.arange(1, n + 1)) * rng.uniform(.5, 2) + rng.uniform(0, .3, n)
    if rng.random() < .5:
        data = data * rng.choice([-1, 1], n)
    k = float(logu(rng, -10, 4)) if rng.random() < .4 else 1.0
    data = data * k
    holes = dict(none=0, some=max(1, n // 4), most=n - 2)[cfg.get('holes', 'some')]
    idx = rng.choice(n, holes, replace=False)
    data[idx] = 0.0
    if 'pixel' in cfg and cfg['pixel'] == 'square':
        px = np.full(2, float(rng.uniform(20, 100)))
    else:
        px = rng.uniform(20, 100, 2)
    loc = np.array([rng.uniform(3e5, 7e5), rng.uniform(1e6, 7e6)])
    sc = float(logu(rng, -3, 0)) * rng.choice([-1, 1]) if rng.random() < .7 else 1.0
    fr = float(np.abs(sc) * k * rng.uniform(.7, 5))
    zone = int(rng.integers(1, 61))
    a = dict(data=data, title='T%d' % rng.integers(1e6), location=loc, location_UTM_zone=zone, shape=(nx, ny), pixel_size=px, ref=loc + rng.normal(size=2) * 1e3,
             ref_incidence=rng.uniform(18, 45), satellite_azimuth=rng.uniform(0, 360), satellite_altitude=7.9e5, processed_by='x', scaling=sc, satellite_fringe_interval=fr)
    return a, sorted(int(i) for i in idx)


def raster(cfg, rng, oksar, plt):
    e = {}
    ax = plt.figure().add_subplot(111) if rng.random() < .6 else None
    if cfg['what'] in ('interferogram', 'mask'):
        a, holes = interferogram(cfg, rng, oksar)
        eq = oksar.EarthquakeInterferogram(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()})
        nx, ny = a['shape']
        val = a['data'] * a['scaling']
        x0, y0 = a['location'][0], a['location'][1] - a['pixel_size'][1] * ny
        if cfg['what'] == 'mask':
            op = float(rng.uniform(.1, .9))
            m = mesh_of(eq.plot_mask(ax=ax, opacity=op) if rng.random() < .7 else eq.plot_mask(ax))
            cs, A = cells(m, x0, y0, *a['pixel_size'], np.zeros(nx * ny))
            clim = True
        else:
            fr = a['satellite_fringe_interval']
            m = mesh_of(eq.plot_interferogram(wrap=cfg['wrap'], ax=ax))
            cs, A = cells(m, x0, y0, *a['pixel_size'], val, fr if cfg['wrap'] else None)
            lo, hi = m.get_clim()
            seen = val[[k for k in range(nx * ny) if k not in holes]]
            if cfg['wrap']:
                v = A.compressed()
                clim = abs(lo) < 1e-9 * fr and close(hi, fr) and bool((v >= -1e-9 * fr).all() and (v <= fr * (1 + 1e-9)).all())
            else:
                clim = close(lo, seen.min()) and close(hi, seen.max())
        x = m.axes
        labels = x.get_title() == a['title'] and str(a['location_UTM_zone']) in x.get_xlabel() and (ax is None or x is ax)
        e.update(nx=nx, ny=ny, holes=holes, cells=cs, clim=clim, labels=bool(labels), intact=bool(np.array_equal(eq.data, a['data']) and np.array_equal(eq.location, a['location'])))
        return e, dict(shape=(nx, ny), pixel=a['pixel_size'].tolist(), location=a['location'].tolist(), scaling=a['scaling'], data=a['data'].tolist(), drawn=str(A))
    nx, ny = SH[cfg['shape']]
    s = 1 if cfg['sides'] == 'positive' else -1
    O = np.array([rng.uniform(4e5, 6e5), rng.uniform(1e6, 7e6)])
    U, V = np.array([s * rng.uniform(1e4, 4e4), 0]), np.array([0, s * rng.uniform(1e4, 4e4)])
    c = O + U * rng.uniform(.2, .8) + V * rng.uniform(.2, .8)
    o = oksar.Oksar(O, U, V, c, float(rng.uniform(1e3, 4e3)), depth_bottom=float(rng.uniform(6e3, 1e4)), strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(20, 70)), rake=float(rng.uniform(-180, 180)),
                    slip=float(rng.uniform(.5, 3)), length=float(rng.uniform(5e3, 2e4)), shape=(nx, ny))
    u = np.asarray(o.displacement_vector)
    if cfg['eq'] == 'none':
        m = mesh_of(o.plot_displacement(ax=ax, wrap=bool(rng.random() < .5)))
        val, fr = u[:, 2], None
    else:
        a, _ = interferogram(dict(shape='wide'), rng, oksar)
        a.update(location=O, ref=O, satellite_fringe_interval=float(np.abs(u).max() * rng.uniform(.1, .5)))
        eq = oksar.EarthquakeInterferogram(**a)
        m = mesh_of(o.plot_displacement(eq, ax=ax, wrap=cfg['eq'] == 'wrapped'))
        val = np.array([np.dot(w, np.asarray(eq.get_LOS_vector(p))) for w, p in zip(u, np.asarray(o.simulation_grid))])
        fr = a['satellite_fringe_interval'] if cfg['eq'] == 'wrapped' else None
    cs, A = cells(m, *O, U[0] / nx, V[1] / ny, val, fr)
    lo, hi = m.get_clim()
    clim = (abs(lo) < 1e-9 * fr and close(hi, fr)) if fr else close(lo, val.min(), 1e-8) and close(hi, val.max(), 1e-8)
    e.update(nx=nx, ny=ny, holes=[], cells=cs, clim=clim, labels=ax is None or m.axes is ax, intact=True)
    return e, dict(O=O.tolist(), U=U.tolist(), V=V.tolist(), shape=(nx, ny), drawn=str(A), want=val.tolist())


def bands(cont, P):
    """for every point, the filled bands that contain it"""
    from matplotlib.path import Path
    out = [[] for _ in P]
    for b, path in enumerate(cont.get_paths()):
        c = np.zeros(len(P), bool)
        for poly in path.to_polygons(closed_only=True):
            if len(poly) > 2:
                c ^= Path(poly).contains_points(P)
        for k in np.where(c)[0]:
            out[k].append(b)
    return out


def contour(cfg, rng, plot2Ddata, plt, scratch):
    from scipy.spatial import Delaunay
    clim_given, lo_opt, hi_opt = cfg['lims']
    vec, log = cfg['kind'] == 'vector', cfg['scale'] == 'log'
    n = int(rng.integers(12, 40))
    L = rng.uniform(1, 5, 2) * float(logu(rng, -1, 3))
    O = rng.normal(size=2) * L * 3
    P = rng.uniform(0, 1, (n, 2))
    hull = 'data' in (cfg['lims'][0] or lo_opt == 'none' and 'data', cfg['lims'][0] or hi_opt == 'none' and 'data') or rng.random() < .6
    P[:4] = [[0, 0], [1, 0], [0, 1], [1, 1]] if hull else P[:4]
    P = (O + P * L)[rng.permutation(n)]
    nx, ny = int(rng.integers(14, 26)), int(rng.integers(27, 34))
    if rng.random() < .5:
        nx, ny = ny, nx
    if cfg['method'] == 'linear':                      # affine data: the interpolation is exact
        k = 2 if vec else 1
        G = rng.normal(size=(2, k)) / L[:, None]
        c0 = rng.normal(size=k) + (6 if log else 0) * rng.choice([-1, 1])
        f = lambda p: (p - O) @ G + c0
        D = f(P)
    else:
        D = rng.normal(size=(n, 2 if vec else 1)) + (3 if log else 0) * rng.choice([-1, 1])
        if log:
            D = np.where(np.abs(D) < .3, .3, D)
    data = D if vec else D[:, 0]
    x, y = np.linspace(P[:, 0].min(), P[:, 0].max(), nx), np.linspace(P[:, 1].min(), P[:, 1].max(), ny)
    X, Y = np.meshgrid(x, y)
    Q = np.c_[X.ravel(), Y.ravel()]
    dist = np.linalg.norm(Q[:, None] - P[None], axis=-1)
    near = np.argmin(dist, 1)
    two = np.sort(dist, 1)
    tie = two[:, 1] - two[:, 0] < 1e-9 * L.max()
    if cfg['method'] == 'linear':
        W = f(Q)
        if hull:
            blank, unsure = np.zeros(len(Q), bool), np.zeros(len(Q), bool)
        else:
            s = Delaunay((P - O) / L)
            inside = np.array([s.find_simplex((Q - O) / L + d) >= 0 for d in ([0, 0], [1e-6, 0], [-1e-6, 0], [0, 1e-6], [0, -1e-6])])
            blank, unsure = ~inside.any(0), inside.any(0) & ~inside.all(0)
    else:
        W, blank, unsure = D[near], np.zeros(len(Q), bool), tie
    W = np.linalg.norm(W, axis=1) if vec else np.abs(W[:, 0]) if log else W[:, 0]
    kw = dict(nx=nx, ny=ny, method=cfg['method'], scale=cfg['scale'])
    if cfg['method'] == 'linear' and rng.random() < .5:
        kw.pop('method')
    if not log and rng.random() < .5:
        kw.pop('scale')
    if vec:
        kw['vec'] = True
        kw['streamplotOpts'] = dict(density=.4)
    src = {}
    w = W[~blank & ~unsure] if not tie.any() or cfg['method'] == 'linear' else W
    src['data'] = (w.min(), w.max())
    span = src['data'][1] - src['data'][0]
    at = (lambda t: float(src['data'][0] * (src['data'][1] / src['data'][0]) ** t)) if log else (lambda t: float(src['data'][0] + t * span))
    src['clim'] = (at(rng.uniform(.05, .2)), at(rng.uniform(.7, .95)))
    src['opts'] = (at(rng.uniform(.21, .3)), at(rng.uniform(.5, .69)))
    if rng.random() < .3:                              # wider than the data
        src['clim'] = (at(-.1), at(1.2))
    if clim_given:
        c = list(src['clim'])
        kw['clim'] = np.array(c[::-1] if rng.random() < .3 else c) if rng.random() < .5 else tuple(c)
    oc = {}
    for k, (name, o) in enumerate((('vmin', lo_opt), ('vmax', hi_opt))):
        if o != 'none':
            oc[name] = src['clim'][k] if o == 'same' else src['opts'][k]
    if oc or rng.random() < .3:
        kw['contourOpts'] = oc
    nb = int(rng.integers(3, 13))
    if rng.random() < .2:
        nb = 10
    else:
        kw['ncontour'] = nb
    if cfg['mask'] == 'some':
        mk = rng.random(n) < .3
        kw['mask'] = mk
        blank = blank | mk[near]
        unsure = unsure | tie
    if cfg['extra'] == 'level':
        kw['level'] = True
    elif cfg['extra'] == 'shade':
        kw['shade'] = True
    elif cfg['extra'] == 'dataloc':
        kw['dataloc'] = True
    elif cfg['extra'] == 'figure':
        kw['figname'] = os.path.join(scratch, 'fig.png')
    ax = plt.figure().add_subplot(111) if rng.random() < .6 or cfg['extra'] == 'figure' else None
    if ax is not None:
        kw['ax'] = ax
    xyz = np.c_[P, rng.normal(size=n)] if rng.random() < .5 else P.copy()
    det = dict(options={k: str(v) for k, v in kw.items()}, points=P.tolist(), data=D.tolist())
    r = plot2Ddata(xyz, data.copy(), **kw)
    cont = r[0]
    e = dict(n=nb)
    lev = np.asarray(cont.levels, float)
    lo, hi = lev[0], lev[-1]
    cl = cont.get_clim()
    scale = max(abs(lo), abs(hi))
    eq = lambda a, b: abs(a - b) <= 1e-8 * max(abs(span), 1e-300) + 1e-11 * scale
    e['low'] = [s for s in src if eq(lo, src[s][0]) and eq(cl[0], src[s][0])]
    e['high'] = [s for s in src if eq(hi, src[s][1]) and eq(cl[1], src[s][1])]
    want = np.geomspace(lo, hi, nb + 1) if log else np.linspace(lo, hi, nb + 1)
    e['d'] = core.clip(-np.log10(max(np.abs(lev - want).max() / scale, 1e-17))) if len(lev) == nb + 1 else -999
    # nodes away from the border, from changes of the mask, and from the levels
    B, S = blank.reshape(X.shape), unsure.reshape(X.shape)
    ok = np.zeros(X.shape, bool)
    ok[1:-1, 1:-1] = True
    mixed = np.zeros(X.shape, bool)
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            mixed |= np.roll(B, (a, b), (0, 1)) != B
            ok &= ~np.roll(S, (a, b), (0, 1))
    ok &= ~mixed | B
    with np.errstate(all='ignore'):
        t = (np.log(W) - np.log(lo)) / (np.log(hi) - np.log(lo)) if log else (W - lo) / (hi - lo)
    z = t * nb
    ok = ok.ravel() & ((np.abs(z - np.round(z)) > .03) | (t < -.01) | (t > 1.01)) & (np.abs(t) > 3e-3) & (np.abs(t - 1) > 3e-3)
    k = np.where(ok)[0]
    if len(k) > 150:
        k = np.sort(rng.choice(k, 150, replace=False))
    shown = bands(cont, Q[k])
    e['nodes'] = [[int(np.clip(np.floor(t[i] * 10000), -1, 10000)) if np.isfinite(t[i]) else -1, bool(blank[i]), b] for i, b in zip(k, shown)]
    labels = len(r) == (3 if cfg['extra'] == 'level' else 2) and cont.axes is r[1] and (ax is None or r[1] is ax)
    if cfg['extra'] == 'level' and labels:
        cs = r[2]
        labels = len(cs.levels) == len(lev) and np.allclose(cs.levels, lev, rtol=1e-12, atol=0)
        if labels and cfg['method'] == 'linear' and not vec:          # lines of equal value
            for p, v in zip(cs.get_paths(), cs.levels):
                if len(p.vertices):
                    q = f(p.vertices)[:, 0]
                    labels = labels and bool((np.abs((np.abs(q) if log else q) - v) < 1e-6 * (span + abs(v))).all())
    if cfg['extra'] == 'dataloc':
        labels = labels and any(np.shape(l.get_xydata()) == P.shape and np.allclose(l.get_xydata(), P, rtol=1e-12, atol=0) for l in r[1].lines)
    if cfg['extra'] == 'figure':
        labels = labels and os.path.exists(kw['figname']) and os.path.getsize(kw['figname']) > 0
        if os.path.exists(kw['figname']):
            os.remove(kw['figname'])
    if vec and cfg['method'] == 'linear' and labels:                   # streamlines follow the vectors
        from matplotlib.collections import LineCollection
        seg = [s for c in r[1].collections if isinstance(c, LineCollection) for s in c.get_segments() if len(s) > 1]
        if seg:
            d = np.array([s[-1] - s[0] for s in seg])
            v = f(np.array([s.mean(0) for s in seg]))
            cosang = np.sum(d * v, 1) / np.maximum(np.linalg.norm(d, axis=1) * np.linalg.norm(v, axis=1), 1e-300)
            det['cosine'] = float(np.median(cosang))
            labels = labels and np.median(cosang) > .97
        elif cfg['mask'] == 'none' and hull:
            labels = False
    e['labels'] = bool(labels)
    det.update(levels=lev.tolist(), clim=list(map(float, cl)))
    return e, det


def run(ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from geoana.earthquake import oksar
    from geoana.plotting_utils import plot2Ddata
    m = ctx.model('MC_Raster')
    for cfg, rules in m['cases']:
        for rep in range(4 if ctx.tier == 'thorough' else 1):
            rng = ctx.rng(sorted((k, str(v)) for k, v in cfg.items()), rep)
            e = dict(cfg=cfg, qty='picture', out='ok', nx=0, ny=0, holes=[], cells=[], clim=False, labels=False, intact=False, n=1, low=[], high=[], d=-999, nodes=[])
            det = {}
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with np.errstate(all='ignore'):
                        r, det = contour(cfg, rng, plot2Ddata, plt, ctx.scratch) if cfg['what'] == 'contour' else raster(cfg, rng, oksar, plt)
                e.update({k: (bool(v) if isinstance(v, np.bool_) else v) for k, v in r.items()})
            except Exception as ex:
                e['out'] = type(ex).__name__
                det = dict(error=str(ex)[:300])
            plt.close('all')
            ctx.evals += 1
            ctx.event(det, **e)
    return ctx.validate('TR_Raster')
