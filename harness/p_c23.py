"""C23: displacement of a rectangular dislocation; grids and attributes of faults and interferograms."""
import datetime, warnings
import numpy as np
from gen import logu
from terms import Laws
import core, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (dip, rake, strike, depth, moduli, place) enumerated by TLC against the closed form and the integral of the elements derived from Boussinesq-Cerruti and Betti; grids, still faults, attributes'
XS, WS = np.polynomial.legendre.leggauss(44)


def fault(rng, cfg):
    dip = dict(generic=rng.uniform(15, 75), steep=90 - 10 ** rng.uniform(-.7, 1), vertical=90.0, shallow=rng.uniform(8, 20), fortyfive=45.0)[cfg['dip']]
    rake = dict(strike=0.0, thrust=90.0, normal=-90.0, antistrike=rng.choice([180.0, -180.0]), generic=rng.uniform(-180, 180))[cfg['rake']]
    strike = dict(zero=0.0, east=90.0, full=360.0, generic=rng.uniform(0, 360), west=270.0)[cfg['strike']]
    lam, mu = logu(rng, 10, 10.7), logu(rng, 10, 10.7)
    if cfg['mod'] == 'equal':
        lam = mu
    elif cfg['mod'] == 'soft':
        lam = mu * logu(rng, -4, -1) if rng.random() < .7 else 0.0
    elif cfg['mod'] == 'incompressible':
        lam = mu * logu(rng, 1, 3)
    elif cfg['mod'] == 'auxetic':                      # a negative Poisson ratio
        lam = -mu * rng.uniform(.05, .6)
    W = float(logu(rng, 3, 4.3))                       # down-dip width
    L = W * float(logu(rng, -.4, .4))
    dep = W * np.sin(np.deg2rad(dip))
    top = max(L, W) * float(dict(buried=rng.uniform(.35, 1), deep=rng.uniform(2, 5), surface=0.0, thin=rng.uniform(.3, 1.0))[cfg['depth']])
    bot = top + dep * (logu(rng, -3, -1) if cfg['depth'] == 'thin' else 1)
    return dict(center=rng.normal(size=2) * 1e4, depth_top=float(top), depth_bottom=float(bot), strike=float(strike), dip=float(dip), rake=float(rake), slip=float(logu(rng, -1, 1)), length=L, beta=float(lam), mu=float(mu))


def grid(rng, cfg, f):
    """O, U, V, shape"""
    size = max(f['length'], f['depth_bottom'])
    st = np.deg2rad(f['strike'])
    s, up = np.array([np.sin(st), np.cos(st)]), np.array([-np.cos(st), np.sin(st)])
    c = f['center']
    place = cfg['place']
    if place == 'trace':
        a = rng.uniform(1.0, 2.5)
        O, U, V, shape = c - s * f['length'] * a, s * f['length'] * 2 * a * rng.uniform(.8, 1.2), up * 0, (5, 1)
    elif place == 'ends':
        e = s * f['length'] / 2 * rng.choice([-1, 1])
        O, U, V, shape = c + e - up * size * rng.uniform(.5, 2), up * size * 3, s * 0, (5, 1)
    else:
        k = dict(generic=2.0, far=rng.uniform(15, 60), above=.4)[place]
        a, b = rng.uniform(0, 2 * np.pi, 2)
        U = size * k * np.array([np.cos(a), np.sin(a)]) * rng.uniform(.5, 1.5)
        V = size * k * np.array([np.cos(a + 1 + b / 6), np.sin(a + 1 + b / 6)])
        mid = c - up * (f['depth_top'] + f['depth_bottom']) / 2 / np.tan(np.deg2rad(f['dip'])) if place == 'above' else c + rng.normal(size=2) * size * (k if place == 'far' else .5)
        O, shape = mid - U / 2 - V / 2, (4, 3)
    return O, U, V, shape


def points(O, U, V, shape):
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]))
    fr = lambda k, n: k.ravel() / max(n - 1, 1)
    return O + fr(i, shape[0])[:, None] * U + fr(j, shape[1])[:, None] * V


def displacement(ctx, cfg, rules, rng, laws, Oksar):
    f = fault(rng, cfg)
    O, U, V, shape = grid(rng, cfg, f)
    P = points(O, U, V, shape)
    n = len(P)

    def ask():
        o = Oksar(O, U, V, f['center'], f['depth_top'], **{k: v for k, v in f.items() if k not in ('center', 'depth_top')}, shape=shape)
        return np.asarray(o.displacement_vector)
    d = P - f['center']
    env = dict(x=d[:, 0], y=d[:, 1], st=np.deg2rad(f['strike']), dl=np.deg2rad(f['dip']), rk=np.deg2rad(f['rake']), slip=f['slip'], len=f['length'], top=f['depth_top'], bot=f['depth_bottom'], lam=f['beta'], mu=f['mu'])
    desc = dict(fault={k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in f.items()}, O=O.tolist(), U=U.tolist(), V=V.tolist(), shape=shape)
    # rounding of R + eta (eta of either sign) at the corners: of the order of EPS R^2 / (xi^2 + q^2) of the slip
    s_, u_ = np.array([np.sin(env['st']), np.cos(env['st'])]), np.array([-np.cos(env['st']), np.sin(env['st'])])
    fx, fy, sd, cd = d @ s_, d @ u_, np.sin(env['dl']), np.cos(env['dl'])
    noise = 0
    for xi in (fx - f['length'] / 2, fx + f['length'] / 2):
        for wd in (f['depth_top'] / sd, f['depth_bottom'] / sd):
            r2 = xi ** 2 + (fy * cd + wd) ** 2 + (fy * sd) ** 2
            lat = np.maximum(xi ** 2 + (fy * sd) ** 2, 1e-12 * r2)
            noise = np.maximum(noise, 3 * core.EPS * f['slip'] * r2 / lat)
    for qty, rule in rules.items():
        if qty == 'law':
            law = laws['rectangle',]
            with np.errstate(all='ignore'):
                ev = {k: (v if np.ndim(v) else np.full(n, v)) for k, v in env.items()}
                w = np.max(np.abs(law.np(ev)[0]), axis=-1)
            near = np.linalg.norm(d, axis=1)
            big = 1 + (np.abs(P).max(1) + np.abs(f['center']).max()) / np.maximum(near, f['depth_bottom'])
            # single components may vanish by symmetry; the angles carry a rounding of 1e-14
            lawrun.check(ctx, cfg, qty, ask, [(slice(None), law)], env, desc, rule=rule, pts=(), afloor=1e-11 * w * big + noise, maxmp=24)
            continue
        e = dict(cfg=cfg, qty=qty, out='ok', shape=True, d=-999, c=0)
        det = dict(desc)
        try:
            got = ask()
            if got.shape != (n, 3):
                e['shape'] = False
            else:
                sd = np.sin(env['dl'])
                wt, wb = env['top'] / sd, env['bot'] / sd
                a = env['len'] / 2 * XS
                w = (wt + wb) / 2 + (wb - wt) / 2 * XS
                A, W = np.meshgrid(a, w, indexing='ij')
                wt2 = np.outer(env['len'] / 2 * WS, (wb - wt) / 2 * WS).ravel()
                m = A.size
                law = laws['element',]
                full = dict(a=np.tile(A.ravel(), n), w=np.tile(W.ravel(), n), x=np.repeat(d[:, 0], m), y=np.repeat(d[:, 1], m))
                for k in ('st', 'dl', 'rk', 'slip', 'lam', 'mu'):
                    full[k] = np.full(1, env[k])
                with np.errstate(all='ignore'):
                    want = np.einsum('nmc,m->nc', law.np(full)[0].reshape(n, m, 3), wt2)
                sc = np.max(np.abs(want), -1)
                # what evaluating a closed form in double precision costs (angles are converted with 14 digits)
                ev = {k: (v if np.ndim(v) else np.full(n, v)) for k, v in env.items()}
                ev['x'], ev['y'] = ev['x'] + 1e-8 * env['bot'], ev['y'] + 1.3e-8 * env['bot']
                if cfg['dip'] == 'vertical':
                    ev['dl'] = ev['dl'] * .9
                with np.errstate(all='ignore'):
                    floor = np.max(laws['rectangle',].np(ev)[1], -1)
                if not np.isfinite(floor).all():
                    raise core.MachineryError('no error bound')
                err = np.maximum(np.max(np.abs(got - want), -1) - 2000 * floor - noise, 0 * sc) / sc
                e['d'] = core.clip(-np.log10(max(float(err.max()), 1e-17))) if np.isfinite(err).all() else -999
                det.update(got=got.tolist(), want=want.tolist())
        except core.MachineryError:
            raise
        except Exception as ex:
            e['out'], det['error'] = type(ex).__name__, str(ex)[:300]
        ctx.evals += n
        ctx.event(det, **e)


def simple(ctx, cfg, fn, det):
    e = dict(cfg=cfg, qty='value', out='ok', shape=True, d=-999, c=0)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            e['d'] = fn(det)
    except core.MachineryError:
        raise
    except Exception as ex:
        e['out'], det['error'] = type(ex).__name__, str(ex)[:300]
    ctx.evals += 1
    ctx.event(det, **e)


def same(a, b):
    try:
        return type(a) is type(b) and a == b if isinstance(b, (str, datetime.datetime)) else np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    except Exception:
        return False


def attributes(rng, cls, how, cl):
    """values passed and values to be read"""
    v, want = {}, {}

    def put(k, val, read=None):
        v[k], want[k] = val, val if read is None else read
    pair = lambda: rng.normal(size=2) * 1e4
    if cls == 'Fault':
        for k in ('O', 'U', 'V', 'center'):
            put(k, pair())
        put('depth_top', float(rng.uniform(0, 5e3)))
        put('depth_bottom', v['depth_top'] + float(rng.uniform(1, 1e4)))
        for k, lo, hi in (('strike', 0, 360), ('dip', 0, 90), ('rake', -180, 180), ('slip', 0, 9), ('length', 1, 1e5), ('beta', 1e9, 1e11), ('mu', 1e9, 1e11)):
            put(k, float(rng.uniform(lo, hi)))
        put('shape', (int(rng.integers(2, 9)), int(rng.integers(2, 9))))
    else:
        put('data', rng.normal(size=12))
        for k in ('location', 'pixel_size', 'ref'):
            put(k, pair())
        put('shape', (4, 3))
        put('location_UTM_zone', int(rng.integers(1, 60)))
        for k in ('ref_incidence', 'satellite_azimuth', 'satellite_altitude', 'scaling', 'satellite_fringe_interval', 'local_earth_radius', 'local_rigidity'):
            put(k, float(rng.uniform(1, 1e6)))
        for k in ('title', 'processed_by', 'description', 'event_country', 'event_name', 'copyright', 'data_source', 'satellite_name', 'event_gcmt_id'):
            put(k, '%s-%d' % (k, rng.integers(1e6)))
        for k in ('date1', 'date2', 'processed_date', 'event_date'):
            put(k, datetime.datetime(int(rng.integers(1980, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60))))
        if how == 'strings':
            for k in ('date1', 'date2', 'processed_date', 'event_date'):
                d = v[k]
                f = int(rng.integers(3))
                if f < 2:
                    want[k] = d.replace(hour=0, minute=0, second=0)
                v[k] = d.strftime(['%Y-%m-%d', '%Y/%m/%d', '%Y-%m-%dT%H:%M:%SZ'][f])
            v['location_UTM_zone'] = str(v['location_UTM_zone'])
    if how == 'strings':
        for k, x in list(v.items()):
            if isinstance(x, float):
                v[k] = repr(x)
    if how == 'lists':
        for k, x in list(v.items()):
            if isinstance(x, np.ndarray):
                v[k] = x.tolist() if rng.random() < .5 else tuple(x.tolist())
    return v, want


def run(ctx):
    from geoana.earthquake import oksar
    m = ctx.model('MC_Dislocation')
    laws = Laws(m['terms'])
    cls = dict(Fault=oksar.Oksar, Interferogram=oksar.EarthquakeInterferogram)
    for cfg, rules in m['cases']:
        for rep in range(5 if ctx.tier == 'thorough' else 1):
            rng = ctx.rng(sorted(cfg.items()), rep)
            what = cfg['what']
            if what == 'displacement':
                with np.errstate(all='ignore'):
                    displacement(ctx, cfg, rules, rng, laws, oksar.Oksar)
            elif what == 'grid':
                U, V = rng.normal(size=2) * 1e4, rng.normal(size=2) * 1e4
                if cfg['vectors'] == 'axes':
                    U, V = np.array([abs(U[0]), 0]), np.array([0, abs(V[1])])
                elif cfg['vectors'] == 'negative':
                    U, V = np.array([-abs(U[0]), 0]), np.array([0, -abs(V[1])])
                O = rng.normal(size=2) * 1e5
                a, b = int(rng.integers(2, 7)), int(rng.integers(2, 7))
                shape = dict(grid=(a, b + 5), row=(a, 1), column=(1, b), one=(1, 1))[cfg['shape']]

                def fn(det):
                    det.update(O=O.tolist(), U=U.tolist(), V=V.tolist(), shape=shape)
                    if cfg['vectors'] == 'default':
                        o = oksar.Oksar(O, U, V, [0, 0], 1e3)
                        want = points(O, U, V, (300, 300))
                    else:
                        o = oksar.Oksar(O, U, V, [0, 0], 1e3, shape=shape)
                        want = points(O, U, V, shape)
                    g = np.asarray(o.simulation_grid)
                    if g.shape != want.shape:
                        det['got_shape'] = g.shape
                        return -999
                    if not np.isfinite(g).all():
                        return -999
                    return core.clip(-np.log10(max(np.abs(g - want).max() / np.abs(want).max(), 1e-17)))
                simple(ctx, cfg, fn, {})
            elif what == 'null':
                f = fault(rng, dict(dip='generic', rake='generic', strike='generic', depth='buried', mod='generic'))
                if cfg['which'] == 'slip':
                    f['slip'] = 0.0
                elif cfg['which'] == 'length':
                    f['length'] = 0.0
                else:
                    f['depth_bottom'] = f['depth_top']
                O, U, V, shape = grid(rng, dict(place='generic'), f)

                def fn(det):
                    det.update({k: str(x) for k, x in f.items()})
                    o = oksar.Oksar(O, U, V, f['center'], f['depth_top'], **{k: x for k, x in f.items() if k not in ('center', 'depth_top')}, shape=shape)
                    u = np.abs(o.displacement_vector)
                    return core.clip(-np.log10(max(u.max(), 1e-17))) if np.isfinite(u).all() else -999
                simple(ctx, cfg, fn, {})
            else:
                v, want = attributes(rng, cfg['cls'], cfg['how'], cls)

                def fn(det):
                    if cfg['how'] == 'assign':
                        w0, _ = attributes(ctx.rng('other', rep), cfg['cls'], '', cls)
                        o = cls[cfg['cls']](**w0)
                        names = list(v)
                        rng.shuffle(names)
                        if 'depth_top' in v:            # keep the edges ordered on the way
                            o.depth_bottom = 1e6
                            names.remove('depth_bottom')
                            names.append('depth_bottom')
                        for k in names:
                            setattr(o, k, v[k])
                    else:
                        o = cls[cfg['cls']](**v)
                    bad = [k for k in want if not same(getattr(o, k), want[k])]
                    det.update(attributes={k: str(v[k]) for k in bad}, read={k: str(getattr(o, k)) for k in bad})
                    return -999 if bad else 170
                simple(ctx, cfg, fn, {})
    return ctx.validate('TR_Dislocation')
