"""C09: harmonic magnetic dipole above a half-space or layered earth."""
import warnings
import numpy as np
from scipy.constants import mu_0, epsilon_0
from gen import logu
from terms import Laws
import core, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (earth, layers, orientation, heights, offset, field choice, quasistatic choice) enumerated by TLC, against the numerically integrated kernels; closed forms of the half-space against the law and the integral; relations between earths'
XS, WS = np.polynomial.legendre.leggauss(14)


def nodes(rho, s, scale):
    """Gauss nodes on panels of [0, inf): geometric up to the first lobe, then lobe by lobe of J(l rho)"""
    first = min(np.pi / rho, 1 / max(s, 1e-300))
    e = list(first * 2.0 ** np.arange(-44, 1))
    step = np.pi / rho
    top = 45 / s if s > 0 else np.inf
    n = int(np.ceil(min(top / step, 1500 if s > 0 else 100 + 6 * scale * rho / np.pi)))
    while e[-1] < step:
        e.append(min(2 * e[-1], step))
    k = len(e)
    e += list(step * np.arange(2, n + 2))
    e = np.array([0.0] + e)
    half = np.diff(e)[:, None] / 2
    return (e[:-1, None] + half * (1 + XS)), half * WS, k


def euler(part):
    """limit of partial sums that oscillate with slowly varying amplitude: repeated means"""
    S = np.asarray(part)[-36:]
    while len(S) > 1:
        S = (S[1:] + S[:-1]) / 2
    return S[0]


def hankel(law, Rof, env, scale):
    """H (nf, 3) at one point: integral over l of R(l) times the kernel"""
    s = env['z'] + env['h']
    lam, w, k = nodes(np.hypot(env['x'], env['y']), s, scale)
    e = {a: np.full(lam.size, v) for a, v in env.items()}
    e['l'] = lam.ravel()
    ker = law.np(e)[0].reshape(lam.shape + (3,))                       # panels, nodes, 3
    R = Rof(lam.ravel()).reshape((-1,) + lam.shape)                    # nf, panels, nodes
    terms = np.einsum('fpn,pn,pnc->pfc', R, w, ker)
    cs = np.cumsum(terms, 0)
    if s > 0 and lam.max() * s > 40:
        return cs[-1]
    return euler(cs)


def orient(rng, kind):
    """(argument, unit vector)"""
    if kind in ('x', 'y', 'z'):
        v = np.eye(3)['xyz'.index(kind)]
        return (kind.upper() if rng.random() < .6 else v.copy()), v
    if kind == 'negx':
        return [-1.0, 0.0, 0.0], np.array([-1.0, 0, 0])
    if kind == 'negz':
        return np.array([0, 0, -1.0]), np.array([0, 0, -1.0])
    v = rng.normal(size=3)
    v[np.abs(v) < .2] += .5
    if kind == 'almost':                         # nearly a coordinate axis or plane
        k = rng.permutation(3)
        v[k[0]] *= logu(rng, -3.6, -2)
        if rng.random() < .5:
            v[k[1]] *= logu(rng, -3.6, -2)
    u = v / np.linalg.norm(v)
    return (v * 3 if kind == 'unnormed' else u), u


def earth(rng, cfg, rho, nf):
    """frequency, sigma, mu, epsilon, thickness; sigma and mu of shape (n, nf) for the law, and as passed"""
    n = int(cfg['layers'][1])
    kind = cfg['model']
    lo, hi = dict(contrast=(-2.0, 1.2), resistive=(-.8, 0)).get(kind, (-.6, .6))
    x2 = logu(rng, -.8, 1.4)                                                   # square of the induction number
    f = logu(rng, 1, 4) * logu(rng, -.2, .2, nf)
    if cfg['qs'] != 'quasi' and rng.random() < .6:                             # displacement up to a fifth of conduction
        f *= np.sqrt(logu(rng, -2, -.7) * 10 ** lo * x2 / (mu_0 * 30 * epsilon_0)) / (2 * np.pi * rho * f.mean())
    base = x2 / (2 * np.pi * f.mean() * mu_0 * rho ** 2)
    sig = base * logu(rng, lo, hi, (n, 1)) * np.ones((1, nf))
    mu = np.full((n, nf), mu_0)
    h = rho * logu(rng, -.7, .5, n - 1)
    eps = epsilon_0 * rng.uniform(1, 30, (n, 1)) * np.ones((1, nf))
    if kind == 'equal':
        sig[:] = sig[0]
        eps[:] = eps[0]
    elif kind == 'magnetic':
        mu = mu_0 * rng.uniform(1, 4, (n, 1)) * np.ones((1, nf))
    elif kind in ('chargeable', 'dispersive'):
        sig = sig * (1 + .4j * rng.random((n, 1)))
        if kind == 'dispersive':
            sig = sig * rng.uniform(.6, 1.5, (n, nf))
            mu = mu * (1 + .5 * rng.random((n, nf)) + .2j * rng.random((n, nf)))
            eps = epsilon_0 * rng.uniform(1, 30, (n, nf))
    elif kind == 'thin':
        h = rho * logu(rng, -4, -1.5, n - 1)
    elif kind == 'thick':
        h = rho * logu(rng, 1, 3, n - 1)
    return dict(f=f, sig=sig, mu=mu, eps=eps, h=h)


def build(fd, E, qs, o, m, loc, form, rng):
    two = form == 'dispersive'
    one = lambda a: a if two else a[:, 0]
    args = dict(frequency=E['f'].copy(), thickness=E['h'].copy() if len(E['h']) else None, sigma=one(E['sig']).copy(), mu=one(E['mu']).copy(), orientation=o, moment=m, location=loc)
    if qs == 'full':
        args.update(quasistatic=False, epsilon=one(E['eps']).copy())
    elif qs == 'quasi':
        args.update(quasistatic=True)
    else:
        E['eps'] = np.full(E['sig'].shape, epsilon_0)
    for k in ('sigma', 'mu', 'epsilon'):         # other ways to write the same values
        a = args.get(k)
        if a is None:
            continue
        if a.ndim == 1 and (a == a[0]).all() and rng.random() < .6:
            args[k] = a[0].item() if rng.random() < .7 else a[0]
        elif rng.random() < .2:
            args[k] = a.tolist()
    if len(E['f']) == 1 and rng.random() < .4:
        args['frequency'] = float(E['f'][0])
    if args['thickness'] is not None and rng.random() < .3:
        args['thickness'] = args['thickness'].tolist() if len(E['h']) > 1 or rng.random() < .5 else float(E['h'][0])
    return fd.MagneticDipoleLayeredHalfSpace(**args)


def sigh(E, qs):
    w = 2 * np.pi * E['f']
    return E['sig'] + (0 if qs == 'quasi' else 1j * w * E['eps'])


def reflection(laws, E, qs):
    n, nf = E['sig'].shape
    S = sigh(E, qs)

    def R(l):
        out = []
        for k in range(nf):
            e = dict(f=np.full(l.size, E['f'][k]), l=l, mu0=np.full(l.size, mu_0))
            for j in range(n):
                e['s%d' % j], e['m%d' % j] = np.full(l.size, S[j, k]), np.full(l.size, E['mu'][j, k])
                if j < n - 1:
                    e['h%d' % j] = np.full(l.size, E['h'][j])
            out.append(laws['R', 'n%d' % n].np(e)[0])
        return np.array(out)
    return R


def place(rng, cfg, rho, npt):
    """location of the dipole and observation points"""
    ratio = dict(near=(.5, 1.0), equal=(-.3, .3), far=(-1.5, -.7))[cfg['span']]
    s = rho * logu(rng, *ratio, npt)
    if cfg['height'] == 'low':
        s = s * .2
    elif cfg['height'] == 'high':
        s = s * 1.5
    hz = s.min() * rng.uniform(.2, .8)
    z = s - hz
    if cfg['height'] == 'source':
        z[:] = 0
        hz = float(s[0])
    elif cfg['height'] == 'receiver':
        hz, z = 0.0, s
    ang = rng.uniform(-np.pi, np.pi, npt)
    r = rho * logu(rng, -.1, .1, npt)
    loc = np.array([rng.normal() * rho, rng.normal() * rho, hz])
    xyz = np.stack([loc[0] + r * np.cos(ang), loc[1] + r * np.sin(ang), z], 1)
    return loc, xyz


def digits(got, want, scale=None):
    """worst agreement over vectors (..., 3), relative to the vector"""
    sc = np.max(np.abs(want), axis=-1) if scale is None else scale
    err = np.max(np.abs(got - want), axis=-1)
    if not np.isfinite(err).all():
        return -999
    return core.clip(-np.log10(max(float(np.max(err / sc)), 1e-17)))


def call(o, xyz, field):
    r = o.magnetic_field(xyz.copy()) if field == 'default' else o.magnetic_field(xyz.copy(), field=field)
    return np.asarray(r)


def layered(ctx, cfg, rng, laws, fd):
    e = dict(cfg=cfg, qty='H', out='ok', shape=True, d=-999, c=0)
    rho = float(logu(rng, 0, 2.5))
    nf, npt = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    if rng.random() < .2:                        # many receivers, a few of them compared with the integral
        npt = int(rng.integers(10, 60))
    E = earth(rng, cfg, rho, nf)
    o, u = orient(rng, cfg['orient'])
    m = float(rng.normal() * 4)
    loc, xyz = place(rng, cfg, rho, npt)
    det = dict(f=str(E['f']), sigma=str(E['sig']), mu=str(E['mu']), h=str(E['h']), eps=str(E['eps']), orientation=str(u), moment=m, location=str(loc), xyz=xyz.tolist())
    what = cfg['what']
    try:
        qs = cfg['qs']
        if what == 'vacuum':
            E['f'] = E['f'] * 1e-2 / E['f'].max() / rho
            E['sig'] = np.full(E['sig'].shape, 1e-14 / rho)
            E['mu'][:] = mu_0
            E['eps'][:] = epsilon_0
        obj = build(fd, E, qs, o, m, loc, cfg['model'], rng)
        if what == 'surface':
            loc[2], xyz[:, 2] = 0, 0
            obj.location = loc
        got = call(obj, xyz, cfg['field'])
        full = (nf, npt, 3)
        if got.shape != tuple(k for k in full if k != 1):
            e['shape'], det['got'] = False, list(got.shape)
            raise StopIteration
        got = got.reshape(full)
        env = dict(x=xyz[:, 0] - loc[0], y=xyz[:, 1] - loc[1], z=xyz[:, 2], h=np.full(npt, loc[2]), m=np.full(npt, m), px=np.full(npt, u[0]), py=np.full(npt, u[1]), pz=np.full(npt, u[2]))
        free = laws['free',].np(env)[0][None]
        if what == 'layered':
            scale = np.sqrt(2 * np.pi * E['f'].max() * np.abs(E['mu']).max() * np.abs(sigh(E, qs)).max())
            R = reflection(laws, E, qs)
            pick = rng.permutation(npt)[:3]
            sec = np.stack([hankel(laws['kernel',], R, {k: float(v[i]) for k, v in env.items()}, scale) for i in pick], 1)
            want = sec + (free[:, pick] if cfg['field'] == 'total' else 0)
            got = got[:, pick]
            ctx.evals += got.size
            e['d'] = digits(got, want)
            det.update(got=str(got), want=str(want))
        elif what == 'surface':
            kw = dict(quasistatic=qs == 'quasi') if qs != 'defaultq' else {}
            hs = fd.MagneticDipoleHalfSpace(frequency=E['f'], sigma=E['sig'][0, 0], epsilon=E['eps'][0, 0], orientation=o, moment=m, location=loc, **kw)
            want = np.asarray(hs.magnetic_field(xyz, field=cfg['field'])).reshape(full)
            e['d'] = digits(got, want)
            det.update(got=str(got), want=str(want))
        elif what == 'total':
            sec = call(obj, xyz, 'secondary').reshape(full)
            tot = call(obj, xyz, 'total').reshape(full)
            e['d'] = digits(tot - sec, np.broadcast_to(free, full), scale=np.max(np.abs(tot), -1) + np.max(np.abs(sec), -1))
            det.update(total=str(tot), secondary=str(sec), free=str(free))
        elif what == 'vacuum':
            sec = call(obj, xyz, 'secondary').reshape(full)
            e['d'] = core.clip(-np.log10(max(float(np.max(np.max(np.abs(sec), -1) / np.max(np.abs(free), -1))), 1e-17)))
            det.update(secondary=str(sec), free=str(free))
        else:
            n = len(E['sig'])
            F = {k: v.copy() for k, v in E.items()}
            j = int(rng.integers(0, n))
            rep = lambda a: np.insert(a, j, a[j], 0)
            if what == 'merge' or (what == 'split' and j == n - 1):
                j = n - 1
                F['h'] = np.append(E['h'], rho * logu(rng, -2, 1))
            elif what == 'split':
                c = rng.uniform(.05, .95)
                F['h'] = np.insert(E['h'], j, E['h'][j] * c)
                F['h'][j + 1] = E['h'][j] - F['h'][j]
            else:
                F['h'] = np.insert(E['h'], j, 0.0)
            for k in ('sig', 'mu', 'eps'):
                F[k] = rep(E[k])
            if what == 'zero':
                F['sig'][j] *= 7
                F['mu'][j] *= 2
            other = build(fd, F, qs, o, m, loc, cfg['model'], rng)
            want = call(other, xyz, cfg['field']).reshape(full)
            e['d'] = digits(got, want)
            det.update(got=str(got), other=str(want), index=j)
    except StopIteration:
        pass
    except core.MachineryError:
        raise
    except Exception as ex:
        e['out'], det['error'] = type(ex).__name__, str(ex)[:300]
    ctx.evals += 1
    ctx.event(det, **e)


REG = dict(small=(-1.2, -.4), mid=(-.4, .4), large=(.4, 1.1), huge=(1.1, 2.9), extreme=(2.9, 4.3))


def half(ctx, cfg, rules, rng, laws, fd):
    form = cfg['form']
    npt = 1 if form in ('one', 'freqs') else 6
    nf = 3 if form.startswith('freqs') else 1
    f = logu(rng, 0, 5) * logu(rng, -.1, .1, nf)
    rho = float(logu(rng, 0, 3))
    x = float(logu(rng, *REG[cfg['regime']]))
    if 'integral' in rules:                    # keep off the poles of a lossless earth: displacement at most a third of conduction
        f *= min(1, .3 * x / (2 * np.pi * f.max() * rho * np.sqrt(mu_0 * 20 * epsilon_0)))
    sig = x ** 2 / (2 * np.pi * f[0] * mu_0 * rho ** 2)
    eps = epsilon_0
    kw = {}
    if cfg['qs'] == 'full':
        eps = epsilon_0 * float(rng.uniform(1, 20))
        kw.update(quasistatic=False, epsilon=eps)
    elif cfg['qs'] == 'quasi':
        kw.update(quasistatic=True)
    o, u = orient(rng, cfg['orient'])
    m = float(rng.normal() * 4)
    r = rho * logu(rng, -.1, .1, npt)
    ang = rng.uniform(-np.pi, np.pi, npt) if form != 'axes' else np.pi / 2 * np.arange(npt)
    loc = np.array([np.round(rng.normal() * rho), np.round(rng.normal() * rho), 0.0])
    d = np.stack([r * np.cos(ang), r * np.sin(ang)], 1)
    if form == 'axes':
        d[np.abs(d) < 1e-9 * r[:, None]] = 0
    xyz = np.c_[d + loc[:2], np.zeros(npt)]
    pts = xyz.copy()
    if form == 'xy':
        pts = xyz[:, :2].copy()
    elif form in ('one', 'freqs'):
        pts = xyz[0].copy() if form == 'one' else xyz.copy()
    elif form in ('grid', 'freqsgrid'):
        pts = xyz.reshape(2, 3, 3).copy()
    obj = {}
    N = nf * npt
    env = dict(x=np.tile(xyz[:, 0] - loc[0], nf), y=np.tile(xyz[:, 1] - loc[1], nf), f=np.repeat(f, npt), mu0=mu_0, m=m, px=u[0], py=u[1], pz=u[2])
    env['sig'] = sig + (0 if cfg['qs'] == 'quasi' else 2j * np.pi * env['f'] * eps)
    shape = ((nf,) if nf > 1 else ()) + pts.shape[:-1] + (3,)
    want_shape = tuple(k for k in shape if k != 1)
    part = 'secondary' if cfg['field'] == 'default' else cfg['field']

    def ask():
        ob = fd.MagneticDipoleHalfSpace(frequency=f.copy() if nf > 1 else float(f[0]), sigma=sig, orientation=o, moment=m, location=loc, **kw)
        g = call(ob, pts, cfg['field'])
        if tuple(k for k in g.shape if k != 1) != want_shape:
            return np.zeros((0, 0))
        return g.reshape(N, 3)
    law = laws['surface', part]
    desc = dict(f=f.tolist(), sigma=str(sig), epsilon=eps, orientation=u.tolist(), moment=m, location=loc.tolist(), xyz=xyz.tolist())
    with np.errstate(all='ignore'):
        ev = {k: (v if np.ndim(v) else np.full(N, v)) for k, v in env.items()}
        w = np.max(np.abs(laws['surface', 'total'].np(ev)[0]), axis=-1)
    big = 1 + np.tile(np.abs(xyz).max(1) / np.linalg.norm(xyz - loc, axis=1), nf)
    lawrun.check(ctx, cfg, 'H', ask, [(slice(None), law)], env, desc, rule=rules['H'], pts=(), afloor=40 * core.EPS * big * w)
    if 'integral' in rules:
        e = dict(cfg=cfg, qty='integral', out='ok', shape=True, d=-999, c=0)
        try:
            got = ask()
            E = dict(f=f, sig=np.full((1, nf), sig), mu=np.full((1, nf), mu_0), eps=np.full((1, nf), eps), h=np.array([]))
            R = reflection(laws, E, cfg['qs'])
            want = []
            for i in range(npt):
                en = dict(x=ev['x'][i], y=ev['y'][i], z=0.0, h=0.0, m=m, px=u[0], py=u[1], pz=u[2])
                en = {k: float(v) for k, v in en.items()}
                s = hankel(laws['kernel',], R, en, abs(x) / rho)[0]
                want.append(s + (laws['free',].np({k: np.array([v]) for k, v in en.items()})[0][0] if part == 'total' else 0))
            e['d'] = digits(got, np.array(want), scale=np.max(np.abs(np.array(want)), -1) + 1e-2 * w)
            desc.update(got=str(got), want=str(want))
        except core.MachineryError:
            raise
        except Exception as ex:
            e['out'], desc['error'] = type(ex).__name__, str(ex)[:300]
        ctx.event(desc, **e)


def selftest(laws):
    """the integrator against the closed form of the mirror image (R = 1)"""
    for s in (0.0, .05, 1.0, 8.0):
        env = dict(x=.8, y=-.6, z=s * .4, h=s * .6, px=.3, py=-.5, pz=.7, m=2.)
        g = hankel(laws['kernel',], lambda l: np.ones((1, l.size)), env, 1.)[0]
        want = laws['image',].np({k: np.array([v]) for k, v in env.items()})[0][0]
        if digits(g, want) < 90:
            raise core.MachineryError('the Hankel integrator is not accurate')


def run(ctx):
    import geoana.em.fdem as fd
    m = ctx.model('MC_HankelEarth')
    laws = Laws(m['terms'])
    selftest(laws)
    for cfg, rules in m['cases']:
        for rep in range(6 if ctx.tier == 'thorough' else 1):
            rng = ctx.rng(sorted(cfg.items()), rep)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    if cfg['what'] == 'half':
                        half(ctx, cfg, rules, rng, laws, fd)
                    else:
                        layered(ctx, cfg, rng, laws, fd)
    return ctx.validate('TR_HankelEarth')
