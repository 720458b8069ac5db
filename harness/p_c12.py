"""C12: closed-form responses of loops and vertical dipoles on a half-space."""
import warnings
import numpy as np
from gen import logu
from terms import Laws
import core, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (response, part or interface, form of the arguments, induction number, quantity) enumerated by TLC, against the laws; harmonic and transient responses as Fourier pairs'
MU0 = 4e-7 * np.pi
NUM = dict(small=(-1.7, -.5), mid=(-.5, .5), large=(.5, 1.1), huge=(1.1, 2.9), extreme=(2.9, 4.3))


def setup(rng, cfg, n):
    """parameters whose induction number (k a or theta a) is in the regime; each of length n"""
    a = logu(rng, -.5, 2, n)
    mu = MU0 * rng.uniform(1, 3, n)
    x = logu(rng, *NUM[cfg['regime']], n)
    return a, mu, x


def loops(ctx, cfg, rules, laws, rng, fd, td):
    fdm = cfg['what'] == 'fdloop'
    form = cfg['form']
    n = 1 if form in ('scalar', 'int', 'defaults') else 6
    a, mu, x = setup(rng, cfg, n)
    cur, turns = rng.normal(size=n) * 3, rng.integers(1, 6, n)
    s = logu(rng, 1, 5, n) if fdm else logu(rng, -6, -2, n)             # frequency or time
    if form != 'broadcast':
        mu, cur, turns, a = (np.full(n, v[0]) for v in (mu, cur, turns, a))
    if form == 'defaults':
        mu, cur, turns, a = np.full(n, 1.25663706127e-06), np.ones(n), np.ones(n, int), np.ones(n)
        from scipy.constants import mu_0
        mu[:] = mu_0
    sig = x ** 2 / (2 * np.pi * s * mu * a ** 2) if fdm else 4 * s * x ** 2 / (mu * a ** 2)
    if form in ('array', 'column', 'complexsigma', 'complexmu', 'int'):          # one medium, several samples
        sig = np.full(n, sig[0])
        s = x ** 2 / (2 * np.pi * sig * mu * a ** 2) if fdm else mu * sig * a ** 2 / (4 * x ** 2)
    if form == 'int':
        s, cur, a = np.maximum(1, np.round(s)), np.full(n, 3.0), np.maximum(1, np.round(a))
    if form == 'complexsigma' and fdm:
        sig = sig * (1 + .3j * rng.random(n))
    if form == 'complexmu' and fdm:
        mu = mu * (1 - .2j * rng.random(n))
    one = lambda v: v[0].item()
    shape = () if n == 1 else (n,)
    if n == 1:
        S, SG, MU, A, C, T = (one(v) for v in (s, sig, mu, a, cur, turns))
        if form == 'int':
            S, A, C = int(S), int(A), int(C)
    else:
        keep = lambda v: v if form == 'broadcast' else v[0].item()
        S, SG, MU, A, C, T = s, (sig if form in ('broadcast', 'complexsigma') else sig[0].item()), (mu if form in ('broadcast', 'complexmu') else mu[0].item()), keep(a), keep(cur), keep(turns)
        if form == 'column':
            S, shape = s[:, None], (n, 1)
    kw = dict(mu=MU, radius=A, current=C, turns=T) if form != 'defaults' else {}
    mod = fd if fdm else td
    names = dict(H='vertical_magnetic_field_horizontal_loop', B='vertical_magnetic_flux_horizontal_loop', dH='vertical_magnetic_field_time_deriv_horizontal_loop', dB='vertical_magnetic_flux_time_deriv_horizontal_loop')
    part = 'secondary' if cfg['part'] == 'default' else cfg['part']
    if fdm and cfg['part'] != 'default':
        kw['secondary'] = part == 'secondary'
    env = dict(mu=mu, sig=sig, a=a, I=cur, n=turns.astype(float))
    env['f' if fdm else 't'] = s
    for qty, rule in rules.items():
        def call():
            r = np.asarray(getattr(mod, names[qty])(S, SG, **kw))
            return r.reshape(n) if r.shape == shape else r.reshape((1, 1) + r.shape)
        law = laws['fdloop', part, qty] if fdm else laws['tdloop', qty]
        lawrun.check(ctx, cfg, qty, call, [(slice(None), law)], env, {k: str(v) for k, v in env.items()}, rule=rule, pts=())


def dipole(ctx, cfg, rules, laws, rng, td):
    form = cfg['form']
    n = 1 if form == 'one' else 6
    nt = 3 if form.startswith('times') else 1
    sig, mu, m = float(logu(rng, -3, 1)), float(MU0 * rng.uniform(1, 3)), float(rng.normal() * 4)
    if form == 'defaults':
        from scipy.constants import mu_0
        sig, mu, m = 1.0, mu_0, 1.0
    t = logu(rng, -5, -3) * logu(rng, -.2, .2, nt)
    th = np.sqrt(mu * sig / (4 * t[0]))
    r = logu(rng, *NUM[cfg['regime']], n) / th
    ang = rng.uniform(-np.pi, np.pi, n)
    if form == 'axes':
        ang = np.pi / 2 * np.arange(n)
    xy = np.stack([r * np.cos(ang), r * np.sin(ang)], 1)
    if form == 'axes':
        xy[np.abs(xy) < 1e-9 * r[:, None]] = 0
    loc = np.array([rng.normal() * r[0], rng.normal() * r[0], rng.normal()]) if cfg['part'] == 'class' else np.zeros(3)
    if form == 'axes':
        loc = np.round(loc)
    obs = xy + loc[:2]
    shape = (n,)
    arg = obs.copy()
    if form == 'xyz':
        arg = np.c_[obs, rng.normal(size=n)]
    elif form == 'one':
        arg, shape = obs[0].copy(), ()
    elif form in ('grid', 'timesgrid'):
        arg, shape = obs.reshape(2, 3, 2), (2, 3)
    elif form == 'tuple':
        arg = tuple(obs.T.copy())
    elif form == 'int':
        obs = np.sign(obs) * np.ceil(np.abs(obs))
        obs[obs == 0] = 1
        arg = obs.astype(int)
    xy = obs - loc[:2]
    tt = t.copy() if nt > 1 else float(t[0])
    full = ((nt,) if nt > 1 else ()) + shape
    names = dict(H='magnetic_field_vertical_magnetic_dipole', B='magnetic_flux_vertical_magnetic_dipole', dH='magnetic_field_time_deriv_magnetic_dipole', dB='magnetic_flux_time_deriv_magnetic_dipole')
    meth = dict(H='magnetic_field', B='magnetic_flux_density', dH='magnetic_field_time_derivative', dB='magnetic_flux_time_derivative')
    N = nt * n
    env = dict(x=np.tile(xy[:, 0], nt), y=np.tile(xy[:, 1], nt), t=np.repeat(t, n), m=np.full(N, m), mu=np.full(N, mu), sig=np.full(N, sig))
    desc = dict(sigma=sig, mu=mu, m=m, t=t.tolist(), xy=xy.tolist(), location=loc.tolist())
    big = np.tile((np.abs(obs).max(1) + np.abs(loc).max()) / np.linalg.norm(xy, axis=1), nt)
    for qty, rule in rules.items():
        def call():
            if cfg['part'] == 'class':
                o = td.VerticalMagneticDipoleHalfSpace(time=tt, sigma=sig, mu=mu, moment=m, location=loc) if form != 'defaults' else td.VerticalMagneticDipoleHalfSpace(time=tt, location=loc)
                r = getattr(o, meth[qty])(arg)
            else:
                f = getattr(td, names[qty])
                r = f(tt, arg) if form == 'defaults' else f(tt, arg, sig, mu, m)
            r = np.asarray(r)
            return r.reshape(N, 3) if r.shape == full + (3,) else r.reshape((1, 1) + r.shape)
        law = laws['tddipole', qty]
        # the Cartesian components carry the rounding of the offset
        with np.errstate(all='ignore'):
            w = np.max(np.abs(law.np(env)[0]), axis=-1)
        lawrun.check(ctx, cfg, qty, call, [(slice(None), law)], env, desc, rule=rule, pts=(), afloor=20 * core.EPS * big * w)


def reference(ctx, cfg, rules, laws, rng, ref):
    n = 1 if cfg['form'] == 'scalar' else 6
    sig, mu, m = logu(rng, -3, 1, n), MU0 * rng.uniform(1, 3, n), rng.normal(size=n) * 3
    t = logu(rng, -5, -3, n)
    if cfg['form'] == 'array':
        sig[:], mu[:], m[:], t[:] = sig[0], mu[0], m[0], t[0]
    th = np.sqrt(mu * sig / (4 * t))
    r = logu(rng, *NUM[cfg['regime']], n) / th
    pick = lambda v: float(v[0]) if n == 1 or (cfg['form'] == 'array' and v is not r) else v
    M, TH, R, SG, MU, T = (pick(v) for v in (m, th, r, sig, mu, t))
    env = dict(x=r, y=0 * r, t=t, m=m, mu=mu, sig=sig)
    fs = dict(hz=lambda: ref.hz_from_vert_4_69a(M, TH, R), dhz=lambda: ref.dhz_from_vert_4_70(M, TH, R, SG, MU), hp=lambda: ref.hp_from_vert_4_72(M, TH, R), dhp=lambda: ref.dhp_from_vert_4_74(M, TH, R, T))
    for qty, rule in rules.items():
        def call():
            g = np.asarray(fs[qty]())
            return g.reshape(n) if g.shape == (() if n == 1 else (n,)) else g.reshape((1, 1) + g.shape)
        lawrun.check(ctx, cfg, qty, call, [(slice(None), laws['reference', qty])], env, {k: str(v) for k, v in env.items()}, rule=rule, pts=())


def fourier(ctx, cfg, rng, fd, td):
    """H(w) = integral of -dh/dt exp(-i w t)"""
    e = dict(cfg=cfg, qty='pair', out='ok', shape=True, d=-999, c=0)
    det = None
    try:
        sig, a = float(logu(rng, -2, 0)), float(logu(rng, 1, 2))
        tc = MU0 * sig * a ** 2
        worst = 999
        for w in logu(rng, -.3, 1, 2) * 2 / tc:
            if cfg['part'] == 'loop':
                fs = [lambda t: -td.vertical_magnetic_field_time_deriv_horizontal_loop(t, sig, MU0, a, 2.0, 3)]
                H = [complex(fd.vertical_magnetic_field_horizontal_loop(w / 2 / np.pi, sig, MU0, a, 2.0, 3, secondary=False))]
            else:
                fs = [lambda t: -td.magnetic_field_time_deriv_magnetic_dipole(t, np.array([a, 0.0]), sig, MU0, 2.0)[..., 0],
                      lambda t: -td.magnetic_field_time_deriv_magnetic_dipole(t, np.array([a, 0.0]), sig, MU0, 2.0)[..., 2]]
                h = fd.MagneticDipoleHalfSpace(frequency=[w / 2 / np.pi], sigma=sig, quasistatic=True, orientation='Z', moment=2.0).magnetic_field(np.array([[a, 0.0, 0.0]]), field='total')
                h = np.asarray(h).reshape(3)
                H = [complex(h[0]), complex(h[2])]
            # panels of geometric length, at most half a period long; the ends in closed form
            edges = [1e-6 * tc]
            while edges[-1] < 300 * tc:
                edges.append(edges[-1] + min(edges[-1], np.pi / w))
            edges = np.array(edges)
            xs, ws = np.polynomial.legendre.leggauss(20)
            half = np.diff(edges)[:, None] / 2
            tt = (edges[:-1, None] + half * (1 + xs)).ravel()
            wt = (half * ws).ravel()
            lo, hi = edges[0], edges[-1]
            for f, want, start in zip(fs, H, (1,) if len(fs) == 1 else (2, 1)):     # constant, or as 1/sqrt(t), towards t = 0
                sc = abs(want)
                ft = np.concatenate([np.ravel(f(c)) for c in np.array_split(tt, 1 + tt.size // 50000)])
                integ = np.sum(ft * wt * np.exp(-1j * w * tt)) + float(np.ravel(f(np.array([lo])))[0]) * lo * start * (1 - 1j * w * lo / (1 + start)) + float(np.ravel(f(np.array([hi])))[0]) * np.exp(-1j * w * hi) / (1j * w)
                d = core.clip(-np.log10(max(abs(integ - want) / sc, 1e-16)))
                if d < worst:
                    worst, det = d, dict(sigma=sig, a=a, omega=w, integral=str(integ), harmonic=str(want))
        e['d'] = worst
    except Exception as ex:
        e['out'], det = type(ex).__name__, str(ex)[:300]
    ctx.evals += 1
    ctx.event(det, **e)


def run(ctx):
    import geoana.em.fdem as fd, geoana.em.tdem as td
    from geoana.em.tdem import reference as ref
    m = ctx.model('MC_HalfSpaceLoops')
    laws = Laws(m['terms'])
    for cfg, rules in m['cases']:
        for rep in range(12 if ctx.tier == 'thorough' else 2):
            rng = ctx.rng(sorted(cfg.items()), rep)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    if cfg['what'] in ('fdloop', 'tdloop'):
                        loops(ctx, cfg, rules, laws, rng, fd, td)
                    elif cfg['what'] == 'tddipole':
                        dipole(ctx, cfg, rules, laws, rng, td)
                    elif cfg['what'] == 'reference':
                        reference(ctx, cfg, rules, laws, rng, ref)
                    else:
                        fourier(ctx, cfg, rng, fd, td)
    return ctx.validate('TR_HalfSpaceLoops')
