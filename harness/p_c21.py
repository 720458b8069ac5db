"""C21: quantities derived from the parameters of the medium."""
import warnings
import numpy as np
from gen import logu
from terms import Laws
import catalog, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (interface, quasistatic choice, form of the arguments, medium, quantity) enumerated by TLC, against the laws; every sequence of up to three assignments of resistivity and conductivity'


def medium(rng, cfg, qty):
    k = cfg['medium']
    sig = float(logu(rng, *dict(generic=(-3, 1), resistive=(-6, -4), conductive=(1, 7), lossless=(-17, -11), zerofreq=(-3, 1))[k]))
    mu = float(4e-7 * np.pi * logu(rng, -.5, 3))
    eps = float(8.854e-12 * logu(rng, 0, 2))
    if k == 'generic' and qty != 'skin_depth' and rng.random() < .3:
        eps = 0.0
    return sig, mu, eps


def build(who, kw, sam):
    """an object with the given medium and samples"""
    import geoana.em.fdem as fd, geoana.em.tdem as td
    if who in ('BaseFDEM', 'BaseTDEM'):
        return (fd.BaseFDEM if who == 'BaseFDEM' else td.BaseTDEM)(**kw)
    return catalog.catalogue()[who]['cls'](**kw)


def case(ctx, cfg, qty, rule, laws, rng, fd, td):
    harm = cfg['kind'] == 'harmonic'
    form = cfg['form']
    sig, mu, eps = medium(rng, cfg, qty)
    n = 1 if form in ('scalar', 'int', 'one', 'defaults') else 5
    x = logu(rng, 0, 8, n) if harm else logu(rng, -8, 0, n) if qty != 'peak_time' else logu(rng, -2, 4, n) * rng.choice([-1, 1], n)
    if cfg['medium'] == 'zerofreq':
        x[rng.integers(n)] = 0.0
    if form == 'int':
        x = np.ceil(x) if cfg['medium'] != 'zerofreq' else 0 * x
    arg = float(x[0]) if form in ('scalar', 'defaults') else int(x[0]) if form == 'int' else x.copy()
    shape = () if form in ('scalar', 'int', 'defaults') else (n,)
    qs = cfg['qs'] == 'quasi'
    law = laws['omega'] if qty == 'omega' else laws[cfg['qs'], qty] if harm else laws[qty]
    dev = laws['full', 'skindev'] if qty == 'skin_depth' and not qs else None
    sgs = np.full(n, sig)
    if cfg['who'] == 'function':
        f = getattr(fd if harm else td, qty)
        if form == 'column':
            arg, shape = x[:, None], (n, 1)
        s = sig
        if form == 'sigmas':
            sgs = sig * logu(rng, -1, 1, n)
            s = sgs.copy()
        elif form == 'grid':
            cols = sig * logu(rng, -1, 1, 3)
            s, arg, shape = cols[None, :], x[:, None], (n, 3)
            x, sgs = np.repeat(x, 3), np.tile(cols, n)
            if qty == 'omega':
                shape, x, sgs = (n, 1), x[::3], sgs[::3]
        if form == 'defaults':
            from scipy.constants import mu_0, epsilon_0
            mu, eps = mu_0, epsilon_0
        if qty == 'omega':
            call = lambda: f(arg)
        elif qty == 'sigma_hat':
            call = lambda: f(arg, s, quasistatic=qs) if form == 'defaults' else f(frequency=arg, sigma=s, epsilon=eps, quasistatic=qs) if form == 'keyword' else f(arg, s, eps, qs)
            if qs:
                shape = np.shape(s)
                if form == 'grid':
                    x, sgs = np.tile(x[:1], 3), cols
                elif np.ndim(s) == 0:
                    x, sgs = x[:1], sgs[:1]
        elif harm:
            call = lambda: f(arg, s, quasistatic=qs) if form == 'defaults' else f(frequency=arg, sigma=s, epsilon=eps, mu=mu, quasistatic=qs) if form == 'keyword' else f(arg, s, mu, eps, qs)
        else:
            call = lambda: f(arg, s) if form == 'defaults' else f(arg, sigma=s, mu=mu) if form == 'keyword' else f(arg, s, mu)
    else:
        if form == 'list':
            arg = x.tolist()
        kw = dict(mu=mu, epsilon=eps, sigma=sig)
        if form == 'byrho':
            kw.pop('sigma')
        if form == 'changed':                       # other values first
            kw = dict(mu=mu * 3, epsilon=eps * 2, sigma=sig * 7)
        sam = 'frequency' if harm else 'time'
        kw[sam] = arg if qty != 'peak_time' else 1e-3
        if form == 'changed':
            kw[sam] = 17.0
        if harm:
            kw['quasistatic'] = qs if form != 'changed' else not qs

        def call():
            o = build(cfg['who'], kw, sam)
            if form == 'byrho':
                o.rho = 1 / sig
            if form == 'changed':
                getattr(o, 'omega' if harm else 'theta')
                o.mu, o.epsilon, o.sigma = mu, eps, sig
                setattr(o, sam, arg if qty != 'peak_time' else 1e-3)
                if harm:
                    o.quasistatic = qs
            return o.peak_time(arg if form != 'list' else x) if qty == 'peak_time' else getattr(o, qty)
        if qty == 'sigma_hat' and qs:
            shape, x, sgs = (), x[:1], sgs[:1]
    N = len(x)

    def got():
        r = np.asarray(call())
        return r.reshape(N) if r.shape == shape else r.reshape((1, 1) + r.shape)
    env = dict(sig=sgs, mu=np.full(N, mu), eps=np.full(N, eps))
    env[dict(peak_time='z', diffusion_distance='t', theta='t').get(qty, 'f')] = x
    desc = dict(sigma=str(sgs), mu=mu, eps=eps, samples=str(arg))
    lawrun.check(ctx, cfg, qty, got, [(slice(None), law)], env, desc, rule=rule, pts=(), dev=dev)


def layered(ctx, cfg, qty, rule, laws, rng, fd):
    nl, nf = map(int, cfg['form'].split('x'))
    f, sig, eps = logu(rng, 0, 8, nf), logu(rng, -3, 1, nl), 8.8541878128e-12 * (1 + 5 * rng.random(nl))
    qs = cfg['qs'] == 'quasi'
    make = lambda: fd.MagneticDipoleLayeredHalfSpace(thickness=rng.uniform(1, 9, nl - 1), frequency=f, sigma=sig, epsilon=eps, mu=4e-7 * np.pi, quasistatic=qs)
    if qty == 'omega':
        lawrun.check(ctx, cfg, qty, lambda: make().omega, [(slice(None), laws['omega'])], dict(f=f), dict(f=f.tolist()), rule=rule, pts=())
        return
    F, S, E = (a.ravel() for a in np.broadcast_arrays(f[None, :], sig[:, None], eps[:, None]))
    law = laws[cfg['qs'], 'sigma_hat']
    dv = False
    try:                                               # the recorded deviation: frequencies run along the layers
        g = np.asarray(make().sigma_hat)
        st, et = np.tile(sig[:, None], (1, nf)), np.tile(eps[:, None], (1, nf))
        want = (st + (0 if qs else 1j * 2 * np.pi * f[:, None] * et)).T
        dv = g.shape == want.shape and bool(np.allclose(g, want, rtol=1e-12, atol=0))
    except Exception:
        dv = not qs and nl not in (1, nf) and nf != 1
    lawrun.check(ctx, cfg, qty, lambda: (lambda r: r.ravel() if r.shape == (nl, nf) else r.reshape((1, 1) + r.shape))(np.asarray(make().sigma_hat)),
                 [(slice(None), law)], dict(f=F, sig=S, eps=E), dict(f=f.tolist(), sigma=sig.tolist()), rule=rule, pts=())
    ctx.events[-1]['deviates'] = dv


BAD = [0.0, -1.0, 'abc', None, [1.0, 2.0], -1e-9]


def sequence(ctx, cfg, rng):
    entry = catalog.catalogue()[cfg['who']]
    vals = catalog.values(entry, rng, lambda a: 0)
    a = 'sigma' if 'sigma' in vals else 'rho'
    seq = cfg['seq']
    v = logu(rng, -3, 3, len(seq))                       # the conductivity each step asks for
    acc, holds, rec = [], [], []
    try:
        for k, op in enumerate(seq):
            ok = True
            try:
                if op == 'ctor':
                    kw = {n: x.arg() for n, x in vals.items()}
                    kw[a] = float(v[k]) if a == 'sigma' else float(1 / v[k])
                    o = entry['cls'](**kw)
                elif op.startswith('bad'):
                    setattr(o, op[3:], BAD[rng.integers(len(BAD))])
                else:
                    setattr(o, op, float(v[k]) if op == 'sigma' else float(1 / v[k]))
            except Exception:
                ok = False
            s, r = float(o.sigma), float(o.rho)
            m = np.where(np.abs(s / v - 1) < 1e-12)[0]
            acc.append(ok)
            holds.append(int(m[0]) + 1 if len(m) else 0)
            rec.append(bool(abs(r * s - 1) < 1e-14))
    except Exception as ex:
        acc, holds, rec = [False] * len(seq), [0] * len(seq), [False] * len(seq)
    ctx.evals += 1
    ctx.event(dict(values=v.tolist()), cfg=cfg, qty='reciprocal', out='ok', accepted=acc, holds=holds, recip=rec)


def run(ctx):
    import geoana.em.fdem as fd, geoana.em.tdem as td
    m = ctx.model('MC_Medium')
    laws = Laws(m['terms'])
    for cfg, rules in m['cases']:
        for rep in range(10 if ctx.tier == 'thorough' else 1):
            for qty, rule in rules.items():
                rng = ctx.rng(sorted((k, str(v)) for k, v in cfg.items()), qty, rep)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with np.errstate(all='ignore'):
                        if cfg['kind'] == 'reciprocal':
                            sequence(ctx, cfg, rng)
                        elif cfg['kind'] == 'layered':
                            layered(ctx, cfg, qty, rule, laws, rng, fd)
                        else:
                            case(ctx, cfg, qty, rule, laws, rng, fd, td)
    return ctx.validate('TR_Medium')
