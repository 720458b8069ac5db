"""C10: TE reflection coefficients and sensitivities."""
import numpy as np
from scipy.constants import mu_0
from gen import logu
from terms import Laws
import impls, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (implementation, layers, model kind, wavenumbers, frequencies, memory layout, quantity) enumerated by TLC'


def earth(rng, kind, n, nf):
    """sigma, mu (n, nf) and thicknesses"""
    sig = logu(rng, -3, 0.5, (n, 1)) * np.ones((1, nf))
    mu = np.full((n, nf), mu_0)
    h = logu(rng, 0, 2, n - 1)
    if kind == 'contrast':
        sig = logu(rng, -6, 3, (n, 1)) * np.ones((1, nf))
    elif kind == 'equal':
        sig = np.full((n, nf), logu(rng, -3, 1))
    elif kind == 'magnetic':
        mu = mu_0 * logu(rng, 0, 1.5, (n, 1)) * np.ones((1, nf))
    elif kind == 'chargeable':
        sig = sig * (1 + 0.3j * rng.normal(size=(n, nf)) + 0.2 * rng.random((n, nf)))
        mu = mu * (1 + 0.4 * rng.random((n, nf)) - 0.1j * rng.random((n, nf)))
    elif kind == 'thin':
        h = logu(rng, -4, -1, n - 1)
    elif kind == 'thick':
        h = logu(rng, 2, 4.5, n - 1)
    elif kind == 'vacuum':
        sig = np.zeros((n, nf))
        sig[rng.random(n) < .3] = logu(rng, -12, -9)
    return sig, mu, h


def layout(a, kind, cplx=True):
    a = np.asarray(a)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'C':
        return np.ascontiguousarray(a)
    if kind == 'strided':
        b = np.empty(tuple(2 * k + 1 for k in a.shape), dtype=complex if a.ndim == 2 else a.dtype)
        v = b[tuple(slice(2 * k - 1, None, -2) if k else slice(0, 0) for k in a.shape)]
        v[...] = a
        return v
    b = np.array(a)
    if kind == 'readonly':
        b.setflags(write=False)
    return b


def run(ctx):
    m = ctx.model('MC_Layered')
    laws = Laws(m['terms'])
    mods = impls.rte()
    nl = 5 if ctx.tier == 'quick' else 25
    for rep in range(1 if ctx.tier == 'quick' else 8):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted((k, v) for k, v in cfg.items() if k != 'impl'))
            n = int(cfg['layers'][1])
            nf = dict(one=1, two=2, many=4)[cfg['freqs']]
            fr = logu(rng, -1, 5, nf)
            sig, mu, h = earth(rng, cfg['model'], n, nf)
            d = 1 / np.sqrt(np.pi * fr.mean() * mu_0 * max(abs(sig).max(), 1e-6))
            lo, hi = dict(generic=(-1, 1), small=(-6, -2), large=(1, 4), zero=(-1, 1))[cfg['lamb']]
            lam = logu(rng, lo, hi, nl) / d
            if cfg['lamb'] == 'zero':
                lam[0] = 0.0
            lk = cfg['layout']
            a_s, a_m = layout(sig if lk == 'real' else sig.astype(complex), lk), layout(mu if lk == 'real' else mu.astype(complex), lk)
            args = (layout(fr, lk), layout(lam, lk), a_s, a_m, layout(h, lk))
            mod = mods[cfg['impl']]
            N = nf * nl
            base = dict(f=np.repeat(fr, nl), l=np.tile(lam, nf), mu0=mu_0)
            for j in range(n):
                base['s%d' % j] = np.repeat(sig[j], nl)
                base['m%d' % j] = np.repeat(mu[j], nl)
                if j < n - 1:
                    base['h%d' % j] = float(h[j])
            desc = dict(f=str(fr), lamb=str(lam), sigma=str(sig), mu=str(mu), h=str(h))
            for qty in sorted(rules):
                if qty == 'R':
                    def call():
                        g = np.asarray(mod.rTE_forward(*args))
                        return g.reshape(-1) if g.shape == (nf, nl) else np.zeros((0, 0))
                    lawrun.check(ctx, cfg, qty, call, [(slice(None), laws[cfg['layers'], 'R'])], base, desc, rule=rules[qty],
                                 pts=(), maxmp=40)
                    continue
                k = n - 1 if qty == 'dh' else n
                pos = dict(ds=0, dh=1, dm=2)[qty]

                def call():
                    g = np.asarray(mod.rTE_gradient(*args)[pos])
                    return g.reshape(-1) if g.shape == (k, nf, nl) else np.zeros((0, 0))
                env = {a: (np.tile(v, k) if np.ndim(v) else v) for a, v in base.items()}
                parts = [(slice(j * N, (j + 1) * N), laws[cfg['layers'], qty, j]) for j in range(k)]
                lawrun.check(ctx, cfg, qty, call, parts, env, desc, rule=rules[qty], pts=(), maxmp=12)
    return ctx.validate('TR_Layered')
