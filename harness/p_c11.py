"""C11: prism kernels."""
import numpy as np
from gen import logu
from terms import Laws
import impls, lawrun

LEVEL = 'model_checking'
RULE = 'one case per (implementation, vanishing offsets, magnitudes, form of the arguments, kernel) enumerated by TLC'
SHAPE = dict(flat=(24,), zerod=(), grid=(4, 5), cube=(2, 3, 4), empty=(0,), strided=(4, 5), readonly=(12,), fortran=(4, 5), int=(16,),
             scalar=(), list=(6,), broadcast=(4, 5), single=(12,), mixed=(8,))


def offsets(rng, cfg, shape):
    n = int(np.prod(shape))
    v = rng.choice([-1, 1], (3, n)) * 10 ** rng.uniform(-0.7, 0.7, (3, n))
    z = cfg['zeros'] if cfg['zeros'] != 'none' else ''
    size = cfg['size']
    if cfg['form'] == 'int':
        v = rng.choice([-1, 1], (3, n)) * rng.integers(1, 60 if size == 'unit' else 10 ** 5, (3, n))
        if size == 'disparate':
            v[rng.integers(3)] = rng.choice([-1, 1], n) * rng.integers(1, 4, n)
    elif size == 'tiny':
        v *= logu(rng, -9, -4)
    elif size == 'huge':
        v *= logu(rng, 4, 9)
    elif size == 'disparate':
        v = rng.choice([-1, 1], (3, n)) * 10 ** rng.uniform(-4, 4, (3, n))
    elif size in ('nearaxis', 'closeaxis'):                 # two offsets much smaller than the third
        k = np.arange(n) % 3
        f = 10 ** (rng.uniform(-6.5, -3, n) if size == 'nearaxis' else rng.uniform(-14, -8, n))
        for j in range(3):
            v[j] = np.where(k == j, v[j], v[j] * f)
    for j, c in enumerate('abc'):
        if c in z:
            v[j] = 0
    return v.reshape((3,) + shape)


def present(v, form):
    """the argument as the caller passes it"""
    if form in ('flat', 'grid', 'cube', 'empty'):
        return v.copy()
    if form == 'zerod':
        return np.array(v)
    if form == 'strided':
        b = np.full((v.shape[0] * 2 + 1, v.shape[1] * 3), np.nan)
        w = b[1::2, ::-3][:, :v.shape[1]]
        w[...] = v
        return w
    if form == 'readonly':
        b = v.copy()
        b.setflags(write=False)
        return b
    if form == 'fortran':
        return np.asfortranarray(v)
    if form == 'int':
        return v.astype(np.int64)
    raise ValueError(form)


def run(ctx):
    m = ctx.model('MC_Kernels')
    laws = Laws(m['terms'])
    mods = impls.prism()
    for rep in range(1 if ctx.tier == 'quick' else 25):
        for cfg, rules in m['cases']:
            rng = ctx.rng(rep, sorted((k, v) for k, v in cfg.items() if k != 'impl'))
            form = cfg['form']
            shape = SHAPE[form]
            v = offsets(rng, cfg, shape)
            if form == 'broadcast':
                v = np.stack(np.broadcast_arrays(v[0][:, :1], v[1][:1], v[2][:1, :1]))
                args = [v[0][:, :1], v[1][:1], v[2][0, 0]]
            elif form == 'single':
                v = v.astype(np.float32).astype(float)
                args = [a.astype(np.float32) for a in v]
            elif form == 'scalar':
                args = [float(a) for a in v]
            elif form == 'list':
                args = [a.tolist() for a in v]
            elif form == 'mixed':
                v[1] = v[1][0]
                v[2] = 0 if not v[2].any() else np.where(v[2] < 0, -3, 2)
                args = [v[0], float(v[1][0]), v[2].astype(int)]
            else:
                args = [present(a, form) for a in v]
            keep = [np.array(a, copy=True) for a in args]
            N = int(np.prod(v.shape[1:]))
            env = dict(a=v[0].reshape(-1), b=v[1].reshape(-1), c=v[2].reshape(-1))
            mod = mods[cfg['impl']]
            for qty in sorted(rules):
                key = (qty, cfg['zeros'])
                on = dict(prism_fzx=env['b'] < 0, prism_fzy=env['a'] < 0).get(qty, np.zeros(N, bool))

                def call():
                    g = np.asarray(getattr(mod, qty)(*args))
                    if any(not np.array_equal(a, b) for a, b in zip(args, keep)):
                        raise ValueError('arguments modified')
                    return g.reshape(-1) if g.shape == v.shape[1:] else np.zeros((0, 0))
                lawrun.check(ctx, cfg, qty, call, [(~on, laws[key + ('pos',)]), (on, laws[key + ('neg',)])], env,
                             dict(args=[str(a)[:200] for a in args]), rule=rules[qty], pts=(), maxmp=24)
    return ctx.validate('TR_Kernels')
