"""C14: each output value depends only on its own point and sample, and sits in its own slot."""
import warnings
import numpy as np
import core, catalog
from gen import logu
from objects import split

LEVEL = 'model_checking'
RULE = 'every (class, query, layout of the points, layout of the samples) of the plan; every block of the batch against the answers for single points and samples'


def base_points(entry, obs, shape, rng, vals, sec=False):
    n = int(np.prod(shape)) if shape else 1
    P = catalog.points(entry, rng, max(n, 1))[:n]
    if entry['points'] == 'surface':             # at induction numbers where the closed forms keep their digits
        mu = float(vals['mu'].read) if 'mu' in vals else 4e-7 * np.pi
        w = np.asarray(vals[entry['samples']].read)
        sg = float(vals['sigma'].read)
        L = float(np.mean(1 / np.sqrt(np.pi * w * mu * sg) if entry['samples'] == 'frequency' else np.sqrt(2 * w / (sg * mu))))
        u = rng.normal(size=(n, 3)) * [1, 1, 0]
        P = np.asarray(vals['location'].read, float) + u / np.linalg.norm(u, axis=1, keepdims=True) * L * rng.uniform(1, 4, (n, 1))
        P[:, 2] = 0
        if obs == 'int':
            return np.where(np.abs(P[:, :1]) > 5, np.round(P), np.round(P) + [7, 0, 0]).reshape(tuple(shape) + (3,))
    elif entry['points'] == 'any' and obs != 'int':
        P = P * logu(rng, -1.3, 2 if rng.random() < .5 and not sec else .5, (n, 1))      # near and far, inside and outside of bodies
        # (a secondary field is the difference of total and primary: it has no digits left far away)
        if 'location' in vals:
            P = P + np.asarray(vals['location'].read, float)
    if obs == 'int':
        P = np.round(P * 3)
        P += (np.arange(n) * 5)[:, None] * np.array([1, 1, 0])
    if obs == 'repeated' and n > 3:
        P[3] = P[1]
        P[5] = P[0]
    if obs == 'singular':
        for a in ('location', 'location_a', 'min_location', 'nodes'):
            if a in vals:
                v = np.asarray(vals[a].read, float)
                P[2] = v if v.ndim == 1 else v[0]
                break
    return P.reshape(tuple(shape) + (3,))


def as_layout(P, obs):
    if obs in ('tuple', 'tuplegrid', 'tuplepoint', 'tuplecolumn', 'tuplecube'):
        return tuple(P[..., k].copy() if P.ndim > 1 else float(P[k]) for k in range(3))
    if obs == 'listarrays':                      # three points, each an array
        return [p.copy() for p in P]
    if obs == 'tuplelists':                      # three coordinates, each a list
        return tuple(P[:, k].tolist() for k in range(3))
    if obs in ('list', 'listgrid', 'listpoint'):
        return P.tolist()
    if obs == 'int':
        return P.astype(int)
    if obs == 'single precision':
        return P.astype(np.float32)
    if obs == 'strided':
        b = np.full((P.shape[0] * 2 + 1, 7), 99.0)
        v = b[1::2, 1::2][:P.shape[0], :3]
        v[...] = P
        return v
    if obs == 'reversed':
        return P[::-1, ::-1].copy()[::-1, ::-1]
    if obs == 'fortran':
        return np.asfortranarray(P)
    if obs == 'readonly':
        P = P.copy()
        P.setflags(write=False)
        return P
    return P.copy()


def equal(a, b, tol=1e-9):
    """same block of components (a shape like b), allowing rounding"""
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any():
        return False
    m = np.max(np.abs(b[fb]), initial=0)
    return bool((np.abs(a[fa] - b[fb]) <= tol * m).all())


def observe(cfg, entry, rng):
    name, kw = split(entry, cfg['q'])
    sec = 'secondary' in cfg['q']
    comp = {0: (), 1: (3,), 2: (3, 3)}[cfg['rank']]
    pair = cfg['sam'] == 'pair'
    vals = catalog.values(entry, rng, lambda a: int(rng.integers(6)))
    ns = {'scalar': None, 'pair': None, 's1': 1, 's2': 2, 's3': 3}.get(cfg['sam'], 6)
    sa = entry['samples']
    if sa:
        base = vals[sa].read
        lo = np.log10(np.min(base))
        w = .4 if entry['points'] == 'surface' else 1.2
        fs = logu(rng, lo - w, lo + w, ns or 1)
        vals[sa] = catalog.Val(float(fs[0]) if ns is None else fs.copy(), fs)
    obj = catalog.construct(entry, vals)
    singles = []
    for k in range(ns or 1):
        v = dict(vals)
        if sa:
            f = float(fs[k])
            v[sa] = catalog.Val(np.array([f]) if entry['rows'] else f, f)
        singles.append(catalog.construct(entry, v))
    if cfg['obs'] in ('onenear', 'onefar'):
        n = 48
        P = base_points(entry, cfg['obs'], (n,), rng, vals, sec)
        k = int(rng.integers(n))
        if entry['points'] == 'any':
            at = np.asarray(vals['location'].read, float) if 'location' in vals else 0.0
            u = rng.normal(size=(n, 3))
            u = u / np.linalg.norm(u, axis=1, keepdims=True)
            far = (np.arange(n) == k) == (cfg['obs'] == 'onefar')
            P = at + u * np.where(far, logu(rng, .5, .8, n) if sec else logu(rng, 1, 2, n), logu(rng, -2.5, -1.5, n))[:, None]
        r = np.asarray(catalog.ask(obj, name, kw, P))
        if r.shape != (n,) + comp:
            return list(r.shape), [False], None
        at = np.unique(np.r_[k, 0, n - 1, rng.integers(n, size=4)])
        bad = [int(i) for i in at if not equal(r[i], np.asarray(catalog.ask(obj, name, kw, P[i])).reshape(comp), 1e-5 if entry['name'] == 'HarmonicDipoleHalfSpace' else 1e-9)]
        return list(r.shape), [not bad], bad
    if cfg['obs'] in ('big', 'biggrid'):
        first = next(iter(catalog.queries(entry)))
        n = (60000 if cfg['rank'] < 2 else 30000) if (name, kw) == (first[0], first[2]) else 7200
        sh = (n,) if cfg['obs'] == 'big' else (12, 10, n // 120)
        n = int(np.prod(sh))
        P = base_points(entry, 'big', (n,), rng, vals, sec)
        if entry['points'] == 'any' and not sec:
            P = P * logu(rng, -1, 1, (n, 1))
        r = np.asarray(catalog.ask(obj, name, kw, P.reshape(sh + (3,))))
        if r.shape != sh + comp:
            return list(r.shape), [False], None
        r = r.reshape((n,) + comp)
        at = np.unique(np.r_[0, n - 1, rng.integers(n, size=40)])
        bad = [int(i) for i in at if not equal(r[i], np.asarray(catalog.ask(obj, name, kw, P[i])).reshape(comp), 1e-5 if entry['name'] == 'HarmonicDipoleHalfSpace' else 1e-9)]
        return list(r.shape), [not bad], bad
    shape = cfg['shape']
    P = base_points(entry, cfg['obs'], shape, rng, vals, sec)
    N = base_points(entry, cfg['obs'], shape, rng, vals) if pair else None
    if cfg['obs'] == 'single precision':
        P = P.astype(np.float32).astype(float)
        N = N.astype(np.float32).astype(float) if pair else None

    def ask(o, p, q):
        return np.asarray(catalog.ask(o, name, dict(kw, xyz_n=q) if pair else kw, p))
    r = ask(obj, as_layout(P, cfg['obs']), as_layout(N, cfg['obs']) if pair else None)
    sh = list(r.shape)
    Pf = P.reshape(-1, 3)
    Nf = N.reshape(-1, 3) if pair else [None] * len(Pf)
    one = [[ask(o, p[None] if entry['rows'] else p, q).reshape(comp) for p, q in zip(Pf, Nf)] for o in singles]
    size = int(np.prod(comp)) if comp else 1
    if r.size != size * len(Pf) * len(singles):
        return sh, [], None
    blocks = r.reshape((-1,) + comp) if r.size else []
    tol = 1e-5 if entry['name'] == 'HarmonicDipoleHalfSpace' else 1e-9      # what cancellation leaves at small induction numbers
    hits = [[[i, j] for i in range(len(one)) for j in range(len(Pf)) if equal(b, one[i][j], tol)] for b in blocks]
    return sh, hits, dict(points=Pf.tolist(), result=str(r)[:300])


def run(ctx):
    m = ctx.model('MC_Layout')
    cat = catalog.catalogue()
    SH = dict(single=(), one=(1,), two=(2,), three=(3,), samecount=(3,), grid=(2, 4), threes=(3, 3), cube=(2, 1, 3), column=(4, 1), tuple=(4,), list=(4,),
              tuplegrid=(2, 3), listgrid=(2, 3), tuplecolumn=(4, 1), tuplecube=(1, 2, 2), tuplepoint=(), listpoint=(), listarrays=(3,), tuplelists=(3,), empty=(0,), emptygrid=(2, 0))
    for cfg, rules in m['cases']:
        for rep in range(8 if ctx.tier == 'thorough' else 3 if cfg['obs'] in ('onenear', 'onefar') else 1):
            rng = ctx.rng(sorted((k, str(v)) for k, v in cfg.items()), rep)
            e = dict(cfg=cfg, qty='batch', out='ok', shape=[], hits=[])
            det = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with np.errstate(all='ignore'):
                        sh, hits, det = observe(dict(cfg, shape=SH.get(cfg['obs'], (6,))), cat[cfg['cls']], rng)
                e.update(shape=sh, hits=hits)
            except Exception as ex:
                e.update(out=type(ex).__name__)
                det = str(ex)[:300]
            ctx.evals += 1
            ctx.event(det, **e)
    return ctx.validate('TR_Layout')
