"""C15: moving or rotating the whole experiment moves and rotates the fields."""
import warnings
import numpy as np
import core, catalog, gen
from objects import split
from p_c14 import base_points

LEVEL = 'model_checking'
RULE = 'every (class, query, motion, region, form of orientation) of the plan; the result of the moved experiment against the moved result'


def rodrigues(k, a):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def motion(cfg, rng):
    """orthogonal matrix and translation"""
    mv, vert = cfg['move'], cfg['group'] == 'vertical'
    k = np.array([0, 0, 1.0]) if vert else gen.unit(rng)
    g, t = np.eye(3), np.zeros(3)
    if mv in ('translate', 'both', 'both90'):
        t = rng.normal(size=3) * 4
        if vert:
            t[2] = 0
    if mv in ('rotate', 'both'):
        g = rodrigues(k, rng.uniform(.3, 6))
    elif mv == 'half':
        g = rodrigues(k, np.pi)
    elif mv == 'tiny':
        g = rodrigues(k, gen.logu(rng, -6, -3))
    elif mv == 'mirror':
        n = gen.unit(rng)
        if vert:
            n = np.array([n[0], n[1], 0]) / np.hypot(n[0], n[1])
        g = (np.eye(3) - 2 * np.outer(n, n)) @ rodrigues(k, rng.uniform(.3, 6))
    elif mv in ('rot90', 'flip', 'both90'):
        want = -1 if mv == 'flip' else 1
        while True:
            g = np.zeros((3, 3))
            p = rng.permutation(3)
            g[np.arange(3), p] = rng.choice([-1.0, 1.0], 3)
            if vert and g[2, 2] != 1:
                continue
            if round(np.linalg.det(g)) == want and not np.allclose(g, np.eye(3)):
                break
    return g, t


def moved(entry, vals, g, t, cfg):
    det = round(np.linalg.det(g))
    out = {}
    for a, v in vals.items():
        r = v.read
        if a in ('location', 'location_a', 'location_b', 'nodes'):
            r = np.asarray(r, float) @ g.T + t
        elif a == 'orientation':
            r = g @ r * (det if cfg['source'] == 'axial' else 1)
        elif a in ('primary_field', 'magnetization'):
            r = g @ r
        elif a == 'moment' and entry['name'] == 'TransientDipoleHalfSpace':
            r = r * det
        elif a in ('min_location', 'max_location'):
            lo, hi = (np.asarray(vals[b].read, float) @ g.T + t for b in ('min_location', 'max_location'))
            r = np.minimum(lo, hi) if a == 'min_location' else np.maximum(lo, hi)
        elif entry['name'] == 'Fault' and a in ('O', 'center'):
            r = g[:2, :2] @ r + t[:2]
        elif entry['name'] == 'Fault' and a in ('U', 'V'):
            r = g[:2, :2] @ r
        elif entry['name'] == 'Fault' and a == 'strike':
            r = float((r - np.degrees(np.arctan2(g[1, 0], g[0, 0]))) % 360)
        elif isinstance(v.assign, (list, int, float, str, tuple)) or np.ndim(v.assign) == 0 or a in ('shape',):
            out[a] = v
            continue
        out[a] = catalog.Val(np.array(r) if np.ndim(r) else r, r)
    return out


def fault(rng):
    a = rng.uniform(0, 2 * np.pi)
    V = catalog.Val
    z = lambda *x: V(np.array(x, float), np.array(x, float))
    f = lambda x: V(float(x), float(x))
    return dict(O=z(*(rng.normal(size=2) * 2e4)), U=z(3e4 * np.cos(a), 3e4 * np.sin(a)), V=z(-2e4 * np.sin(a + .3), 2e4 * np.cos(a + .3)), center=z(*(rng.normal(size=2) * 5e3)),
                depth_top=f(rng.uniform(1e3, 3e3)), depth_bottom=f(rng.uniform(5e3, 2e4)), strike=f(rng.uniform(0, 360)), dip=f(rng.uniform(10, 80)), rake=f(rng.uniform(-180, 180)),
                slip=f(rng.uniform(.2, 3)), length=f(rng.uniform(3e3, 2e4)), beta=f(rng.uniform(1e10, 5e10)), mu=f(rng.uniform(1e10, 5e10)), shape=V((4, 3), (4, 3)))


def observe(cfg, entry, rng):
    name, kw = split(entry, cfg['q'])
    g, t = motion(cfg, rng)
    det = round(np.linalg.det(g))
    paired = False
    if entry['name'] == 'Fault':
        vals = fault(rng)
        if cfg['move'] in ('translate', 'both'):
            t = t * 1e3
        P = None
    else:
        vals = catalog.values(entry, rng, lambda a: int(rng.integers(6)))
        for a in ('mu', 'epsilon') if entry['name'] != 'HarmonicDipoleLayered' else ():
            if a in vals and a == 'mu':
                m = 4e-7 * np.pi * rng.uniform(1, 3)
                vals['mu'] = catalog.Val(m, m)
        if 'orientation' in vals:
            hz = 'PlaneWave' in entry['name']
            if cfg['orient'] == 'name':
                k = int(rng.integers(2 if hz else 3))
                vals['orientation'] = catalog.Val('XYZ'[k], np.eye(3)[k])
            else:
                vals['orientation'] = (catalog.k_horiz if hz else catalog.k_orient)(rng, 0)
        if cfg['move'] in ('tiny', 'rot90'):                             # starting from directions along the axes
            along = lambda k: np.eye(3)[int(rng.integers(k))] * rng.choice([-1.0, 1.0])
            if 'nodes' in vals:
                x = np.cumsum([rng.normal(size=3)] + [along(3) * rng.uniform(.5, 3) for _ in range(3)], axis=0)
                vals['nodes'] = catalog.Val(x, x)
            if cfg['orient'] == 'vector':
                x = along(2 if 'PlaneWave' in entry['name'] else 3)
                vals['orientation'] = catalog.Val(x, x)
            if 'primary_field' in vals:
                x = along(3) * rng.uniform(.5, 3)
                vals['primary_field'] = catalog.Val(x, x)
        n = 5
        for a in ('sigma', 'mu'):
            if a + '_sphere' in vals:                                    # a contrast, so that the secondary fields have a scale
                b = float(vals[a + '_background'].read) * rng.choice([.2, 3.0, 40.0])
                vals[a + '_sphere'] = catalog.Val(b, b)
        if entry['points'] == 'surface':
            P = base_points(entry, '', (n,), rng, vals)
        elif cfg['region'] == 'generic' or entry['points'] != 'any':
            P = catalog.points(entry, rng, n)
        else:
            c = vals['location'].read if 'location' in vals else (np.asarray(vals['min_location'].read) + vals['max_location'].read) / 2 if 'min_location' in vals else np.zeros(3)
            ax = vals['orientation'].read if 'orientation' in vals else vals['primary_field'].read / np.linalg.norm(vals['primary_field'].read) if 'primary_field' in vals else gen.unit(rng)
            d = gen.around(rng, np.zeros(3), 2.0, cfg['region'], n, axis=ax)
            d = d / np.linalg.norm(d, axis=1, keepdims=True)
            # quantities may vanish on the axis: each special point has a generic companion at the same distance, which gives the scale
            d = np.vstack([d, [gen.unit(rng) for _ in range(n)]])
            P = np.asarray(c) + d * np.tile(gen.logu(rng, -.3, .8, (n, 1)), (2, 1))
            paired = True
    o1 = catalog.construct(entry, vals)
    o2 = catalog.construct(entry, moved(entry, vals, g, t, cfg))
    if P is None:
        r1, r2 = (np.asarray(getattr(o, name[1:])) for o in (o1, o2))
    else:
        r1 = np.asarray(catalog.ask(o1, name, kw, P))
        r2 = np.asarray(catalog.ask(o2, name, kw, P @ g.T + t))
    if cfg['kind'] == 'polar':
        w = r1 @ g.T
    elif cfg['kind'] == 'axial':
        w = det * (r1 @ g.T)
    elif cfg['kind'] == 'tensor':
        w = g @ r1 @ g.T
    else:
        w = r1
    if r2.shape != w.shape:
        return False, -999, None
    ax = {'scalar': (), 'tensor': (-2, -1)}.get(cfg['kind'], (-1,))
    nrm = np.sqrt(np.sum(np.abs(w) ** 2, axis=ax, keepdims=True)) if ax else np.abs(w)
    pax = -1 if cfg['kind'] == 'scalar' else -2 if cfg['kind'] != 'tensor' else -3
    sc = np.maximum(nrm, 1e-3 * np.max(nrm, axis=pax, keepdims=True)) if P is not None else np.max(nrm)
    if paired:
        n2 = nrm.shape[pax]
        sc = np.maximum(sc, np.take(nrm, np.r_[np.arange(n2 // 2) + n2 // 2, np.arange(n2 // 2)], axis=pax))
    sc = np.maximum(sc, max(1e-280, 1e-60 * np.max(sc, initial=0)))       # beyond that a diffusing field is indistinguishable from zero
    with np.errstate(all='ignore'):
        dif = np.abs(w - r2) / sc
    if not np.isfinite(w).all() or not np.isfinite(r2).all():
        return True, -999, dict(points=str(P), got=str(r2)[:300], want=str(w)[:300])
    m = np.max(dif, initial=0)
    d = 999 if m == 0 else core.clip(-np.log10(m))
    return True, d, None if d >= 70 else dict(params={a: str(v.assign) for a, v in vals.items()}, g=g.tolist(), t=t.tolist(), points=np.asarray(P).tolist() if P is not None else None, got=str(r2)[:400], want=str(w)[:400])


def run(ctx):
    m = ctx.model('MC_Symmetry')
    cat = catalog.catalogue()
    for cfg, rules in m['cases']:
        for rep in range(12 if ctx.tier == 'thorough' else 1):
            rng = ctx.rng(sorted((k, str(v)) for k, v in cfg.items()), rep)
            e = dict(cfg=cfg, qty='moved', out='ok', shape=True, d=-999)
            det = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with np.errstate(all='ignore'):
                        e['shape'], e['d'], det = observe(cfg, cat[cfg['cls']], rng)
            except Exception as ex:
                e.update(out=type(ex).__name__)
                det = str(ex)[:300]
            ctx.evals += 1
            ctx.event(det, **e)
    return ctx.validate('TR_Symmetry')
