"""C16: fields are linear in the strength of the source and superpose."""
import warnings
import numpy as np
import core, catalog, gen
from objects import split
from p_c14 import base_points
from p_c15 import fault

LEVEL = 'model_checking'
RULE = 'every (class, query, strength, scaling or decomposition) of the plan; the result for the scaled or composed source against the sum of the results of its parts'


def V(x):
    return catalog.Val(np.array(x) if np.ndim(x) else x, x)


def parameters(entry, rng):
    if entry['name'] == 'Fault':
        return fault(rng), None
    vals = catalog.values(entry, rng, lambda a: int(rng.integers(6)))
    for a in ('sigma', 'mu'):
        if a + '_sphere' in vals:
            vals[a + '_sphere'] = V(float(vals[a + '_background'].read) * rng.choice([.2, 3.0, 40.0]))
    for a in ('mass', 'rho', 'current', 'moment', 'amplitude'):
        if a in vals and np.ndim(vals[a].read) == 0 and float(vals[a].read) == 0:
            vals[a] = V(float(rng.uniform(.5, 3)))
    if 'mu' in vals and np.ndim(vals['mu'].read) == 0:
        vals['mu'] = V(4e-7 * np.pi * rng.uniform(1, 3))
    P = base_points(entry, '', (5,), rng, vals) if entry['points'] == 'surface' else catalog.points(entry, rng, 5)
    if entry['points'] == 'any' and 'location' in vals:
        P[:3] = np.asarray(vals['location'].read) + gen.unit(rng, 3) * gen.logu(rng, -1, .7, (3, 1))
    return vals, P


def terms(cfg, entry, vals, rng):
    """the parameters of the whole, and [(coefficient, parameters)] of the parts"""
    rule, a, base = cfg['rule'], cfg['attr'], dict(vals)
    if rule in ('zero', 'negate', 'scale', 'big', 'tiny'):
        k = dict(zero=0.0, negate=-1.0, scale=float(rng.uniform(1.5, 9)), big=float(gen.logu(rng, 7, 9)), tiny=float(gen.logu(rng, -9, -7)))[rule]
        if rule in ('scale', 'big', 'tiny') and a not in ('length', 'slip'):
            k *= rng.choice([-1.0, 1.0])
        base[a] = V(np.asarray(vals[a].read) * k if np.ndim(vals[a].read) else float(vals[a].read) * k)
        return base, [(k, vals)]
    def oriented(v):
        n = np.linalg.norm(v)
        return (n, dict(vals, **{a: V(v / n)})) if a == 'orientation' else (1.0, dict(vals, **{a: V(v)}))
    horiz = 'PlaneWave' in entry['name']
    if rule in ('components', 'two', 'unequal'):
        v = np.asarray(vals[a].read, float)
        if rule == 'components':
            p = [v[i] * np.eye(3)[i] for i in range(2 if horiz else 3)]
            p = [x for x in p if np.any(x)]
            if len(p) == 1:                                  # along an axis already: take a generic direction
                v = rng.normal(size=3)
                if horiz:
                    v[2] = 0
                p = [v[i] * np.eye(3)[i] for i in range(2 if horiz else 3)]
        elif rule == 'unequal':                              # one component a tiny fraction of another
            i = rng.permutation(2 if horiz else 3)
            s = np.linalg.norm(v) * rng.choice([-1, 1])
            p = [s * np.eye(3)[i[0]], s * gen.logu(rng, -7.5, -6) * rng.choice([-1, 1]) * np.eye(3)[i[1]]]
            v = p[0] + p[1]
        else:
            w = rng.normal(size=3) * np.linalg.norm(v)
            if horiz:
                w[2] = 0
            p = [v - w, w]
        kw, whole = oriented(v)
        return whole, [(k / kw, s) for k, s in map(oriented, p)]
    if rule == 'reverse':
        if a == 'nodes':
            return dict(vals, nodes=V(np.asarray(vals['nodes'].read)[::-1].copy())), [(-1.0, vals)]
        if a == 'electrodes':
            return dict(vals, location_a=vals['location_b'], location_b=vals['location_a']), [(-1.0, vals)]
        if a == 'rake':
            r = float(vals['rake'].read)
            return dict(vals, rake=V(r - 180.0 if r > 0 else r + 180.0)), [(-1.0, vals)]
        return dict(vals, **{a: V(-np.asarray(vals[a].read, float))}), [(-1.0, vals)]
    if cfg['cls'] == 'Fault':                                 # strike-slip and dip-slip parts
        r, s = np.radians(float(vals['rake'].read)), float(vals['slip'].read)
        return vals, [(np.cos(r), dict(vals, rake=V(0.0))), (np.sin(r), dict(vals, rake=V(90.0)))]
    if rule == 'electrodes':
        return vals, None
    if cfg['cls'] == 'LineCurrent':
        x = np.asarray(vals['nodes'].read, float)
        w = lambda n: dict(vals, nodes=V(np.asarray(n)))
        if rule == 'segments':
            return vals, [(1.0, w(x[i:i + 2])) for i in range(len(x) - 1)]
        if rule == 'halves':
            x = np.vstack([x, rng.normal(size=3) * 3])
            k = int(rng.integers(1, len(x) - 1))
            return w(x), [(1.0, w(x[:k + 1])), (1.0, w(x[k:]))]
        if rule == 'refined':
            k = int(rng.integers(len(x) - 1))
            t = rng.uniform(.2, .8)
            return w(np.insert(x, k + 1, x[k] + t * (x[k + 1] - x[k]), axis=0)), [(1.0, vals)]
        if rule == 'repeated':
            return w(np.repeat(x, rng.integers(1, 3, len(x)) + (np.arange(len(x)) == rng.integers(len(x))), axis=0)), [(1.0, vals)]
        if rule == 'entered':
            x = np.vstack([rng.normal(size=(3, 3)) * 3, rng.normal(size=(1, 3))])
            return w(np.vstack([x, x[:1]])), [(1.0, w(np.vstack([x[2:], x[:3]])))]
        return w(np.vstack([x, x[-2::-1]])), [(0.0, vals)]    # out and back
    lo, hi = np.asarray(vals['min_location'].read, float), np.asarray(vals['max_location'].read, float)
    box = lambda l, h: dict(vals, min_location=V(l), max_location=V(h))
    def cut(l, h, i, t):
        m = l[i] + t * (h[i] - l[i])
        h1, l2 = h.copy(), l.copy()
        h1[i] = l2[i] = m
        return [(l, h1), (l2, h)]
    if rule.startswith('cut'):
        b = cut(lo, hi, int(rule[3]) - 1, rng.uniform(.2, .8))
    elif rule == 'sliver':
        b = cut(lo, hi, int(rng.integers(3)), gen.logu(rng, -4, -3))
    else:
        b = [(lo, hi)]
        for i in range(3):
            b = [p for q in b for p in cut(*q, i, rng.uniform(.2, .8))]
    return vals, [(1.0, box(*p)) for p in b]


def observe(cfg, entry, rng):
    name, kw = split(entry, cfg['q'])
    vals, P = parameters(entry, rng)
    whole, parts = terms(cfg, entry, vals, rng)
    if cfg['rule'] in ('eight', 'sliver') or cfg['rule'].startswith('cut'):      # inside and outside, not too far for the corner sums
        lo, hi = np.asarray(vals['min_location'].read, float), np.asarray(vals['max_location'].read, float)
        P = np.vstack([lo + rng.uniform(.05, .95, (3, 3)) * (hi - lo), P])

    def result(v, cls=entry):
        o = catalog.construct(cls, v)
        return np.asarray(getattr(o, name[1:]) if P is None else catalog.ask(o, name, kw, P))
    if parts is None:                                         # a pair of electrodes
        cat = catalog.catalogue()['PointCurrentHalfSpace']
        one = lambda loc, s: dict(rho=vals['rho'], current=V(s * float(vals['current'].read)), location=loc)
        pr = [(1.0, result(one(vals['location_a'], 1.0), cat)), (1.0, result(one(vals['location_b'], -1.0), cat))]
    else:
        pr = [(k, result(v)) for k, v in parts]
    w = result(whole)
    if any(r.shape != w.shape for k, r in pr):
        return False, -999, None
    want = sum(k * r for k, r in pr)
    kind = w.ndim if P is None else len(np.shape(w))
    size = sum(abs(k) * np.abs(r) for k, r in pr) if cfg['rule'] != 'outandback' else np.abs(pr[0][1])
    if cfg['rule'] == 'unequal':                              # the small part is still there
        size = np.abs(pr[1][0] * pr[1][1])
    if not np.isfinite(w).all() or not np.isfinite(want).all():
        return True, -999, dict(params={a: str(v.assign) for a, v in whole.items()}, points=str(P), got=str(w)[:300])
    if cfg['rule'] == 'zero':
        m = np.max(np.abs(w), initial=0)
    else:
        r = {n: k for n, k, *_ in entry['queries']}.get(name, 1)
        ax = tuple(range(-r, 0))
        sc = np.sqrt(np.sum(size ** 2, axis=ax, keepdims=True)) if r else size
        sc = np.maximum(sc, max(1e-280, 1e-60 * np.max(sc, initial=0)))
        if P is None:
            sc = np.max(sc)
        m = np.max(np.abs(w - want) / sc, initial=0)
    d = 999 if m == 0 else core.clip(-np.log10(m))
    return True, d, None if d >= 70 else dict(params={a: str(v.assign) for a, v in whole.items()}, parts=[(k, {a: str(v.assign) for a, v in p.items() if v is not whole.get(a)}) for k, p in parts or []],
                                              points=str(P), got=str(w)[:400], want=str(want)[:400])


def run(ctx):
    m = ctx.model('MC_Superposition')
    cat = catalog.catalogue()
    for cfg, rules in m['cases']:
        for rep in range(30 if ctx.tier == 'thorough' else 2):
            rng = ctx.rng(sorted(cfg.items()), rep)
            e = dict(cfg=cfg, qty='sum', out='ok', shape=True, d=-999)
            det = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with np.errstate(all='ignore'):
                        e['shape'], e['d'], det = observe(cfg, cat[cfg['cls']], rng)
            except Exception as ex:
                e.update(out=type(ex).__name__)
                det = str(ex)[:300]
            ctx.evals += 1
            ctx.event(det, **e)
    return ctx.validate('TR_Superposition')
