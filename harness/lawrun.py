"""Evaluate a call of the real code against laws of the specification and record the event."""
import warnings
import numpy as np

STD = dict(req=80, slack=30, mode='formula')


def check(ctx, cfg, qty, call, parts, env, desc=None, scale=None, rule=STD, pts=('x', 'y', 'z'),
          afloor=None, post=None, dev=None, **kw):
    """parts: [(mask or slice, Law)]; env values are scalars or arrays over points."""
    req, slack = rule['req'], rule['slack']
    e = dict(cfg=cfg, qty=qty, out='ok', shape=True, d=999, c=0, n=0, und=0)
    if dev is not None:
        e.update(kd=-999, kc=0)
    detail = dict(setup=desc)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                got = call()
        if post is not None:
            got = post(got)
        got = np.asarray(got)
    except Exception as ex:
        e.update(out=type(ex).__name__)
        detail['error'] = str(ex)[:300]
        return ctx.event(detail, **e)
    N = max([np.shape(v)[0] for v in env.values() if np.ndim(v) > 0] or [1])
    tail = parts[0][1].shape
    if got.shape != (N,) + tail:
        e.update(shape=False)
        detail['got_shape'] = list(got.shape)
        return ctx.event(detail, **e)
    worst = None
    for mask, law in parts:
        sub = {k: (np.asarray(v)[mask] if np.ndim(v) > 0 else v) for k, v in env.items() if k in law.vars}
        g = got[mask]
        if len(g) == 0:
            continue
        if not any(np.ndim(v) for v in sub.values()):
            sub = {k: np.full(len(g), v) for k, v in sub.items()}
        if not sub:                          # a constant law
            sub = {'_': np.zeros(len(g))}
        else:
            sub = {k: (v if np.ndim(v) else np.full(len(g), v)) for k, v in sub.items()}
        r = ctx.compare(g, law, sub, req, slack, pts=pts, scale=scale, mode=rule['mode'],
                        afloor=None if afloor is None else np.broadcast_to(afloor, (N,))[mask], **kw)
        m = r['d'] - min(req, 156 - r['c'] - slack)
        e['n'] += r['n']
        e['und'] += r['und']
        if worst is None or m < worst[0]:
            worst = (m, r)
    if worst:
        e.update(d=worst[1]['d'], c=worst[1]['c'])
        detail['worst'] = worst[1]['worst']
    if dev is not None:                      # a recorded deviation from the law: does the code follow it exactly?
        if worst and worst[0] < 0:
            sub = {k: (v if np.ndim(v) else np.full(N, v)) for k, v in env.items() if k in dev.vars}
            r = ctx.compare(got, dev, sub, req, slack, pts=pts, scale=scale, mode=rule['mode'], afloor=afloor, **kw)
            e.update(kd=r['d'], kc=r['c'])
    return ctx.event(detail, **e)
