"""Concrete values for the abstract factors of the plan (all seeded)."""
import numpy as np


def logu(rng, lo, hi, size=None):
    return 10.0 ** rng.uniform(lo, hi, size)


def unit(rng, n=None):
    v = rng.normal(size=(3,) if n is None else (n, 3))
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def location(rng, kind, L):
    if kind == 'origin':
        return np.zeros(3)
    if kind == 'offset':
        return rng.uniform(-3, 3, 3) * L
    if kind == 'far':
        return rng.uniform(-1, 1, 3) * L * logu(rng, 3, 5)
    if kind == 'int':
        return [int(v) for v in rng.integers(-9, 10, 3)]
    if kind == 'axis':                       # two coordinates zero
        v = np.zeros(3)
        v[rng.integers(3)] = rng.uniform(-3, 3) * L
        return v
    raise ValueError(kind)


def strength(rng, kind):
    if kind == 'pos':
        return float(logu(rng, -3, 4))
    if kind == 'neg':
        return -float(logu(rng, -3, 4))
    if kind == 'zero':
        return 0.0
    if kind == 'int':
        return int(rng.integers(2, 50))
    raise ValueError(kind)


def around(rng, c, L, region, n, axis=None):
    """points about a centre c with length scale L; axis: a unit vector."""
    c = np.asarray(c, float)
    if region in ('generic', 'near', 'far'):
        lo, hi = dict(generic=(-0.7, 0.9), near=(-6, -2), far=(2, 4))[region]
        return c + unit(rng, n) * logu(rng, lo, hi, (n, 1)) * L
    if region == 'axis':                     # on the coordinate axes through c
        d = np.zeros((n, 3))
        d[np.arange(n), rng.integers(3, size=n)] = rng.choice([-1, 1], n) * logu(rng, -2, 2, n) * L
        return c + d
    if region == 'plane':                    # in the coordinate planes through c
        d = rng.choice([-1, 1], (n, 3)) * logu(rng, -1.5, 1, (n, 3)) * L
        d[np.arange(n), rng.integers(3, size=n)] = 0
        return c + d
    if region == 'oaxis':                    # along the orientation
        return c + axis * (rng.choice([-1, 1], n) * logu(rng, -2, 2, n) * L)[:, None]
    if region == 'oplane':                   # perpendicular to the orientation
        v = unit(rng, n)
        v -= (v @ axis)[:, None] * axis
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        return c + v * logu(rng, -2, 2, (n, 1)) * L
    raise ValueError(region)


ORIENT = ['X', 'y', 'Z', 'neg', 'int', 'unnorm', 'generic', 'almost']


def orientation(rng, kind):
    """(argument for the constructor, unit vector)"""
    if kind in ('X', 'Y', 'Z', 'x', 'y', 'z'):
        v = np.zeros(3)
        v['xyz'.index(kind.lower())] = 1.0
        return kind, v
    if kind == 'neg':
        v = np.zeros(3)
        v[rng.integers(3)] = -1.0
        return v.copy(), v
    if kind == 'int':
        while True:
            w = [int(a) for a in rng.integers(-4, 5, 3)]
            if any(w):
                break
        return w, np.array(w, float) / np.linalg.norm(w)
    if kind == 'unnorm':
        w = unit(rng) * logu(rng, -3, 3)
        return w, w / np.linalg.norm(w)
    if kind == 'generic':
        w = unit(rng)
        return w, w
    if kind == 'almost':                     # nearly a coordinate axis, either sign
        w = rng.normal(size=3) * logu(rng, -9, -3)
        w[rng.integers(3)] += rng.choice([-1, 1])
        w /= np.linalg.norm(w)
        return w, w
    raise ValueError(kind)


def asked(fun, pts, *more):
    """Ask for a set of points as rows, or as a grid (the same entries in the same order); the answer as for rows."""
    import zlib
    n = len(pts)
    opts = [(n,), (n,), (1, n), (n, 1), (1, n, 1)] + [(a, n // a) for a in range(2, n) if n % a == 0]
    opts = [o for o in opts if 3 not in o]
    if not isinstance(pts, np.ndarray) or pts.ndim != 2 or not opts:
        return fun(pts, *more)
    shape = opts[zlib.crc32(np.ascontiguousarray(pts).tobytes()) % len(opts)]
    put = lambda p: p.reshape(shape + (3,)) if isinstance(p, np.ndarray) and p.shape == (n, 3) else p
    back = lambda r: _rows(np.asarray(r), shape, n)
    r = fun(put(pts), *[put(p) for p in more])
    return tuple(back(x) for x in r) if isinstance(r, (tuple, list)) else back(r)


def _rows(r, shape, n):
    for k in range(r.ndim - len(shape), -1, -1):
        if r.shape[k:k + len(shape)] == shape:
            return r.reshape(r.shape[:k] + (n,) + r.shape[k + len(shape):])
    return r
