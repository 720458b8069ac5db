"""C25: the line of sight of an interferogram points from the ground to the satellite."""
import numpy as np
from gen import logu
from terms import Laws
import lawrun

LEVEL = 'model_checking'
RULE = 'one case per (place, heading, hemisphere, incidence, form of the argument) enumerated by TLC, against the geometry of the specification'


def case(ctx, cfg, rule, law, rng, oksar, utm):
    zone = int([rng.integers(1, 61), rng.integers(1, 61), 1, 60][rng.integers(4)]) * (1 if cfg['side'] == 'north' else -1)
    ref = np.array([rng.uniform(3e5, 7e5), rng.uniform(1e6, 7e6)])
    az = dict(descending=rng.uniform(185, 200), ascending=rng.uniform(340, 355), north=0.0, east=90.0, generic=rng.uniform(0, 360))[cfg['heading']]
    al = dict(generic=rng.uniform(18, 45), steep=rng.uniform(2, 10), grazing=rng.uniform(50, 65))[cfg['inc']]
    h, R = float(logu(rng, 5.5, 6.1)), float(rng.uniform(6.35e6, 6.39e6))
    n = 5 if cfg['form'] in ('list', 'listlists') else 1
    d = dict(reference=0.0, near=1e3, scene=4e4, far=1.5e5)[cfg['place']]
    pts = ref + rng.normal(size=(n, 2)) * d
    pts = np.clip(pts, [1.1e5, 1e4], [8.9e5, 9.9e6])
    if cfg['form'] == 'three':
        arg = np.r_[pts[0], rng.uniform(0, 1e3)]
    elif cfg['form'] == 'point':
        arg = pts[0].copy()
    elif cfg['form'] == 'tuple':
        arg = tuple(pts[0].tolist())
    elif cfg['form'] == 'listlists':
        arg = pts.tolist()
    else:
        arg = [p.copy() for p in pts]

    def ask():
        eq = oksar.EarthquakeInterferogram(np.zeros(4), 't', [5e5, 4e6], zone, (2, 2), [80., 80.], ref, al, az, h, 'x', local_earth_radius=R)
        r = np.asarray(eq.get_LOS_vector(arg))
        return r.T.reshape(n, 3) if r.shape == ((3, n) if n > 1 else (3,)) else r.reshape((1, 1) + r.shape)
    ll = lambda p: np.deg2rad(utm.to_latlon(float(p[0]), float(p[1]), abs(zone), northern=zone > 0))
    la0, lo0 = ll(ref)
    g = np.array([ll(p) for p in pts])
    full = lambda v: np.full(n, float(v))
    env = dict(lon=g[:, 1], lat=g[:, 0], lon0=full(lo0), lat0=full(la0), az=full(np.deg2rad(az)), al=full(np.deg2rad(al)), R=full(R), h=full(h))
    desc = dict(zone=zone, ref=ref.tolist(), azimuth=az, incidence=al, altitude=h, radius=R, points=pts.tolist())
    # components may vanish; angles are converted with 15 digits, and differences of them matter at the height of the satellite
    lawrun.check(ctx, cfg, 'sight', ask, [(slice(None), law)], env, desc, rule=rule, pts=(), afloor=1e-12)


def run(ctx):
    import utm
    from geoana.earthquake import oksar
    m = ctx.model('MC_LineOfSight')
    law = Laws(m['terms'])['sight',]
    for cfg, rules in m['cases']:
        for rep in range(20 if ctx.tier == 'thorough' else 1):
            case(ctx, cfg, rules['sight'], law, ctx.rng(sorted(cfg.items()), rep), oksar, utm)
    return ctx.validate('TR_LineOfSight')
