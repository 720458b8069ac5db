"""Catalogue of the public classes: parameters (valid and invalid values), queries, observation points.

Values are seeded.  V(assign, read): what is assigned, and what must be read back.
"""
import copy
import numpy as np
from gen import logu, unit


class Val:
    __slots__ = ('assign', 'read', 'via', 'form')

    def __init__(self, assign, read, via=None, form=''):
        self.assign, self.read, self.via, self.form = assign, read, via, form

    def arg(self):
        """a private copy of what the caller passes"""
        return copy.deepcopy(self.assign)


# ---- parameter kinds: three valid values each, and named invalid ones -----
def k_num(rng, j, **o):
    v = [float(rng.normal() * 3 + 5), int(rng.integers(2, 40)), -float(logu(rng, -2, 2))][j % 3]
    if j == 3:
        v = 0.0
    if j == 4:
        v = np.float32(rng.normal())
    if j == 5:
        v = np.array(rng.normal())
    return Val(v, float(v), form=type(v).__name__)


def k_pos(rng, j, lo=-1.0, hi=1.0, **o):
    v = [float(logu(rng, lo, hi)), max(1, int(10 ** hi * rng.uniform(.3, 1))) if hi > 0 else float(logu(rng, lo, hi)), np.float64(logu(rng, lo, hi))][j % 3]
    if j == 4:
        v = np.float32(logu(rng, lo, hi))
    if j == 5:
        v = np.array(logu(rng, lo, hi))
    return Val(v, float(v), form=type(v).__name__)


def k_vec(rng, j, scale=1.0, **o):
    v = rng.normal(size=3) * scale
    if j % 3 == 1:
        v = np.round(v * 7)
        return Val([int(a) for a in v], v.astype(float), form='int list')
    if j % 3 == 2:
        return Val(tuple(v.tolist()), v, form='tuple')
    return Val(v.copy(), v, form='array')


def k_loc(rng, j, **o):
    if j == 4 and o.get('wide', True):
        v = rng.normal(size=3)
        return Val(v[None].copy(), v, form='(1,3) array')
    if j == 5:
        v = rng.integers(-9, 9, 3)
        return Val(v.copy(), v.astype(float), form='int array')
    return k_vec(rng, j, scale=2.0)


def k_depth(rng, j, **o):                       # a location at or below z = 0
    w = k_vec(rng, j, scale=2.0)
    v = w.read.copy()
    v[2] = -abs(v[2]) if j not in (3, 5) else 0.0
    return Val(v.copy() if isinstance(w.assign, np.ndarray) else type(w.assign)(v.tolist()), v, form=w.form)


def k_surf(rng, j, **o):
    v = rng.normal(size=3) * 2
    v[2] = 0
    return Val(v.copy() if j % 2 == 0 else v.tolist(), v)


def k_air(rng, j, **o):
    v = rng.normal(size=3) * 2
    v[2] = abs(v[2]) if j != 3 else 0.0
    return Val(v.copy() if j % 2 == 0 else v.tolist(), v)


def k_orient(rng, j, **o):
    if j == 1:
        i = int(rng.integers(3))
        return Val('XyZ'[i], np.eye(3)[i], form='name')
    v = rng.normal(size=3) * (logu(rng, -1, 1) if j != 3 else 10.0 ** float(rng.choice([-12, -6, 6, 12])))
    u = v / np.linalg.norm(v)
    if j == 4:
        i = int(rng.integers(3))
        return Val('xYz'[i], np.eye(3)[i], form='name')
    if j == 5:
        w = rng.integers(1, 5, 3)
        return Val(w.copy(), w / np.linalg.norm(w), form='int array')
    return Val(v.tolist() if j % 3 == 2 else v.copy(), u, form='list' if j % 3 == 2 else 'array')


def k_horiz(rng, j, **o):
    if j == 1:
        i = int(rng.integers(2))
        return Val('Xy'[i], np.eye(3)[i], form='name')
    v = rng.normal(size=3) * (3 if j != 3 else 10.0 ** float(rng.choice([-12, -6, 6, 12])))
    v[2] = 0
    return Val(v.tolist() if j % 3 == 2 else v.copy(), v / np.linalg.norm(v), form='list' if j % 3 == 2 else 'array')


def k_samples(rng, j, lo=0, hi=3, **o):
    n = [None, 2, 3, 1, None, 4][j % 6]
    if n is None:
        v = float(logu(rng, lo, hi))
        return Val(v, np.array(v), form='scalar')
    v = logu(rng, lo, hi, n)
    return Val(v.tolist() if j % 2 else v.copy(), v, form='list' if j % 2 else 'array')


def k_bool(rng, j, **o):
    v = bool(j % 2)
    return Val(v, v)


def k_nodes(rng, j, **o):
    n = [3, 2, 5, 4, 2, 6][j % 6]
    v = rng.normal(size=(n, 3)) * 3
    if j % 3 == 1:
        return Val(v.tolist(), v, form='list')
    if j == 5:
        w = np.array([[0, 0, 0], [2, 0, 0], [2, 3, 0], [0, 3, 1], [-1, 0, 0], [0, 0, 0]])
        return Val(w.copy(), w.astype(float), form='int array')
    if j == 3:                                   # through the same nodes again
        v = v[[0, 1, 0, 1, 2]]
    return Val(v.copy(), v, form='array')


def k_lo(rng, j, **o):
    v = -rng.uniform(.5, 3, 3)
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v)


def k_hi(rng, j, **o):
    v = rng.uniform(.5, 3, 3)
    return Val(tuple(v.tolist()) if j % 3 == 1 else v.copy(), v)


def k_pair(rng, j, lo=None, hi=None, scale=1.0, off=0.0, **o):
    v = off + rng.normal(size=2) * scale
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v)


def k_range(rng, j, lo=0.0, hi=1.0, **o):
    v = rng.uniform(lo, hi)
    if j % 3 == 1:
        v = int(max(np.ceil(lo), min(np.floor(hi), round(v))))
    return Val(v, float(v), form=type(v).__name__)


def k_ipair(rng, j, **o):
    v = [int(a) for a in rng.integers(2, 6, 2)]
    return Val(v if j % 2 else tuple(v), np.array(v))


def k_str(rng, j, **o):
    v = 'text-%d' % rng.integers(1e6)
    return Val(v, v)


def k_int(rng, j, **o):
    v = int(rng.integers(1, 60))
    return Val(v, v)


def k_layers(rng, j, n=3, lo=-3, hi=0, **o):
    v = logu(rng, lo, hi, n)
    if j in (4, 5):                              # one number for all layers
        s = float(v[0]) if j == 4 else complex(v[0], .3 * v[1])
        return Val(s, np.full(n, s, complex), form='scalar')
    if j in (2, 3):                              # complex, as an array of complex numbers
        v = v * (1 + 1j * rng.uniform(.1, .5, n))
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v.astype(complex), form='list' if j % 3 == 1 else 'array')


def k_mus(rng, j, n=3, **o):
    from scipy.constants import mu_0
    v = mu_0 * (1 + rng.random(n))
    if j in (4, 5):
        s = float(v[0]) if j == 5 else complex(v[0], .1 * v[1])
        return Val(s, np.full(n, s, complex), form='scalar')
    if j in (2, 3):
        v = v.astype(complex)
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v.astype(complex))


def k_eps(rng, j, n=3, **o):
    from scipy.constants import epsilon_0
    v = epsilon_0 * (1 + 4 * rng.random(n))
    if j in (4, 5):
        s = float(v[0])
        return Val(s, np.full(n, s, complex), form='scalar')
    if j in (2, 3):
        v = v.astype(complex)
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v.astype(complex))


def k_thick(rng, j, n=2, **o):
    v = rng.uniform(1, 20, n)
    return Val(v.tolist() if j % 3 == 1 else v.copy(), v)


def k_freqs(rng, j, lo=0, hi=4, **o):
    v = logu(rng, lo, hi, [2, 3, 1, 2, 4, 2][j % 6])
    return Val(v.tolist() if j % 2 else v.copy(), v)


NUMBAD = dict(text='abc', none=None, pair=[1.0, 2.0], complex=1 + 2j, dict={}, vec=np.array([1.0, 2.0]))
VECBAD = dict(short=[1.0, 2.0], long=[1.0, 2.0, 3.0, 4.0], text='abc', none=None, number=3.0, rows=np.ones((2, 3)), column=np.ones((3, 2)), words=['a', 'b', 'c'],
              nine=np.ones((3, 3)), empty=[])
SAMBAD = dict(negative=-1.0, onenegative=[10.0, -1.0], lastnegative=np.array([5.0, 10.0, -1e-9]), table=np.ones((2, 2)), text='abc', words=['a'])
BAD = {
    k_num: NUMBAD,
    k_pos: dict(NUMBAD, zero=0.0, negative=-1.0, minuszero=-0.0, tinyneg=-1e-300, izero=0),
    k_vec: VECBAD, k_loc: VECBAD,
    k_depth: dict(VECBAD, above=[0.0, 0.0, 1.0], justabove=[1.0, 2.0, 1e-12], aboveint=[0, 0, 2]),
    k_orient: dict(short=[1.0, 2.0], long=[1.0, 2.0, 3.0, 4.0], name='W', word='XY', zz='Zz', xx='xx', minus='-X', blank='Z ', empty='', number=3.0, rows=np.ones((2, 3)), words=['a', 'b', 'c'], none=None),
    k_horiz: dict(short=[1.0, 2.0], name='W', up='Z', lowup='z', xx='Xx', yy='yY', minus='-y', tilted=[1.0, 0.0, 0.5], tiny=[1.0, 0.0, 1e-12], down=[0.0, 0.0, -1.0], rows=np.ones((2, 3)),
                  words=['a', 'b', 'c']),
    k_samples: SAMBAD, k_freqs: SAMBAD,
    k_nodes: dict(pairs=np.ones((4, 2)), wide=np.ones((4, 4)), cube=np.ones((2, 2, 3)), text='abc', words=[['a', 'b', 'c']], pair=[1.0, 2.0], number=2.0),
    k_lo: VECBAD, k_hi: VECBAD,
    k_pair: dict(short=[1.0], long=[1.0, 2.0, 3.0], text='abc', number=3.0, rows=np.ones((2, 2)), words=['a', 'b']),
    k_ipair: dict(long=[1, 2, 3], words=['a', 'b'], short=[4]),
    k_int: dict(text='abc', none=None),
    k_layers: dict(short=np.ones(2), long=np.ones(4), negative=[-1.0, 1.0, 1.0], zero=[1.0, 0.0, 1.0], text='abc', cube=np.ones((3, 1, 1)), lossy=[1.0, 1.0 - 1j, 1.0],
                   table=np.ones((3, 7)), scalarneg=-1.0, words=['a', 'b', 'c']),
    k_mus: dict(short=np.ones(2), long=np.ones(4), below=[1e-7, 1.0, 1.0], text='abc', cube=np.ones((3, 1, 1)), table=np.ones((3, 7)), scalar=1e-9),
    k_eps: dict(short=np.ones(2), long=np.ones(4), below=[1e-14, 1.0, 1.0], text='abc', cube=np.ones((3, 1, 1)), table=np.ones((3, 7)), scalar=0.0),
    k_thick: dict(negative=[1.0, -2.0], firstnegative=[-1e-9, 2.0], text='abc', table=np.ones((2, 2)), words=['a', 'b']),
    k_bool: {}, k_str: {},
}


def R(lo, hi, *bad):
    """a number in [lo, hi]; bad: invalid numbers"""
    d = dict(text='abc', none=None, pair=[1.0, 2.0], dict={})
    for b in bad:
        d['v%g' % b] = b
    return (k_range, dict(lo=lo, hi=hi, bad=d))


POS, NUM = (k_pos, {}), (k_num, {})
MED = dict(sigma=(k_pos, dict(lo=-2, hi=1, via='rho', inv=True)), mu=(k_pos, dict(lo=-7, hi=-5)), epsilon=(k_pos, dict(lo=-12, hi=-10, zero=True, z0=True)))
XYZ3 = [('gravitational_potential', 0), ('gravitational_field', 1), ('gravitational_gradient', 2)]


def _em():
    import geoana.em.fdem as fd, geoana.em.tdem as td, geoana.em.static as st, geoana.gravity as gr
    from geoana.earthquake import oksar as ok
    dip = dict(location=(k_loc, {}), orientation=(k_orient, {}))
    F = dict(frequency=(k_samples, dict(lo=2, hi=5)), quasistatic=(k_bool, {}))
    T = dict(time=(k_samples, dict(lo=-6, hi=-3)))
    c = {}
    c['PointMass'] = dict(cls=gr.PointMass, attrs=dict(mass=NUM, location=(k_loc, {})), queries=XYZ3)
    c['GravitySphere'] = dict(cls=gr.Sphere, attrs=dict(radius=(k_pos, dict(lo=-.3, hi=.5, zero=True)), rho=(k_num, dict(via='mass')), location=(k_loc, {})), queries=XYZ3)
    c['GravityPrism'] = dict(cls=gr.Prism, attrs=dict(min_location=(k_lo, {}), max_location=(k_hi, {}), rho=NUM), queries=XYZ3)
    c['MagneticPrism'] = dict(cls=st.MagneticPrism, attrs=dict(min_location=(k_lo, {}), max_location=(k_hi, {}), magnetization=(k_vec, {})),
                              queries=[('scalar_potential', 0), ('magnetic_field', 1), ('magnetic_flux_density', 1), ('magnetic_field_gradient', 2)])
    fk = [dict(field=f) for f in ('total', 'primary', 'secondary')]
    c['ElectrostaticSphere'] = dict(cls=st.ElectrostaticSphere,
                                    attrs=dict(radius=(k_pos, dict(lo=-.3, hi=.5, zero=True)), sigma_sphere=POS, sigma_background=POS, primary_field=(k_vec, {}), location=(k_loc, dict(wide=False))),
                                    queries=[('potential', 0, fk), ('electric_field', 1, fk), ('current_density', 1, fk), ('charge_density', 0)])
    c['MagnetostaticSphere'] = dict(cls=st.MagnetostaticSphere,
                                    attrs=dict(radius=(k_pos, dict(lo=-.3, hi=.5, zero=True)), mu_sphere=POS, mu_background=POS, primary_field=(k_vec, {}), location=(k_loc, dict(wide=False))),
                                    queries=[('potential', 0, fk), ('magnetic_field', 1, fk), ('magnetic_flux_density', 1, fk)])
    c['PointCurrentWholeSpace'] = dict(cls=st.PointCurrentWholeSpace, attrs=dict(rho=(k_pos, dict(via='sigma', inv=True)), current=NUM, location=(k_loc, dict(wide=False))),
                                       queries=[('potential', 0), ('electric_field', 1), ('current_density', 1), ('scalar_potential', 0)])
    c['PointCurrentHalfSpace'] = dict(cls=st.PointCurrentHalfSpace, attrs=dict(rho=POS, current=NUM, location=(k_depth, dict(wide=False))), points='below',
                                      queries=[('potential', 0), ('electric_field', 1), ('current_density', 1)])
    c['DipoleHalfSpace'] = dict(cls=st.DipoleHalfSpace, attrs=dict(rho=POS, current=NUM, location_a=(k_depth, dict(wide=False)), location_b=(k_depth, dict(wide=False))), points='below',
                                queries=[('potential', 0), ('electric_field', 1), ('current_density', 1)], pair=True)
    co = [dict(), dict(coordinates='cartesian'), dict(coordinates='cylindrical')]
    c['StaticMagneticDipole'] = dict(cls=st.MagneticDipoleWholeSpace, attrs=dict(dip, moment=NUM, **MED),
                                     queries=[('vector_potential', 1, co), ('magnetic_field', 1, co), ('magnetic_flux_density', 1, co)])
    c['StaticMagneticPole'] = dict(cls=st.MagneticPoleWholeSpace, attrs=dict(dip, moment=NUM, **MED),
                                   queries=[('magnetic_field', 1, co), ('magnetic_flux_density', 1, co)])
    c['CircularLoop'] = dict(cls=st.CircularLoopWholeSpace, attrs=dict(dip, radius=(k_pos, dict(lo=-.3, hi=.5)), current=NUM, **MED),
                             queries=[('vector_potential', 1, co), ('magnetic_field', 1, co), ('magnetic_flux_density', 1, co)])
    c['LineCurrent'] = dict(cls=st.LineCurrentWholeSpace, attrs=dict(nodes=(k_nodes, {}), current=NUM, **MED),
                            queries=[('scalar_potential', 0), ('vector_potential', 1), ('magnetic_field', 1), ('magnetic_flux_density', 1), ('electric_field', 1), ('current_density', 1)])
    five = [('vector_potential', 1), ('electric_field', 1), ('current_density', 1), ('magnetic_field', 1), ('magnetic_flux_density', 1)]
    med = [('@omega', 0), ('@sigma_hat', 0), ('@wavenumber', 0), ('@skin_depth', 0)]
    c['HarmonicElectricDipole'] = dict(cls=fd.ElectricDipoleWholeSpace, attrs=dict(dip, current=NUM, length=POS, **F, **MED), queries=five, extra=med, samples='frequency')
    c['HarmonicMagneticDipole'] = dict(cls=fd.MagneticDipoleWholeSpace, attrs=dict(dip, moment=NUM, **F, **MED), queries=five, extra=med, samples='frequency')
    c['HarmonicPlaneWave'] = dict(cls=fd.HarmonicPlaneWave, attrs=dict(amplitude=NUM, orientation=(k_horiz, {}), **F, **MED), queries=five[1:], extra=med, samples='frequency')
    c['TransientElectricDipole'] = dict(cls=td.ElectricDipoleWholeSpace, attrs=dict(dip, current=NUM, length=POS, **T, **MED),
                                        queries=five + [('magnetic_field_time_deriv', 1), ('magnetic_flux_density_time_deriv', 1)], extra=[('@diffusion_distance', 0), ('@theta', 0)], samples='time')
    c['TransientPlaneWave'] = dict(cls=td.TransientPlaneWave, attrs=dict(amplitude=NUM, orientation=(k_horiz, {}), **T, **MED), queries=five[1:], extra=[('@diffusion_distance', 0), ('@theta', 0)],
                                   samples='time', points='below')
    c['HarmonicDipoleHalfSpace'] = dict(cls=fd.MagneticDipoleHalfSpace, attrs=dict(location=(k_surf, dict(bad=VECBAD)), orientation=(k_orient, {}), moment=NUM, **F, sigma=MED['sigma']), points='surface', squeeze=True,
                                        queries=[('magnetic_field', 1, [dict(), dict(field='secondary'), dict(field='total')])], samples='frequency', extra=med, arrays=True)
    c['HarmonicDipoleLayered'] = dict(cls=fd.MagneticDipoleLayeredHalfSpace,
                                      attrs=dict(thickness=(k_thick, {}), frequency=(k_freqs, {}), quasistatic=(k_bool, {}), sigma=(k_layers, {}), mu=(k_mus, {}), epsilon=(k_eps, {}),
                                                 location=(k_air, dict(bad=VECBAD)), orientation=(k_orient, {}), moment=NUM), points='above', squeeze=True,
                                      queries=[('magnetic_field', 1, [dict(), dict(field='secondary'), dict(field='total')])], samples='frequency', extra=[('@omega', 0)], arrays=True, rows=True)
    c['TransientDipoleHalfSpace'] = dict(cls=td.VerticalMagneticDipoleHalfSpace, attrs=dict(location=(k_loc, {}), moment=NUM, **T, sigma=MED['sigma'], mu=MED['mu']), points='surface',
                                         queries=[('magnetic_field', 1), ('magnetic_flux_density', 1), ('magnetic_field_time_derivative', 1), ('magnetic_flux_time_derivative', 1)], samples='time',
                                         extra=[('@diffusion_distance', 0), ('@theta', 0)])
    c['Fault'] = dict(cls=ok.Oksar, attrs=dict(O=(k_pair, dict(scale=3e4)), U=(k_pair, dict(scale=3e4)), V=(k_pair, dict(scale=3e4)), center=(k_pair, dict(scale=1e4)),
                                               depth_top=R(500., 3e3, -1., -1e-9), depth_bottom=R(5e3, 2e4, 10., -5.), strike=R(0., 360., -1., 361., 360.5), dip=R(5., 85., -1., 91., 90.5),
                                               rake=R(-180., 180., 181., -181., 180.5), slip=R(0., 3., -1.), length=R(1e3, 2e4, -1.), beta=R(1e10, 5e10), mu=R(1e10, 5e10), shape=(k_ipair, {})),
                      queries=[], extra=[('@simulation_grid', 1), ('@displacement_vector', 1)])
    st_ = {k: (k_str, {}) for k in ('title', 'processed_by', 'description', 'event_country', 'event_name', 'copyright', 'data_source', 'satellite_name', 'event_gcmt_id')}
    c['Interferogram'] = dict(cls=ok.EarthquakeInterferogram,
                              attrs=dict(data=(k_nodes, dict(bad=dict(words=['a', 'b']))), location=(k_pair, {}), location_UTM_zone=(k_int, {}), shape=(k_ipair, {}), pixel_size=(k_pair, {}), ref=(k_pair, {}),
                                         ref_incidence=R(0., 90.), satellite_azimuth=R(0., 360.), satellite_altitude=R(1e5, 1e6), scaling=R(.1, 2.), satellite_fringe_interval=R(.01, .1),
                                         local_earth_radius=R(6e6, 6.5e6), local_rigidity=R(1e10, 5e10), **st_), queries=[], extra=[])
    more = dict(GravitySphere=['@mass'], GravityPrism=['@mass', '@volume', '@location'], MagneticPrism=['@moment', '@volume', '@location'],
                DipoleHalfSpace=['~potential', '~electric_field', '~current_density'], LineCurrent=['@n_segments', '@rho'])
    for n in ('StaticMagneticDipole', 'StaticMagneticPole', 'CircularLoop', 'HarmonicElectricDipole', 'HarmonicMagneticDipole', 'TransientElectricDipole'):
        more[n] = ['~distance', '~vector_distance', '~dot_orientation', '~cross_orientation', '@rho']
    for n in ('TransientElectricDipole', 'TransientPlaneWave', 'TransientDipoleHalfSpace'):
        more[n] = more.get(n, []) + ['~peak_time']
    for n, e in c.items():
        e['extra'] = e.get('extra', []) + [(q, 0) for q in more.get(n, [])]
    for n, e in c.items():
        e['name'] = n
        e.setdefault('points', 'any')
        e.setdefault('extra', [])
        e.setdefault('samples', None)
        e.setdefault('squeeze', False)
        e.setdefault('pair', False)
        e.setdefault('arrays', False)
        e.setdefault('rows', False)
    return c


_cache = None


def catalogue():
    global _cache
    if _cache is None:
        _cache = _em()
    return _cache


def value(entry, attr, rng, j):
    """the j-th valid value of an attribute"""
    kind, o = entry['attrs'][attr]
    return kind(rng, j, **o)


def bads(entry, attr):
    kind, o = entry['attrs'][attr]
    b = dict(o['bad'] if 'bad' in o else BAD[kind])
    if o.get('zero'):
        for k in ('zero', 'izero', 'minuszero'):
            b.pop(k, None)
    return b


def values(entry, rng, j):
    """a complete set of valid parameters; j may be an int or a function of the attribute"""
    return {a: value(entry, a, rng, j(a) if callable(j) else j) for a in sorted(entry['attrs'])}


def construct(entry, vals):
    """a fresh object"""
    return entry['cls'](**{a: v.arg() for a, v in vals.items()})


def points(entry, rng, n):
    p = rng.normal(size=(n, 3)) * 4
    k = entry['points']
    if k == 'below':
        p[:, 2] = -np.abs(p[:, 2])
    elif k == 'above':
        p[:, 2] = np.abs(p[:, 2])
    elif k == 'surface':
        p[:, 2] = 0
        p *= 30                                  # at small induction numbers the closed forms lose their digits
    return p


def queries(entry):
    """(method, rank of the components, kwargs)"""
    for q in entry['queries']:
        for kw in (q[2] if len(q) > 2 else [{}]):
            yield q[0], q[1], kw


def ask(obj, name, kw, pts):
    """one query (an attribute for names starting with @)"""
    if name.startswith('@'):
        return getattr(obj, name[1:])
    if name == '~peak_time':                     # a function of depth
        return obj.peak_time(np.asarray(pts)[..., 2])
    if name in ('~potential', '~electric_field', '~current_density'):       # two receivers
        p = np.asarray(pts)
        return getattr(obj, name[1:])(pts, p[::-1] * .7 if p.ndim > 1 else p * .7)
    if name.startswith('~'):
        return getattr(obj, name[1:])(pts)
    return getattr(obj, name)(pts, **kw)


def via_value(entry, attr, x, obj):
    """the value to assign to the other parameter (resistivity for conductivity, mass for density)"""
    if entry['attrs'][attr][1]['via'] == 'mass':
        return float(x) * 4 / 3 * np.pi * obj.radius ** 3
    return 1 / float(x)


def reads(obj, attr, val):
    """does the attribute read back as the value?"""
    try:
        g = getattr(obj, attr)
    except Exception:
        return False
    r = val.read
    if isinstance(r, (str, bool)):
        return g == r
    if isinstance(g, float) and isinstance(r, float):
        return abs(g - r) <= 1e-12 * abs(r) + 1e-300
    g, r = np.asarray(g), np.asarray(r)
    if g.shape != r.shape or g.dtype.kind not in 'fciub':
        return False
    return all(abs(x - y) <= 1e-12 * abs(y) + 1e-300 for x, y in zip(g.ravel().tolist(), r.ravel().tolist()))


def qlabel(name, kw):
    return name + ''.join('/' + str(v) for v in kw.values())


# constructor arguments that may be left out, and what they then are
def defaults(entry):
    from scipy.constants import mu_0, epsilon_0
    zero, n = np.zeros(3), entry['name']
    d = dict(sigma=1.0, mu=mu_0, epsilon=epsilon_0, quasistatic=False, current=1.0, length=1.0, moment=1.0, amplitude=1.0, mass=1.0, rho=1.0,
             location=zero, primary_field=np.array([1.0, 0, 0]), magnetization=np.array([0, 0, 1.0]))
    d['orientation'] = np.array([1.0, 0, 0])
    if n == 'CircularLoop':
        d['radius'] = float(np.sqrt(1 / np.pi))
    if n in ('PointCurrentWholeSpace', 'PointCurrentHalfSpace', 'DipoleHalfSpace', 'GravitySphere'):
        d.pop('rho')
    if n == 'DipoleHalfSpace':
        d['location_a'] = np.array([-1.0, 0, 0])
        d['location_b'] = np.array([1.0, 0, 0])
    if n == 'HarmonicDipoleLayered':
        for k in ('sigma', 'mu', 'epsilon'):
            d[k] = np.full(3, d[k], dtype=complex)
    if n in ('Fault', 'Interferogram'):
        d = dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000., local_rigidity=3e10) if n == 'Interferogram' else dict(
            beta=3e10, mu=3e10, depth_bottom=1e4, dip=45.0, length=1e4, rake=90.0, slip=0.5, strike=0.0, shape=np.array([300, 300]))
    return {a: Val(None, v if isinstance(v, bool) else np.asarray(v), form='default') for a, v in d.items() if a in entry['attrs']}


def ctor_bads(entry, attr):
    """names of the values the constructor refuses"""
    b = sorted(bads(entry, attr))
    if attr in defaults(entry) and entry['attrs'][attr][0] in (k_loc, k_vec, k_depth) and 'none' in b and entry['name'] not in DIPOLES:
        b.remove('none')                         # None stands for the default
    n = entry['name']
    if n in ('GravityPrism', 'MagneticPrism') and attr == 'max_location':
        b += ['reversed1', 'reversed2', 'reversed3', 'flat1', 'flat2', 'flat3']
    if n == 'HarmonicDipoleHalfSpace' and attr == 'location':
        b += ['above', 'below']
    if n == 'HarmonicDipoleLayered' and attr == 'location':
        b += ['below', 'justbelow']
    return b


DIPOLES = ('StaticMagneticDipole', 'StaticMagneticPole', 'CircularLoop', 'HarmonicElectricDipole', 'HarmonicMagneticDipole', 'TransientElectricDipole', 'HarmonicDipoleHalfSpace',
           'HarmonicDipoleLayered', 'TransientDipoleHalfSpace')


def ctor_bad(entry, attr, form, vals):
    b = bads(entry, attr)
    if form in b:
        return copy.deepcopy(b[form])
    if form in ('above', 'below', 'justbelow'):
        v = np.array(vals[attr].read, float)
        v[2] = dict(above=.5, below=-2., justbelow=-1e-12)[form]
        return v
    k = int(form[-1]) - 1
    v = np.array(vals[attr].read, float)
    lo = np.array(vals['min_location'].read, float)
    v[k] = lo[k] - (1.0 if form.startswith('reversed') else 0.0)
    return v


# observation arguments that every query of a class refuses
BADPTS = dict(pairs=np.ones((4, 2)), pair=np.ones(2), four=np.ones((3, 4)), scalar=1.0, text='abc', tuple2=(np.ones(3), np.ones(3)), ragged=(np.ones(3), np.ones(3), np.ones(2)),
              column=np.ones((3, 1)), none=None, emptypairs=np.zeros((0, 2)))


def badpoints(entry):
    n = entry['name']
    if not entry['queries']:
        return []
    if n == 'HarmonicDipoleHalfSpace':
        return ['scalar', 'text', 'tuple2', 'ragged', 'none']
    if n == 'TransientDipoleHalfSpace':
        return ['four', 'scalar', 'text', 'ragged', 'column', 'none']
    b = sorted(BADPTS)
    if n in ('PointCurrentHalfSpace', 'DipoleHalfSpace', 'HarmonicDipoleLayered'):
        b.append('wrongside')
    return b


def badpts(entry, form, rng):
    if form == 'wrongside':
        p = points(entry, rng, 4)
        p[rng.integers(4), 2] = (1 if entry['points'] == 'below' else -1) * logu(rng, -9, 1)
        return p
    v = BADPTS[form]
    return copy.deepcopy(v)
