"""C24: models agree in their common limits, at the rate of the theory."""
import warnings
import numpy as np
from scipy.constants import mu_0
from gen import logu, unit
import core

LEVEL = 'model_checking'
RULE = 'one case per (pair of models, form, quantity, distance from the limit) enumerated by TLC; agreement of the two models against the order computed from moments and Taylor coefficients in the specification'
METH = dict(A='vector_potential', E='electric_field', J='current_density', H='magnetic_field', B='magnetic_flux_density',
            dH='magnetic_field_time_deriv', dB='magnetic_flux_density_time_deriv', V='potential')


class Case:
    """random geometry: a source at c, points around it at distance about 1 (times scale L)"""

    def __init__(self, rng, n=6):
        self.rng = rng
        self.L = float(logu(rng, -1, 3))
        self.c = rng.normal(size=3) * self.L * rng.choice([0.0, 1.0, 20.0])
        self.u = unit(rng)
        if rng.random() < .4:
            self.u = np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0])
        self.d = unit(rng, n) * rng.uniform(.6, 1, (n, 1)) * self.L       # eps is at most the stated one for sources smaller than eps L
        self.x = self.c + self.d
        self.mu = mu_0 * (1 if rng.random() < .5 else float(rng.uniform(1, 5)))
        self.sig = float(logu(rng, -4, 1))
        self.m = float(rng.choice([-1, 1]) * logu(rng, -2, 3))

    def slow(self, eps):
        """frequency at which |k| L = eps up to a factor, and the displacement current is below eps^2 of the conduction current"""
        self.sig = max(self.sig, 1e-2 / self.L)
        return .5 * eps ** 2 / (2 * np.pi * self.mu * self.sig * self.L ** 2)

    def get(self, o, q, x=None):
        return np.asarray(getattr(o, METH[q])(np.array(self.x if x is None else x)))


def low_magnetic(k, eps, form, q, M):
    f = k.slow(eps)
    o = M.fd.MagneticDipoleWholeSpace(frequency=f, quasistatic=form == 'quasi', sigma=k.sig, mu=k.mu, moment=k.m, orientation=k.u, location=k.c)
    s = M.st.MagneticDipoleWholeSpace(sigma=k.sig, mu=k.mu, moment=k.m, orientation=k.u, location=k.c)
    if q == 'E':
        B = -2j * np.pi * f * k.get(s, 'A')
        return k.get(o, 'E'), B, 0, 1, np.abs(2 * np.pi * f * k.mu * k.m / (4 * np.pi * np.sum(k.d ** 2, -1)))
    return k.get(o, q), k.get(s, q), 0, 1, None


def element(k, M, eps, q, form='middle'):
    """a short straight wire of moment I ds = m in direction u (grounded: with its electrodes)"""
    l = eps * k.L * .5
    a = k.c - k.u * l / 2 if form == 'middle' else k.c
    I = k.m / l
    w = M.st.LineCurrentWholeSpace(nodes=np.array([a, a + k.u * l]), current=I, sigma=k.sig, mu=k.mu)
    if q in 'EJ' and k.rng.random() < .5:                   # the electrodes alone
        p = [M.st.PointCurrentWholeSpace(rho=1 / k.sig, current=s * I, location=y) for s, y in ((1, a + k.u * l), (-1, a))]
        return sum(k.get(i, q) for i in p)
    r = k.get(w, q)
    return r / k.mu if q == 'A' else r


def low_electric(k, eps, form, q, M):
    f = k.slow(eps)
    length = float(logu(k.rng, -1, 1))
    o = M.fd.ElectricDipoleWholeSpace(frequency=f, quasistatic=form == 'quasi', sigma=k.sig, mu=k.mu, current=k.m / length, length=length, orientation=k.u, location=k.c)
    c = 10 * -np.log10(eps) * 2
    return k.get(o, q), element(k, M, eps, q), c, 1, k.size(q)


def size(k, q):
    r = np.linalg.norm(k.d, axis=-1)
    p = abs(k.m) / (4 * np.pi)
    return dict(A=p / r, H=p / r ** 2, B=k.mu * p / r ** 2, J=p / r ** 3, E=p / r ** 3 / k.sig)[q]


Case.size = size


def plane_low(k, eps, form, q, M):
    f = k.slow(eps)
    h = k.u.copy()
    h[2] = 0
    if not h.any():
        h[0] = 1.0
    o = M.fd.HarmonicPlaneWave(frequency=f, quasistatic=form == 'quasi', sigma=k.sig, mu=k.mu, amplitude=k.m, orientation=h)
    x = k.d.copy()
    want = np.broadcast_to(k.m * h / np.linalg.norm(h), x.shape) * (k.sig if q == 'J' else 1)
    return k.get(o, q, x), want, 0, 1, None


def transient(k, u, M):
    r = np.linalg.norm(k.d, axis=-1)
    t = k.mu * k.sig * (r.min() / u) ** 2 / 4
    length = float(logu(k.rng, -1, 1))
    return M.td.ElectricDipoleWholeSpace(time=t, sigma=k.sig, mu=k.mu, current=k.m / length, length=length, orientation=k.u, location=k.c), t


def transient_early(k, lev, form, q, M):
    k.d *= (k.L / np.linalg.norm(k.d, axis=-1))[:, None]      # all at the same distance
    k.x = k.c + k.d
    o, t = transient(k, lev, M)
    # the static fields of the dipole: its harmonic model at zero frequency
    s = M.fd.ElectricDipoleWholeSpace(frequency=0.0, sigma=k.sig, mu=k.mu, current=o.current, length=o.length, orientation=k.u, location=k.c)
    return k.get(o, q), k.get(s, q), 0, 1, k.size(q)


def transient_late(k, eps, form, q, M):
    r = np.linalg.norm(k.d, axis=-1)
    k.d *= (k.L / r)[:, None]
    k.x = k.c + k.d
    o, t = transient(k, eps, M)
    c = -np.log10(eps) * 30
    if q in ('dH', 'dB'):
        return k.get(o, q), 0, 0, 1, k.size('B' if q == 'dB' else 'H') / t
    return k.get(o, q), 0, c, 1, k.size(q)


def loops(k, M, kind, eps, form, q):
    a, turns = k.L, int(k.rng.integers(1, 4))
    free = M.st.CircularLoopWholeSpace(radius=a, current=k.m * turns, mu=k.mu, orientation='z', location=k.c)
    B = k.get(free, q, k.c)[..., 2]
    kw = dict(sigma=k.sig, mu=k.mu, radius=a, current=k.m, turns=turns)
    name = 'vertical_magnetic_%s_horizontal_loop' % dict(H='field', B='flux')[q]
    if kind.startswith('fd'):
        x = 1 / eps if kind == 'fdloop_high' else eps
        f = x ** 2 / (2 * np.pi * k.mu * k.sig * a ** 2)
        A = getattr(M.fd, name)(f, secondary=form == 'secondary', **kw)
        c = 0 if kind == 'fdloop_high' else 20 * -np.log10(eps)
        want = B if kind == 'fdloop_low' and form == 'total' else 0
    else:
        x = 1 / eps if kind == 'tdloop_early' else eps
        t = k.mu * k.sig * (a / x) ** 2 / 4
        A = getattr(M.td, name)(t, **kw)
        c = 0 if kind == 'tdloop_early' else 20 * -np.log10(eps)
        want = B if kind == 'tdloop_early' else 0
    return np.asarray(A), want, c, 0, np.abs(B)


def tddipole(k, M, kind, eps, form, q):
    rho = k.L
    ang = k.rng.uniform(-np.pi, np.pi, 5)
    k.x = k.c + rho * np.stack([np.cos(ang), np.sin(ang), 0 * ang], 1)
    x = 1 / eps if kind == 'tddipole_early' else eps
    t = k.mu * k.sig * (rho / x) ** 2 / 4
    s = M.st.MagneticDipoleWholeSpace(mu=k.mu, moment=k.m, orientation='z', location=k.c)
    B = k.get(s, q)
    if form == 'class':
        o = M.td.VerticalMagneticDipoleHalfSpace(time=t, sigma=k.sig, mu=k.mu, moment=k.m, location=k.c)
        A = k.get(o, q)
    else:
        fn = M.td.magnetic_field_vertical_magnetic_dipole if q == 'H' else M.td.magnetic_flux_vertical_magnetic_dipole
        A = np.asarray(fn(t, (k.x - k.c)[:, :2], k.sig, k.mu, k.m)).reshape(B.shape)
    c = 0 if kind == 'tddipole_early' else 20 * -np.log10(eps)
    return A.reshape(B.shape), B if kind == 'tddipole_early' else 0 * B, c, 1, np.linalg.norm(B, axis=-1)


def half(k, M, kind, eps, form, q):
    u = dict(x=[1.0, 0, 0], y=[0, 1.0, 0], z=[0, 0, 1.0]).get(form, k.u)
    ang = k.rng.uniform(-np.pi, np.pi, 5)
    k.c = k.c * [1, 1, 0]
    k.x = k.c + k.L * np.stack([np.cos(ang), np.sin(ang), 0 * ang], 1)
    x = 1 / eps if kind == 'half_high' else eps
    f = x ** 2 / (2 * np.pi * mu_0 * k.sig * k.L ** 2)
    o = M.fd.MagneticDipoleHalfSpace(frequency=f, quasistatic=True, sigma=k.sig, moment=k.m, orientation=u, location=k.c)
    A = np.asarray(o.magnetic_field(k.x.copy(), field=q))
    dip = lambda v, s: k.get(M.st.MagneticDipoleWholeSpace(moment=s * k.m, orientation=v, location=k.c), 'H')
    P = dip(u, 1)
    nu = np.linalg.norm(u)
    if kind == 'half_high':                               # a perfect conductor: the image dipole (ux, uy, -uz)
        S = sum(dip(np.eye(3)[i], s * u[i] / nu) for i, s in ((0, 1), (1, 1), (2, -1)))
    else:
        S = 0 * P
    c = 40 * -np.log10(eps) if kind == 'half_low' else 0
    return A.reshape(P.shape), S + (P if q == 'total' else 0), c, 1, np.full(len(P), abs(k.m) / (4 * np.pi * k.L ** 3))


def layered(k, M, kind, eps, form, q):
    L = k.L
    h, n = L * k.rng.uniform(.3, 1), 4
    ang = k.rng.uniform(-np.pi, np.pi, n)
    z = L * k.rng.uniform(0, .7, n)
    k.c = np.r_[k.c[:2], h]
    k.x = np.stack([k.c[0] + L * np.cos(ang), k.c[1] + L * np.sin(ang), z], 1)
    x = dict(layered_low=eps, layered_high=1 / eps, layered_contrast=1.0)[kind]
    f = x ** 2 / (2 * np.pi * mu_0 * k.sig * L ** 2)
    three = form != 'one'
    r = k.rng.uniform(.5, 1, 3)
    if kind == 'layered_high':
        r = 1 / r
    sig, mu, th = k.sig * r, np.full(3, mu_0), L * k.rng.uniform(.2, .8, 2)
    if kind == 'layered_contrast':
        v = np.r_[0, k.rng.uniform(-1, 1, 2)]
        sig = k.sig * (1 + eps * v) if form == 'sigma' else np.full(3, k.sig)
        mu = mu_0 * (1 + eps * np.abs(v)) if form == 'mu' else mu
    if not three:
        sig, mu, th = sig[:1], mu[:1], None
    mk = lambda s, m, t: np.asarray(M.fd.MagneticDipoleLayeredHalfSpace(frequency=[f], thickness=t, sigma=s, mu=m, quasistatic=True, orientation=k.u, moment=k.m, location=k.c).magnetic_field(k.x.copy(), field=q))
    A = mk(sig, mu, th).reshape(n, 3)
    dip = lambda v, s, loc: k.get(M.st.MagneticDipoleWholeSpace(moment=s * k.m, orientation=v, location=loc), 'H')
    P = dip(k.u, 1, k.c)
    img = k.c * [1, 1, -1]
    I = sum(dip(np.eye(3)[i], s * k.u[i], img) for i, s in ((0, 1), (1, 1), (2, -1)))
    if kind == 'layered_contrast':
        B = mk(sig[:1], mu[:1], None).reshape(n, 3)
    else:
        B = (P if q == 'total' else 0 * P) + (I if kind == 'layered_high' else 0)
    d = np.linalg.norm(k.x - img, axis=1)
    return A, B, 66 if kind != 'layered_contrast' else 40, 1, abs(k.m) / (4 * np.pi * d ** 3)


def moment(k, M, q, m):
    return k.get(M.st.MagneticDipoleWholeSpace(mu=k.mu, moment=m, orientation=k.u, location=k.c), q)


def magsize(k, q, m):
    r = np.linalg.norm(k.d, axis=-1)
    return dict(A=k.mu * abs(m) / (4 * np.pi * r ** 2), B=k.mu * abs(m) / (4 * np.pi * r ** 3), H=abs(m) / (4 * np.pi * r ** 3))[q]


def loop_dipole(k, eps, form, q, M):
    a = eps * k.L
    o = M.st.CircularLoopWholeSpace(radius=a, current=k.m / (np.pi * a ** 2), mu=k.mu, orientation=k.u, location=k.c)
    return k.get(o, q), moment(k, M, q, k.m), 20 * -np.log10(eps) , 1, magsize(k, q, k.m)


def frame(k):
    v = np.cross(k.u, np.eye(3)[np.argmin(np.abs(k.u))])
    v /= np.linalg.norm(v)
    return v, np.cross(k.u, v)


def polygon(k, n, a, turn=0.0, at=0):
    v, w = frame(k)
    t = turn + 2 * np.pi * np.arange(n + 1) / n
    x = a * (np.cos(t)[:, None] * v + np.sin(t)[:, None] * w)
    x[-1] = x[0]
    return k.c + x - (x[0] if at else 0)


def wire_dipole(k, eps, form, q, M):
    n = dict(triangle=3, square=4, hexagon=6, corner=4)[form]
    a = eps * k.L * (.5 if form == 'corner' else 1)
    x = polygon(k, n, a, k.rng.uniform(0, 6), form == 'corner')
    area = n / 2 * a ** 2 * np.sin(2 * np.pi / n)
    o = M.st.LineCurrentWholeSpace(nodes=x, current=k.m / area, mu=k.mu)
    return k.get(o, q), moment(k, M, q, k.m), 30 * -np.log10(eps), 1, magsize(k, q, k.m)


def polygon_loop(k, eps, form, q, M):
    n = int(np.ceil(2 / eps))
    a = k.L * k.rng.choice([.3, 1.8])                       # points outside or inside, away from the wire
    o = M.st.LineCurrentWholeSpace(nodes=polygon(k, n, a), current=k.m, mu=k.mu)
    s = M.st.CircularLoopWholeSpace(radius=a, current=k.m, mu=k.mu, orientation=k.u, location=k.c)
    B = k.get(s, q)
    scale = dict(A=k.mu * k.m, B=k.mu * k.m / k.L, H=k.m / k.L)[q]
    return k.get(o, q), B, 20, 1, np.full(len(B), abs(scale))


def box(k, eps, form):
    e = eps * k.L * (.5 if form == 'corner' else 1)
    s = np.full(3, e / np.sqrt(3)) if form == 'cube' else e * (np.abs(unit(k.rng)) * .5 + .2)          # half sides
    if form == 'corner':
        return k.c, k.c + 2 * s, 8 * np.prod(s)
    return k.c - s, k.c + s, 8 * np.prod(s)


def prism_dipole(k, eps, form, q, M):
    k.c, k.x = k.c * 0, k.x - k.c
    lo, hi, vol = box(k, eps, form)
    k.mu = mu_0
    o = M.st.MagneticPrism(lo, hi, magnetization=k.u * k.m / vol)
    return k.get(o, q), moment(k, M, q, k.m), 30 * -np.log10(eps) + 10, 1, magsize(k, q, k.m)


def prism_mass(k, eps, form, q, M):
    k.c, k.x = k.c * 0, k.x - k.c
    lo, hi, vol = box(k, eps, form)
    name = dict(V='gravitational_potential', g='gravitational_field', gg='gravitational_gradient')[q]
    o = M.gr.Prism(lo, hi, rho=k.m / vol)
    s = M.gr.PointMass(mass=k.m, location=k.c)
    B = np.asarray(getattr(s, name)(k.x.copy()))
    r = np.linalg.norm(k.d, axis=-1)
    return np.asarray(getattr(o, name)(k.x.copy())), B, 30 * -np.log10(eps) + 10, dict(V=0, g=1, gg=2)[q], abs(k.m) * 6.6743e-11 / r ** dict(V=1, g=2, gg=3)[q]


def poles_dipole(k, eps, form, q, M):
    l = eps * k.L * .5
    a = k.c - k.u * l / 2 if form == 'middle' else k.c
    pole = lambda x, s: k.get(M.st.MagneticPoleWholeSpace(mu=k.mu, moment=s * k.m / l, location=x, orientation=k.u), q)
    return pole(a + k.u * l, 1) + pole(a, -1), moment(k, M, q, k.m), 20 * -np.log10(eps), 1, magsize(k, q, k.m)


def wire_electric(k, eps, form, q, M):
    length = float(logu(k.rng, -1, 1))
    s = M.fd.ElectricDipoleWholeSpace(frequency=0.0, quasistatic=bool(k.rng.integers(2)), sigma=k.sig, mu=k.mu, current=k.m / length, length=length, orientation=k.u, location=k.c)
    return element(k, M, eps, q, form), k.get(s, q), 20 * -np.log10(eps) + 10, 1, k.size(q)


def surface(k, M):
    k.c = k.c * [1, 1, 0]
    k.x = k.c + k.d * [1, 1, -1] * np.sign(np.r_[1, 1, 1])
    k.x[:, 2] = -np.abs(k.x[:, 2])
    k.d = k.x - k.c


def dcsize(k, q):
    r = np.linalg.norm(k.d, axis=-1)
    p = abs(k.m) / (4 * np.pi)
    return dict(V=p / r / k.sig, E=p / r ** 2 / k.sig, J=p / r ** 2)[q]


def rank(q):
    return 0 if q == 'V' else 1


def electrodes(k, M, kind, eps, form, q):
    surface(k, M)
    rho = 1 / k.sig
    half_ = lambda x, I=k.m: M.st.PointCurrentHalfSpace(rho=rho, current=I, location=x)
    whole = lambda x: M.st.PointCurrentWholeSpace(rho=rho, current=k.m, location=x)
    down = np.r_[0, 0, -1.0]
    if kind == 'electrodes_shallow':
        return k.get(half_(k.c + eps * k.L * .5 * down), q), 2 * k.get(whole(k.c), q), 0, rank(q), dcsize(k, q)
    if kind == 'electrode_deep':
        deep = k.c + down * k.L / eps
        k.x = deep + k.d
        return k.get(half_(deep), q), k.get(whole(deep), q), 0, rank(q), dcsize(k, q)
    if kind == 'electrode_remote':
        ang = k.rng.uniform(0, 6.3)
        rem = k.c + k.L / eps * np.r_[np.cos(ang), np.sin(ang), 0]
        o = M.st.DipoleHalfSpace(rho=rho, current=k.m, location_a=k.c, location_b=rem)
        return k.get(o, q), k.get(half_(k.c), q), 0, rank(q), dcsize(k, q)
    if kind == 'surface_doubling':
        return k.get(half_(k.c), q), 2 * k.get(whole(k.c), q), 0, rank(q), dcsize(k, q)
    # a wire that ends very far away is an electrode of the other sign (I leaves the wire at its last node)
    o = M.st.LineCurrentWholeSpace(nodes=np.array([k.c + 1e14 * k.L * unit(k.rng), k.c]), current=k.m, sigma=k.sig)
    A = np.asarray(o.scalar_potential(k.x.copy())) if q == 'V' else k.get(o, q)
    return A, k.get(whole(k.c), q), 20, rank(q), dcsize(k, q)


SPH = dict(electric=dict(V='potential', F='electric_field', D='current_density'), magnetic=dict(V='potential', F='magnetic_field', D='magnetic_flux_density'))


def balls(k, M, kind, eps, form, q):
    R = k.L * k.rng.uniform(.2, 1.5)
    F = k.u * k.m
    s0 = k.sig if form != 'magnetic' else mu_0 * k.rng.uniform(1, 3)
    def ball(which, s1):
        if which == 'electric':
            return M.st.ElectrostaticSphere(radius=R, sigma_sphere=s1, sigma_background=s0, primary_field=F, location=k.c)
        return M.st.MagnetostaticSphere(radius=R, mu_sphere=s1, mu_background=s0, primary_field=F, location=k.c)
    ask = lambda o, which, f: np.asarray(getattr(o, SPH[which][q])(k.x.copy(), field=f))
    unitq = dict(V=k.L, F=1.0, D=s0)[q] * abs(k.m)
    n = len(k.x)
    if kind == 'ball_contrast':
        k.c = k.c * 0
        k.x = k.d
        return ask(ball(form, s0 * (1 + eps * k.rng.choice([-1, 1]))), form, 'secondary'), 0, 10 * -np.log10(eps), rank(q), np.full(n, unitq)
    if kind in ('ball_conductor', 'ball_insulator'):
        k.x = k.c + k.d / np.linalg.norm(k.d, axis=-1)[:, None] * R * k.rng.uniform(0, .95, (n, 1))
        return ask(ball(form, s0 / eps if kind == 'ball_conductor' else s0 * eps), form, 'total'), 0, 0, 1, np.full(n, unitq * 3)
    s1 = s0 * float(logu(k.rng, -1.5, 1.5))
    if kind == 'ball_analogy':
        a, b = (ask(ball(w, s1), w, form) for w in ('electric', 'magnetic'))
        return a, b, 0, rank(q), np.full(n, unitq) * max(1, s1 / s0)
    # ball_dipole: outside, the secondary field is that of a dipole
    k.x = k.c + k.d / np.linalg.norm(k.d, axis=-1)[:, None] * R * k.rng.uniform(1.05, 4, (n, 1))
    chi = (s1 - s0) / (s1 + 2 * s0)
    A = ask(ball(form, s1), form, 'secondary')
    B = k.get(M.st.MagneticDipoleWholeSpace(moment=4 * np.pi * R ** 3 * chi * k.m, orientation=k.u, location=k.c), 'H') * (s0 if q == 'D' else 1)
    if form == 'electric' and k.rng.random() < .5:          # the same as a dipole of current
        d = M.fd.ElectricDipoleWholeSpace(frequency=0.0, sigma=s0, current=4 * np.pi * R ** 3 * chi * k.m * s0, length=1.0, orientation=k.u, location=k.c)
        B = k.get(d, 'J' if q == 'D' else 'E').real
    return A, B, 20, 1, np.full(n, unitq)


def ball_mass(k, eps, form, q, M):
    R = k.L * (.5 if form == 'near' else 1e-3)
    name = dict(V='gravitational_potential', g='gravitational_field', gg='gravitational_gradient')[q]
    rho = k.m / (4 / 3 * np.pi * R ** 3)
    o, s = M.gr.Sphere(radius=R, rho=rho, location=k.c), M.gr.PointMass(mass=k.m, location=k.c)
    A, B = (np.asarray(getattr(i, name)(k.x.copy())) for i in (o, s))
    r = np.linalg.norm(k.d, axis=-1)
    return A, B, 0, dict(V=0, g=1, gg=2)[q], abs(k.m) * 6.6743e-11 / r ** dict(V=1, g=2, gg=3)[q]


class Mods:
    pass


def observe(cfg, q, rng, M):
    k = Case(rng)
    kind, form = cfg['limit'], cfg['form']
    eps = 10 ** (-cfg['level'] / 10)
    if kind == 'transient_early':
        r = transient_early(k, cfg['level'], form, q, M)
    elif kind in ('transient_late', 'transient_late_dt'):
        r = transient_late(k, eps, form, q, M)
    elif kind.startswith(('fdloop', 'tdloop')):
        r = loops(k, M, kind, eps, form, q)
    elif kind.startswith('tddipole'):
        r = tddipole(k, M, kind, eps, form, q)
    elif kind.startswith('half'):
        r = half(k, M, kind, eps, form, q)
    elif kind.startswith('layered'):
        r = layered(k, M, kind, eps, form, q)
    elif kind.startswith('electrode') or kind in ('surface_doubling', 'point_wire'):
        r = electrodes(k, M, kind, eps, form, q)
    elif kind.startswith('ball') and kind != 'ball_mass':
        r = balls(k, M, kind, eps, form, q)
    else:
        r = globals()[kind](k, eps, form, q, M)
    A, B, c, rk, scale = r
    A = np.asarray(A)
    A, B = (A, np.broadcast_to(B, A.shape)) if np.ndim(B) == 0 else (A, np.asarray(B))
    det = dict(L=k.L, c=str(k.c), u=str(k.u), mu=k.mu, sig=k.sig, m=k.m, eps=eps, A=str(A)[:400], B=str(B)[:400])
    if A.shape != B.shape:
        return False, -999, 0, dict(det, shapes=[A.shape, B.shape])
    err = np.abs(A - B)
    if rk:
        err = np.sqrt(np.sum(err ** 2, axis=tuple(range(-rk, 0))))
    if scale is None:
        scale = np.sqrt(np.sum(np.abs(B) ** 2, axis=tuple(range(-rk, 0)))) if rk else np.abs(B)
    m = np.max(err / scale)
    if not np.isfinite(m):
        return True, -999, int(c), det
    # rounding of the location: points far from the origin relative to their distance from the source
    c += 10 * max(0, np.log10(max(np.abs(k.x).max() / k.L, 1)))
    return True, core.clip(-np.log10(max(m, 1e-17))), int(np.ceil(c)), det


def run(ctx):
    import geoana.gravity as gr
    from geoana.em import static, fdem, tdem
    from geoana.em.static import MagneticPrism
    M = Mods()
    M.gr, M.st, M.fd, M.td = gr, static, fdem, tdem
    m = ctx.model('MC_Limits')
    for cfg, rules in m['cases']:
        for q in rules:
            for rep in range(40 if ctx.tier == 'thorough' else 3):
                rng = ctx.rng(cfg['limit'], cfg['form'], q, rep)      # the same problem at every level
                e = dict(cfg=cfg, qty=q, out='ok', shape=True, d=-999, c=0)
                det = None
                try:
                    with warnings.catch_warnings(), np.errstate(all='ignore'):
                        warnings.simplefilter('ignore')
                        e['shape'], e['d'], e['c'], det = observe(cfg, q, rng, M)
                except Exception as ex:
                    e['out'] = type(ex).__name__
                    det = str(ex)[:300]
                ctx.evals += 1
                ctx.event(det, **e)
    return ctx.validate('TR_Limits')
