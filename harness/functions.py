"""Table of the free functions and helper methods with seeded arguments (C19, also C14)."""
import copy
import numpy as np
from gen import logu, unit


def table():
    import geoana.spatial as sp, geoana.utils as ut, geoana.em.fdem.base as fb, geoana.em.tdem.base as tb
    import geoana.em.fdem.simple_functions as fs, geoana.em.tdem.simple_functions as ts, geoana.em.tdem.reference as rf
    import geoana.kernels.potential_field_prism as pk, geoana.kernels.tranverse_electric_reflections as te
    import geoana.plotting_utils as pu
    P = lambda n=5: (lambda r: r.normal(size=(n, 3)) * 3)
    cyl = lambda r: np.c_[logu(r, -1, 1, 5), r.uniform(-3, 3, 5), r.normal(size=5)]
    sph = lambda r: np.c_[logu(r, -1, 1, 5), r.uniform(-3, 3, 5), r.uniform(.1, 3, 5)]
    u = lambda r: unit(r)
    f = lambda r: logu(r, 0, 5, 4)
    t = lambda r: logu(r, -6, -2, 4)
    g = lambda r: logu(r, -2, 1, 4)
    mu = lambda r: 4e-7 * np.pi * (1 + r.random(4))
    ep = lambda r: 8.9e-12 * (1 + r.random(4))
    xy = lambda r: r.normal(size=(5, 2)) * 30
    x1 = lambda r: r.normal(size=6)
    T = {}
    for n, s in (('cylindrical_to_cartesian', cyl), ('cartesian_to_cylindrical', P()), ('spherical_to_cartesian', sph), ('cartesian_to_spherical', P())):
        T[n] = (getattr(sp, n), [s])
        T[n + '+vec'] = (getattr(sp, n), [s, P()])
    for n, s in (('cylindrical_2_cartesian', cyl), ('cartesian_2_cylindrical', P()), ('spherical_2_cartesian', sph), ('cartesian_2_spherical', P())):
        T[n] = (getattr(sp, n), [s, P()])
    T['vector_magnitude'] = (sp.vector_magnitude, [P()])
    T['vector_distance'] = (sp.vector_distance, [P(), u])
    T['distance'] = (sp.distance, [P(), u])
    T['vector_dot'] = (sp.vector_dot, [P(), u])
    T['repeat_scalar'] = (sp.repeat_scalar, [x1])
    T['rotation_matrix_from_normals'] = (sp.rotation_matrix_from_normals, [u, u])
    T['rotation_matrix_from_normals/same'] = (sp.rotation_matrix_from_normals, [lambda r: np.array([0, 0, 1.0]), lambda r: np.array([0, 0, 1.0])])
    T['rotate_points_from_normals'] = (sp.rotate_points_from_normals, [P(), u, u, u])
    T['mkvc'] = (ut.mkvc, [P()])
    T['ndgrid'] = (ut.ndgrid, [x1, x1, x1])
    T['ndgrid/list'] = (lambda *a: ut.ndgrid(list(a)), [x1, x1])
    T['check_xyz_dim'] = (ut.check_xyz_dim, [P()])
    T['append_ndim'] = (lambda a: ut.append_ndim(a, 2), [x1])
    T['omega'] = (fb.omega, [f])
    T['wavenumber'] = (fb.wavenumber, [f, g, mu, ep])
    T['wavenumber/qs'] = (lambda *a: fb.wavenumber(*a, quasistatic=True), [f, g, mu, ep])
    T['skin_depth'] = (fb.skin_depth, [f, g, mu, ep])
    T['sigma_hat'] = (fb.sigma_hat, [f, g, ep])
    T['peak_time'] = (tb.peak_time, [g, g, mu])
    T['diffusion_distance'] = (tb.diffusion_distance, [t, g, mu])
    T['theta'] = (tb.theta, [t, g, mu])
    T['loop_fd_field'] = (fs.vertical_magnetic_field_horizontal_loop, [f])
    T['loop_fd_field/total'] = (lambda a: fs.vertical_magnetic_field_horizontal_loop(a, secondary=False), [f])
    T['loop_fd_flux'] = (lambda a: fs.vertical_magnetic_flux_horizontal_loop(a, 1.0), [f])
    for n in ('vertical_magnetic_field_horizontal_loop', 'vertical_magnetic_flux_horizontal_loop', 'vertical_magnetic_field_time_deriv_horizontal_loop',
              'vertical_magnetic_flux_time_deriv_horizontal_loop'):
        T['td_' + n] = (getattr(ts, n), [t])
    for n in ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole', 'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole'):
        T['td_' + n] = (getattr(ts, n), [t, xy])
    th = lambda r: logu(r, -2, -1, 4)
    rho = lambda r: logu(r, 0, 2, 4)
    T['hz_from_vert'] = (lambda a, b: rf.hz_from_vert_4_69a(1.0, a, b), [th, rho])
    T['dhz_from_vert'] = (lambda a, b: rf.dhz_from_vert_4_70(1.0, a, b, 0.1, 1e-6), [th, rho])
    T['hp_from_vert'] = (lambda a, b: rf.hp_from_vert_4_72(1.0, a, b), [th, rho])
    T['dhp_from_vert'] = (lambda a, b, c: rf.dhp_from_vert_4_74(1.0, a, b, c), [th, rho, t])
    for k in ('f', 'fz', 'fzz', 'fzx', 'fzy', 'fzzz', 'fxxy', 'fxxz', 'fxyz'):
        T['prism_' + k] = (getattr(pk, 'prism_' + k), [x1, x1, x1])
        T['_prism_' + k] = (getattr(pk, '_prism_' + k), [x1, x1, x1])
    fr, lam = (lambda r: logu(r, 0, 5, 3)), (lambda r: logu(r, -4, 0, 4))
    sg, mm, tk = (lambda r: logu(r, -3, 0, (3, 3)) + 0j), (lambda r: 4e-7 * np.pi * (1 + r.random((3, 3))) + 0j), (lambda r: r.uniform(1, 30, 2))
    for n in ('rTE_forward', 'rTE_gradient', '_rTE_forward', '_rTE_gradient'):
        T[n] = (getattr(te, n), [fr, lam, sg, mm, tk])

    def plot(xyz, d, mask=None, opts=None, **kw):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots()
        try:
            r = pu.plot2Ddata(xyz, d, ax=ax, nx=8, ny=7, mask=mask, **(opts or {}), **kw)
            c = r[0]
            return np.r_[np.asarray(c.levels, float).ravel(), np.asarray(c.norm.vmin, float).ravel(), np.asarray(c.norm.vmax, float).ravel()]
        finally:
            plt.close(fig)
    sc = lambda r: r.normal(size=30)
    P30 = P(30)
    P2 = lambda r: r.normal(size=(30, 2))
    T['plot2Ddata'] = (plot, [P30, sc])
    T['plot2Ddata/flat'] = (plot, [P2, sc])
    T['plot2Ddata/vec'] = (lambda a, b: plot(a, b, vec=True, level=True), [P2, P2])
    T['plot2Ddata/mask'] = (plot, [P2, sc, lambda r: r.random(30) > .8])
    T['plot2Ddata/clim'] = (lambda a, b, c: plot(a, b, clim=c), [P2, sc, lambda r: np.array([-.5, .5])])
    T['plot2Ddata/log'] = (lambda a, b: plot(a, b, scale='log'), [P2, lambda r: logu(r, -2, 2, 30)])
    T['plot2Ddata/opts'] = (lambda a, b, c, l: plot(a, b, level=True, contourOpts=c, levelOpts=l, shade=True), [P2, sc, lambda r: dict(alpha=.5), lambda r: dict(colors='k')])
    T['plot2Ddata/vmin'] = (lambda a, b, c: plot(a, b, contourOpts=c), [P2, sc, lambda r: dict(vmin=-.4, vmax=.3)])
    T['plot2Ddata/stream'] = (lambda a, b, c, s: plot(a, b, vec=True, dataloc=True, contourOpts=c, streamplotOpts=s), [P2, P2, lambda r: dict(vmax=1.3), lambda r: dict(color='w')])
    return T


FORMS = ['array', 'strided', 'readonly', 'fortran']


def shaped(x, form):
    """the same array in another memory layout"""
    if not isinstance(x, np.ndarray) or form in ('array', 'point', 'grid'):
        return copy.deepcopy(x)
    if form == 'fortran':
        return np.asfortranarray(x.copy())
    if form == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y
    big = np.full(tuple(2 * n + 1 for n in x.shape), 7, dtype=x.dtype)
    v = big[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
    v[...] = x
    return v
