"""More of the catalogue: the same values in other guises (40, 40.0, numpy scalars; integer, float, complex, C and
Fortran ordered arrays, zeros of both signs), and objects whose own tolerances decide the result."""
import numpy as np

from .catalog import op, Case


def fresh(v):
    """a copy of a result: a helper with nothing to do may return its own argument"""
    if isinstance(v, tuple):
        return tuple(fresh(x) for x in v)
    return np.array(v) if isinstance(v, np.ndarray) else v


def number(r, *vals):
    v = r.c(*vals)
    return r.c(int, int, float, float, np.int64, np.float64, np.float32, np.int32)(v)


def matrix(r, *mats):
    m = np.array(r.c(*mats), dtype=np.float64)
    k = r.i(0, 8)
    if k == 0:
        return m
    if k == 1:
        return np.asfortranarray(m)
    if k == 2:
        return m.astype(np.int64)
    if k == 3:
        return m.astype(np.float32)
    if k == 4:
        return m.astype(np.complex128)
    if k == 5:
        return np.where(m == 0., -0., m)
    if k == 6:
        return np.ascontiguousarray(np.repeat(m, 2, axis=0))[::2]
    if k == 7:
        return m.astype(object)
    return m.tolist()


SPD2, SPD3 = [[2., 0.], [0., 1.]], [[3., 1., 0.], [1., 2., 0.], [0., 0., 1.]]
DEG2, ONE2, NEG2 = [[1., 0.], [0., 0.]], [[1., 0.], [0., 1.]], [[0., -1.], [-1., 0.]]
V2, W2 = [1., 0.], [0., 2.]


def reg(name, mk):
    def f(r, L):
        args, call = mk(r, L)
        return Case(args, lambda a: fresh(call(a)), tags=('kinds',))
    f.__name__ = 'o_kind_' + name
    op('kind', 0.5)(f)


def E2(L):
    return L.Ellipsoid(np.array([1., 2.]), np.array([[2., 1.], [1., 3.]]), n_plot_2d_points=10)


reg('circle', lambda r, L: ([number(r, 5, 12)], lambda a: L.geom.circle_part(a[0])))
reg('sphere_tri_ext', lambda r, L: ([number(r, 5, 12)], lambda a: L.tri.sphere_tri_ext(2, a[0], True)))
reg('sphere_tri_ext3', lambda r, L: ([number(r, 13, 42)], lambda a: L.tri.sphere_tri_ext(3, a[0])))
reg('sphere_tri', lambda r, L: ([number(r, 1, 2)], lambda a: L.tri.sphere_tri(a[0])))
reg('sphere_part', lambda r, L: ([number(r, 3, 10)], lambda a: L.geom.sphere_part(a[0])))
reg('boundary', lambda r, L: ([number(r, 5, 12)], lambda a: E2(L).get_boundary(a[0])))
reg('rho_boundary', lambda r, L: ([number(r, 5, 12)], lambda a: E2(L).get_rho_boundary(a[0])))
reg('boundary_factor', lambda r, L: ([number(r, 1, 2)], lambda a: E2(L).get_boundary_by_factor(a[0])))
reg('plot_points', lambda r, L: ([number(r, 5, 12)], lambda a: L.Ellipsoid(np.eye(2), n_plot_2d_points=a[0]).get_boundary()))
reg('tolerance', lambda r, L: ([number(r, 1, 2)], lambda a: L.Ellipsoid.get_abs_tol([L.Ellipsoid(np.eye(2), abs_tol=a[0])], None)))
reg('rep_mat', lambda r, L: ([[number(r, 1, 2), number(r, 1, 2)]], lambda a: L.Ellipsoid(np.eye(2)).rep_mat(a[0])))
reg('shift', lambda r, L: ([number(r, 0, 2)], lambda a: L.Hyperplane(np.array([1., 2.]), a[0]).parameters()))
reg('normal', lambda r, L: ([matrix(r, V2, W2)], lambda a: L.Hyperplane(a[0], 1.).parameters()))
reg('sqrt_pos', lambda r, L: ([number(r, 4, 0)], lambda a: L.gen.sqrt_pos(a[0])))
reg('is_numeric', lambda r, L: ([matrix(r, V2, W2)], lambda a: L.common.is_numeric(a[0])))
reg('is_symm', lambda r, L: ([matrix(r, SPD2, SPD3)], lambda a: L.la.is_mat_symm(a[0])))
reg('pos_def', lambda r, L: ([matrix(r, SPD2, DEG2, NEG2)], lambda a: L.la.is_mat_pos_def(a[0], 1e-6)))
reg('sqrtm_pos', lambda r, L: ([matrix(r, SPD2, SPD3, DEG2)], lambda a: L.la.sqrtm_pos(a[0], 1e-6)))
reg('reg_mat', lambda r, L: ([matrix(r, SPD2, DEG2)], lambda a: L.la.reg_mat(a[0], 1e-3)))
reg('reg_pos_def', lambda r, L: ([matrix(r, SPD2, DEG2)], lambda a: L.la.reg_pos_def_mat(a[0], 1e-3)))
reg('real', lambda r, L: ([matrix(r, SPD2, W2)], lambda a: L.la.try_treat_as_real(a[0])))
reg('orth_transl', lambda r, L: ([matrix(r, V2, W2)], lambda a: L.la.orth_transl(a[0], np.array([1., 1.]))))
reg('shape', lambda r, L: ([matrix(r, SPD2, SPD3, DEG2)], lambda a: L.Ellipsoid(a[0]).parameters()))
reg('center', lambda r, L: ([matrix(r, V2, W2)], lambda a: L.Ellipsoid(a[0], np.eye(2)).parameters()))
reg('rho_mat', lambda r, L: ([matrix(r, ONE2, NEG2)], lambda a: L.ell.rho_mat(np.array(SPD2), a[0])))
reg('rho_shape', lambda r, L: ([matrix(r, SPD2, DEG2, ONE2)], lambda a: L.ell.rho_mat(a[0], np.eye(2))))
reg('quad', lambda r, L: ([matrix(r, V2, W2)], lambda a: L.ell.quad_mat(np.array(SPD2), a[0])))
reg('inv', lambda r, L: ([matrix(r, SPD2, SPD3)], lambda a: L.ell.inv_mat(a[0])))
reg('sim_diag', lambda r, L: ([matrix(r, SPD2, ONE2)], lambda a: L.core.ell_sim_diag(a[0], np.array(SPD2), 1e-7)))
reg('sort_rows', lambda r, L: ([matrix(r, SPD3, ONE2)], lambda a: L.gen.sort_rows_tol(a[0], 1e-6)))
reg('member', lambda r, L: ([matrix(r, V2, W2), matrix(r, V2, W2)], lambda a: L.common.is_member(a[0], a[1])))
reg('dict', lambda r, L: ([{'x': matrix(r, SPD2, ONE2), 'y': number(r, 1, 2)}, {'x': np.array(SPD2), 'y': 1}],
                          lambda a: L.dict.dict_compare(a[0], a[1])))
reg('contains', lambda r, L: ([matrix(r, [[1.], [0.]], [[0.], [1.]])],
                              lambda a: L.Hyperplane.contains([L.Hyperplane(np.array([1., 0.]), 1.)], a[0])))
reg('internal', lambda r, L: ([matrix(r, [[1.], [0.]], [[0.], [2.]])],
                              lambda a: L.Ellipsoid.is_internal(np.array([[L.Ellipsoid(np.eye(2))]]), a[0], 'u')))
reg('directions', lambda r, L: ([matrix(r, ONE2, SPD2)],
                                lambda a: L.Ellipsoid.minksum_ea([L.Ellipsoid(np.eye(2)), L.Ellipsoid(np.array(SPD2))], a[0])))
reg('basis', lambda r, L: ([matrix(r, ONE2, [[1.], [0.]])], lambda a: L.Ellipsoid.get_projection([E2(L)], a[0])))


# ------------------------------------------------------------------ tolerances of objects that decide the result

TOLS = (1e-9, 3e-6, 3e-3, 0.3)
STEPS = (1e-7, 1e-4, 3e-2)


def arr(*xs):
    out = np.empty((len(xs),), dtype=object)
    out[:] = xs
    return out


def own(name, group, mk):
    def f(r, L):
        objs, call = mk(r, L)
        return Case(objs, call)
    f.__name__ = 'o_own_' + name
    op(group, 1)(f)


def tols(r, m):
    return [r.c(*TOLS) for _ in range(m)], [r.c(*STEPS) for _ in range(m)]


def own_parallel(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    v = np.array([3., 4., 5.])[:n]
    d = np.array([4., -3., 1.])[:n]
    return [arr(*[L.Hyperplane(v, 1., abs_tol=a) for a in t]), arr(*[L.Hyperplane(v + b * d, 2.) for b in s])], \
        lambda a: L.Hyperplane.is_parallel(a[0], a[1])


def own_contains(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    x = np.array([np.ones(n) / n + b for b in s]).T
    return [arr(*[L.Hyperplane(np.ones(n), 1., abs_tol=a) for a in t]), x], lambda a: L.Hyperplane.contains(a[0], a[1])


def own_hyp_equal(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    v = r.vec(n)
    return [arr(*[L.Hyperplane(v, 1., abs_tol=a, rel_tol=a) for a in t]),
            arr(*[L.Hyperplane(v, 1. + b, abs_tol=max(t), rel_tol=max(t)) for b in s])], lambda a: L.Hyperplane.is_equal(a[0], a[1])


def own_ell_equal(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    v, q = r.vec(n), r.spd_raw(n)
    return [arr(*[L.Ellipsoid(v, q, abs_tol=a, rel_tol=a) for a in t]),
            arr(*[L.Ellipsoid(v + b, q, abs_tol=max(t), rel_tol=max(t)) for b in s])], lambda a: L.Ellipsoid.is_equal(a[0], a[1])


def own_internal(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    x = np.array([np.eye(n)[0] * (1 + b) for b in s]).T
    return [arr(*[L.Ellipsoid(np.eye(n), abs_tol=a) for a in t]).reshape(-1, 1), x, r.c('u', 'i')], \
        lambda a: L.Ellipsoid.is_internal(a[0], a[1], a[2])


def own_degenerate(r, L):
    m, n = r.i(1, 3), r.i(2, 3)
    t, s = tols(r, m)
    q = np.linalg.qr(r.raw(n, n))[0]

    def shape(b):
        x = q @ np.diag([b] + [1.] * (n - 1)) @ q.T
        return (x + x.T) / 2
    return [arr(*[L.Ellipsoid(shape(b), abs_tol=a) for a, b in zip(t, s)])], \
        lambda a: (L.Ellipsoid.is_degenerate(a[0]), L.Ellipsoid.volume(a[0]))


def own_bigger(r, L):
    n = r.i(2, 3)
    t, s = tols(r, 2)
    return [L.Ellipsoid(np.eye(n), abs_tol=t[0]), L.Ellipsoid(np.eye(n) * (1 + s[0]), abs_tol=t[1])], \
        lambda a: a[0].is_bigger(a[1])


def own_rho(r, L):
    n, t, b = r.i(2, 3), r.c(*TOLS), r.c(*STEPS)
    e = L.Ellipsoid(np.zeros(n), np.diag([b] + [1.] * (n - 1)), abs_tol=t)
    return [e, r.raw(n, 2)], lambda a: (L.Ellipsoid.rho(a[0], a[1]), L.Ellipsoid.minksum_ia([a[0], a[0]], a[1]))


own('parallel', 'hyp', own_parallel)
own('contains', 'hyp', own_contains)
own('hyp_equal', 'hyp', own_hyp_equal)
own('ell_equal', 'ell', own_ell_equal)
own('internal', 'ell', own_internal)
own('degenerate', 'ell', own_degenerate)
own('bigger', 'ell', own_bigger)
own('rho', 'ell', own_rho)
