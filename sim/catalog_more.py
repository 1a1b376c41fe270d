"""More of the catalogue: rejections, unusual shapes and rarely taken branches of the public operations."""
import numpy as np

from .catalog import op, inv, Case, spd3, rdict, tweak, TRI_V, TRI_F


def table(r, *builders):
    """one of several cases, by its number"""
    return builders[r.i(0, len(builders) - 1)]()


def fresh(v):
    """a copy of a result: a helper with nothing to do may return its own argument"""
    return tuple(np.array(x) if isinstance(x, np.ndarray) else dict(x) if isinstance(x, dict) else x for x in v)


@op('bad', 2)
def o_rej_la(r, L):
    la, n = L.la, r.i(2, 4)
    return table(
        r,
        lambda: inv([r.spd_raw(n), -1.], lambda a: la.is_mat_pos_def(a[0], a[1])),
        lambda: inv([r.vec(n)], lambda a: la.is_mat_pos_def(a[0])),
        lambda: inv([r.spd_raw(n)], lambda a: la.sqrtm_pos(a[0], -1.)),
        lambda: inv([r.raw(n, n)], lambda a: la.sqrtm_pos(a[0])),
        lambda: inv([r.raw(n, n)], lambda a: la.try_treat_as_real(a[0], -1.)),
        lambda: inv([r.raw(n)], lambda a: la.try_treat_as_real(a[0] + 1e-3j, 1e-6)),
        lambda: inv([], lambda a: la.try_treat_as_real(1 + 1j, 1e-6)),
        lambda: inv([np.zeros(n), r.vec(n)], lambda a: la.orth_transl(a[0], a[1])),
        lambda: inv([r.vec(n), np.zeros(n)], lambda a: la.orth_transl_qr(a[0], a[1])),
        lambda: inv([np.zeros(n), r.vec(n)], lambda a: la.orth_transl_haus(a[0], a[1])),
        lambda: inv([r.vec(n), r.vec(n + 1)], lambda a: la.orth_transl(a[0], a[1])),
        lambda: inv([r.raw(n, n + 1)], lambda a: la.is_mat_not_deg(a[0], 1e-6)),
        lambda: inv([r.raw(n, 2), r.raw(n, 3)], lambda a: la.ml_orth_transl(a[0], a[1])),
        lambda: inv([r.raw(n, n + 1)], lambda a: la.reg_pos_def_mat(a[0], 1e-3)),
        lambda: inv([np.array([['a']])], lambda a: la.reg_mat(a[0], 1e-3)))


@op('la')
def o_la_small(r, L):
    la, n = L.la, r.i(1, 2)
    q = r.raw(n, n)
    return table(
        r,
        lambda: Case([r.vec(n), r.vec(n), r.vec(n), r.vec(n)], lambda a: la.orth_transl_max_dir(*a)),
        lambda: Case([r.vec(n), r.vec(n), q], lambda a: la.orth_transl_max_tr(*a)),
        lambda: Case([r.vec(1), r.vec(1)], lambda a: la.orth_transl_qr(a[0], a[1])),
        lambda: Case([r.vec(1), r.vec(1)], lambda a: la.orth_transl_haus(a[0], a[1])),
        lambda: Case([r.vec(1), r.vec(1)], lambda a: la.orth_transl(a[0], a[1])),
        lambda: Case([], lambda a: la.try_treat_as_real(2. + 1e-9j, 1e-6)),
        lambda: Case([r.deg_raw(n + 1), np.array(1e-3)], lambda a: la.is_mat_pos_def(a[0], float(a[1]), True)),
        lambda: Case([q + q.T], lambda a: la.is_mat_symm(a[0])),
        lambda: Case([q], lambda a: la.is_mat_symm(a[0], 1e-3)))


@op('bad', 2)
def o_rej_gen(r, L):
    g, n, t = L.gen, r.i(2, 3), r.i(2, 3)
    M, S, Y = g.MatVector, g.SquareMatVector, g.SymmetricMatVector
    return table(
        r,
        lambda: inv([r.raw(n, n + 1), r.raw(n, n + 1)], lambda a: g.mat_dot(a[0], a[1])),
        lambda: inv([np.array([['a', 'b']])], lambda a: g.sort_rows_tol(a[0], 1e-3)),
        lambda: inv([r.raw(n, n)], lambda a: g.sqrt_pos(a[0], -1.)),
        lambda: inv([], lambda a: g.sqrt_pos(-1.)),
        lambda: inv([r.raw(n, n)], lambda a: M.pinv(a[0])),
        lambda: inv([r.raw(n, 2, 2), r.raw(2, 3, 3)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: inv([r.raw(n, 2, 2), r.raw(3, 2, 2)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: inv([spd3(r, n, t) - 9 * np.eye(n)[:, :, None]], lambda a: S.sqrtm_pos(a[0])),
        lambda: inv([r.raw(n, n, t)], lambda a: S.make_pos_definite_by_eig(a[0])),
        lambda: inv([spd3(r, n, t), r.raw(n, n)], lambda a: S.lr_multiply(a[0], a[1], 'Q')),
        lambda: inv([spd3(r, n, t), r.raw(n, n, t)], lambda a: S.lr_multiply(a[0], a[1], 'Q')),
        lambda: inv([r.spd_raw(n), r.raw(n, n, t)], lambda a: S.lr_multiply(a[0], a[1], '')),
        lambda: inv([spd3(r, n, t), r.raw(n, n, t)], lambda a: Y.lr_svd_multiply(a[0], a[1], 'Q')),
        lambda: inv([spd3(r, n, t), r.raw(n, n, t)], lambda a: Y.r_svd_multiply_by_vec(a[0], a[1])),
        lambda: inv([np.zeros((n, n, t))], lambda a: S.inv(a[0])),
        lambda: inv([np.zeros((n, n))], lambda a: S.inv(a[0])),
        lambda: inv(['t +'], lambda a: M.from_expression(a[0], 1.)),
        lambda: inv(['nosuchname*t', np.array([1., 2.])], lambda a: M.from_expression(a[0], a[1])),
        lambda: inv([np.array([['t', '']])], lambda a: M.from_formula_mat(a[0], 2.)))


@op('gen', 3)
def o_gen_rare(r, L):
    g, n, t = L.gen, r.i(2, 3), r.i(2, 3)
    M, S, Y = g.MatVector, g.SquareMatVector, g.SymmetricMatVector
    fl = r.c('R', 'L')

    def nanslice():
        d = spd3(r, n, t)
        d[0, 0, r.i(0, t - 1)] = np.nan
        return d
    return table(
        r,
        lambda: Case([], lambda a: g.sqrt_pos(-1e-9, 1e-6)),
        lambda: Case([np.array(-1e-9)], lambda a: g.sqrt_pos(a[0], 1e-6)),
        lambda: Case([r.raw(1, 1, t), r.raw(n, 2, t)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: Case([r.raw(1, 1, t), r.raw(1, 3, t)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: Case([r.raw(n, 1, t), r.raw(1, 1, t)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: Case([r.raw(n, 2, t), r.raw(2, 3)], lambda a: M.r_multiply(a[0], a[1])),
        lambda: Case([r.raw(1, 1, t), r.raw(1, 1, t), r.raw(1, n, t)], lambda a: M.r_multiply(a[0], a[1], a[2])),
        lambda: Case([r.raw(1, 1, t), r.raw(1, 2, t), r.raw(2, n, t)], lambda a: M.r_multiply(a[0], a[1], a[2])),
        lambda: Case([r.raw(n, 2, t), r.raw(2, 3), r.raw(3, 2)], lambda a: M.r_multiply(a[0], a[1], a[2], True)),
        lambda: Case([r.raw(n, 2, t), r.raw(2, 3, t), r.raw(3, 2)], lambda a: M.r_multiply(a[0], a[1], a[2], True)),
        lambda: Case([nanslice()], lambda a: S.sqrtm_pos(a[0])),
        lambda: Case([r.spd_raw(n) - 9 * np.eye(n)], lambda a: np.array(S.make_pos_definite_or_nan(a[0]))),
        lambda: Case([r.spd_raw(n), r.raw(n, n, t)], lambda a: S.lr_multiply(a[0], a[1], fl)),
        lambda: Case([spd3(r, n, t), r.raw(n, n)], lambda a: S.lr_multiply(a[0], a[1], fl)),
        lambda: Case([spd3(r, n, t), r.raw(n, n, t)], lambda a: S.lr_multiply(a[0], a[1], fl)),
        lambda: Case([r.spd_raw(n), r.raw(n, n)], lambda a: S.lr_multiply(a[0], a[1])),
        lambda: Case([spd3(r, n, t), r.raw(n, n, t)], lambda a: Y.lr_svd_multiply(a[0], a[1], fl)),
        lambda: Case([spd3(r, n, 1), r.raw(n, 1)], lambda a: Y.lr_svd_divide_vec(a[0], a[1])),
        lambda: Case([spd3(r, n, 1), r.raw(n, t)], lambda a: Y.lr_svd_divide_vec(a[0], a[1])),
        lambda: Case([np.array([0.5, 1.5])], lambda a: M.from_expression('[[t, 1], [2, 3]]', a[0])),
        lambda: Case([np.array([[0.5, 1.5]])], lambda a: M.from_expression('[t, 1]', a[0])),
        lambda: Case([np.array([[t, 2.], [1., 0.]])], lambda a: M.from_expression('[[1, 2], [3, 4]]', a[0])),
        lambda: Case([np.array([0.5])], lambda a: M.from_expression('[1, 2]', a[0])),
        lambda: Case([np.array([0.2, 0.7])], lambda a: M.from_expression('array([[t, t]])', a[0])))


@op('bad', 2)
def o_rej_geom(r, L):
    n = r.i(3, 6)
    e, s, g = L.ell, L.sup, L.geom
    f = r.c('sup_geom_diff_2d', 'sup_geom_diff_3d')
    m = 2 if f.endswith('2d') else 3
    one, two = 2. + r.raw(n), 5. + r.raw(n)
    d = r.raw(m, n)
    q, x = r.spd_raw(n), r.vec(n)
    call = getattr(s, f)
    return table(
        r,
        lambda: inv([two, one, r.vec(n)], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([r.raw(2, 2), one, d], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([two, r.raw(2, 2), d], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([two, r.vec(n + 1), d], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([two, one, r.raw(m, n + 1)], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([two, one, r.raw(m + 2, n)], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([one, two, d], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([two.reshape(1, -1), one.reshape(-1, 1), r.raw(m, n + 1)], lambda a: call(a[0], a[1], a[2])),
        lambda: inv([r.vec(n)], lambda a: e.inv_mat(a[0])),
        lambda: inv([np.array([['a']]), x], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([q, np.array(['a'])], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([q, x, 'a'], lambda a: e.quad_mat(a[0], a[1], a[2])),
        lambda: inv([r.raw(n), x], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([r.raw(n, n + 1), x], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([q, r.raw(n, n, 1)], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([q, r.raw(n, 2)], lambda a: e.quad_mat(a[0], a[1])),
        lambda: inv([q, x, r.raw(n, 1, 2)], lambda a: e.quad_mat(a[0], a[1], a[2])),
        lambda: inv([q, x, r.raw(n, 2)], lambda a: e.quad_mat(a[0], a[1], a[2])),
        lambda: inv([q, x, r.raw(n + 1)], lambda a: e.quad_mat(a[0], a[1], a[2])),
        lambda: inv([q, x, r.raw(n + 1, 1)], lambda a: e.quad_mat(a[0], a[1], a[2], 'INV')),
        lambda: inv([], lambda a: g.circle_part(-1)),
        lambda: inv([], lambda a: g.circle_part(0)),
        lambda: inv([], lambda a: g.circle_part(2.5)),
        lambda: inv([np.array([['x']])], lambda a: g.sphere_part(a[0])))


@op('geom', 2)
def o_geom_rare(r, L):
    e, n = L.ell, r.i(2, 4)
    q, x = r.spd_raw(n), r.vec(n)
    mode = r.c('plain', 'INV', 'invAdv')
    m = r.i(6, 9)

    def dirs():
        # directions of a support function that is not convex: some constraints are idle
        d = L.geom.circle_part(m).T
        r2 = np.full(m, 0.5)
        r1 = np.array([1.0 + (2.5 if r.p(0.3) else 0.1 * r.f(0, 1)) for _ in range(m)])
        return [r1, r2, d]
    shaped = dirs()
    shaped[0] = shaped[0].reshape(1, -1)
    shaped[1] = shaped[1].reshape(-1, 1)
    v3 = L.tri.icosahedron()[0].T
    return table(
        r,
        lambda: Case(dirs(), lambda a: L.sup.sup_geom_diff_2d(a[0], a[1], a[2])),
        lambda: Case(shaped, lambda a: L.sup.sup_geom_diff_2d(a[0], a[1], a[2])),
        lambda: Case([np.full((1, 12), 3.) + 0.1 * r.raw(1, 12), np.ones((12, 1)), v3],
                     lambda a: L.sup.sup_geom_diff_3d(a[0], a[1], a[2])),
        lambda: Case([np.array(2.), np.array(1.), np.array([[1.], [0.]])],
                     lambda a: L.sup.sup_geom_diff_2d(a[0], a[1], a[2])),
        lambda: Case([q, x, r.vec(n).reshape(-1, 1)], lambda a: e.quad_mat(a[0], a[1], a[2], mode)),
        lambda: Case([q, x.reshape(1, -1), r.vec(n).reshape(1, -1)], lambda a: e.quad_mat(a[0], a[1], a[2], mode)),
        lambda: Case([q, x, np.array(0.)], lambda a: e.quad_mat(a[0], a[1], a[2], mode)),
        lambda: Case([np.array([[2.]]), np.array([3.]), 1.5], lambda a: e.quad_mat(a[0], a[1], a[2], mode)),
        lambda: Case([q, np.zeros((n, 1))], lambda a: e.rho_mat(a[0], a[1])),
        lambda: Case([np.zeros((n, n)), r.raw(n, 1), r.raw(n, 1)], lambda a: e.rho_mat(a[0], a[1], None, a[2])),
        lambda: Case([r.c(30, 41, 60)], lambda a: L.geom.sphere_part(a[0])))


@op('tri', 2)
def o_tri_rare(r, L):
    T = L.tri
    v = np.array(TRI_V, dtype=float)
    f = np.array(TRI_F)

    def eq(w, h, tol=1e-6):
        return Case([v, f, w, h], lambda a: T.is_tri_equal(a[0], a[1], a[2], a[3], tol))
    perm = np.array(r.r.sample(range(5), 5))
    back = np.argsort(perm)
    rot = np.array([list(x[k:]) + list(x[:k]) for x, k in zip(TRI_F, (0, 1, 2))])
    return table(
        r,
        lambda: eq(v[:4], f[:2]),
        lambda: eq(v, f[:2]),
        lambda: eq(v + r.c(1e-9, 1e-4), f),
        lambda: eq(v, np.array([[0, 1, 2], [1, 3, 2], [1, 3, 2]])),
        lambda: eq(v, np.array([[0, 1, 2], [1, 3, 2], [1, 4, 2]])),
        lambda: eq(v[perm], back[f]),
        lambda: eq(v, rot),
        lambda: eq(v, f[::-1].copy()),
        lambda: Case([f[:1], np.array([[0, 1, 2], [2, 1, 0], [0, 1, 3]])], lambda a: T.is_face(a[0], a[1])),
        lambda: Case([np.array([[2, 1, 0], [1, 3, 2]])], lambda a: [np.array(x) for x in T.map_face_2_edge(a[0])]),
        lambda: Case([v[:3], np.array([[0, 1, 2]])], lambda a: fresh(T.shrink_face_tri(a[0], a[1], 9., 2, None, True))),
        lambda: Case([v[:3], np.array([0, 1, 2])], lambda a: fresh(T.shrink_face_tri(a[0], a[1], 9., 2, None, True))),
        lambda: Case([v, rot], lambda a: fresh(T.shrink_face_tri(a[0], a[1], 1.05, 1, None, True))),
        lambda: Case([v, f], lambda a: fresh(T.shrink_face_tri(a[0], a[1], 0.5, 0, None, True))),
        lambda: inv([np.array([0, 1])], lambda a: T.get_face_edge_info(a[0])),
        lambda: inv([np.array([[0, 1, 2, 3]])], lambda a: T.get_face_edge_info(a[0])),
        lambda: inv([v[:3], np.array([0, 1, 2])], lambda a: T.shrink_face_tri(a[0], a[1], 0.1, 1)),
        lambda: inv([], lambda a: T.sphere_tri(1.5)),
        lambda: inv([], lambda a: T.sphere_tri([1, 2])),
        lambda: inv([], lambda a: T.sphere_tri_ext(4, 10)),
        lambda: inv([], lambda a: T.sphere_tri_ext(3, 0)),
        lambda: inv([], lambda a: T.sphere_tri_ext(2, -3)),
        lambda: inv([], lambda a: T.sphere_tri_ext(2, 'x')))


@op('bad', 3)
def o_rej_ell(r, L):
    E = L.Ellipsoid
    n = r.i(2, 3)
    m = r.c('minksum_ea', 'minksum_ia')
    s = r.c('is_degenerate', 'volume', 'min_eig', 'max_eig', 'trace')
    sum_ = getattr(E, m)
    c = getattr(E, s)
    ea = r.ells(n, 2)
    return table(
        r,
        lambda: inv([[r.ell(n), r.ell(n + 1)], r.raw(n, 1)], lambda a: sum_(a[0], a[1])),
        lambda: inv([[r.ell(n), E()], r.raw(n, 1)], lambda a: sum_(a[0], a[1])),
        lambda: inv([np.array([], dtype=object), r.raw(n, 1)], lambda a: sum_(a[0], a[1])),
        lambda: inv([[r.ell(n), 5], r.raw(n, 1)], lambda a: sum_(a[0], a[1])),
        lambda: inv([ea, np.array([['a']])], lambda a: sum_(a[0], a[1])),
        lambda: Case([ea, r.vec(n)], lambda a: sum_(a[0], a[1])),
        lambda: inv([ea, r.raw(n, 2, 2)], lambda a: sum_(a[0], a[1])),
        lambda: inv([[r.ell(n), E()]], lambda a: c(a[0])),
        lambda: inv([E()], lambda a: c(a[0])),
        lambda: Case([[]], lambda a: c(a[0])),
        lambda: inv([5], lambda a: c(a[0])),
        lambda: inv([['q', 'w']], lambda a: c(a[0])),
        lambda: inv([np.array([]), r.raw(n, 1)], lambda a: E.is_internal(a[0], a[1], 'u')),
        lambda: inv([np.array([E()]), r.raw(n, 1)], lambda a: E.is_internal(a[0], a[1], 'u')),
        lambda: inv([ea, np.array([['a']])], lambda a: E.is_internal(a[0], a[1], 'u')),
        lambda: inv([ea, r.raw(n + 1, 1)], lambda a: E.is_internal(a[0], a[1], 'u')),
        lambda: Case([ea, r.raw(n, 2)], lambda a: E.is_internal(a[0], a[1], 5)),
        lambda: inv([ea, np.array([['a']])], lambda a: E.rho(a[0], a[1])),
        lambda: inv([r.ells(n, 3), r.raw(n, 2)], lambda a: E.rho(a[0], a[1])),
        lambda: inv([r.ell(n), r.raw(n + 1, 2)], lambda a: E.rho(a[0], a[1])),
        lambda: inv([[r.ell(n), r.ell(n + 1)], r.raw(n, 1)], lambda a: E.rho(a[0], a[1])),
        lambda: inv([[], r.raw(n, 1)], lambda a: E.rho(a[0], a[1])),
        lambda: inv([[r.ell(n), 'x'], r.raw(n, 1)], lambda a: E.rho(a[0], a[1])),
        lambda: Case([r.ells(n, 4).reshape(2, 1, 2), r.raw(n, 1)], lambda a: E.rho(a[0], a[1])),
        lambda: Case([r.ells(n, 4).reshape(2, 2), r.raw(n, 2, 2)], lambda a: E.rho(a[0], a[1])),
        lambda: Case([r.ells(n, 1), r.raw(n, 2, 2)], lambda a: E.rho(a[0], a[1])),
        lambda: inv([r.ells(n, 4).reshape(2, 2), r.raw(n, 3)], lambda a: E.rho(a[0], a[1])))


@op('bad', 3)
def o_rej_ell2(r, L):
    E, H = L.Ellipsoid, L.Hyperplane
    n = r.i(2, 3)
    q = r.spd_raw(n)
    g = r.c('get_boundary_by_factor', 'get_rho_boundary_by_factor', 'get_boundary', 'get_rho_boundary')
    return table(
        r,
        lambda: inv([[1., 2.], q], lambda a: E(a[0], a[1])),
        lambda: inv([r.raw(n, 2), q], lambda a: E(a[0], a[1])),
        lambda: inv([np.full(n, np.inf), q], lambda a: E(a[0], a[1])),
        lambda: inv([r.vec(n) + 1j, q], lambda a: E(a[0], a[1])),
        lambda: inv([np.array([['a']])], lambda a: E(a[0])),
        lambda: inv([q + np.triu(np.ones((n, n)), 1)], lambda a: E(a[0])),
        lambda: inv([r.vec(n), q, 3], lambda a: E(a[0], a[1], a[2])),
        lambda: inv([q, 5], lambda a: E(a[0], unknown=a[1])),
        lambda: inv([], lambda a: E.from_rep_mat()),
        lambda: inv([r.ell(n), np.array(['a'])], lambda a: a[0].rep_mat(a[1])),
        lambda: inv([r.ell(n), []], lambda a: a[0].rep_mat(a[1])),
        lambda: Case([r.ell(n), r.c([0, 3], [0])], lambda a: a[0].rep_mat(a[1])),
        lambda: inv([r.ell(1)], lambda a: getattr(a[0], g)()),
        lambda: inv([E()], lambda a: getattr(a[0], g)()),
        lambda: Case([r.ell(n), r.c(2, 0.5, [1.5, 0.4])], lambda a: a[0].get_boundary_by_factor(a[1])),
        lambda: Case([r.ell(n), r.c(2, [1.5, 0.4])], lambda a: a[0].get_rho_boundary_by_factor(a[1])),
        lambda: inv([r.ell(n), r.c('x', [-1, 0.5], 0.)], lambda a: a[0].get_boundary_by_factor(a[1])),
        lambda: inv([r.ell(n), r.ell(n + 1)], lambda a: a[0].is_bigger(a[1])),
        lambda: inv([r.ell(n), [r.ell(n), r.ell(n)]], lambda a: a[0].is_bigger(a[1])),
        lambda: inv([r.ell(n), 5], lambda a: a[0].is_bigger(a[1])),
        lambda: inv([r.ell(n), E()], lambda a: a[0].is_bigger(a[1])),
        lambda: inv([r.ell(n), r.ell(n)], lambda a: a[0] + a[1]),
        lambda: inv([r.ell(n), r.ell(n)], lambda a: a[0] - a[1]),
        lambda: inv([r.ell(n), 2.], lambda a: a[0] * a[1]),
        lambda: inv([r.ell(n), r.ell(n)], lambda a: a[0] > a[1]),
        lambda: inv([r.ell(n), r.ell(n)], lambda a: a[0] <= a[1]),
        lambda: inv([r.ell(n), r.ell(n)], lambda a: a[0] != a[1]),
        lambda: inv([r.ell(n), 5], lambda a: a[0] == a[1]),
        lambda: Case([[E(), r.ell(n)], [E(), r.ell(n)]], lambda a: E.is_equal(a[0], a[1])),
        lambda: Case([[], []], lambda a: E.is_equal(a[0], a[1])),
        lambda: inv([[], [r.ell(n)]], lambda a: E.is_equal(a[0], a[1])),
        lambda: Case([r.ells(n, 3), r.ells(n, 1)], lambda a: E.is_equal(a[0], a[1], True)),
        lambda: Case([r.ells(n, 1), r.ells(n, 4).reshape(2, 2)], lambda a: E.is_equal(a[0], a[1])),
        lambda: inv([r.ells(n, 4), r.ells(n, 4).reshape(2, 2)], lambda a: E.is_equal(a[0], a[1])),
        lambda: inv([[r.ell(n), r.hyp(n)]], lambda a: E.dimension(a[0])),
        lambda: inv([[r.ell(n)], 'nosuch'], lambda a: E.get_property(a[0], a[1])),
        lambda: inv([[{'shape_mat': q}]], lambda a: E.from_dict(a[0])),
        lambda: inv([[{'center_vec': r.vec(n + 1), 'shape_mat': q}]], lambda a: E.from_dict(a[0])),
        lambda: inv([[r.ell(n), 5]], lambda a: E.get_copy(a[0])),
        lambda: inv([[r.ell(n), E()], 7], lambda a: E.polar(a[0])),
        lambda: inv([E(r.vec(n) + 50., np.eye(n))], lambda a: E.polar([a[0]])))


@op('bad', 2)
def o_rej_hyp(r, L):
    H, E = L.Hyperplane, L.Ellipsoid
    n = r.i(2, 3)
    h = r.hyp(n)
    return table(
        r,
        lambda: inv([np.array(['a', 'b'])], lambda a: H(a[0])),
        lambda: inv([r.vec(n), 'a'], lambda a: H(a[0], a[1])),
        lambda: inv([r.vec(n), np.inf], lambda a: H(a[0], a[1])),
        lambda: inv([r.vec(n), np.nan], lambda a: H(a[0], a[1])),
        lambda: inv([r.vec(n) + 1j, 1.], lambda a: H(a[0], a[1])),
        lambda: inv([r.vec(n), 1., 2.], lambda a: H(a[0], a[1], a[2])),
        lambda: inv([], lambda a: H.from_rep_mat()),
        lambda: inv([r.vec(n), 1., [2, 0.5]], lambda a: H.from_rep_mat(a[0], a[1], a[2])),
        lambda: Case([[h], np.full((n, 1), np.nan)], lambda a: H.contains(a[0], a[1])),
        lambda: inv([[h], np.array([['a']])], lambda a: H.contains(a[0], a[1])),
        lambda: inv([r.hyps(n, 2), r.raw(n, 3)], lambda a: H.contains(a[0], a[1])),
        lambda: inv([[h, E()], r.raw(n, 1)], lambda a: H.contains(a[0], a[1])),
        lambda: inv([[], r.raw(n, 1)], lambda a: H.contains(a[0], a[1])),
        lambda: Case([h, r.vec(n)], lambda a: H.contains([a[0]], a[1])),
        lambda: inv([h, r.hyp(n + 1)], lambda a: H.is_parallel([a[0]], [a[1]])),
        lambda: Case([r.hyps(n, 3), r.hyps(n, 1)], lambda a: H.is_parallel(a[0], a[1])),
        lambda: Case([r.hyps(n, 1), r.hyps(n, 3)], lambda a: H.is_parallel(a[0], a[1])),
        lambda: inv([[h, 5], [h]], lambda a: H.is_parallel(a[0], a[1])),
        lambda: inv([H()], lambda a: H.to_dict([a[0]])),
        lambda: inv([[h, 'x']], lambda a: H.to_dict(a[0])),
        lambda: inv([[{'shift': 1.}]], lambda a: H.from_dict(a[0])),
        lambda: inv([[h], []], lambda a: H.is_equal(a[0], a[1])),
        lambda: Case([[], []], lambda a: H.is_equal(a[0], a[1])),
        lambda: Case([r.hyps(n, 3), r.hyps(n, 1)], lambda a: H.is_equal(a[0], a[1])),
        lambda: Case([h, h], lambda a: a[0] == a[1]),
        lambda: inv([h, r.ell(n)], lambda a: a[0] == a[1]),
        lambda: inv([[h, 5]], lambda a: H.uminus(a[0])),
        lambda: inv([h, r.c([[1, 2], [2, 1]], [-2], ['a'])], lambda a: a[0].rep_mat(a[1])),
        lambda: inv([[h], 'nosuch'], lambda a: H.get_property(a[0], a[1])))


@op('bad')
def o_rej_core(r, L):
    n = r.i(2, 4)
    c = L.core
    q = r.spd_raw(n)
    return table(
        r,
        lambda: inv([np.array([['a']]), q], lambda a: c.ell_sim_diag(a[0], a[1], 1e-7)),
        lambda: inv([-q, q], lambda a: c.ell_sim_diag(a[0], a[1], 1e-7)),
        lambda: inv([q, r.spd_raw(n + 1)], lambda a: c.ell_sim_diag(a[0], a[1], 1e-7)),
        lambda: inv([np.array(['a']), r.vec(2)], lambda a: c.ell_valign(a[0], a[1])),
        lambda: inv([r.raw(n, n), r.vec(n)], lambda a: c.ell_valign(a[0], a[1])),
        lambda: inv([r.vec(n), r.raw(n, n)], lambda a: c.ell_valign(a[0], a[1])),
        lambda: Case([np.array([2.]), np.array([-3.])], lambda a: c.ell_valign(a[0], a[1])),
        lambda: inv([np.array(2.), np.array(-3.)], lambda a: c.ell_valign(a[0], a[1])),
        lambda: inv([0], lambda a: c.ell_unitball(-1)))


@op('common', 2)
def o_common_rare(r, L):
    c, n = L.common, r.i(1, 3)
    a, b = r.raw(n, n), r.raw(n, n)
    a2, b2 = a.copy(), a.copy()
    a2[0, 0] = r.c(np.nan, np.inf, -np.inf)
    b2[-1, 0] = r.c(np.nan, np.inf, -np.inf)
    fn = r.c(np.abs, lambda z: np.abs(z), lambda z: np.array(abs(z)))
    return table(
        r,
        lambda: Case([np.zeros((0,)), np.zeros((0,))], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, None, fn)),
        lambda: Case([np.zeros((0, 2)), np.zeros((0, 2))], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, 1e-2, fn)),
        lambda: Case([a2, b2], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, None, fn)),
        lambda: Case([a2, a2.copy()], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, 1e-3, fn)),
        lambda: Case([a * 100., a * 100. + 0.5], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, 0.5, fn)),
        lambda: Case([a, b], lambda x: c.abs_rel_compare(x[0], x[1], 0., 1e-3, fn)),
        lambda: Case([a + 1j, a + 1j * 1.001], lambda x: c.abs_rel_compare(x[0], x[1], 1e-2, None, fn)),
        lambda: Case([np.array([1, 2, 3]), np.array([1, 2, 4])], lambda x: c.abs_rel_compare(x[0], x[1], 0., None, fn)),
        lambda: inv([np.zeros((0,)), np.zeros((0, 2))], lambda x: c.abs_rel_compare(x[0], x[1], 1e-3, None, fn)),
        lambda: inv([a, b], lambda x: c.abs_rel_compare(x[0], x[1], 'x', None, fn)),
        lambda: Case([[], ['a']], lambda x: c.is_member(x[0], x[1])),
        lambda: Case([['a', 'b'], []], lambda x: c.is_member(x[0], x[1])),
        lambda: Case([np.array(['q', 'w']), np.array(['w', 'w', 'q'])], lambda x: c.is_member(x[0], x[1])),
        lambda: Case([], lambda x: [c.is_numeric(v) for v in (None, [], [1], ['a'], 'a', {}, np.array([]), 1.5, (1,))]),
        lambda: inv([], lambda x: c.throw_error('someTag', 'some text {}'.format(n))),
        lambda: Case([], lambda x: c.throw_warn('someTag', 'some text {}'.format(n))))


@op('dict', 3)
def o_dict_rare(r, L):
    d = L.dict
    x = rdict(r)
    y = tweak(r, x)
    sp = [0., np.nan, np.inf, -np.inf, 1.]
    u = np.array([r.c(*sp) for _ in range(3)])
    w = u.copy() if r.p(0.4) else np.array([r.c(*sp) for _ in range(3)])
    p = {'b': 1, 'a': u, 'c': {'z': 'q', 'y': [u, 'e']}}
    s = {'c': {'y': [w, 'e'], 'z': 'q'}, 'a': w, 'b': 1}
    return table(
        r,
        lambda: Case([p, s], lambda a: d.dict_compare(a[0], a[1], 1e-3)),
        lambda: Case([{'a': 1}, {'a': 1.}], lambda a: d.dict_compare(a[0], a[1])),
        lambda: Case([{'a': u}, {'a': u[:2]}], lambda a: d.dict_compare(a[0], a[1])),
        lambda: Case([{'a': [], 'b': {}}, {'b': {}, 'a': []}], lambda a: d.dict_compare(a[0], a[1])),
        lambda: Case([[x, y], [y]], lambda a: d.dict_compare(a[0], a[1])),
        lambda: Case([np.array([x, y]), np.array([y])], lambda a: d.dict_compare_vec(a[0], a[1])),
        lambda: Case([{}, {}], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([[], []], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([5, {}], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([{}, 'x'], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([[5], [x]], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([[x], [5]], lambda a: d.dict_compare(a[0], a[1])),
        lambda: inv([np.array([x, 5], dtype=object), np.array([x, 5], dtype=object)],
                    lambda a: d.dict_compare_vec(a[0], a[1])),
        lambda: inv([x, y], lambda a: d.dict_compare(a[0], a[1], -1., None) if 'a' in a[0] else
                    d.dict_compare({'k': 1.}, {'k': 2.}, -1.)),
        lambda: Case([{'a': 'p', 'b': None, 'c': ('x',)}, {'c': ('y',), 'b': None, 'a': 'q'}],
                     lambda a: d.dict_compare(a[0], a[1], 1e-2)),
        lambda: Case([{'a': True, 'b': None}, {'b': None, 'a': False}], lambda a: d.dict_compare(a[0], a[1], 1e-2)),
        lambda: Case([{'a': np.array([{'q': 1}, {'q': 2.}])}, {'a': np.array([{'q': 1}, {'q': 3.}])}],
                     lambda a: d.dict_compare(a[0], a[1], 1e-2)),
        lambda: Case([np.array([[x, y], [y, x]]), np.array([[y, x], [x, y]])],
                     lambda a: d.dict_compare(a[0], a[1], 1e-6, 1e-3)))


@op('sym')
def o_sym_rare(r, L):
    m = np.array([['t', 'k*t'], ['1', 'tt']])
    s = L.sym
    return table(
        r,
        lambda: inv([m, 't', 5], lambda a: s.var_replace(a[0], a[1], a[2])),
        lambda: inv([m, '', 'x'], lambda a: s.var_replace(a[0], a[1], a[2])),
        lambda: inv([np.array([]).astype(str)], lambda a: s.is_dependent(a[0])),
        lambda: inv([np.array([1, None], dtype=object), 't', 'x'], lambda a: s.var_replace(a[0], a[1], a[2])),
        lambda: Case([np.array(['t', '2*k']), 't', 'x'], lambda a: s.var_replace(a[0], a[1], a[2])),
        lambda: Case([np.array([['1', '2']])], lambda a: s.is_dependent(a[0])),
        lambda: Case([np.array([[1., 2.]])], lambda a: s.is_dependent(a[0])),
        lambda: Case([np.array([['k', '2*k']])], lambda a: s.is_dependent(a[0], True)))


def tries(fs):
    """what each call gives"""
    out = []
    for f in fs:
        try:
            out.append(('returns', f()))
        except ValueError as e:
            out.append(('raises', str(e)))
    return tuple(out)


EDGES = (3e-10, 3e-9, 3e-8, 3e-7, 1.5e-6, 1e-5, 1e-4)


def tol_case(r, L, names):
    """calls that the configured tolerances decide, over all magnitudes"""
    n, E, H = r.i(2, 4), L.Ellipsoid, L.Hyperplane
    q, d, v = np.linalg.qr(r.raw(n, n))[0], r.raw(n, 2), r.vec(n)

    def one(e):
        x = np.empty((1,), dtype=object)
        x[0] = e
        return x

    def near(s):
        """smallest eigenvalue -s"""
        x = q @ np.diag([1. + i for i in range(n - 1)] + [-s]) @ q.T
        return (x + x.T) / 2

    def rho(a):
        return tries([lambda s=s: L.ell.rho_mat(near(s), a[0]) for s in EDGES])

    def rho2(a):
        return tries([lambda s=s: E.rho(E(a[1], near(s) + 2 * s * np.eye(n)), a[0]) for s in EDGES])

    def make(a):
        return tries([lambda s=s: E(a[1], near(s)).get_shape_mat() for s in EDGES])

    def member(a):
        return tries([lambda s=s: E.is_internal(np.array([[E(a[1], np.eye(n))]]), (a[1] + np.eye(n)[:, 0] * (1 + s)).reshape(-1, 1), 'i')
                      for s in EDGES])

    def same(a):
        return tries([lambda s=s: E(a[1], np.eye(n)).is_equal(E(a[1], np.eye(n)), E(a[1], np.eye(n) * (1 + s))) for s in EDGES])

    def degenerate(a):
        return tries([lambda s=s: E.is_degenerate(one(E(a[1], near(-s)))) for s in EDGES])

    def contains(a):
        return tries([lambda s=s: H.contains(H(np.ones(n), 1.), np.ones((n, 1)) / n + s) for s in EDGES])

    def parallel(a):
        return tries([lambda s=s: H.is_parallel(H(np.ones(n), 1.), H(np.ones(n) + s * np.eye(n)[:, 0], 2.)) for s in EDGES])
    f = {'rho': rho, 'rho2': rho2, 'make': make, 'member': member, 'same': same, 'degenerate': degenerate,
         'contains': contains, 'parallel': parallel}[r.c(*names)]
    return Case([q if f is rho else d, v], f)


@op('tol')
def o_tol_rho(r, L):
    return tol_case(r, L, ['rho', 'rho', 'rho2'])


@op('tol')
def o_tol_ell(r, L):
    return tol_case(r, L, ['make', 'member', 'same', 'degenerate'])


@op('tol')
def o_tol_hyp(r, L):
    return tol_case(r, L, ['contains', 'parallel'])


@op('bad', 0.5)
def o_rej_mode(r, L):
    """the reporting helper itself rejects a mode it does not know"""
    m, k = r.c('x', 'FULL', '', None, 'defaults'), r.i(0, 3)
    return Case([], lambda a: L.common.get_caller_name(k, m) if k else L.common.get_caller_name(mode=m), invalid=True,
                tags=('rejects',))


@op('mix')
def o_mix_rare(r, L):
    n, t = r.i(2, 3), r.i(2, 3)
    Y, P, E, c = L.gen.SymmetricMatVector, L.Properties, L.Ellipsoid, L.common
    v, f = r.vec(n), r.c(0.1, 0.05, 0.15)
    kw = dict(r.r.sample([('abs_tol', 1e-4), ('rel_tol', 2e-4), ('n_plot_2d_points', 12), ('other', 'x')], r.i(0, 4)))
    return table(
        r,
        lambda: Case([E(np.eye(n), n_plot_2d_points=40, n_plot_3d_points=30)], lambda a: a[0]._get_grid_by_factor()),
        lambda: Case([E(v, r.spd_raw(n), n_plot_2d_points=60, n_plot_3d_points=60), np.array([f, 2 * f])],
                     lambda a: a[0]._get_grid_by_factor(a[1])),
        lambda: Case([E(np.eye(n), n_plot_2d_points=40, n_plot_3d_points=30), np.array(f)],
                     lambda a: a[0]._get_grid_by_factor(a[1])),
        lambda: Case([E(np.eye(4))], lambda a: a[0]._get_grid_by_factor(), invalid=True),
        lambda: Case([kw], lambda a: P.parse_prop(a[0], ['abs_tol', 'n_plot_2d_points'])),
        lambda: Case([r.spd_raw(n)[:, :, None], r.raw(n, 1)], lambda a: Y.lr_svd_divide_vec(a[0], a[1])),
        lambda: Case([spd3(r, n, t), r.raw(n, t)], lambda a: Y.lr_svd_divide_vec(a[0], a[1])),
        lambda: Case([spd3(r, n, t), r.raw(n, t)], lambda a: Y.r_svd_multiply_by_vec(a[0], a[1])),
        lambda: Case([E(v, rank_less(r, n)), E(v, np.eye(n))], lambda a: a[0].is_bigger(a[1])),
        lambda: Case([E(v, np.eye(n)), E(v, rank_less(r, n))], lambda a: a[0].is_bigger(a[1])),
        lambda: Case([v], lambda a: str(c.throw_error('aTag', 'text {}'.format(a[0]), 1, False))),
        lambda: Case([np.array([[0, 1, 2]])], lambda a: L.tri.map_face_2_edge(a[0])),
        lambda: Case([v], lambda a: [c.get_caller_name(), c.get_caller_name(mode='full')]))


def rank_less(r, n):
    x = r.raw(n, n - 1)
    return x @ x.T
