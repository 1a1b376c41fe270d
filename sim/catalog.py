"""Catalogue of public operations with generated arguments.

An operation instance is a name and an integer; arguments are a pure function of
them (and of nothing else).  Builders return a Case.  When a Context is shared,
ellipsoids, hyperplanes and arrays with the same recipe are one object used by
several operations, so that calls in different threads meet on shared arguments.
"""
import random
import numpy as np


class Case(object):
    __slots__ = ('name', 'seed', 'args', 'call', 'mutates', 'verbose_regs', 'callbacks', 'invalid', 'tags', 'lines')

    def __init__(self, args, call, mutates=False, regs=None, invalid=False, tags=()):
        self.args = args
        self.call = call
        self.mutates = mutates
        self.verbose_regs = regs      # expected number of regularisation reports, None = unknown
        self.invalid = invalid
        self.tags = tags


class Rng(object):
    """deterministic generator of arguments"""

    def __init__(self, seed, L, cx):
        self.r = random.Random(seed)
        self.L = L
        self.cx = cx
        self.log = None       # choices made, when the variants of an operation are counted

    def i(self, a, b):
        v = self.r.randint(a, b)
        if self.log is not None:
            self.log.append(v if b - a < 8 else (v - a) * 3 // (b - a + 1))
        return v

    def c(self, *xs):
        k = self.r.randrange(len(xs))
        if self.log is not None:
            self.log.append(k)
        return xs[k]

    def p(self, q):
        v = self.r.random() < q
        if self.log is not None:
            self.log.append(v)
        return v

    def f(self, a=-2.0, b=2.0):
        return a + (b - a) * self.r.random()

    # plain arrays, never shared
    def raw(self, *shape):
        n = 1
        for s in shape:
            n *= s
        a = np.array([self.f() for _ in range(n)], dtype=np.float64).reshape(shape)
        return a

    def layout(self, a):
        k = self.r.randint(0, 9)
        if a.ndim >= 2 and k == 0:
            return np.asfortranarray(a)
        if a.ndim >= 2 and k == 1:
            b = np.empty(tuple(2 * s for s in a.shape), a.dtype)
            v = b[tuple(slice(0, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        return a

    def mat(self, *shape):
        return self.layout(self.raw(*shape))

    def spd_raw(self, n, lo=0.3):
        a = self.raw(n, n)
        q = a @ a.T + np.diag([lo + 0.37 * k for k in range(1, n + 1)])
        return 0.5 * (q + q.T)

    def deg_raw(self, n):
        """symmetric positive semidefinite of deficient rank with well separated eigenvalues"""
        k = self.i(1, max(1, n - 1)) if n > 1 else 0
        a = self.raw(n, n)
        o, _ = np.linalg.qr(a)
        d = np.array([0.0] * (n - k) + [0.8 + 0.9 * j for j in range(k)])
        q = o @ np.diag(d) @ o.T
        return 0.5 * (q + q.T)

    def spd(self, n):
        return self.layout(self.spd_raw(n))

    def vec(self, n):
        v = self.raw(n)
        return v + np.where(v >= 0, 0.05, -0.05)

    def dim(self, lo=1, hi=5):
        k = self.i(0, 19)
        if k == 0 and hi >= 5:
            return self.i(6, 8)
        return self.i(lo, hi)

    # library objects, shared through the context
    def ell(self, n, deg=False, key=None):
        key = ('ell', n, deg, self.i(0, 5) if key is None else key)
        return self.cx.get(key, lambda: self._mk_ell(Rng(hash_key(key), self.L, self.cx), n, deg))

    def _mk_ell(self, r, n, deg):
        q = r.deg_raw(n) if deg else r.spd_raw(n)
        kw = {}
        if r.p(0.4):
            kw['abs_tol'] = r.c(1e-7, 2e-7, 5e-6)
        if r.p(0.3):
            kw['rel_tol'] = r.c(1e-6, 3e-5)
        if r.p(0.5):
            kw['n_plot_2d_points'] = r.c(11, 24, 50)
        if r.p(0.5):
            kw['n_plot_3d_points'] = r.c(13, 43, 120)
        if r.p(0.2):
            return self.L.Ellipsoid(q, **kw)
        return self.L.Ellipsoid(r.vec(n), q, **kw)

    def ells(self, n, m, deg=0.0):
        out = np.empty((m,), dtype=object)
        for j in range(m):
            out[j] = self.ell(n, self.p(deg))
        return out

    def container(self, arr):
        """list, tuple, or object array of some shape"""
        k = self.i(0, 5)
        if k == 0:
            return list(arr)
        if k == 1:
            return tuple(arr)
        m = len(arr)
        if k == 2 and m > 0:
            return arr.reshape((1, m))
        if k == 3 and m > 0:
            return arr.reshape((m, 1))
        if k == 4 and m > 3 and m % 2 == 0:
            return arr.reshape((2, m // 2))
        return arr

    def hyp(self, n, key=None):
        key = ('hyp', n, self.i(0, 5) if key is None else key)
        return self.cx.get(key, lambda: self._mk_hyp(Rng(hash_key(key), self.L, self.cx), n))

    def _mk_hyp(self, r, n):
        kw = {}
        if r.p(0.4):
            kw['abs_tol'] = r.c(1e-7, 2e-7, 5e-6)
        if r.p(0.3):
            kw['rel_tol'] = r.c(1e-6, 3e-5)
        return self.L.Hyperplane(r.vec(n), r.f(), **kw)

    def hyps(self, n, m):
        out = np.empty((m,), dtype=object)
        for j in range(m):
            out[j] = self.hyp(n)
        return out

    def arr(self, kind, *key):
        """a shared array by recipe"""
        k = (kind,) + key + (self.i(0, 3),)

        def mk():
            r = Rng(hash_key(k), self.L, self.cx)
            if kind == 'spd':
                return r.spd(*key)
            if kind == 'mat':
                return r.mat(*key)
            if kind == 'vec':
                return r.vec(*key)
            raise KeyError(kind)
        return self.cx.get(k, mk)


def hash_key(key):
    h = 1469598103
    for ch in repr(key):
        h = (h * 1099511 + ord(ch)) & 0xFFFFFFFFFFFF
    return h


class Context(object):
    def __init__(self, shared=False):
        self.shared = shared
        self.pool = {}

    def get(self, key, mk):
        if not self.shared:
            return mk()
        if key not in self.pool:
            self.pool[key] = mk()
        return self.pool[key]


OPS = {}
GROUP = {}


def op(group, weight=1):
    def deco(f):
        name = f.__name__[2:]
        OPS[name] = f
        GROUP[name] = group
        WEIGHT[name] = weight
        return f
    return deco


WEIGHT = {}


def build(name, seed, L, cx=None, log=None):
    cx = cx or Context()
    r = Rng(hash_key((name, seed)), L, cx)
    r.log = log
    c = OPS[name](r, L)
    c.name = name
    c.seed = seed
    return c


# ------------------------------------------------------------------ ellipsoids

def kwsettings(r, n2=True):
    kw = {}
    if r.p(0.4):
        kw['abs_tol'] = r.c(1e-7, 3e-6)
    if r.p(0.4):
        kw['rel_tol'] = r.c(1e-6, 2e-4)
    if n2 and r.p(0.4):
        kw['n_plot_2d_points'] = r.c(10, 21)
    if n2 and r.p(0.4):
        kw['n_plot_3d_points'] = r.c(12, 44)
    return kw


@op('ell', 2)
def o_ell_new(r, L):
    n = r.dim()
    kw = kwsettings(r)
    k = r.i(0, 7)
    q = r.spd(n)
    if k == 0:
        return Case([], lambda a: L.Ellipsoid(**kw))
    if k == 1:
        return Case([q], lambda a: L.Ellipsoid(a[0], **kw))
    if k == 2:
        q = np.diag(np.arange(1, n + 1))
        return Case([np.arange(n), q], lambda a: L.Ellipsoid(a[0], a[1], **kw))
    if k == 3:
        return Case([r.raw(n, 1), q.astype(complex)], lambda a: L.Ellipsoid(a[0], a[1], **kw))
    if k == 4:
        return Case([r.vec(n), r.deg_raw(n)], lambda a: L.Ellipsoid(a[0], a[1], **kw))
    return Case([r.vec(n), q, kw], lambda a: L.Ellipsoid(a[0], a[1], **a[2]))


@op('ell')
def o_ell_from_rep_mat(r, L):
    n = r.dim(1, 4)
    kw = kwsettings(r)
    shp = r.c([2], [1, 2], [2, 2], [3, 1], (1, 1), np.array([2, 1]))
    k = r.i(0, 2)
    if k == 0:
        return Case([shp], lambda a: L.Ellipsoid.from_rep_mat(a[0], **kw))
    if k == 1:
        return Case([r.spd(n), shp], lambda a: L.Ellipsoid.from_rep_mat(a[0], a[1], **kw))
    return Case([r.vec(n), r.spd(n), shp], lambda a: L.Ellipsoid.from_rep_mat(a[0], a[1], a[2], **kw))


@op('ell')
def o_ell_from_dict(r, L):
    n = r.dim(1, 4)

    def mk():
        d = {'shape_mat': r.spd(n), 'center_vec': r.vec(n)}
        if r.p(0.6):
            d.update(kwsettings(r))
        return d
    ds = [mk() for _ in range(r.i(1, 3))]
    return Case([ds], lambda a: L.Ellipsoid.from_dict(a[0]))


@op('ell')
def o_ell_to_dict(r, L):
    n = r.dim()
    e = r.container(r.ells(n, r.i(1, 4), 0.2))
    inc = r.p(0.5)
    tol = r.c(None, 1e-6)

    def call(a):
        d, nice, descr, tr = L.Ellipsoid.to_dict(a[0], inc, tol)
        return d, nice, descr, {k: f(np.array(d).ravel()[0][k]) for k, f in tr.items()}
    return Case([e], call)


@op('ell')
def o_ell_get_copy(r, L):
    n = r.dim()
    e = r.container(r.ells(n, r.c(0, 1, 2, 3, 4), 0.2))
    return Case([e], lambda a: L.Ellipsoid.get_copy(a[0]))


@op('ell')
def o_ell_rep_mat(r, L):
    e = r.ell(r.dim())
    shp = r.c([1], [2], [1, 3], [2, 2], [2, 1, 2], np.array([1., 2.]).astype(int))
    return Case([e, shp], lambda a: a[0].rep_mat(a[1]))


@op('ell')
def o_ell_dimension(r, L):
    n = r.dim()
    e = r.container(r.ells(n, r.i(1, 4), 0.4))
    rk = r.p(0.5)
    return Case([e], lambda a: L.Ellipsoid.dimension(a[0], return_rank=rk))


@op('ell')
def o_ell_is_empty(r, L):
    e = list(r.ells(r.dim(), r.i(0, 3)))
    if r.p(0.5):
        e.append(L.Ellipsoid())
    return Case([e], lambda a: L.Ellipsoid.is_empty(a[0]))


@op('ell')
def o_ell_is_degenerate(r, L):
    e = r.container(r.ells(r.dim(), r.i(1, 4), 0.5))
    return Case([e], lambda a: L.Ellipsoid.is_degenerate(a[0]))


@op('ell')
def o_ell_scalars(r, L):
    e = r.container(r.ells(r.dim(), r.i(1, 4), 0.3))
    m = r.c('volume', 'trace', 'min_eig', 'max_eig')
    return Case([e], lambda a: getattr(L.Ellipsoid, m)(a[0]))


@op('ell')
def o_ell_getters(r, L):
    e = r.ell(r.dim(), r.p(0.3))
    return Case([e], lambda a: (a[0].get_center_vec(), a[0].get_shape_mat(), a[0].double(), a[0].parameters()))


@op('ell')
def o_ell_props(r, L):
    e = r.container(r.ells(r.dim(), r.i(0, 4)))
    k = r.i(0, 5)
    if k == 0:
        return Case([e], lambda a: L.Ellipsoid.get_abs_tol(a[0]))
    if k == 1:
        return Case([e], lambda a: L.Ellipsoid.get_rel_tol(a[0], None))
    if k == 2:
        return Case([e], lambda a: L.Ellipsoid.get_abs_tol(a[0], lambda z: float(np.max(z)) if z.size else 0.))
    if k == 3:
        return Case([e], lambda a: (L.Ellipsoid.get_n_plot_2d_points(a[0]), L.Ellipsoid.get_n_plot_3d_points(a[0])))
    nm = r.c('absTol', 'rel_tol', 'nPlot2dPoints', '_n_plot_3d_points', '_abs_tol')
    return Case([e], lambda a: L.Ellipsoid.get_property(a[0], nm, None))


@op('ell', 2)
def o_ell_is_equal(r, L):
    n = r.dim(1, 4)
    m = r.i(1, 3)
    a1 = r.ells(n, m, 0.2)
    a2 = a1.copy() if r.p(0.4) else r.ells(n, m if r.p(0.7) else 1, 0.2)
    if r.p(0.2):
        a1 = a1[:1]
    inc = r.p(0.4)
    k = r.i(0, 3)
    if k == 0:
        return Case([a1[0], a2[0]], lambda a: a[0] == a[1])
    if k == 1:
        return Case([a1, a2], lambda a: L.Ellipsoid.eq(a[0], a[1]))
    return Case([a1, a2], lambda a: L.Ellipsoid.is_equal(a[0], a[1], inc))


def basis(r, n, k, ort=None):
    a = np.linalg.qr(r.raw(n, n))[0][:, :k]
    if r.p(0.3):
        a = np.eye(n)[:, r.r.sample(range(n), k)]
    if r.p(0.15):
        return np.eye(n)[:, :n if r.p(0.6) else k]
    return a * np.array([r.c(1., 2., 0.5) for _ in range(k)])


@op('ell', 2)
def o_ell_get_projection(r, L):
    n = r.dim(2, 5)
    e = r.container(r.ells(n, r.i(1, 3), 0.2))
    b = basis(r, n, r.i(1, n))
    return Case([e, b], lambda a: L.Ellipsoid.get_projection(a[0], a[1]))


@op('ell', 2)
def o_ell_rho(r, L):
    n = r.dim(1, 5)
    k = r.i(0, 4)
    if k <= 1:
        e = r.ells(n, 1, 0.2)
        e = r.c(e, list(e), e[0])
        d = r.mat(n, r.i(1, 6))
    elif k == 2:
        e = r.ells(n, r.i(2, 5), 0.2)
        if len(e) == 4 and r.p(0.5):
            e = e.reshape((2, 2))
        d = r.mat(n, 1)
    elif k == 3:
        m = r.i(2, 4)
        e = r.ells(n, m, 0.2).reshape((1, m))
        d = r.mat(n, m)
    else:
        e = r.ells(n, 1)
        d = r.mat(n, 2, 2)
    return Case([e, d], lambda a: L.Ellipsoid.rho(a[0], a[1]))


def regs_ea(arr, dirs, L):
    return sum(1 for e in arr if deg(e)) * dirs if len(arr) > 1 else 0


def deg(e):
    return bool(np.min(np.linalg.eigvalsh(e.get_shape_mat())) <= 1e-4)


@op('ell', 4)
def o_ell_minksum_ea(r, L):
    n = r.dim(1, 4)
    m = r.i(1, 4)
    arr = r.ells(n, m, 0.35 if n > 1 else 0.)
    nd = r.i(1, 4)
    d = r.mat(n, nd) if r.p(0.8) else r.vec(n)
    k = 1 if d.ndim == 1 else nd
    c = Case([r.container(arr), d], lambda a: L.Ellipsoid.minksum_ea(a[0], a[1]),
             regs=regs_ea(arr, k, L))
    return c


@op('ell', 4)
def o_ell_minksum_ia(r, L):
    n = r.dim(1, 4)
    m = r.i(1, 4)
    arr = r.ells(n, m, 0.0)
    if n > 1 and m > 1:
        for j in range(1, m):
            if r.p(0.4):
                arr[j] = r.ell(n, True)
    nd = r.i(1, 4)
    d = r.mat(n, nd)
    return Case([r.container(arr), d], lambda a: L.Ellipsoid.minksum_ia(a[0], a[1]),
                regs=regs_ea(arr, 1, L))


@op('ell', 3)
def o_ell_is_bigger(r, L):
    n = r.dim(1, 4)
    dg = r.p(0.4) and n > 1
    e1 = r.ell(n, dg)
    e2 = r.ell(n, dg)
    if dg:
        # a first tolerance above the second one, so that the regularised matrix passes for positive definite
        e1 = L.Ellipsoid(e1.get_shape_mat(), abs_tol=1e-5)
        e2 = L.Ellipsoid(e1.get_shape_mat() * r.c(0.25, 0.5), abs_tol=1e-7)
    regs = 1 if dg else 0
    if not dg and r.p(0.5):
        e2 = L.Ellipsoid(e1.get_shape_mat() * r.c(0.25, 3.))
    return Case([e1, e2], lambda a: a[0].is_bigger(a[1]), regs=regs)


@op('ell', 3)
def o_ell_is_internal(r, L):
    n = r.dim(1, 4)
    m = r.i(1, 3)
    arr = r.ells(n, m, 0.35 if n > 1 else 0.)
    nv = r.i(1, 4)
    pts = r.mat(n, nv)
    mode = r.c('u', 'i')
    arr = arr.reshape((m, 1))
    return Case([arr, pts], lambda a: L.Ellipsoid.is_internal(a[0], a[1], mode),
                regs=nv * sum(1 for e in arr.flat if deg(e)))


@op('ell')
def o_ell_polar(r, L):
    n = r.dim(1, 4)
    q = r.spd_raw(n) + 4 * np.eye(n)
    c = 0.05 * r.vec(n)
    return Case([np.array([L.Ellipsoid(c, q)])], lambda a: L.Ellipsoid.polar(a[0]))


@op('ell')
def o_ell_uminus(r, L):
    e = r.container(r.ells(r.dim(), r.i(0, 3), 0.2))
    if len(e) and r.p(0.3):
        return Case([r.ell(3)], lambda a: -a[0])
    return Case([e], lambda a: L.Ellipsoid.uminus(a[0]))


@op('ell')
def o_ell_str(r, L):
    return Case([r.ell(r.dim(1, 4), r.p(0.2))], lambda a: str(a[0]))


@op('ell', 3)
def o_ell_boundary(r, L):
    n = r.c(2, 2, 3)
    e = r.ell(n, r.p(0.15))
    k = r.i(0, 5)
    npts = r.c(None, 7, 20, 60) if n == 2 else r.c(None, 10, 43, 100)
    g = r.p(0.5)
    if k <= 1:
        return Case([e], lambda a: a[0].get_boundary(npts, g))
    if k == 2:
        fac = r.c(None, 1, 2, np.array([0.5, 0.25]), [2., 0.5])
        return Case([e, fac], lambda a: a[0].get_boundary_by_factor(a[1], g))
    if k == 3:
        fac = r.c(None, 1, np.array([0.5, 0.25]))
        return Case([e, fac], lambda a: a[0].get_rho_boundary_by_factor(a[1]))
    return Case([e], lambda a: a[0].get_rho_boundary(npts))


@op('ell')
def o_ell_calc_diff(r, L):
    n = r.c(2, 3)
    e1 = L.Ellipsoid(r.vec(n), r.spd_raw(n) + 9 * np.eye(n))
    e2 = r.ell(n)
    m = r.i(1, 3)
    d = r.raw(n, m)
    d = d / np.sqrt(np.sum(d * d, 0))
    p = np.array([r.f(0.2, 0.9) for _ in range(m)])
    good = np.ones(m, dtype=bool)
    return Case([e1, e2, d, p, good], lambda a: L.Ellipsoid._calc_diff_one_dir(*a))


# ------------------------------------------------------------------ core helpers

@op('core')
def o_core_unitball(r, L):
    n = r.i(1, 5)
    return Case([], lambda a: L.core.ell_unitball(n))


@op('core')
def o_core_sim_diag(r, L):
    n = r.dim(1, 5)
    b = r.raw(n, n)
    tol = r.c(1e-7, 1e-7, 1e-5, 1e-3)
    return Case([r.spd(n), b + b.T], lambda a: L.core.ell_sim_diag(a[0], a[1], tol))


@op('core')
def o_core_fusion_lambda(r, L):
    n = r.dim(1, 4)
    return Case([r.vec(n), r.spd(n), r.vec(n), r.spd(n)],
                lambda a: L.core.ell_fusion_lambda(0.3, a[0], a[1], a[2], a[3], n))


@op('core')
def o_core_valign(r, L):
    n = r.dim(2, 5)
    v, x = r.vec(n), r.vec(n)
    if r.p(0.4):
        v, x = v.reshape(-1, 1), x.reshape(1, -1)
    return Case([v, x], lambda a: L.core.ell_valign(a[0], a[1]))


# ------------------------------------------------------------------ hyperplanes

@op('hyp', 2)
def o_hyp_new(r, L):
    n = r.dim()
    kw = kwsettings(r, False)
    k = r.i(0, 4)
    if k == 0:
        return Case([], lambda a: L.Hyperplane(**kw))
    if k == 1:
        return Case([r.vec(n)], lambda a: L.Hyperplane(a[0], **kw))
    if k == 2:
        return Case([np.arange(1, n + 1), 3], lambda a: L.Hyperplane(a[0], a[1], **kw))
    if k == 3:
        return Case([r.raw(1, n), np.array([r.f()])], lambda a: L.Hyperplane(a[0], a[1], **kw))
    return Case([r.vec(n), r.f(), kw], lambda a: L.Hyperplane(a[0], a[1], **a[2]))


@op('hyp')
def o_hyp_from_rep_mat(r, L):
    kw = kwsettings(r, False)
    shp = r.c([2], [1, 2], [2, 2])
    return Case([r.vec(3), r.f(), shp], lambda a: L.Hyperplane.from_rep_mat(a[0], a[1], a[2], **kw))


@op('hyp')
def o_hyp_from_dict(r, L):
    n = r.dim()

    def mk():
        d = {'normal_vec': r.vec(n), 'shift': r.f()}
        if r.p(0.6):
            d.update(kwsettings(r, False))
        return d
    return Case([[mk() for _ in range(r.i(1, 3))]], lambda a: L.Hyperplane.from_dict(a[0]))


@op('hyp')
def o_hyp_to_dict(r, L):
    h = r.container(r.hyps(r.dim(), r.i(1, 3)))
    inc = r.p(0.5)
    return Case([h], lambda a: L.Hyperplane.to_dict(a[0], inc)[:3])


@op('hyp')
def o_hyp_copy(r, L):
    h = r.container(r.hyps(r.dim(), r.i(0, 3)))
    if r.p(0.4):
        shp = r.c([2], [2, 2])
        return Case([r.hyp(3), shp], lambda a: a[0].rep_mat(a[1]))
    return Case([h], lambda a: L.Hyperplane.get_copy(a[0]))


@op('hyp', 2)
def o_hyp_contains(r, L):
    n = r.dim()
    k = r.i(0, 3)
    if k == 0:
        h = r.hyps(n, 1)
        x = r.raw(n, r.i(1, 4))
        p = h[0].parameters()
        x[:, 0] = p[0] * p[1] / float(p[0] @ p[0])
    elif k == 1:
        h = r.hyps(n, r.i(2, 4))
        x = r.raw(n, 1)
    elif k == 2:
        m = r.i(2, 4)
        h = r.hyps(n, m)
        x = r.raw(n, m)
    else:
        h = r.hyps(n, 1)
        x = r.raw(n, 1)
        x[0, 0] = np.inf
    return Case([h, x], lambda a: L.Hyperplane.contains(a[0], a[1]))


@op('hyp')
def o_hyp_dimension(r, L):
    h = list(r.hyps(r.dim(), r.i(1, 3)))
    if r.p(0.3):
        h.append(L.Hyperplane())
    return Case([h], lambda a: (L.Hyperplane.dimension(a[0]), L.Hyperplane.is_empty(a[0])))


@op('hyp', 2)
def o_hyp_is_parallel(r, L):
    n = r.dim(2, 5)
    m = r.i(1, 3)
    h1 = r.hyps(n, m)
    h2 = r.hyps(n, m)
    if r.p(0.5):
        h2[0] = L.Hyperplane(h1[0].parameters()[0] * -2., 1.)
    return Case([h1, h2], lambda a: L.Hyperplane.is_parallel(a[0], a[1]))


@op('hyp')
def o_hyp_uminus(r, L):
    if r.p(0.4):
        return Case([r.hyp(3)], lambda a: -a[0])
    return Case([r.container(r.hyps(r.dim(), r.i(0, 3)))], lambda a: L.Hyperplane.uminus(a[0]))


@op('hyp')
def o_hyp_is_equal(r, L):
    n = r.dim()
    m = r.i(1, 3)
    h1 = r.hyps(n, m)
    h2 = h1.copy() if r.p(0.4) else r.hyps(n, m)
    inc = r.p(0.4)
    return Case([h1, h2], lambda a: L.Hyperplane.is_equal(a[0], a[1], inc))


@op('hyp')
def o_hyp_misc(r, L):
    h = r.hyp(r.dim())
    return Case([h], lambda a: (str(a[0]), a[0].double(), a[0].parameters(),
                                L.Hyperplane.get_abs_tol([a[0]]), L.Hyperplane.get_rel_tol([a[0]], None),
                                L.Hyperplane.get_property([a[0]], 'shift', None)))


# ------------------------------------------------------------------ gras.la

@op('la', 2)
def o_la_preds(r, L):
    n = r.dim()
    q = r.c(r.spd(n), r.deg_raw(n), r.mat(n, n))
    k = r.i(0, 3)
    if k == 0:
        t = r.c(0., 1e-5)
        return Case([q], lambda a: L.la.is_mat_not_deg(a[0], t))
    if k == 1:
        t = r.c(0., 1e-5)
        return Case([q], lambda a: L.la.is_mat_symm(a[0], t))
    q = r.c(r.spd(n), r.spd_raw(n) - 2 * np.eye(n))
    s = r.p(0.5)
    return Case([q], lambda a: L.la.is_mat_pos_def(a[0], 1e-6, s))


@op('la')
def o_la_mat_orth(r, L):
    n = r.dim(2, 5)
    m = r.mat(n, r.i(1, n))
    f = r.c('mat_orth', 'math_orth_col')
    return Case([m], lambda a: getattr(L.la, f)(a[0]))


@op('la', 2)
def o_la_orth_transl(r, L):
    n = r.dim(2, 5)
    a, b = r.arr('vec', n), r.arr('vec', n)
    k = r.i(0, 3)
    if k == 0:
        return Case([a.reshape(-1, 1), b.reshape(-1, 1)], lambda x: L.la.orth_transl(x[0], x[1]))
    if k == 1:
        return Case([a, b], lambda x: L.la.orth_transl(x[0], x[1]))
    if k == 2:
        return Case([a, b], lambda x: L.la.orth_transl_haus(x[0], x[1]))
    return Case([a, b], lambda x: L.la.orth_transl_qr(x[0], x[1]))


@op('la')
def o_la_orth_transl_max(r, L):
    n = r.dim(2, 4)
    v = [r.vec(n) for _ in range(4)]
    if r.p(0.5):
        return Case(v, lambda x: L.la.orth_transl_max_dir(*x))
    return Case(v[:2] + [r.mat(n, n)], lambda x: L.la.orth_transl_max_tr(*x))


@op('la')
def o_la_ml_orth(r, L):
    n = r.dim(2, 4)
    nv = r.i(1, 3)
    if r.p(0.5):
        return Case([r.mat(n, nv), r.mat(n, nv)], lambda x: L.la.ml_orth_transl(x[0], x[1]))
    return Case([r.mat(n, nv), r.mat(n, nv, 2)], lambda x: L.la.ml_orth_transl(x[0], x[1]))


@op('la', 2)
def o_la_reg(r, L):
    n = r.dim()
    k = r.i(0, 2)
    if k == 0:
        return Case([r.c(r.spd_raw(n), r.deg_raw(n))], lambda a: L.la.reg_pos_def_mat(a[0], 1e-3))
    if k == 1:
        return Case([r.mat(n, n)], lambda a: L.la.reg_mat(a[0], 1e-2))
    return Case([r.c(r.spd(n), r.deg_raw(n))], lambda a: L.la.sqrtm_pos(a[0], 1e-6))


@op('la')
def o_la_try_real(r, L):
    n = r.dim()
    k = r.i(0, 2)
    if k == 0:
        return Case([r.mat(n, n)], lambda a: np.array(L.la.try_treat_as_real(a[0])))
    if k == 1:
        return Case([r.mat(n, n) + 1e-9j], lambda a: np.array(L.la.try_treat_as_real(a[0], 1e-6)))
    z = complex(r.f(), 0.)
    return Case([], lambda a: L.la.try_treat_as_real(z))


# ------------------------------------------------------------------ gras.gen

@op('gen')
def o_gen_basic(r, L):
    k = r.i(0, 3)
    n = r.dim(1, 4)
    if k == 0:
        s = r.c((n, n), (n, n, 3))
        return Case([r.raw(*s), r.raw(*s)], lambda a: L.gen.mat_dot(a[0], a[1]))
    if k == 1:
        m = np.round(r.mat(r.c(0, 3, 6, 9), 3), 1)
        t = r.c(0., 1e-3, 0.15)
        return Case([m], lambda a: L.gen.sort_rows_tol(a[0], t))
    if k == 2:
        x = r.f(0., 2.)
        return Case([], lambda a: L.gen.sqrt_pos(x))
    m = np.abs(r.mat(n, n))
    m[0, 0] = -1e-9
    return Case([m], lambda a: L.gen.sqrt_pos(a[0], 1e-6))


@op('gen', 2)
def o_gen_mv_simple(r, L):
    n, m = r.dim(1, 4), r.dim(1, 4)
    t = r.i(1, 4)
    f = r.c('triu', 'make_symmetric', 'pinv', 'transpose')
    if f in ('make_symmetric', 'triu'):
        m = n
    a = r.mat(n, m, t)
    if f == 'transpose' and r.p(0.4):
        a = r.mat(n, m)
    if f == 'triu' and r.p(0.4):
        a = r.mat(n, n)
    return Case([a], lambda x: getattr(L.gen.MatVector, f)(x[0]))


@op('gen', 2)
def o_gen_mv_expr(r, L):
    t = r.c(0.5, np.array([1., 2., 3.]), np.array([0.25]), 2)
    if r.p(0.5):
        e = r.c('t', '[1, t**2]', '[[1, t], [t, 0]]', '[sin(t), cos(t)]', '[[t], [2]]')
        return Case([t], lambda x: L.gen.MatVector.from_expression(e, x[0]))
    m = np.array([['t', '1'], ['cos(t)', 't**2']]) if r.p(0.6) else np.array(['t', '2*t'])
    return Case([m, t], lambda x: L.gen.MatVector.from_formula_mat(x[0], x[1]))


@op('gen', 2)
def o_gen_mv_func(r, L):
    n = r.dim(1, 3)
    a0, a1 = r.raw(n, n), r.raw(n, n)
    tv = np.array([0., 0.5, 1.5][:r.i(1, 3)])
    k = r.i(0, 4)
    if k == 0:
        return Case([tv, a0, a1], lambda x: L.gen.MatVector.from_func(lambda t: x[1] + t * x[2], x[0]))
    if k == 1:
        return Case([tv], lambda x: L.gen.MatVector.from_func(lambda t: t * t, x[0]))
    d = r.mat(n, n, r.i(1, 3)) if r.p(0.7) else r.mat(n, n)
    if k == 2:
        return Case([d], lambda x: L.gen.MatVector.eval_func(np.trace, x[0]))
    if k == 3:
        return Case([d], lambda x: L.gen.MatVector.eval_func(lambda z: 2 * z, x[0], keep_size=True))
    return Case([d], lambda x: L.gen.MatVector.eval_func(lambda z: z.T, x[0], uniform_output=False))


@op('gen', 3)
def o_gen_mv_mult(r, L):
    n, m, k, t = r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3)
    w = r.i(0, 4)
    sp = r.p(0.5)
    if w == 0:
        return Case([r.mat(n, m, t), r.mat(m, t)], lambda a: L.gen.MatVector.r_multiply_by_vec(a[0], a[1], sp))
    if w == 1:
        return Case([r.mat(n, m, t), r.mat(m, k, t)],
                    lambda a: L.gen.MatVector.r_multiply(a[0], a[1], None, sp))
    if w == 2:
        return Case([r.mat(n, m, t + 1), r.mat(m, k)],
                    lambda a: L.gen.MatVector.r_multiply(a[0], a[1], None, sp))
    if w == 3:
        return Case([r.mat(n, m, t), r.mat(m, k, t), r.mat(k, 2, t)],
                    lambda a: L.gen.MatVector.r_multiply(a[0], a[1], a[2], sp))
    return Case([r.mat(1, 1, t), r.mat(1, 1, t)], lambda a: L.gen.MatVector.r_multiply(a[0], a[1]))


def spd3(r, n, t):
    return np.stack([r.spd_raw(n) for _ in range(t)], axis=2)


@op('gen', 3)
def o_gen_sq(r, L):
    n, t = r.dim(1, 4), r.i(1, 3)
    S = L.gen.SquareMatVector
    d = spd3(r, n, t) if r.p(0.6) else r.spd_raw(n)
    k = r.i(0, 4)
    if k == 0:
        return Case([d], lambda a: S.inv(a[0]))
    if k == 1:
        return Case([d if d.ndim == 3 and n > 1 else r.spd_raw(n)], lambda a: S.sqrtm_pos(a[0]))
    if k == 2:
        if d.ndim == 3:
            d[:, :, 0] -= 9 * np.eye(n)
        return Case([d], lambda a: np.array(S.make_pos_definite_or_nan(a[0])))
    if k == 3:
        if r.p(0.6):
            if d.ndim == 3:
                d[:, :, -1] -= 2 * np.eye(n)
            else:
                d = d - 2 * np.eye(n)
        return Case([d], lambda a: S.make_pos_definite_by_eig(a[0]))
    b = d
    a_ = r.mat(n, n)
    if d.ndim == 3 and r.p(0.5):
        a_ = r.mat(n, n, t)
    fl = r.c('R', 'L')
    return Case([b, a_], lambda a: S.lr_multiply(a[0], a[1], fl))


@op('gen', 3)
def o_gen_sq_vec(r, L):
    n, t = r.dim(1, 4), r.i(1, 3)
    S = L.gen.SquareMatVector
    f = r.c('lr_multiply_by_vec', 'lr_divide_vec')
    k = r.i(0, 3)
    if k == 0:
        return Case([r.spd(n), r.vec(n)], lambda a: getattr(S, f)(a[0], a[1]))
    if k == 1:
        return Case([r.spd(n), r.mat(n, t)], lambda a: getattr(S, f)(a[0], a[1]))
    if k == 2:
        return Case([spd3(r, n, 1), r.vec(n)], lambda a: getattr(S, f)(a[0], a[1]))
    return Case([spd3(r, n, t), r.mat(n, t)], lambda a: getattr(S, f)(a[0], a[1]))


@op('gen', 2)
def o_gen_symm(r, L):
    n, t = r.i(2, 3), r.i(1, 3)
    S = L.gen.SymmetricMatVector
    d = spd3(r, n, t)
    k = r.i(0, 3)
    if k == 0:
        return Case([d, r.mat(n, n, t)], lambda a: S.lr_svd_multiply(a[0], a[1], 'R'))
    if k == 1:
        return Case([d, r.mat(n, t)], lambda a: S.r_svd_multiply_by_vec(a[0], a[1]))
    if k == 2:
        return Case([d, r.mat(n, t)], lambda a: S.lr_svd_multiply_by_vec(a[0], a[1]))
    return Case([spd3(r, n, t + 1), r.mat(n, t + 1)], lambda a: S.lr_svd_divide_vec(a[0], a[1]))


# ------------------------------------------------------------------ gras.sym

@op('sym', 2)
def o_sym(r, L):
    m = np.array([[r.c('t', 'k', '1', 'at', 't+1', 'T - t'), r.c('sin(t)', 'kt', '2*k', 'T*k', 't*t + T')],
                  [r.c('0', 't', 'K + T'), r.c('tt', 't2', 'cos(k) + t', 'cos(K) + T', 'k')]])
    k = r.i(0, 6)
    if k == 0:
        dsc = r.p(0.5)
        return Case([m], lambda a: L.sym.is_dependent(a[0], dsc))
    if k <= 5:
        f = r.c('t', 't', 'T', 'T', 'k', 'K', 'tt', 'cos', '2')
        g = r.c('t1 - t', 't1 - t', 'x', 'T', 't', '(t)', 'k1')
        return Case([m, f, g], lambda a: L.sym.var_replace(a[0], a[1], a[2]))
    return Case([np.round(r.raw(2, 2), 2)], lambda a: L.sym.var_replace(a[0], 't', 'x'))


# ------------------------------------------------------------------ gras.geom

@op('geom')
def o_geom_parts(r, L):
    k = r.i(0, 2)
    if k == 0:
        n, ap = r.i(1, 40), r.p(0.5)
        return Case([], lambda a: L.geom.circle_part(n, ap))
    if k == 1:
        n, ap = r.i(1, 20), r.p(0.5)
        return Case([np.array([0.1, 2.])], lambda a: L.geom.circle_part(n, ap, a[0]))
    n = r.c(1, 3, 10, 20)
    return Case([], lambda a: L.geom.sphere_part(n))


@op('geom', 2)
def o_geom_ell(r, L):
    n = r.dim()
    k = r.i(0, 3)
    if k == 0:
        return Case([r.spd(n)], lambda a: L.ell.ell_volume(a[0]))
    if k == 1:
        return Case([r.spd(n)], lambda a: L.ell.inv_mat(a[0]))
    x = r.vec(n)
    if r.p(0.3):
        x = x.reshape(-1, 1)
    mode = r.c('plain', 'inv', 'invadv')
    if r.p(0.5):
        return Case([r.arr('spd', n), x, r.vec(n)], lambda a: L.ell.quad_mat(a[0], a[1], a[2], mode))
    return Case([r.arr('spd', n), x], lambda a: L.ell.quad_mat(a[0], a[1], 0, mode))


@op('geom', 2)
def o_geom_rho_mat(r, L):
    n = r.dim()
    q = r.c(r.spd(n), r.deg_raw(n))
    d = r.mat(n, r.i(1, 5))
    k = r.i(0, 2)
    if k == 0:
        return Case([q, d], lambda a: L.ell.rho_mat(a[0], a[1]))
    if k == 1:
        return Case([q, d, r.raw(n, 1)], lambda a: L.ell.rho_mat(a[0], a[1], 1e-6, a[2]))
    z = r.raw(n, 3)
    z[:, 1] = 0.
    return Case([r.spd(n), z, r.raw(n, 1)], lambda a: L.ell.rho_mat(a[0], a[1], 1e-6, a[2]))


@op('geom')
def o_geom_sup_bound(r, L):
    if r.p(0.6):
        n = r.i(4, 12)
        d = L.geom.circle_part(n)
        s = 1. + 0.2 * np.array([r.f(0, 1) for _ in range(n)])
        return Case([d, s], lambda a: L.sup.sup_2_boundary_2(a[0], a[1]))
    v, f = L.tri.icosahedron()
    s = 1. + 0.1 * np.array([r.f(0, 1) for _ in range(12)])
    return Case([v, s, f], lambda a: L.sup.sup_2_boundary_3(a[0], a[1], a[2]))


@op('geom')
def o_geom_sup_diff(r, L):
    if r.p(0.6):
        n = r.i(8, 20)
        d = L.geom.circle_part(n).T
        e1 = np.diag([9., 4.])
        e2 = np.diag([r.f(0.5, 1.), r.f(0.5, 1.)])
    else:
        d = L.tri.icosahedron()[0].T
        e1 = np.diag([9., 4., 6.])
        e2 = np.diag([r.f(0.5, 1.), r.f(0.5, 1.), 0.7])
    r1 = np.sqrt(np.sum(d * (e1 @ d), 0))
    r2 = np.sqrt(np.sum(d * (e2 @ d), 0))
    if d.shape[0] == 2:
        return Case([r1, r2, d], lambda a: L.sup.sup_geom_diff_2d(a[0], a[1], a[2]))
    return Case([r1, r2, d], lambda a: L.sup.sup_geom_diff_3d(a[0], a[1], a[2]))


# ------------------------------------------------------------------ triangulations

TRI_V = [[0, 0, 0], [1, 0, 0], [0, 1, 0.2], [1, 1, 0.1], [2, 0.5, 0]]
TRI_F = [[0, 1, 2], [1, 3, 2], [1, 4, 3]]


@op('tri')
def o_tri_tubes(r, L):
    n, m = r.i(2, 6), r.i(2, 4)
    f = r.c('ell_tube_2_tri', 'ell_tube_discr_tri')
    return Case([], lambda a: getattr(L.tri, f)(n, m))


@op('tri')
def o_tri_icosahedron(r, L):
    return Case([], lambda a: L.tri.icosahedron())


@op('tri', 2)
def o_tri_maps(r, L):
    f = np.array(TRI_F[:r.i(1, 3)])
    if len(f) == 1 and r.p(0.5):
        f = f[0]
    g = r.c('get_face_edge_info', 'map_face_2_edge')
    return Case([f], lambda a: [np.array(x) for x in getattr(L.tri, g)(a[0])])


@op('tri', 3)
def o_tri_shrink(r, L):
    k = r.i(2, 3)
    f = np.array(TRI_F[:k])
    v = np.array(TRI_V, dtype=float)[:k + 2] * (1 + 0.1 * r.i(0, 3))
    ln = r.c(0.5, 0.9, 1.2, 5.)
    st = r.c(1, 2, 2, np.inf) if ln > 0.4 else 2
    stat = r.p(0.5)
    if r.p(0.3):
        return Case([v, f], lambda a: L.tri.shrink_face_tri(a[0], a[1], ln, min(st, 2), lambda z: z * 1.01, stat))
    return Case([v, f], lambda a: L.tri.shrink_face_tri(a[0], a[1], ln, min(st, 3), None, stat))


@op('tri', 2)
def o_tri_sphere(r, L):
    k = r.i(0, 2)
    if k == 0:
        d = r.c(0, 1, 1, 2)
        return Case([], lambda a: L.tri.sphere_tri(d))
    if k == 1:
        n = r.i(1, 30)
        g = r.p(0.5)
        return Case([], lambda a: L.tri.sphere_tri_ext(2, n, g))
    n = r.c(5, 42, 100)
    g = r.p(0.5)
    return Case([], lambda a: L.tri.sphere_tri_ext(3, n, g))


@op('tri')
def o_tri_is_face(r, L):
    f = np.array(TRI_F)
    chk = np.array([[0, 1, 2], [0, 1, 4], [2, 1, 3]])[:r.i(1, 3)]
    return Case([f, chk], lambda a: L.tri.is_face(a[0], a[1]))


@op('tri')
def o_tri_equal(r, L):
    v, f = L.tri.icosahedron()
    w = v.copy()
    if r.p(0.4):
        w[r.i(0, 11)] += 1e-2
    return Case([v, f, w, f.copy()], lambda a: L.tri.is_tri_equal(a[0], a[1], a[2], a[3], 1e-6))


# ------------------------------------------------------------------ gen.common, gen.dict

@op('common', 2)
def o_common(r, L):
    k = r.i(0, 4)
    if k == 0:
        a = r.c(['a', 'c'], ['b', 'a', 'z'], ['q'])
        b = ['c', 'a', 'b', 'a']
        return Case([a, b], lambda x: L.common.is_member(x[0], x[1]))
    if k == 1:
        a = np.array([r.i(0, 5) for _ in range(5)])
        return Case([a, np.array([3, 1, 2, 3])], lambda x: L.common.is_member(x[0], x[1]))
    if k == 2:
        v = r.c(1, True, 'a', 1j, np.array(['x']), np.array([1.]))
        return Case([], lambda x: L.common.is_numeric(v))
    n = r.dim(1, 3)
    a = r.raw(n, n)
    b = a + r.c(0., 1e-9, 1e-2, 1.)
    if r.p(0.2):
        a[0, 0] = b[0, 0] = np.nan
    if r.p(0.2):
        a[-1, -1] = np.inf
        b[-1, -1] = r.c(np.inf, -np.inf)
    rel = r.c(None, 1e-3)
    return Case([a, b], lambda x: L.common.abs_rel_compare(x[0], x[1], 1e-6, rel, np.abs))


def rdict(r, depth=0):
    d = {}
    for k in r.r.sample(['a', 'b', 'c', 'dd', 'e1', 'zz'], r.i(1, 4)):
        t = r.i(0, 6)
        if t == 0 and depth < 2:
            d[k] = rdict(r, depth + 1)
        elif t == 1:
            d[k] = r.raw(2, 2)
        elif t == 2:
            d[k] = r.c('x', 'y', '')
        elif t == 3:
            d[k] = [1, r.i(0, 3)]
        elif t == 4:
            d[k] = r.i(0, 9)
        elif t == 5 and depth < 2:
            d[k] = [rdict(r, depth + 1) for _ in range(r.i(1, 2))]
        else:
            d[k] = round(r.f(), 3)
    return d


def tweak(r, d):
    """copy with permuted keys and possibly one value changed"""
    ks = list(d)
    r.r.shuffle(ks)
    out = {}
    for k in ks:
        v = d[k]
        if isinstance(v, dict):
            out[k] = tweak(r, v)
        elif isinstance(v, np.ndarray):
            out[k] = v + r.c(0., 0., 1e-9, 1.)
        elif isinstance(v, list):
            out[k] = [tweak(r, x) if isinstance(x, dict) else x for x in v]
        elif isinstance(v, (int, float)) and r.p(0.3):
            out[k] = v + r.c(0, 1)
        elif r.p(0.1):
            out[k + '_'] = v
        else:
            out[k] = v
    return out


@op('dict', 3)
def o_dict_compare(r, L):
    x = rdict(r)
    y = tweak(r, x)
    tol = r.c(0., 1e-6)
    rel = r.c(None, 1e-3)
    k = r.i(0, 3)
    if k == 0:
        x2 = rdict(r)
        return Case([[x, x2], [y, tweak(r, x2)]], lambda a: L.dict.dict_compare(a[0], a[1], tol, rel))
    if k == 1:
        return Case([np.array([x]), np.array([y])], lambda a: L.dict.dict_compare_vec(a[0], a[1], tol, rel))
    return Case([x, y], lambda a: L.dict.dict_compare(a[0], a[1], tol, rel))


# ------------------------------------------------------------------ configuration reads

@op('conf', 2)
def o_conf_read(r, L):
    P = L.Properties
    k = r.i(0, 2)
    if k == 0:
        nm = r.c('version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'n_time_grid_points', 'ode_solver_name',
                 'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points')
        return Case([], lambda a: getattr(P, 'get_' + nm)())
    if k == 1:
        return Case([], lambda a: P.get_prop_dict())
    names = r.r.sample(['abs_tol', 'rel_tol', 'reg_tol', 'n_plot_2d_points', 'n_plot_3d_points', 'version'], r.i(1, 4))
    args = {names[0]: {'abs_tol': 2e-5, 'rel_tol': 3e-4, 'reg_tol': 1e-4, 'n_plot_2d_points': 77,
                       'n_plot_3d_points': 78, 'version': '9'}[names[0]]}
    if r.p(0.5):
        args['other'] = 5
    if r.p(0.4):
        args = {}
    if r.p(0.3):
        return Case([args], lambda a: P.parse_prop(a[0]))
    return Case([args, names], lambda a: P.parse_prop(a[0], a[1]))


# ------------------------------------------------------------------ rejected calls

def inv(args, call):
    return Case(args, call, invalid=True)


@op('bad', 2)
def o_bad_ell(r, L):
    E = L.Ellipsoid
    k = r.i(0, 15)
    n = r.i(2, 4)
    if k == 0:
        return inv([np.ones((n,))], lambda a: E(a[0]))
    if k == 1:
        return inv([np.ones((n, n + 1))], lambda a: E(a[0]))
    if k == 2:
        return inv([-np.eye(n)], lambda a: E(a[0]))
    if k == 3:
        return inv([r.vec(n + 1), r.spd(n)], lambda a: E(a[0], a[1]))
    if k == 4:
        q = r.spd_raw(n)
        q[0, 0] = np.inf
        return inv([q], lambda a: E(a[0]))
    if k == 5:
        return inv([r.vec(n), r.spd(n)], lambda a: E(a[0], a[1], abs_tol=-1.))
    if k == 6:
        return inv([r.spd(n)], lambda a: E(a[0], rel_tol='x'))
    if k == 7:
        return inv([[r.ell(n), 5]], lambda a: E.is_degenerate(a[0]))
    if k == 8:
        return inv([[r.ell(n), E()]], lambda a: E.volume(a[0]))
    if k == 9:
        return inv([r.ells(n, 2), r.raw(n + 1, 2)], lambda a: E.minksum_ea(a[0], a[1]))
    if k == 10:
        return inv([r.ells(n, 2), r.raw(n + 1, 2)], lambda a: E.minksum_ia(a[0], a[1]))
    if k == 11:
        return inv([r.ell(4)], lambda a: a[0].get_boundary(10))
    if k == 12:
        return inv([r.ells(n, 2), r.raw(n, 1)], lambda a: E.is_internal(a[0], a[1], 'q'))
    if k == 13:
        return inv([np.array([r.ell(n, True)])], lambda a: E.polar(a[0]))
    if k == 14:
        return inv([r.ells(n, 2), r.ells(n, 3)], lambda a: E.is_equal(a[0], a[1]))
    return inv([r.ell(n), r.c([1.5], [[1, 2], [3, 4]], [-1, 2])], lambda a: a[0].rep_mat(a[1]))


@op('bad')
def o_bad_proj(r, L):
    n = r.i(2, 4)
    e = r.ells(n, r.i(1, 3))
    b = r.c(np.ones((n, 2)), np.eye(n + 1)[:, :1], np.array(['a']))
    return inv([e, b], lambda a: L.Ellipsoid.get_projection(a[0], a[1]))


@op('bad', 2)
def o_bad_hyp(r, L):
    H = L.Hyperplane
    k = r.i(0, 7)
    n = r.i(2, 4)
    if k == 0:
        return inv([r.vec(n), r.vec(2)], lambda a: H(a[0], a[1]))
    if k == 1:
        return inv([r.raw(2, 2), 1.], lambda a: H(a[0], a[1]))
    if k == 2:
        return inv([np.array([np.nan, 1.])], lambda a: H(a[0]))
    if k == 3:
        return inv([r.vec(n)], lambda a: H(a[0], 1., abs_tol=0.))
    if k == 4:
        return inv([[r.hyp(n), 'x']], lambda a: H.dimension(a[0]))
    if k == 5:
        return inv([r.hyps(n, 2), r.hyps(n, 3)], lambda a: H.is_parallel(a[0], a[1]))
    if k == 6:
        return inv([r.hyps(n, 1), r.raw(n + 1, 1)], lambda a: H.contains(a[0], a[1]))
    return inv([np.array([r.hyp(2), r.hyp(3)]), r.raw(2, 1)], lambda a: H.contains(a[0], a[1]))


@op('bad', 2)
def o_bad_la(r, L):
    k = r.i(0, 11)
    n = r.i(2, 4)
    la = L.la
    if k == 0:
        return inv([r.spd(n)], lambda a: la.is_mat_not_deg(a[0], -1.))
    if k == 1:
        return inv([r.raw(n, n)], lambda a: la.is_mat_pos_def(a[0], 1e-9))
    if k == 2:
        return inv([r.raw(n, n + 1)], lambda a: la.is_mat_symm(a[0]))
    if k == 3:
        return inv([r.vec(n), np.zeros(n)], lambda a: la.orth_transl(a[0], a[1]))
    if k == 4:
        return inv([np.zeros(n), r.vec(n)], lambda a: la.orth_transl_qr(a[0], a[1]))
    if k == 5:
        return inv([r.spd_raw(n)], lambda a: la.reg_pos_def_mat(a[0], -1.))
    if k == 6:
        return inv([r.raw(n, n)], lambda a: la.reg_pos_def_mat(a[0], 1e-3))
    if k == 7:
        return inv([-np.eye(n)], lambda a: la.sqrtm_pos(a[0]))
    if k == 8:
        return inv([r.raw(n, n) + 1j], lambda a: la.try_treat_as_real(a[0]))
    if k == 9:
        return inv([r.raw(n, n)], lambda a: la.reg_mat(a[0], 0.))
    if k == 10:
        return inv([r.spd(n), r.raw(n, n)], lambda a: L.core.ell_sim_diag(a[0], a[1], 1e-7))
    return inv([r.vec(n), r.vec(n + 1)], lambda a: L.core.ell_valign(a[0], a[1]))


@op('bad', 2)
def o_bad_gen(r, L):
    k = r.i(0, 14)
    n = r.i(2, 4)
    g = L.gen
    if k == 0:
        return inv([r.raw(n, n), r.raw(n, n + 1)], lambda a: g.mat_dot(a[0], a[1]))
    if k == 1:
        return inv([r.raw(n, n)], lambda a: g.sort_rows_tol(a[0], -1.))
    if k == 2:
        return inv([r.vec(n) - 9.], lambda a: g.sqrt_pos(a[0]))
    if k == 3:
        return inv([], lambda a: g.MatVector.from_expression('', 1.))
    if k == 4:
        return inv([r.raw(n, n, 2), r.raw(n, n, 2)], lambda a: g.MatVector.r_multiply_by_vec(a[0], a[1]))
    if k == 5:
        return inv([r.raw(n, n)], lambda a: g.SquareMatVector.make_pos_definite_by_eig(a[0]))
    if k == 6:
        return inv([r.raw(n, n), r.raw(n, n)], lambda a: g.SquareMatVector.lr_multiply(a[0], a[1], 'Q'))
    if k == 7:
        return inv([r.raw(n, n + 1)], lambda a: L.ell.inv_mat(a[0]))
    if k == 8:
        return inv([r.spd(n), r.vec(n + 1)], lambda a: L.ell.quad_mat(a[0], a[1]))
    if k == 9:
        return inv([r.spd(n), r.vec(n)], lambda a: L.ell.quad_mat(a[0], a[1], 0, 'mode'))
    if k == 10:
        return inv([np.array([[0, 1]])], lambda a: L.tri.map_face_2_edge(a[0]))
    if k == 11:
        return inv([], lambda a: L.tri.sphere_tri(-1))
    if k == 12:
        return inv([], lambda a: L.tri.sphere_tri_ext(2, 1.5))
    if k == 13:
        return inv([], lambda a: L.geom.sphere_part(0))
    d = L.geom.circle_part(6).T
    return inv([np.ones(6), np.ones(6) * 2, d], lambda a: L.sup.sup_geom_diff_2d(a[0], a[1], a[2]))


@op('bad', 2)
def o_bad_common(r, L):
    k = r.i(0, 7)
    n = r.i(1, 3)
    c = L.common
    if k == 0:
        return inv([r.raw(n, n), r.raw(n, n + 1)], lambda a: c.abs_rel_compare(a[0], a[1], 1e-6, None, np.abs))
    if k == 1:
        return inv([r.raw(n, n), r.raw(n, n)], lambda a: c.abs_rel_compare(a[0], a[1], -1., None, np.abs))
    if k == 2:
        return inv([r.raw(n, n), r.raw(n, n)], lambda a: c.abs_rel_compare(a[0], a[1], 1., -2., np.abs))
    if k == 3:
        return inv([r.raw(n, n), r.raw(n, n)], lambda a: c.abs_rel_compare(a[0], a[1], 1., None, 5))
    if k == 4:
        return inv([5], lambda a: L.dict.dict_compare(a[0], {}))
    if k == 5:
        return inv([[1, 2]], lambda a: L.dict.dict_compare([{}, {}], a[0]))
    if k == 6:
        return inv([np.array([])], lambda a: L.sym.var_replace(a[0], 't', 'x'))
    return inv([np.array(['t'])], lambda a: L.sym.var_replace(a[0], 5, 'x'))


@op('bad')
def o_bad_conf(r, L):
    P = L.Properties
    k = r.i(0, 2)
    if k == 0:
        return inv([{}, ['abs_tol', 'nope']], lambda a: P.parse_prop(a[0], a[1]))
    if k == 1:
        return inv([{'abs_tol': r.c(-1., 0., 'x', None)}, ['abs_tol']], lambda a: P.parse_prop(a[0], a[1]))
    return inv([{'n_plot_2d_points': 1.5, 'z': 1}, ['n_plot_2d_points']], lambda a: P.parse_prop(a[0], a[1]))


def names(groups=None, exclude=()):
    out = []
    for n in OPS:
        if (groups is None or GROUP[n] in groups) and n not in exclude and GROUP[n] not in exclude:
            out.append(n)
    return out


def pick(rng, groups=None, exclude=()):
    ns = names(groups, exclude)
    w = [WEIGHT[n] for n in ns]
    x = rng.random() * sum(w)
    for n, k in zip(ns, w):
        x -= k
        if x <= 0:
            return n
    return ns[-1]


from . import catalog_more  # noqa: E402  (registers further operations)
from . import catalog_kinds  # noqa: E402,F401  (registers further operations)
