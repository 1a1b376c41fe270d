"""Installs the seams and imports the library under test from its working tree."""
import os
import sys
import warnings

ROOT = os.environ.get('ELLIPY_ROOT') or '/repo/products'
MODULES = [
    'ellipy.elltool.conf.properties.Properties', 'ellipy.elltool.conf.properties._ParseProp',
    'ellipy.elltool.core.core', 'ellipy.elltool.core.ellipsoid.Ellipsoid',
    'ellipy.elltool.core.hyperplane.Hyperplane', 'ellipy.elltool.core.aellipsoid.AEllipsoid',
    'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid', 'ellipy.gen.common.common',
    'ellipy.gen.dict.dict', 'ellipy.gen.logging.logging', 'ellipy.gras.la.la', 'ellipy.gras.gen.gen',
    'ellipy.gras.sym.sym', 'ellipy.gras.geom.geom', 'ellipy.gras.geom.ell.ell', 'ellipy.gras.geom.sup.sup',
    'ellipy.gras.geom.tri.tri']

LINALG = ['inv', 'det', 'svd', 'eigh', 'eigvalsh', 'eig', 'eigvals', 'qr', 'lstsq', 'pinv', 'norm', 'matrix_rank',
          'solve', 'cholesky', 'slogdet']


def base():
    """numpy and scipy, simulated locks and clock, the numpy.linalg seam - but not the library"""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import logging          # noqa
    from . import kernel
    kernel.install()
    kernel.LIB_DIR = os.path.join(os.path.realpath(ROOT), 'ellipy') + os.sep
    import numpy as np
    import numpy.matlib     # noqa
    import scipy.sparse     # noqa
    import scipy.spatial    # noqa
    import scipy.special    # noqa
    import concurrent.futures   # noqa
    import copy, pickle, inspect, tokenize, linecache, traceback   # noqa
    _warm(np)
    _wrap_linalg(np.linalg, kernel)
    root = os.path.realpath(ROOT)
    if root not in sys.path:
        sys.path.insert(0, root)


def _warm(np):
    """first calls of what numpy sets up lazily: made by a thread, ufunc.outer can kill the interpreter"""
    a, m = np.arange(3.), np.eye(3)
    for u in (np.add, np.multiply, np.greater_equal, np.maximum):
        u.outer(a, a)
        if u is not np.greater_equal:
            u.accumulate(a), u.reduce(a), u.reduceat(a, [0, 1])
    np.add.at(a, [0], 1.)
    for f in (np.tri, np.eye):
        f(3)
    for f in (np.triu, np.linalg.inv, np.linalg.det, np.linalg.svd, np.linalg.eigh, np.linalg.eig, np.linalg.qr,
              np.linalg.norm, np.linalg.pinv, np.linalg.matrix_rank, np.sort, np.unique, np.all, np.any, np.sum,
              np.min, np.max, np.argmax, np.mean, np.copy, repr, str):
        f(m)
    np.linalg.solve(m, a)
    np.linalg.lstsq(m, a, rcond=None)
    np.vectorize(str)(m)
    np.einsum('ij,jk->ik', m, m)
    np.interp(a, a, a)
    np.allclose(m, m)
    np.array([1, None], dtype=object) == np.array([1, 2], dtype=object)
    np.concatenate([a, a]), np.squeeze(m), np.tensordot(m, m), np.cross(a, a), m @ m, m.astype(int), m.tolist()


def _wrap_linalg(mod, kernel):
    LinAlgError = mod.LinAlgError

    def wrap(name, fn):
        def seam(*a, **k):
            sim = kernel.SIM
            if sim is not None and sim.linalg_point(name):
                raise LinAlgError('injected: did not converge')
            return fn(*a, **k)
        seam.__name__ = name
        seam.__wrapped__ = fn
        return seam
    for n in LINALG:
        fn = getattr(mod, n)
        setattr(mod, n, wrap(n, fn))


class Lib(object):
    """names of the library"""


def library():
    import importlib
    for m in MODULES:
        importlib.import_module(m)
    L = Lib()
    g = sys.modules
    L.Properties = g['ellipy.elltool.conf.properties.Properties'].Properties
    L.Ellipsoid = g['ellipy.elltool.core.ellipsoid.Ellipsoid'].Ellipsoid
    L.Hyperplane = g['ellipy.elltool.core.hyperplane.Hyperplane'].Hyperplane
    L.core = g['ellipy.elltool.core.core']
    L.common = g['ellipy.gen.common.common']
    L.dict = g['ellipy.gen.dict.dict']
    L.logging = g['ellipy.gen.logging.logging']
    L.la = g['ellipy.gras.la.la']
    L.gen = g['ellipy.gras.gen.gen']
    L.sym = g['ellipy.gras.sym.sym']
    L.geom = g['ellipy.gras.geom.geom']
    L.ell = g['ellipy.gras.geom.ell.ell']
    L.sup = g['ellipy.gras.geom.sup.sup']
    L.tri = g['ellipy.gras.geom.tri.tri']
    return L
