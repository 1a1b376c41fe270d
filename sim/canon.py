"""Canonical form of values, through the public interface of the library's objects, and comparison."""
import re
import numpy as np

RTOL = 1e-7
ATOL = 1e-10


def canon(v, L, depth=0):
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, (int, float, complex)) and not isinstance(v, np.generic):
        return ('py', type(v).__name__, v)
    if isinstance(v, np.generic):
        return ('np', v.dtype.kind, v.item() if v.dtype.kind != 'O' else canon(v.item(), L))
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ('oarr', v.shape, [canon(x, L, depth + 1) for x in v.ravel()])
        if v.dtype.kind in 'biufc':
            return ('arr', type(v) is np.ndarray, v.dtype.kind, v.shape, np.array(v, copy=True, order='C'))
        return ('sarr', v.dtype.kind, v.shape, [str(x) for x in v.ravel()])
    if L is not None and isinstance(v, L.Ellipsoid):
        return ('Ell', type(v).__name__, canon(v.get_center_vec(), L), canon(v.get_shape_mat(), L), settings(v, L))
    if L is not None and isinstance(v, L.Hyperplane):
        p = v.parameters()
        return ('Hyp', type(v).__name__, canon(p[0], L), canon(p[1], L), settings(v, L))
    if isinstance(v, dict):
        return ('dict', sorted(((repr(k), canon(x, L, depth + 1)) for k, x in v.items()), key=lambda t: t[0]))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(x, L, depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(repr(x) for x in v))
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__, str(v))
    if callable(v):
        return ('callable',)
    if hasattr(v, 'toarray'):
        return ('sparse', canon(v.toarray(), L))
    return ('obj', type(v).__name__)


def settings(v, L):
    arr = np.empty((1,), dtype=object)
    arr[0] = v
    out = [float(v.get_abs_tol(arr, None).ravel()[0]), float(v.get_rel_tol(arr, None).ravel()[0])]
    if isinstance(v, L.Ellipsoid):
        out += [float(v.get_n_plot_2d_points(arr).ravel()[0]), float(v.get_n_plot_3d_points(arr).ravel()[0])]
    return tuple(out)


_num = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?')


def same_text(a, b):
    if a == b:
        return True
    if _num.sub('#', a) != _num.sub('#', b):
        return False
    for x, y in zip(_num.findall(a), _num.findall(b)):
        if not same_num(float(x), float(y), 1.0):
            return False
    return True


def same_num(x, y, scale):
    if x == y:
        return True
    if x != x and y != y:
        return True
    try:
        return abs(x - y) <= RTOL * max(abs(x), abs(y)) + ATOL * max(1.0, scale)
    except (TypeError, OverflowError):
        return False


def same(a, b):
    """are two canonical forms equal (floats up to rounding)?"""
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.size == 0:
            return True
        if a.dtype.kind in 'fc':
            if a.tobytes() == b.tobytes():
                return True
            fin = np.isfinite(a)
            if not np.array_equal(fin, np.isfinite(b)):
                return False
            if not np.array_equal(np.where(fin, 0, a), np.where(fin, 0, b), equal_nan=True):
                return False
            x, y = a[fin], b[fin]
            if x.size == 0:
                return True
            scale = max(1.0, float(np.max(np.abs(x))))
            return bool(np.all(np.abs(x - y) <= RTOL * scale))
        return bool(np.array_equal(a, b))
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        if not isinstance(a, (int, float, complex)) or not isinstance(b, (int, float, complex)):
            return False
        return same_num(a, b, 1.0)
    if isinstance(a, str) and isinstance(b, str):
        return same_text(a, b)
    return type(a) is type(b) and a == b


def brief(c, n=300):
    s = repr(c)
    return s if len(s) <= n else s[:n] + '...'


# exact snapshot of what a caller can see of an argument: contents, shape, dtype, layout flags
def snapshot(v, L, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ('o', v.shape, v.flags.writeable, tuple(snapshot(x, L, seen) for x in v.ravel()))
        return ('a', v.shape, v.dtype.str, v.flags.writeable, v.tobytes())
    if isinstance(v, (L.Ellipsoid, L.Hyperplane)):
        return ('e', id(v), exact(canon(v, L)))
    if isinstance(v, dict):
        return ('d', tuple((repr(k), snapshot(x, L, seen)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snapshot(x, L, seen) for x in v))
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, np.generic)):
        return repr(v)
    return ('id', id(v))


def exact(c):
    if isinstance(c, np.ndarray):
        return (c.shape, c.dtype.str, c.tobytes())
    if isinstance(c, (tuple, list)):
        return tuple(exact(x) for x in c)
    return repr(c)
