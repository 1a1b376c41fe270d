"""Simulated faults of the disk under chosen directories: every way Python code opens or looks at a file."""
import builtins
import errno
import io
import os
import tokenize
import _io

DIRS = []
PLAN = None        # function(path, operation) -> None or kind of fault
HITS = {}
KINDS = ('missing', 'permission', 'eio', 'truncated', 'undecodable', 'empty', 'nul')
_real = {}


def _path(p):
    try:
        s = os.fspath(p)
    except TypeError:
        return None
    if isinstance(s, bytes):
        s = os.fsdecode(s)
    return s if any(s.startswith(d) for d in DIRS) else None


def _fault(p, op):
    if PLAN is None:
        return None
    s = _path(p)
    if s is None:
        return None
    k = PLAN(s, op)
    if k is not None:
        HITS[k] = HITS.get(k, 0) + 1
    return k


def _raise(kind, p):
    e = {'missing': (FileNotFoundError, errno.ENOENT), 'permission': (PermissionError, errno.EACCES),
         'eio': (OSError, errno.EIO)}[kind]
    raise e[0](e[1], os.strerror(e[1]), p)


def _content(kind, p):
    f = _real['os.open'](p, os.O_RDONLY)
    try:
        data = b''
        while True:
            b = os.read(f, 1 << 16)
            if not b:
                break
            data += b
    finally:
        os.close(f)
    if kind == 'truncated':
        return data[:len(data) // 3]
    if kind == 'undecodable':
        return b'# \xff\xfe\x81\n' + data[:200] + b'\xff\xff' + data[200:]
    if kind == 'nul':
        return data[:100] + b'\0' * 50 + data[100:]
    return b''


def _wrap_open(name, real):
    def seam(file, mode='r', *a, **k):
        kind = None if isinstance(file, int) else _fault(file, 'open')
        if kind in ('missing', 'permission', 'eio'):
            _raise(kind, file)
        if kind is not None and 'w' not in mode and 'a' not in mode and '+' not in mode:
            raw = io.BytesIO(_content(kind, os.fspath(file)))
            if 'b' in mode:
                return raw
            enc = k.get('encoding') or (a[1] if len(a) > 1 else None)
            return io.TextIOWrapper(raw, encoding=enc or 'utf-8')
        return real(file, mode, *a, **k)
    return seam


def _wrap_code(real):
    def seam(path):
        kind = _fault(path, 'open')
        if kind in ('missing', 'permission', 'eio'):
            _raise(kind, path)
        if kind is not None:
            return io.BytesIO(_content(kind, path))
        return real(path)
    return seam


def _wrap_path(op, real):
    def seam(path, *a, **k):
        if not isinstance(path, int):
            kind = _fault(path, op)
            if kind in ('missing', 'permission', 'eio'):
                _raise(kind, path)
        return real(path, *a, **k)
    return seam


def install(dirs):
    DIRS[:] = dirs
    _real['os.open'] = os.open
    builtins.open = io.open = _wrap_open('open', builtins.open)
    tokenize._builtin_open = builtins.open
    _io.open = builtins.open
    _io.open_code = _wrap_code(_io.open_code)
    if hasattr(io, 'open_code'):
        io.open_code = _io.open_code
    import posix
    for n in ('stat', 'lstat', 'open', 'readlink', 'listdir', 'scandir', 'access'):
        f = _wrap_path(n, getattr(os, n))
        setattr(os, n, f)
        setattr(posix, n, f)
