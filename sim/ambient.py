"""Interpreter-wide state that belongs to the application: set to unusual values, and looked at afterwards."""
import copy
import copyreg
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings
import numpy as np
import scipy.special


def _handler(signum, frame):
    pass


class _Null(logging.Handler):
    def emit(self, record):
        pass


UNUSUAL_ERR = {'divide': 'ignore', 'over': 'ignore', 'under': 'warn', 'invalid': 'ignore'}


def thread_setup(k):
    """thread-local settings of one application thread"""
    e = dict(UNUSUAL_ERR)
    if k % 2:
        e['under'] = 'ignore'
        e['divide'] = 'warn'
    np.seterr(**e)


def thread_state():
    return {'numpy error handling': dict(np.geterr()), 'numpy error callback': id(np.geterrcall())}


def setup(rng, tmp=None):
    """an application that has changed most defaults"""
    np.set_printoptions(precision=5, threshold=77, linewidth=91, suppress=True)
    np.random.seed(rng.randrange(1 << 30))
    random.seed(rng.randrange(1 << 30))
    warnings.filterwarnings('ignore', message='application filter %d' % rng.randrange(1000))
    sys.setrecursionlimit(3333 + rng.randrange(100))
    os.environ['APPLICATION_SETTING'] = str(rng.randrange(1000))
    signal.signal(signal.SIGUSR1, _handler)
    signal.signal(signal.SIGTERM, _handler)
    root = logging.getLogger()
    root.setLevel(logging.ERROR)
    h = _Null()
    root.addHandler(h)
    other = logging.getLogger('application.part')
    other.setLevel(17)
    other.addHandler(_Null())
    logging.getLogger('ellipyx').setLevel(13)
    if tmp is not None:
        os.chdir(tmp)


def _loggers():
    out = {}
    man = logging.root.manager
    for name, lg in list(man.loggerDict.items()) + [('', logging.root)]:
        if name == 'ellipy' or name.startswith('ellipy.'):
            continue
        if isinstance(lg, logging.Logger):
            out[name] = (lg.level, lg.disabled, lg.propagate, [id(h) for h in lg.handlers],
                         [(h.level, id(h.formatter)) for h in lg.handlers], [id(f) for f in lg.filters])
    return out


def state():
    um = os.umask(0o22)
    os.umask(um)
    st = np.random.get_state()
    d = {
        'numpy printing': repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])),
        'numpy buffer size': np.getbufsize(),
        'numpy random': (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        'scipy special error handling': repr(sorted(scipy.special.geterr().items())),
        'random': hash(random.getstate()),
        'warning filters': [repr(f) for f in warnings.filters],
        'warning functions': (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn)),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'working directory': os.getcwd(),
        'umask': um,
        'environment': dict(os.environ),
        'signal handlers': {s: repr(signal.getsignal(s)) for s in range(1, 32)},
        'timers': signal.getitimer(signal.ITIMER_REAL),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'original streams': (id(sys.__stdin__), id(sys.__stdout__), id(sys.__stderr__)),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        'profile function': (sys.getprofile(), threading._profile_hook, threading._trace_hook),
        'loggers': _loggers(),
        'logging': (logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                    id(logging.getLoggerClass()), id(logging.getLogRecordFactory()),
                    sorted(logging._levelToName.items())),
        'garbage collector': gc.isenabled(),
        'locale': locale.setlocale(locale.LC_ALL),
        'import path': list(sys.path),
        'import hooks': ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
        'bytecode writing': sys.dont_write_bytecode,
        'threads': sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread)),
        'open files': sorted(_fds()),
        'exit functions': _atexit(),
        'builtins': sorted(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__),
        'numpy functions': [id(getattr(np, n)) for n in ('dot', 'sqrt', 'array', 'matmul', 'seterr')] +
                           [id(getattr(np.linalg, n)) for n in ('eigh', 'inv', 'svd', 'qr', 'norm')],
    }
    d.update(thread_state())
    d.update(_others())
    return d


def _others():
    b = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
    return {
        'stack size of threads': threading.stack_size(),
        'decimal arithmetic': (decimal.DefaultContext.prec, decimal.DefaultContext.rounding),
        'limits': [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK,
                                                   resource.RLIMIT_CORE, resource.RLIMIT_CPU, resource.RLIMIT_DATA)],
        'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'copy and pickle functions': (len(copyreg.dispatch_table), len(copy._deepcopy_dispatch)),
        'socket timeout': socket.getdefaulttimeout(),
        'time zone': (time.tzname, time.timezone),
        'traceback limit': getattr(sys, 'tracebacklimit', None),
        'builtin functions': [id(b[n]) for n in ('print', 'open', 'input', '__import__', 'repr', 'hash', 'sum', 'map')],
        'numpy classes': (id(np.random.rand), id(np.random.default_rng), id(np.set_printoptions)),
        'float information': float('0.1').hex(),
    }


def light():
    """the part of it that code sets for a while and puts back"""
    e, w = dict(np.geterr()), warnings
    return {
        'numpy printing': repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])),
        'numpy buffer size': np.getbufsize(),
        'scipy special error handling': repr(sorted(scipy.special.geterr().items())),
        'numpy error handling': e,
        'random': hash(random.getstate()),
        'numpy error callback': id(np.geterrcall()),
        'warning filters': [id(f) for f in w.filters],
        'warning functions': (id(w.showwarning), id(w.formatwarning), id(w.warn)),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        'profile function': (sys.getprofile(), threading._profile_hook, threading._trace_hook),
        'logging': (logging.root.manager.disable, logging.raiseExceptions, logging.root.level,
                    len(logging.root.handlers)),
        'garbage collector': gc.isenabled(),
        'locale': locale.setlocale(locale.LC_ALL),
        'import path': len(sys.path),
        'bytecode writing': sys.dont_write_bytecode,
        'numpy functions': [id(getattr(np, n)) for n in ('dot', 'sqrt', 'array', 'matmul', 'seterr')] +
                           [id(getattr(np.linalg, n)) for n in ('eigh', 'inv', 'svd', 'qr', 'norm')],
    }


def _atexit():
    import atexit
    try:
        return atexit._ncallbacks()
    except AttributeError:
        return len(getattr(atexit, 'atexit_callbacks', ()))


def _fds():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            out.append((int(n), os.readlink('/proc/self/fd/' + n)))
        except OSError:
            pass
    return [x for x in out if '/proc/' not in x[1]]


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = ({q: v for q, v in x.items() if y.get(q) != v}, {q: v for q, v in y.items() if a[k].get(q) != v})
            out.append('%s: %s became %s' % (k, repr(x)[:200], repr(y)[:200]))
    return out
