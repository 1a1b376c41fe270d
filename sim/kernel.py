"""Deterministic simulator for threads, locks, clock and faults inside one process.

Caller threads are real threads, but exactly one of them runs at any moment: a
baton is handed over only at intercepted points (bytecode of the library, calls
into other Python code, lock operations, sleeps, end of a call).  Who gets the
baton, and which fault fires where, is decided by the run's generator (explore)
or by the recorded lists in the replay file (replay); nothing else can cause a
switch, so one specification is one exactly repeatable execution.

Coordinates of every decision are (operation id, number of the event inside that
operation), so that removing other operations while minimising keeps them valid.
"""
import sys
import os
import time as _time
import dis
import ast
import threading
import _thread
import itertools

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_sleep = _time.sleep

REAL_RLOCK = _thread.RLock

SIM = None          # the simulation in progress in this process, if any
LIB_DIR = None      # directory of the library under test (set by loader)
HARNESS_DIR = os.path.dirname(os.path.abspath(__file__))


class SimAbort(BaseException):
    """unwinds simulated threads when a run is given up"""


class SimDeadlock(Exception):
    pass


# ---------------------------------------------------------------- locks

class SimLock(object):
    """Replacement for threading.Lock: blocking is a scheduling decision."""
    _reentrant = False
    _ids = itertools.count()

    def __init__(self):
        self._owner = None
        self._count = 0
        self._sid = next(SimLock._ids)

    def _me(self):
        return _real_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        sim = SIM
        th = sim.by_ident.get(me) if sim is not None else None
        if th is not None:
            sim.lock_event(th, self)
        while self._count:
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            if th is None:
                if sim is not None:
                    sim.foreign_block(self)
                raise SimDeadlock('lock taken for ever outside a simulation')
            ok = sim.block(th, self, None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
        self._owner = me
        self._count = 1
        if sim is not None:
            sim.held.add(self)
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            sim = SIM
            if sim is not None:
                sim.held.discard(self)
                th = sim.by_ident.get(self._me())
                if th is not None:
                    sim.lock_event(th, self)

    def locked(self):
        return bool(self._count)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # protocol used by threading.Condition
    def _is_owned(self):
        if self._reentrant:
            return self._count > 0 and self._owner == self._me()
        return self._count > 0

    def __repr__(self):
        return '<sim lock %d>' % self._sid


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        st = (self._owner, self._count)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st


def _sim_start_new_thread(function, args, kwargs=None):
    sim = SIM
    if sim is not None and _real_ident() in sim.by_ident:
        return sim.spawn(function, args, kwargs or {})
    return _real_start(function, args, kwargs or {})


class SimClock(object):
    base = 1700000000.0
    now = 0.0
    skew = 0.0
    jumps = 0
    reads = 0
    plan = None      # list of (read index, delta)

    def time(self):
        if SIM is None:
            return _real_time()
        self._tick()
        return self.base + self.now + self.skew

    def monotonic(self):
        if SIM is None:
            return _real_monotonic()
        self._tick()
        return self.now

    def _tick(self):
        self.reads += 1
        self.now += 1e-6
        if self.plan:
            while self.plan and self.plan[0][0] <= self.reads:
                self.skew += self.plan.pop(0)[1]
                self.jumps += 1

    def sleep(self, secs):
        sim = SIM
        if sim is None:
            return _real_sleep(secs)
        th = sim.by_ident.get(_real_ident())
        if th is None:
            self.now += secs
            return
        sim.block(th, None, secs)


CLOCK = SimClock()


def install():
    """put the seams in place; must run before the library is imported"""
    import logging
    import functools
    _thread.allocate_lock = SimLock
    _thread.start_new_thread = _sim_start_new_thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    if hasattr(threading, '_CRLock'):
        threading._CRLock = SimRLock
    threading._start_new_thread = _sim_start_new_thread
    if hasattr(functools, 'RLock'):
        functools.RLock = SimRLock
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.lock = SimRLock()
    if logging.lastResort is not None:
        logging.lastResort.lock = SimRLock()
    threading._active_limbo_lock = SimLock()
    if hasattr(threading, '_shutdown_locks_lock'):
        threading._shutdown_locks_lock = SimLock()
    _replace_cache_locks()
    _replace_module_locks()
    _time.time = CLOCK.time
    _time.monotonic = CLOCK.monotonic
    _time.perf_counter = CLOCK.monotonic
    _time.sleep = CLOCK.sleep


def _replace_cache_locks():
    """lru_cache wrappers made before install() hold real locks in their closures"""
    import gc
    import types
    real = (type(REAL_RLOCK()), type(_real_allocate()))
    n = 0
    for f in gc.get_objects():
        if type(f) is types.FunctionType and f.__closure__:
            for c in f.__closure__:
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if type(v) in real:
                    c.cell_contents = SimRLock()
                    n += 1
    return n


def _replace_module_locks():
    """locks that modules imported before install() made for themselves, and their own names for making them"""
    plain, rec = type(_real_allocate()), type(REAL_RLOCK())
    for name, m in list(sys.modules.items()):
        if name in ('_thread', 'threading', '_frozen_importlib', 'importlib._bootstrap') or name.startswith('sim.'):
            continue
        d = getattr(m, '__dict__', None) or {}
        for k, v in list(d.items()):
            if type(v) is plain:
                d[k] = SimLock()
            elif type(v) is rec:
                d[k] = SimRLock()
            elif v is _real_allocate:
                d[k] = SimLock
            elif v is REAL_RLOCK:
                d[k] = SimRLock


# ------------------------------------------------- static facts about library code

ALLOC_OPS = frozenset(
    o for o, n in enumerate(dis.opname)
    if n.startswith('CALL') or n.startswith('BINARY_') or n.startswith('BUILD_')
    or n.startswith('INPLACE_') or n in ('LIST_TO_TUPLE', 'LIST_EXTEND', 'UNARY_NEGATIVE', 'UNARY_INVERT'))
SHARED_OPS = frozenset(
    o for o, n in enumerate(dis.opname)
    if n in ('STORE_ATTR', 'LOAD_GLOBAL', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SUBSCR',
             'LOAD_DEREF', 'STORE_DEREF', 'LOAD_NAME', 'STORE_NAME', 'INPLACE_ADD', 'INPLACE_SUBTRACT',
             'INPLACE_MULTIPLY', 'INPLACE_TRUE_DIVIDE', 'LOAD_ATTR', 'CONTAINS_OP', 'SETUP_WITH',
             'DELETE_ATTR', 'POP_JUMP_IF_FALSE', 'POP_JUMP_IF_TRUE'))
WRITE_OPS = frozenset(
    o for o, n in enumerate(dis.opname)
    if n in ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_SUBSCR', 'DELETE_ATTR')
    or n.startswith('INPLACE_') or n.startswith('CALL'))
_FRAGILE = frozenset(o for o, n in enumerate(dis.opname) if n in (
    'SETUP_WITH', 'SETUP_FINALLY', 'POP_BLOCK', 'RERAISE', 'POP_EXCEPT', 'WITH_EXCEPT_START',
    'WITH_CLEANUP_START', 'WITH_CLEANUP_FINISH', 'BEGIN_FINALLY', 'END_FINALLY', 'POP_FINALLY'))

_protected_lines = {}
_protected_offs = {}


def _lines_of_handlers(filename):
    got = _protected_lines.get(filename)
    if got is None:
        got = set()
        try:
            with open(filename, 'rb') as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    bodies = [node.finalbody] + [h.body for h in node.handlers]
                    for h in node.handlers:
                        got.add(h.lineno)
                    for body in bodies:
                        for st in body:
                            got.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
                if isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__'):
                    got.update(range(node.lineno, node.end_lineno + 1))
        except (OSError, SyntaxError, ValueError):
            pass
        _protected_lines[filename] = got
    return got


def protected_offsets(code):
    """offsets where no fault may be placed: clean-up code and the instructions
    around entering and leaving with/try blocks, where no Python code can be safe"""
    got = _protected_offs.get(code)
    if got is None:
        got = set()
        lines = _lines_of_handlers(code.co_filename)
        ins = list(dis.get_instructions(code))
        line = code.co_firstlineno
        for i, x in enumerate(ins):
            if x.starts_line is not None:
                line = x.starts_line
            if line in lines:
                got.add(x.offset)
            if x.opcode in _FRAGILE:
                for j in range(max(0, i - 3), min(len(ins), i + 7)):
                    got.add(ins[j].offset)
        _protected_offs[code] = got
    return got


# ---------------------------------------------------------------- simulation

MANY = 6000            # switches in one run, from then on they are rare


class OpPlan(object):
    """what is to happen inside one operation"""
    __slots__ = ('preempts', 'faults', 'gap', 'filt', 'observe', 'limit', 'trace', 'lag', 'fixed')

    def __init__(self):
        self.preempts = {}     # step -> target thread   (replay)
        self.faults = []       # [kind, nth event]       (spec)
        self.gap = 0           # mean gap between random preemptions (explore)
        self.filt = None       # only at these opcodes
        self.lag = 0           # events before the first of those preemptions
        self.fixed = False     # gaps are always the same
        self.observe = 0       # call the observer about every n-th event
        self.limit = 6000000
        self.trace = True      # False: nothing is decided inside the call, run it at full speed


class SimThread(object):
    def __init__(self, sim, tid, body):
        self.sim = sim
        self.tid = tid
        self.spawned = False     # started by the code under simulation
        self.body = body
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'new'       # new, ready, blocked, done
        self.wait = None         # lock
        self.wake = None         # simulated time
        self.timed_out = False
        self.ident = None
        # per-operation
        self.op_id = None
        self.plan = None
        self.n = 0
        self.next = 1 << 60
        self.next_fault = None
        self.next_pre = 1 << 60
        self.next_obs = 1 << 60
        self.pre_list = None
        self.error = None


class Simulation(object):
    def __init__(self, rng=None, record=True):
        self.rng = rng
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.done_baton = _real_allocate()
        self.done_baton.acquire()
        self.switches = []        # [op_id, step, target tid]
        self.forced = 0
        self.seq = 0              # global event stamp for histories
        self.faults_fired = []    # [op_id, kind, step]
        self.problem = None
        self.held = set()
        self.total_steps = 0
        self.entries = None       # dictionary: function -> numbers of the events at which it is entered
        self.sites = None         # dictionary: line that calls numpy.linalg -> numbers of its calls
        self.probe = None         # f(number of the event) called when a line is reached for the first time
        self.observer = None      # f(thread) called at sampled events
        self.lock_waits = 0
        self.switch_hash = 0
        self.allow_foreign = True
        self.linalg_fault = None
        self.aborting = False
        self.on_call_preempt = True
        self.clock0 = 0.0
        self.faulting = None

    # -- threads
    def add(self, body):
        t = SimThread(self, len(self.threads), body)
        self.threads.append(t)
        return t

    def _boot(self, t):
        t.ident = _real_ident()
        t.baton.acquire()
        self.by_ident[t.ident] = t
        try:
            if not self.aborting:
                t.body(t)
        except SimAbort:
            pass
        except BaseException as e:     # harness error
            import traceback
            t.error = traceback.format_exc()
            if self.problem is None:
                self.problem = ('harness', t.error)
        sys.settrace(None)
        t.state = 'done'
        self.by_ident.pop(t.ident, None)
        nxt = self._pick_forced(t)
        if nxt is None:
            self.done_baton.release()
        else:
            self.current = nxt
            nxt.baton.release()

    def spawn(self, function, args, kwargs):
        """a thread started by the code under simulation"""
        t = self.add(lambda th: function(*args, **kwargs))
        t.spawned = True
        t.state = 'ready'
        started = _real_start(self._boot, (t,))
        return started

    def run(self):
        global SIM
        SIM = self
        self.clock0 = CLOCK.now
        try:
            for t in self.threads:
                t.state = 'ready'
                _real_start(self._boot, (t,))
            first = self.threads[0]
            self.current = first
            first.baton.release()
            self.done_baton.acquire()
        finally:
            SIM = None
            if self.aborting:
                self._forget_locks()

    def _forget_locks(self):
        """threads were cut off: what they held is lost, but this process goes on to report"""
        import _frozen_importlib
        _frozen_importlib._module_locks.clear()
        _frozen_importlib._blocking_on.clear()
        for l in self.held:
            l._count, l._owner = 0, None

    # -- scheduling
    def _runnable(self, t):
        if t.state == 'ready':
            return True
        if t.state == 'blocked':
            if t.wait is not None and not t.wait._count:
                return True
            if t.wake is not None and t.wake <= CLOCK.now:
                return True
        return False

    def _pick_forced(self, cur):
        """next thread when `cur` cannot go on: the next one round-robin"""
        ths = self.threads
        n = len(ths)
        k = cur.tid
        for d in range(1, n + 1):
            t = ths[(k + d) % n]
            if self._runnable(t):
                self.forced += 1
                return t
        # somebody waiting for time?
        sl = [t for t in ths if t.state == 'blocked' and t.wake is not None]
        if sl:
            t = min(sl, key=lambda x: (x.wake, x.tid))
            CLOCK.now = max(CLOCK.now, t.wake)
            self.forced += 1
            return t
        if any(t.state == 'blocked' and not t.spawned for t in ths):
            if self.problem is None:
                self.problem = ('deadlock', [[t.tid, t.op_id] for t in ths if t.state == 'blocked'])
            self.aborting = True
            for t in ths:
                if t.state == 'blocked':
                    return t
        return None

    def _hand(self, cur, nxt):
        if nxt is cur:
            return
        self.current = nxt
        nxt.baton.release()
        cur.baton.acquire()
        if self.aborting:
            raise SimAbort()

    def block(self, th, lock, timeout):
        """the running thread cannot proceed; returns False on timeout"""
        self.lock_waits += 1
        th.state = 'blocked'
        th.wait = lock
        th.wake = None if timeout is None else CLOCK.now + timeout
        nxt = self._pick_forced(th)
        if nxt is None:          # a thread of the library that waits for ever when all calls have ended
            self.done_baton.release()
            th.baton.acquire()
            raise SimAbort()
        self._hand(th, nxt)
        th.state = 'ready'
        th.wait = None
        wake, th.wake = th.wake, None
        if self.aborting:
            raise SimAbort()
        if lock is not None and lock._count and wake is not None and wake <= CLOCK.now:
            return False
        return True

    def foreign_block(self, lock):
        if self.problem is None:
            self.problem = ('deadlock', [['main', None]])

    def lock_event(self, th, lock):
        """lock operations are scheduling points as well"""
        if th.plan is None or th is not self.current:
            return
        th.n += 1
        if th.n >= th.next:
            self._hook(th, None)

    def switch(self, th, target):
        t = self.threads[target]
        if t is th or not self._runnable(t):
            return False
        self.switches.append([th.op_id, th.n, target])
        self.switch_hash = hash((self.switch_hash, th.op_id, th.n, target))
        self.seq += 1
        self._hand(th, t)
        return True

    # -- operations
    def op_begin(self, th, op_id, plan):
        th.op_id = op_id
        th.plan = plan
        th.n = 0
        th.pre_list = sorted(plan.preempts) if plan.preempts else None
        self._schedule_next(th, 0)
        if plan.lag and th.pre_list is None:
            th.next_pre = plan.lag
        th.next_obs = 1 + self._gap(plan.observe) if plan.observe else 1 << 60
        th.faults = sorted(([k, n] for k, n in plan.faults if k in ('mem', 'kbd')), key=lambda f: f[1])
        lf = [[k, n] for k, n in plan.faults if k == 'linalg']
        th.linalg = lf[0][1] if lf else None
        th.linalg_count = 0
        th.next_fault = th.faults[0][1] if th.faults else 1 << 60
        th.next = min(th.next_pre, th.next_fault, th.next_obs, plan.limit)
        # boundary decision (step 0)
        if 0 in plan.preempts:
            self.switch(th, plan.preempts[0])

    def op_end(self, th):
        sys.settrace(None)
        self.total_steps += th.n
        n = th.n
        th.plan = None
        th.next = 1 << 60
        return n

    def _gap(self, mean):
        if mean <= 1:
            return 1
        r = self.rng.random()
        import math
        return 1 + int(-math.log(1.0 - r) * mean)

    def _schedule_next(self, th, n):
        p = th.plan
        if th.pre_list is not None:
            nxt = 1 << 60
            for s in th.pre_list:
                if s > n:
                    nxt = s
                    break
            th.next_pre = nxt
        elif p.gap:
            gap = p.gap if len(self.switches) < MANY else max(p.gap, 1000)
            th.next_pre = n + (gap if p.fixed else self._gap(gap))
        else:
            th.next_pre = 1 << 60

    def _hook(self, th, frame):
        """reached th.next: observe, preempt or inject"""
        n = th.n
        if n >= th.plan.limit:
            if self.problem is None:
                self.problem = ('hang', [th.op_id, n])
            self.aborting = True
            for t in self.threads:
                if t is not th and t.state == 'blocked':
                    pass
            raise SimAbort()
        if n >= th.next_obs:
            th.next_obs = n + self._gap(th.plan.observe)
            if self.observer is not None:
                self.observer(th)
        if n >= th.next_pre:
            p = th.plan
            ok = True
            if th.pre_list is not None:
                tgt = p.preempts.get(n)
                self._schedule_next(th, n)
                if tgt is not None:
                    self._set_next(th)
                    self.switch(th, tgt)
            else:
                if p.filt is not None:
                    ok = frame is not None and frame.f_lasti >= 0 and \
                        frame.f_code.co_code[frame.f_lasti] in p.filt
                if ok:
                    cand = [t.tid for t in self.threads if t is not th and self._runnable(t)]
                    self._schedule_next(th, n)
                    if cand:
                        tgt = cand[int(self.rng.random() * len(cand))]
                        self._set_next(th)
                        self.switch(th, tgt)
                else:
                    th.next_pre = n + 1
        if n >= th.next_fault and frame is not None:
            kind = th.faults[0][0]
            off = frame.f_lasti
            okf = off >= 0 and off not in protected_offsets(frame.f_code)
            if okf and kind == 'mem':
                okf = frame.f_code.co_code[off] in ALLOC_OPS
            if okf and not self._in_cleanup(frame):
                th.faults.pop(0)
                th.next_fault = th.faults[0][1] if th.faults else 1 << 60
                self._set_next(th)
                self.faults_fired.append([th.op_id, kind, n])
                if kind == 'mem':
                    raise MemoryError('injected')
                raise KeyboardInterrupt('injected')
            th.next_fault = n + 1
        self._set_next(th)

    def _in_cleanup(self, frame):
        """is any library frame on the stack inside clean-up code?"""
        f = frame.f_back
        while f is not None:
            code = f.f_code
            if code.co_filename.startswith(LIB_DIR):
                if f.f_lineno in _lines_of_handlers(code.co_filename) or code.co_name in ('__exit__', '__del__'):
                    return True
            f = f.f_back
        return False

    def _set_next(self, th):
        th.next = min(th.next_pre, th.next_fault, th.next_obs, th.plan.limit)

    def tracer(self, th):
        """trace function of one simulated thread"""
        lib = LIB_DIR
        hook = self._hook
        entries = self.entries
        probe, lines = self.probe, set()

        def probing(frame, event, arg):
            if event == 'opcode':
                th.n += 1
                k = (frame.f_code, frame.f_lineno)
                if k not in lines:
                    lines.add(k)
                    probe(th.n)
            return probing

        def local(frame, event, arg):
            if event == 'opcode':
                th.n += 1
                if th.n >= th.next:
                    hook(th, frame)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(lib):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                if entries is not None:
                    c = frame.f_code
                    e = entries.setdefault((fn[len(lib):], c.co_firstlineno, c.co_name), [])
                    if len(e) < 6:
                        e.append(th.n)
                return local if probe is None else probing
            if th.plan is not None and not fn.startswith('<frozen') and not fn.startswith(HARNESS_DIR):
                th.n += 1
                if th.n >= th.next:
                    hook(th, None)
            return None
        return glob

    def call(self, th, op_id, plan, func):
        """run one library call under control; returns (kind, value, steps)"""
        self.op_begin(th, op_id, plan)
        if plan.trace:
            sys.settrace(self.tracer(th))
        try:
            val = func()
            sys.settrace(None)
            out = ('ok', val)
        except SimAbort:
            sys.settrace(None)
            raise
        except BaseException as e:
            sys.settrace(None)
            out = ('exc', e)
        if self.aborting:        # the unwinding exception can get lost inside extension modules
            self.op_end(th)
            raise SimAbort()
        n = self.op_end(th)
        return out[0], out[1], n

    def linalg_point(self, name):
        """called by the numpy.linalg seam"""
        th = self.by_ident.get(_real_ident())
        if th is None or th.plan is None:
            return False
        th.linalg_count += 1
        if self.sites is not None:
            f = sys._getframe(2)
            while f is not None and not f.f_code.co_filename.startswith(LIB_DIR):
                f = f.f_back
            if f is not None:
                e = self.sites.setdefault((f.f_code.co_filename[len(LIB_DIR):], f.f_lineno, name), [])
                if len(e) < 4:
                    e.append(th.linalg_count)
        if th.linalg is not None and th.linalg_count >= th.linalg:
            f = sys._getframe(2)
            while f is not None and not f.f_code.co_filename.startswith(LIB_DIR):
                f = f.f_back
            if f is not None and (f.f_lineno in _lines_of_handlers(f.f_code.co_filename) or self._in_cleanup(f)):
                return False
            th.linalg = None
            self.faults_fired.append([th.op_id, 'linalg:' + name, th.n])
            return True
        return False

    def stamp(self):
        self.seq += 1
        return self.seq
