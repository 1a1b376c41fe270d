"""Processes: one fork per simulated run, parallel exploration, minimisation, replay."""
import os
import sys
import gc
import json
import time
import pickle
import random
import select
import signal
import struct
import traceback

from . import kernel

NPROC = int(os.environ.get('VERIF_JOBS') or 0) or max(2, min(8, os.cpu_count() or 2))
RUN_LIMIT = float(os.environ.get('VERIF_RUN_LIMIT') or 150.0)
now = kernel._real_monotonic


class HarnessError(Exception):
    pass


def rng_of(*key):
    return random.Random('/'.join(str(k) for k in key))


def _write_all(fd, data):
    view = memoryview(data)
    while len(view):
        view = view[os.write(fd, view):]


def in_child(func, arg, limit=None):
    """func(arg) in a fork of this process: ('ok', value) | ('error', text) | ('stuck', None) | ('died', status)

    The C layer of the interpreter has faults that kill a process at certain states of its memory (seen: the first call
    of numpy.tri, by this harness, in a thread).  A death by a signal is therefore repeated with other fillings of the
    young generation and with full collections; what the library does is the same every time."""
    for k in range(6):
        out = _in_child(func, arg, limit, k)
        if out[0] != 'died' or out[1] & 127 == 0:
            break
    return out


def _in_child(func, arg, limit, shift):
    limit = limit or RUN_LIMIT
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if shift < 3:
                gc.disable()
            if shift:
                gc.collect()
                junk = [bytes(1000 + j % 7) for j in range(131 * shift)]
                del junk
            if os.environ.get('VERIF_DUMP'):
                import faulthandler
                faulthandler.dump_traceback_later(float(os.environ['VERIF_DUMP']), exit=True)
            try:
                out = ('ok', func(arg))
            except BaseException:
                out = ('error', traceback.format_exc())
            try:
                data = pickle.dumps(out, 4)
            except BaseException:
                data = pickle.dumps(('error', 'unpicklable: ' + traceback.format_exc()), 4)
            _write_all(w, data)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = now() + limit
    out = None
    while True:
        left = end - now()
        if left <= 0:
            out = ('stuck', None)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    if out is not None:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if out is None:
        if chunks and st == 0:
            out = pickle.loads(b''.join(chunks))
        else:
            out = ('died', st)
    return out


class Workers(object):
    """n worker processes, each doing items handed out round-robin; results arrive as (index, outcome)"""

    def __init__(self, func, items, n=None, limit=None):
        self.n = min(n or NPROC, max(1, len(items)))
        self.pids = []
        self.fds = {}
        sys.stdout.flush()
        for k in range(self.n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for fd in self.fds:
                        os.close(fd)
                    os.setpgid(0, 0)
                    boss = os.getppid()
                    for i in range(k, len(items), self.n):
                        if os.getppid() != boss:
                            break
                        out = in_child(func, items[i], limit)
                        data = pickle.dumps((i, out), 4)
                        _write_all(w, struct.pack('<Q', len(data)) + data)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            self.pids.append(pid)
            self.fds[r] = b''

    def __iter__(self):
        while self.fds:
            rd, _, _ = select.select(list(self.fds), [], [])
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    del self.fds[fd]
                    continue
                buf = self.fds[fd] + b
                while len(buf) >= 8:
                    (ln,) = struct.unpack('<Q', buf[:8])
                    if len(buf) < 8 + ln:
                        break
                    yield pickle.loads(buf[8:8 + ln])
                    buf = buf[8 + ln:]
                self.fds[fd] = buf

    def close(self):
        for pid in self.pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        for fd in list(self.fds):
            os.close(fd)
        self.fds = {}
        for pid in self.pids:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


def pmap(func, items, n=None, limit=None):
    out = [None] * len(items)
    w = Workers(func, items, n, limit)
    for i, o in w:
        out[i] = o
    w.close()
    return out


# ---------------------------------------------------------------- one run

def run_spec(prop, spec):
    """outcome of one specification in a fresh child: dict with 'viol', 'stats', ..."""
    return normalise(in_child(prop.execute, spec), spec)


def normalise(o, spec):
    kind, val = o
    if kind == 'ok':
        return val
    if kind == 'stuck':
        return {'viol': [{'class': 'stuck', 'msg': 'the run did not end within %g s of real time although every lock '
                          'and sleep is simulated: some call never returns' % RUN_LIMIT}], 'spec': spec, 'stats': {}}
    if kind == 'died':
        return {'viol': [{'class': 'died', 'msg': 'the process running the library died with status %s' % val}],
                'spec': spec, 'stats': {}}
    return {'error': val, 'spec': spec, 'stats': {}, 'viol': []}


def explore(prop, specs, stats, budget, log):
    """run all the specifications; returns (list of violating results in order of index, complete?)"""
    t0 = now()
    found = []
    errors = []
    w = Workers(prop.execute, specs)
    done = 0
    complete = True
    grace = None
    for i, o in w:
        res = normalise(o, specs[i])
        done += 1
        stats.add(res.get('stats') or {})
        if 'error' in res:
            errors.append((i, res['error']))
            if len(errors) > 20:
                break
        fresh = [v for v in res['viol'] if not prop.known(v)]
        for v in res['viol']:
            if prop.known(v):
                stats.known_hit(v)
        if fresh:
            res = dict(res, viol=fresh)
            found.append((i, res))
            if grace is None:
                grace = now() + 1.0
        if grace is not None and now() > grace:
            complete = False
            break
        if now() - t0 > budget:
            complete = done == len(specs)
            break
    w.close()
    if done < len(specs):
        complete = False
    found.sort(key=lambda t: t[0])
    return found, errors, complete, done


def classes(res, prop=None):
    return set(v['class'] for v in res.get('viol', ()) if prop is None or not prop.known(v))


# ---------------------------------------------------------------- minimising

def atoms_of(spec):
    out = []
    for ti, th in enumerate(spec.get('threads') or ()):
        for o in th:
            out.append(('op', o['id']))
            for k in range(len(o.get('faults') or ())):
                out.append(('fault', o['id'], k))
    for k in range(len(spec.get('switches') or ())):
        out.append(('sw', k))
    for key in spec.get('lists') or ():
        for k in range(len(spec[key])):
            out.append(('list', key, k))
    return out


def without(spec, drop):
    s = dict(spec)
    if s.get('threads') is not None:
        ths = []
        for th in s['threads']:
            nt = []
            for o in th:
                if ('op', o['id']) in drop:
                    continue
                if o.get('faults'):
                    o = dict(o, faults=[f for k, f in enumerate(o['faults']) if ('fault', o['id'], k) not in drop])
                nt.append(o)
            ths.append(nt)
        s['threads'] = ths
        ids = set(o['id'] for t in ths for o in t)
        if s.get('switches') is not None:
            s['switches'] = [x for k, x in enumerate(s['switches']) if ('sw', k) not in drop and x[0] in ids]
    for key in s.get('lists') or ():
        s[key] = [x for k, x in enumerate(s[key]) if ('list', key, k) not in drop]
    return s


def minimise(prop, spec, want, budget=45.0, log=None):
    """greedy delta debugging over operations, faults and switches, candidates tried in parallel"""
    end = now() + budget
    best = spec
    tried = 0
    half = now() + budget / 2

    def first_hit(cands):
        n, hit = 0, None
        w = Workers(prop.execute, cands, limit=40.0)
        for i, o in w:
            n += 1
            if want & classes(normalise(o, cands[i]), prop):
                hit = cands[i]
                break
            if now() > end:
                break
        w.close()
        return n, hit
    # whole operations first: switches are many, and most of them go with the operations
    while now() < half:
        atoms = atoms_of(best)
        sws = set(a for a in atoms if a[0] == 'sw')
        cands = [without(best, sws)] if sws else []
        cands += [without(best, {a}) for a in atoms if a[0] != 'sw'] + list(prop.simplify(best))
        cands = [c for c in cands if prop.viable(c)]
        if not cands:
            break
        n, hit = first_hit(cands)
        tried += n
        if hit is None:
            break
        best = hit
    size = max(1, len(atoms_of(best)) // 2)
    while now() < end:
        atoms = atoms_of(best)
        size = min(size, max(1, len(atoms)))
        groups = [atoms[i:i + size] for i in range(0, len(atoms), size)]
        cands = [without(best, set(g)) for g in groups]
        cands = [c for c in cands if prop.viable(c)]
        hit = None
        if cands:
            n, hit = first_hit(cands)
            tried += n
        if hit is not None:
            best = hit
            continue
        if size == 1:
            more = [c for c in prop.simplify(best) if prop.viable(c)]
            hit = None
            if more and now() < end:
                n, hit = first_hit(more)
                tried += n
            if hit is None:
                break
            best = hit
            continue
        size = max(1, size // 2)
    return best, tried


class Stats(object):
    def __init__(self):
        self.n = {}
        self.sets = {}
        self.maxs = {}
        self.known = {}

    def add(self, d):
        for k, v in d.items():
            if k.startswith('max_'):
                self.maxs[k] = max(self.maxs.get(k, 0), v)
            elif isinstance(v, dict):
                t = self.n.setdefault(k, {})
                for a, b in v.items():
                    t[a] = t.get(a, 0) + b
            elif isinstance(v, (list, set, tuple)):
                s = self.sets.setdefault(k, set())
                if len(s) < 2000000:
                    s.update(v)
            else:
                self.n[k] = self.n.get(k, 0) + v

    def known_hit(self, v):
        self.known[v['known']] = self.known.get(v['known'], 0) + 1

    def out(self):
        d = {}
        for k, v in self.n.items():
            d[k] = {a: v[a] for a in sorted(v)} if isinstance(v, dict) else v
        d.update(self.maxs)
        for k, v in self.sets.items():
            d[k] = len(v)
        return d
