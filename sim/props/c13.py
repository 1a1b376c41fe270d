"""C13: user-supplied functions are called once per item, in order, transparently."""
import sys
import time
import random
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work
from ..engine import rng_of


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


ERRORS = {'custom': Custom, 'base': CustomBase, 'kbd': KeyboardInterrupt, 'mem': MemoryError, 'value': ValueError,
          'stop': StopIteration, 'linalg': np.linalg.LinAlgError, 'exit': SystemExit, 'type': TypeError,
          'index': IndexError, 'os': OSError, 'attr': AttributeError, 'zero': ZeroDivisionError}

OPERATIONS = ('from_func', 'from_scalar', 'eval_uniform', 'eval_keep', 'eval_list', 'shrink', 'compare', 'tolerance')


class Job(object):
    """one operation that takes a function: its arguments, what the function must be given, and the right result"""

    def __init__(self, kind, seed, L):
        self.kind = kind
        self.L = L
        r = catalog.Rng(seed, L, catalog.Context())
        g = L.gen.MatVector
        n = r.i(1, 3)
        self.items = None          # arguments expected, in order
        self.own = False           # may the function overwrite what it is given?
        if kind in ('from_func', 'from_scalar'):
            tv = np.array(sorted(r.f(0, 3) for _ in range(r.i(1, 5))))
            if r.p(0.2):
                tv = np.arange(1, r.i(2, 4)).astype(float)
            a0, a1 = r.raw(n, n), r.raw(n, n)
            odd = r.c(np.nan, np.inf, 0.) if r.p(0.25) else None
            if odd is not None:
                a0[0, 0] = odd
            self.args = [tv]
            if kind == 'from_func':
                self.f = lambda t: a0 + float(t) * a1
                self.want = np.stack([a0 + t * a1 for t in tv], axis=2)
            else:
                b0 = 1. if odd is None else odd
                self.f = lambda t: float(t) * float(t) + b0
                self.want = (tv * tv + b0).reshape((1, 1, -1))
            self.items = [np.array(t) for t in tv]
            self.run = lambda f: g.from_func(f, self.args[0])
        elif kind.startswith('eval'):
            d = r.mat(n, n, r.i(1, 5)) if r.p(0.8) else r.mat(n, n)
            if r.p(0.2):
                d.flat[0] = r.c(np.nan, np.inf, 0.)
            self.args = [d]
            sl = [d] if d.ndim == 2 else [d[:, :, i] for i in range(d.shape[2])]
            self.items = [x.copy() for x in sl]
            self.own = True
            if kind == 'eval_uniform':
                self.f = lambda z: float(np.sum(z * z))
                self.want = np.array([float(np.sum(x * x)) for x in self.items])
                self.run = lambda f: g.eval_func(f, self.args[0])
            elif kind == 'eval_keep':
                self.f = lambda z: 2. * z + 1.
                self.want = 2. * (d if d.ndim == 3 else d[:, :, None]) + 1.
                self.run = lambda f: g.eval_func(f, self.args[0], keep_size=True)
            else:
                self.f = lambda z: z.T + 1.
                self.want = [x.T + 1. for x in self.items]
                self.run = lambda f: g.eval_func(f, self.args[0], uniform_output=False)
        elif kind == 'shrink':
            k = r.i(2, 3)
            fm = np.array(catalog.TRI_F[:k])
            vm = np.array(catalog.TRI_V, dtype=float)[:k + 2] * (1 + 0.1 * r.i(0, 3))
            ln, st = r.c(0.3, 0.5, 0.9, 1.2, 5.), r.i(1, 3)
            self.args = [vm, fm]
            c = r.f(1.001, 1.02)
            self.f = lambda z: z * c
            self.run = lambda f: L.tri.shrink_face_tri(self.args[0], self.args[1], ln, st, f, True)
            self.own = True
            plain = []

            def rec(z):
                plain.append(np.copy(z))
                return self.f(z)
            self.want = self.run(rec)
            self.items = plain
        elif kind == 'compare':
            a = r.raw(n, n)
            b = a + r.c(0., 1e-9, 1e-2, 1.)
            if r.p(0.2):
                a[0, 0] = b[0, 0] = np.inf
            rel = r.c(None, 1e-3, 10.)
            self.args = [a, b]
            self.f = lambda z: np.abs(z)
            self.own = True
            self.run = lambda f: L.common.abs_rel_compare(self.args[0], self.args[1], 1e-6, rel, f)
            fa, fb = np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0)
            self.items = [fa - fb]
            if rel is not None and np.any(np.abs(fa - fb) > 1e-6):
                self.items += [fa, fb]
            self.want = self.run(self.f)
        else:
            es = list(r.ells(n, r.i(1, 4)))
            self.args = [es]
            nm = r.c('get_abs_tol', 'get_rel_tol')
            self.f = lambda z: float(np.max(z)) + 1.
            self.own = True
            self.run = lambda f: getattr(L.Ellipsoid, nm)(self.args[0], f)
            self.items = [np.ravel(getattr(L.Ellipsoid, nm)(es, None))]
            self.want = self.run(self.f)
        self.want = canon.canon(self.want, L)


class P(PoolProp):
    id = 'C13'
    quick_runs = 3000
    thorough_runs = 150000
    rule = ('1-3 simulated threads run operations that take a function; the function may fail at a chosen call, run other '
            'operations (the same one included), sleep in simulated time, keep or overwrite what it is given; calls, '
            'their order, the exception and the result are compared with an oracle; distinct by jobs and switches')
    pool_size = {'quick': 120, 'thorough': 500}

    def prepare(self):
        PoolProp.prepare(self)
        self.light = [p for p in self.pool if p[2].steps < 4000]

    def spec(self, rng, i):
        nt = rng.choice([1, 1, 2, 3])
        ths, k = [], 0
        same = rng.random() < 0.3
        kind0 = rng.choice(OPERATIONS)
        for t in range(nt):
            th = []
            for _ in range(rng.choice([1, 2])):
                o = {'id': k, 'kind': kind0 if same else rng.choice(OPERATIONS), 'seed': rng.randrange(100000),
                     'fail': None, 'acts': {}}
                if rng.random() < 0.4:
                    o['fail'] = [rng.choice(sorted(ERRORS)), rng.choice([0, 0, 1, 2])]
                for c in range(4):
                    x = rng.random()
                    if x < 0.15:
                        p = rng.choice(self.light)
                        o['acts'][str(c)] = ['call', p[0], p[1]]
                    elif x < 0.25:
                        o['acts'][str(c)] = ['same', o['seed'] if rng.random() < 0.5 else rng.randrange(100000)]
                    elif x < 0.4:
                        o['acts'][str(c)] = ['sleep', rng.choice([0.0, 0.5, 3.0])]
                o['late'] = rng.random() < 0.5         # the function computes after it has done something else
                o['write'] = rng.choice(['no', 'during', 'during', 'later'])
                th.append(o)
                k += 1
            ths.append(th)
        spec = {'threads': ths, 'seed': rng.randrange(1 << 48)}
        if nt > 1:
            return work.apply_sched(spec, rng, lambda o: 300)
        spec['switches'] = []
        return spec

    def ops_of(self, spec):
        return [(a[1], a[2]) for t in spec['threads'] for o in t for a in o['acts'].values() if a[0] == 'call']

    def simplify(self, spec):
        out = []
        for ti, th in enumerate(spec['threads']):
            for oi, o in enumerate(th):
                for ch in [dict(o, acts={k: v for k, v in o['acts'].items() if k != a}) for a in o['acts']] + \
                        ([dict(o, fail=None)] if o['fail'] else []) + \
                        ([dict(o, write='no')] if o['write'] != 'no' else []):
                    ths = [list(t) for t in spec['threads']]
                    ths[ti][oi] = ch
                    out.append(dict(spec, threads=ths))
        return out

    def execute(self, spec):
        L = self.L
        viol = []
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        jobs = {o['id']: Job(o['kind'], o['seed'], L) for t in spec['threads'] for o in t}
        inner = {}
        for t in spec['threads']:
            for o in t:
                for c, a in o['acts'].items():
                    if a[0] == 'call':
                        inner[(o['id'], c)] = catalog.build(a[1], a[2], L)
                    elif a[0] == 'same':
                        inner[(o['id'], c)] = Job(o['kind'], a[1], L)
        snaps = {i: canon.snapshot(j.args, L) for i, j in jobs.items()}
        cnt = {'callbacks': 0, 'failures': 0, 'nested': 0}

        def body_of(ops):
            def body(th):
                for o in ops:
                    j = jobs[o['id']]
                    log, kept = [], []
                    err = [None]

                    def f(z):
                        c = len(log)
                        cnt['callbacks'] += 1
                        log.append(np.array(z, copy=True))
                        if o['fail'] and o['fail'][1] == c:
                            err[0] = ERRORS[o['fail'][0]]('from the function', c)
                            cnt['failures'] += 1
                            raise err[0]
                        if not o.get('late'):
                            out = j.f(np.array(z, copy=True) if isinstance(z, np.ndarray) else z)
                        a = o['acts'].get(str(c))
                        if a is not None:
                            self.act(o, c, a, inner, viol, cnt)
                            if isinstance(z, np.ndarray) and not np.array_equal(z, log[c], equal_nan=True) and \
                                    not (o['write'] == 'later' and kept):
                                viol.append({'class': 'given', 'msg': '%s(seed %s): while the function runs, at call %d, '
                                             'what it was given changes from %s to %s' % (
                                                 o['kind'], o['seed'], c, canon.brief(log[c]), canon.brief(z))})
                        if o.get('late'):
                            out = j.f(np.array(z, copy=True) if isinstance(z, np.ndarray) else z)
                        if isinstance(z, np.ndarray) and z.ndim and z.flags.writeable and j.own:
                            if o['write'] == 'during':
                                z[...] = -99.
                            elif o['write'] == 'later':
                                for y in kept:
                                    y[...] = 77.
                                kept.append(z)
                        return out
                    kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), lambda: j.run(f))
                    for y in kept:
                        y[...] = 55.
                    what = '%s(seed %s) with a function that %s, %s' % (
                        o['kind'], o['seed'], 'raises %s at call %d' % tuple(o['fail']) if o['fail'] else 'never fails',
                        'overwrites what it is given' if o['write'] != 'no' else 'leaves what it is given')
                    if err[0] is not None:
                        want = j.items[:len(log)]
                        if kind != 'exc' or val is not err[0] or val.args != ('from the function', len(log) - 1):
                            viol.append({'class': 'failure', 'msg': '%s: the caller gets %r instead of the exception '
                                         'raised by the function' % (what, val)})
                        if len(log) != o['fail'][1] + 1:
                            viol.append({'class': 'calls', 'msg': '%s: called %d times, failing at call %d' % (
                                what, len(log), o['fail'][1])})
                    else:
                        want = j.items
                        out = work.outcome(kind, val, L)
                        if not canon.same(out, ('returns', j.want)):
                            viol.append({'class': 'result', 'msg': '%s gives %s, expected %s' % (
                                what, canon.brief(out), canon.brief(j.want))})
                    if len(log) != len(want):
                        viol.append({'class': 'calls', 'msg': '%s: the function was called %d times for %d items' % (
                            what, len(log), len(want))})
                    else:
                        for x, y in zip(log, want):
                            if x.shape != np.shape(y) or not np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
                                viol.append({'class': 'items', 'msg': '%s: the function was given %s where %s was due' % (
                                    what, canon.brief(x, 120), canon.brief(y, 120))})
                                break
                    if canon.snapshot(j.args, L) != snaps[o['id']]:
                        viol.append({'class': 'data', 'msg': '%s: the data of the caller are changed' % what})
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        old, sys.stderr = sys.stderr, Sink()
        sim.run()
        viol += work.problem_viol(sim)
        for i, j in jobs.items():
            if canon.snapshot(j.args, L) != snaps[i]:
                viol.append({'class': 'data', 'msg': 'the data of the caller of operation %d are changed' % i})
        st = work.sim_stats(sim, spec, {'ops': len(jobs), 'callbacks': cnt['callbacks'],
                                        'callback_failures': cnt['failures'], 'nested_calls': cnt['nested'],
                                        'histories': [catalog.hash_key((repr(spec['threads']), sim.switch_hash))]})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def act(self, o, c, a, inner, viol, cnt):
        L = self.L
        if a[0] == 'sleep':
            time.sleep(a[1])
            return
        cnt['nested'] += 1
        x = inner[(o['id'], str(c))]
        try:
            if a[0] == 'call':
                out, ref = work.outcome('ok', x.call(x.args), L), self.refs[(a[1], a[2])].out
            else:
                log = []

                def g(z):
                    log.append(1)
                    return x.f(z)
                out, ref = work.outcome('ok', x.run(g), L), ('returns', x.want)
                if len(log) != len(x.items):
                    viol.append({'class': 'calls', 'msg': 'a nested %s called its function %d times for %d items' % (
                        o['kind'], len(log), len(x.items))})
        except kernel.SimAbort:
            raise
        except Exception as e:
            out, ref = work.outcome('exc', e, L), self.refs[(a[1], a[2])].out if a[0] == 'call' else None
        if ref is None or not canon.same(out, ref):
            viol.append({'class': 'nested', 'msg': 'the operation %s run by the function gives %s, alone %s' % (
                a[1:], canon.brief(out), canon.brief(ref))})

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
