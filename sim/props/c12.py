"""C12: rejections name their origin even when sources are unreadable."""
import sys
import os
import random
import linecache
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work, diskseam
from ..engine import rng_of

MESSAGES = ['bad.value', 'x : y', "{'a': 1} is not {b} or {0} or {}", '100% of %s and %(x)d', 'two\nlines\t', '',
            ' spaces ', '\u0436\xdf\u4e2d\x00', 'long ' * 60, '\\n \\1 $x ${y}', '!r {!r} {0:>9}']


def places(val):
    """names of the frames a rejection passed through"""
    out = []
    tb = val.__traceback__
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_filename.startswith(kernel.LIB_DIR):
            nm = [f.f_globals.get('__name__') or '']
            if 'self' in f.f_locals:
                nm.append(type(f.f_locals['self']).__name__)
            nm.append('' if f.f_code.co_name == '<module>' else f.f_code.co_name)
            out.append('.'.join(nm).replace('.', ':').upper())
        tb = tb.tb_next
    return out


class P(PoolProp):
    id = 'C12'
    quick_runs = 1500
    thorough_runs = 80000
    rule = ('1-3 simulated threads make rejected calls of the library and call the reporting function from 2x27 places of '
            'known name, with files of the library and of the callers missing, unreadable, truncated or undecodable from '
            'a chosen moment on; texts are compared with the predicted ones; distinct by calls, disk faults and switches')
    groups = ('bad',)
    pool_size = {'quick': 200, 'thorough': 900}

    def prepare(self):
        PoolProp.prepare(self)
        self.pool = [p for p in self.pool if p[2].out[0] == 'raises']

    def spec(self, rng, i):
        from ..fix.vm_a import mod
        nt = rng.choice([1, 1, 2, 2, 3])
        ths, k = [], 0
        for t in range(nt):
            th = []
            for _ in range(rng.choice([1, 2, 4])):
                if rng.random() < 0.5:
                    o = {'id': k, 'place': [rng.choice('ab'), rng.choice(mod.WHAT), rng.choice(['wrongInput:t%d', 'wrong{%d}', 'wrong%%:%d.x']) % rng.randrange(99),
                                            rng.choice(MESSAGES + ['Message %d' % k])]}
                else:
                    n, s, r = rng.choice(self.pool)
                    o = {'id': k, 'op': n, 'seed': s}
                o['depth'] = rng.choice([0, 0, 0, 5, 40])
                th.append(o)
                k += 1
            ths.append(th)
        spec = {'threads': ths, 'seed': rng.randrange(1 << 48), 'disk': [], 'lists': ['disk'],
                'forget': rng.random() < 0.6}
        if rng.random() < 0.75:
            for _ in range(rng.choice([1, 1, 2])):
                spec['disk'].append({'kind': rng.choice(diskseam.KINDS), 'from': rng.randrange(k),
                                     'share': rng.choice([1.0, 1.0, 0.3]),
                                     'which': rng.choice(['all', 'all', 'library', 'callers'])})
        if nt > 1:
            return work.apply_sched(spec, rng, lambda o: 300)
        spec['switches'] = []
        return spec

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] for o in t if 'op' in o]

    def execute(self, spec):
        L = self.L
        viol = []
        from ..fix.vm_a import mod as ma
        from ..fix.vm_b import mod as mb
        fix = os.path.dirname(os.path.dirname(os.path.abspath(ma.__file__))) + os.sep
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        diskseam.install([kernel.LIB_DIR, fix])
        started = [0]
        r = random.Random(str(spec['seed']) + 'disk')

        def plan(path, op):
            for d in spec['disk']:
                if started[0] < d['from']:
                    continue
                if d['which'] == 'library' and not path.startswith(kernel.LIB_DIR):
                    continue
                if d['which'] == 'callers' and not path.startswith(fix):
                    continue
                if d['share'] < 1.0 and r.random() > d['share']:
                    continue
                return d['kind']
            return None
        for k in kernel._protected_lines, kernel._protected_offs:
            pass
        if spec['forget']:
            linecache.clearcache()
        res = {}

        def rec(n, f):
            return f() if n <= 0 else rec(n - 1, f)

        def body_of(ops):
            def body(th):
                for o in ops:
                    if 'place' in o:
                        w = o['place']
                        f, want = (ma if w[0] == 'a' else mb).run(*w[1:])
                        ref = ('raises', 'ValueError', want)
                        strict = ()
                    else:
                        c = catalog.build(o['op'], o['seed'], L)
                        strict = c.tags

                        def f(c=c):
                            return c.call(c.args)
                        ref = self.refs[(o['op'], o['seed'])].out
                    p = work.plan_for(spec, o, sw)
                    started[0] += 1
                    kind, val, n = sim.call(th, o['id'], p, lambda: rec(o['depth'], f))
                    out = work.outcome(kind, val, L)
                    what = o.get('place') or '%s(seed %s)' % (o['op'], o['seed'])
                    if not canon.same(out, ref):
                        viol.append({'class': 'text', 'msg': '%s gives %s, expected %s; disk faults %s' % (
                            what, canon.brief(out, 500), canon.brief(ref, 500), diskseam.HITS)})
                    elif kind == 'exc' and 'op' in o:
                        chain = []
                        tb = val.__traceback__
                        while tb is not None:
                            chain.append(tb.tb_frame.f_code.co_name)
                            tb = tb.tb_next
                        if 'throw_error' in chain or 'rejects' in strict:
                            names = places(val)
                            if not isinstance(val, ValueError) or not any(str(val).startswith(x + ':') for x in names):
                                viol.append({'class': 'place', 'msg': '%s is rejected with %r, but passed only through '
                                             '%s' % (what, val, names)})
                    res[o['id']] = out
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        old, sys.stderr = sys.stderr, Sink()
        diskseam.PLAN = plan
        sim.run()
        diskseam.PLAN = None
        viol += work.problem_viol(sim)
        h = catalog.hash_key((repr(spec['threads']), repr(spec['disk']), sim.switch_hash))
        st = work.sim_stats(sim, spec, {'ops': len(res), 'disk_faults_hit': dict(diskseam.HITS), 'histories': [h]})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
