"""C05: diagnostics never change the outcome of a computation."""
import sys
import io
import errno
import random

from .c04 import P as C04, Stream, split_lines, masked, REG_OPS
from .base import PoolProp
from .. import kernel, catalog, canon, work
from ..engine import rng_of

KINDS = ['eio', 'enospc', 'closed', 'pipe', 'short', 'flush', 'slow', 'encode', 'none', 'eagain', 'bare']


class Faulty(Stream):
    """standard error stream whose n-th event (write or flush) fails as planned"""

    def __init__(self, box, name, plan):
        Stream.__init__(self, box, name)
        self.plan = plan
        self.n = 0
        self.hits = {}

    def fault(self, flushing):
        self.n += 1
        for f in self.plan:
            if f['from'] <= self.n < f['to'] and (f['kind'] != 'flush' or flushing):
                self.hits[f['kind']] = self.hits.get(f['kind'], 0) + 1
                return f['kind']
        return None

    def fail(self, k):
        if k == 'eio' or k == 'flush':
            raise OSError(errno.EIO, 'Input/output error')
        if k == 'enospc':
            raise OSError(errno.ENOSPC, 'No space left on device')
        if k == 'closed':
            raise ValueError('I/O operation on closed file.')
        if k == 'pipe':
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if k == 'eagain':
            raise BlockingIOError(errno.EAGAIN, 'write could not complete without blocking', 0)
        if k == 'encode':
            raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)')

    def write(self, text):
        k = self.fault(False)
        if k == 'short':
            Stream.write(self, text[:len(text) // 2])
            return len(text) // 2
        if k == 'slow':
            kernel.CLOCK.sleep(0.5)
        else:
            self.fail(k)
        return Stream.write(self, text)

    def flush(self):
        k = self.fault(True)
        if k == 'slow':
            kernel.CLOCK.sleep(0.5)
        elif k != 'short':
            self.fail(k)


class Bare(object):
    """a stream that can write and nothing else"""

    def __init__(self, s):
        self.write = s.write


class P(PoolProp):
    id = 'C05'
    quick_runs = 1200
    thorough_runs = 150000
    rule = ('1-3 simulated threads run operations with verbose mode on while the standard error stream fails at chosen '
            'writes and flushes (11 kinds of failure), is replaced in the middle of calls, and the clock jumps; results '
            'are compared with those of the same calls alone with verbose mode off; then the stream is healthy again '
            'and the lines of further calls are counted; non-trivial: a stream fault or clock jump was hit; distinct by '
            'operations, faults and switches')
    pool_size = {'quick': 130, 'thorough': 1200}

    prepare = C04.prepare
    texts_of = C04.texts_of

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] + [spec['after']] for o in t]

    def prepare_replay(self, spec):
        self.refs = {}
        self.add_refs(self.ops_of(spec))
        self.texts_of(sorted(self.refs))

    def one(self, rng, k):
        x = rng.random()
        while True:
            n, s, r = rng.choice(self.light if x < 0.72 else self.some if x < 0.75 else self.fill)
            if rng.random() < max(0.1, min(1.0, 6000.0 / (r.steps + 1))):
                return {'id': k, 'op': n, 'seed': s}

    def spec(self, rng, i):
        nt = rng.choice([1, 1, 2, 2, 3])
        ths, k = [], 0
        for t in range(nt):
            th = []
            for _ in range(rng.choice([1, 2, 3] if nt == 1 else [1, 1, 2])):
                th.append(self.one(rng, k))
                k += 1
            ths.append(th)
        after = []
        for _ in range(rng.choice([1, 2])):
            n, s, r = rng.choice(self.light)
            if rng.random() < 0.4:
                n, s = rng.choice([(o['op'], o['seed']) for t in ths for o in t])
            after.append({'id': k, 'op': n, 'seed': s})
            k += 1
        plan = []
        if rng.random() < 0.85:
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.choice([1, 1, 2, 3, rng.randint(1, 12), rng.randint(1, 40)])
                kind = rng.choice(KINDS)
                plan.append({'kind': kind, 'from': a, 'to': rng.choice([a + 1, a + 1, a + 2, a + 5, 1 << 30])})
        clock = []
        if rng.random() < 0.4:
            a = 0
            for _ in range(rng.choice([1, 2, 4])):
                a += rng.randint(1, 4)
                clock.append([a, rng.choice([-1e9, -3600.0, -1.5, 2.5, 86400.0, 3e8])])
        spec = {'threads': ths, 'after': after, 'stream': plan, 'clock': clock, 'lists': ['after', 'stream', 'clock'],
                'seed': rng.randrange(1 << 48)}
        if nt > 1:
            return work.apply_sched(spec, rng, self.steps_of)
        spec['switches'] = []
        return spec

    def execute(self, spec):
        L = self.L
        viol = []
        box = {'sim': None, 'log': []}
        whole = [f for f in spec['stream'] if f['kind'] in ('none', 'bare')]
        st = Faulty(box, 's', [f for f in spec['stream'] if f not in whole])
        healthy = Stream(box, 'healthy')
        sim = work.make_sim(spec)
        box['sim'] = sim
        sw = work.thread_switch_plan(spec)
        old = sys.stderr, sys.stdout
        sys.stdout = Stream(box, 'stdout')
        L.Properties.set_is_verbose(True)
        kernel.CLOCK.plan = [tuple(x) for x in spec['clock']] or None
        kernel.CLOCK.reads = 0
        jumps0 = kernel.CLOCK.jumps
        res = {}
        begun = [0]
        whole_hits = {}

        def set_stream():
            begun[0] += 1
            for f in whole:
                if f['from'] <= begun[0] < f['to']:
                    whole_hits[f['kind']] = whole_hits.get(f['kind'], 0) + 1
                    if f['kind'] == 'none':
                        sys.stderr = None
                    else:
                        sys.stderr = Bare(st)
                    return
            sys.stderr = st

        def body_of(ops):
            def body(th):
                for o in ops:
                    c = catalog.build(o['op'], o['seed'], L)
                    set_stream()
                    kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), lambda: c.call(c.args))
                    res[o['id']] = work.outcome(kind, val, L)
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        sys.stderr = st
        try:
            sim.run()
        finally:
            sys.stderr, sys.stdout = old
        box['sim'] = None
        kernel.CLOCK.plan = None
        viol += work.problem_viol(sim)
        hits = dict(st.hits)
        hits.update(whole_hits)
        if not viol:
            held = [l for l in sim.held if l._count]
            if held:
                viol.append({'class': 'locks', 'msg': '%d locks still held after the calls; stream faults %s' % (
                    len(held), hits)})
            for t in spec['threads']:
                for o in t:
                    ref = self.refs[(o['op'], o['seed'])].out
                    if not canon.same(res[o['id']], ref):
                        viol.append({'class': 'outcome', 'msg': '%s(seed %s) with verbose mode on gives %s; with verbose '
                                     'mode off %s; stream faults %s' % (o['op'], o['seed'], canon.brief(res[o['id']]),
                                                                        canon.brief(ref), hits)})
        if not viol:
            viol += self.recovered(spec, box, hits)
        hh = hash((repr(spec['threads']), repr(spec['stream']), repr(spec['clock']), sim.switch_hash)) & 0xFFFFFFFFFFFF
        s = work.sim_stats(sim, spec, {'ops': len(res) + len(spec['after']), 'stream_faults_hit': hits,
                                       'clock_jumps': kernel.CLOCK.jumps - jumps0,
                                       'histories': [hh] if hits or kernel.CLOCK.jumps > jumps0 else []})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': s}

    def recovered(self, spec, box, hits):
        """the stream works again: lines appear as in an undisturbed process"""
        L = self.L
        viol = []
        sim = kernel.Simulation()
        box['sim'] = sim
        healthy = Stream(box, 'healthy')
        out = {}

        def body(th):
            for o in spec['after']:
                c = catalog.build(o['op'], o['seed'], L)
                p = kernel.OpPlan()
                p.trace = False
                kind, val, n = sim.call(th, o['id'], p, lambda: c.call(c.args))
                out[o['id']] = work.outcome(kind, val, L)
        sim.add(body)
        old, sys.stderr = sys.stderr, healthy
        try:
            sim.run()
        finally:
            sys.stderr = old
        box['sim'] = None
        v = work.problem_viol(sim)
        if v:
            return v
        lines, rest = split_lines(healthy.parts)
        for o in spec['after']:
            key = (o['op'], o['seed'])
            ref = self.refs[key]
            if not canon.same(out[o['id']], ref.out):
                viol.append({'class': 'later', 'msg': '%s(seed %s) after the stream recovered gives %s, undisturbed %s' % (
                    o['op'], o['seed'], canon.brief(out[o['id']]), canon.brief(ref.out))})
                continue
            if ref.regs is None or ref.out[0] != 'returns':
                continue
            got = [x for ops, x in lines if o['id'] in ops]
            if len(got) < 2 * ref.regs:
                viol.append({'class': 'silent', 'msg': '%s(seed %s) after the stream recovered wrote %d lines instead of '
                             '%d; stream faults %s' % (o['op'], o['seed'], len(got), 2 * ref.regs, hits)})
            elif self.texts.get(key) is not None and not set(self.texts[key]) <= set(masked(got)):
                viol.append({'class': 'silent', 'msg': '%s(seed %s) after the stream recovered wrote %r instead of %r' % (
                    o['op'], o['seed'], got[:4], self.texts[key][:4])})
        return viol

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
