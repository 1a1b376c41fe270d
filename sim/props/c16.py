"""C16: the library leaves the process environment as it found it."""
import os
import sys
import random
import tempfile

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work, ambient


def windows_child(item):
    """settings an operation changes while it runs: [(number of the event, names of the settings)]"""
    L, name, seed = item
    L = L() if callable(L) else L
    out = []
    try:
        c = catalog.build(name, seed, L)
    except Exception:
        return out
    sys.stderr = Sink()
    sim = kernel.Simulation()

    def body(th):
        start = ambient.light()

        def probe(n):
            if len(out) < 60:
                d = [k for k, v in ambient.light().items() if v != start[k]]
                if d:
                    out.append((n, d))
        sim.probe = probe
        sim.call(th, 0, kernel.OpPlan(), lambda: c.call(c.args))
    sim.add(body)
    sim.run()
    return out


class P(PoolProp):
    id = 'C16'
    quick_runs = 1500
    thorough_runs = 80000
    rule = ('1-3 simulated threads of an application with unusual interpreter-wide settings run calls that succeed, are '
            'rejected or are cut short by injected faults; the settings are compared after each call (thread-local '
            'ones) and at the end; non-trivial: at least one call; distinct by calls, faults and switches')
    pool_size = {'quick': 500, 'thorough': 2000}

    def prepare(self):
        PoolProp.prepare(self)
        # operations that set something for a while: setting -> [(operation, seed, events)]
        self.windows = {}
        items = [(n, s) for n, s, r in self.pool if r.steps < 60000]
        for it, (kind, val) in zip(items, work.pmap(windows_child, [(self.L,) + x for x in items])):
            if kind == 'ok':
                for k in sorted(set(k for _, d in val for k in d)):
                    self.windows.setdefault(k, []).append(it + ([n for n, d in val if k in d],))

    def overlap(self, rng):
        """two calls (or one and a fault) inside the part where something is set"""
        k = rng.choice(sorted(self.windows))
        a, b = rng.choice(self.windows[k]), rng.choice(self.windows[k])
        if rng.random() < 0.3:
            b = a
        na, nb = rng.choice(a[2]) + rng.choice([0, 0, 1, 5, 20]), rng.choice(b[2]) + rng.choice([0, 0, 1, 5, 20])
        spec = {'threads': [[{'id': 0, 'op': a[0], 'seed': a[1]}]], 'verbose': False, 'seed': rng.randrange(1 << 48),
                'usual': rng.random() < 0.2, 'switches': []}
        if rng.random() < 0.35:
            spec['threads'][0][0]['faults'] = [[rng.choice(['mem', 'kbd']), na]]
            return spec
        spec['threads'].append([{'id': 1, 'op': b[0], 'seed': b[1]}])
        spec['switches'] = [[0, na, 1]] + ([[1, nb, 0]] if rng.random() < 0.8 else [])
        return spec

    def spec(self, rng, i):
        if self.windows and i % 3 == 1:
            return self.overlap(rng)
        nt = rng.choice([1, 1, 2, 3])
        per = rng.choice([1, 2, 3]) if nt > 1 else rng.choice([1, 2, 4])
        twin = rng.random() < 0.35
        if twin:                             # the same operation in two threads, one shortly behind the other
            nt, per = 2, 1
            ops = work.twin_ops(rng, self.pool, i, 2)
        else:
            ops = self.pick_ops(rng, nt * per)
        ths, k = [], 0
        for t in range(nt):
            th = []
            for _ in range(per):
                n, s = ops[k]
                o = {'id': k, 'op': n, 'seed': s}
                if rng.random() < (0.1 if twin else 0.4):
                    r = self.refs[(n, s)]
                    kind = rng.choice(['mem', 'kbd', 'linalg'])
                    o['faults'] = [[kind, rng.randint(1, max(1, r.linalg if kind == 'linalg' else r.steps))]]
                th.append(o)
                k += 1
            ths.append(th)
        spec = {'threads': ths, 'verbose': rng.random() < 0.3, 'seed': rng.randrange(1 << 48),
                'usual': rng.random() < 0.2}
        if nt > 1:
            return (work.lag_sched if twin else work.apply_sched)(spec, rng, self.steps_of)
        spec['switches'] = []
        return spec

    def execute(self, spec):
        L = self.L
        viol = []
        cases = {}
        cx = catalog.Context(True)
        for t in spec['threads']:
            for o in t:
                cases[o['id']] = catalog.build(o['op'], o['seed'], L, cx)
        if spec['verbose']:
            L.Properties.set_is_verbose(True)
        conf = canon.canon(L.Properties.get_prop_dict(), L)
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        sys.stderr = Sink()
        if not spec['usual']:
            ambient.setup(random.Random(str(spec['seed'])), '/usr')
        else:
            import logging
            logging.getLogger('application.part')
        before = ambient.state()

        def body_of(k, ops):
            def body(th):
                if not spec['usual']:
                    ambient.thread_setup(k)
                local = ambient.thread_state()
                for o in ops:
                    c = cases[o['id']]
                    p = work.plan_for(spec, o, sw)
                    p.trace = bool(p.faults) or len(spec['threads']) > 1
                    kind, val, n = sim.call(th, o['id'], p, lambda: c.call(c.args))
                    for d in ambient.diff(local, ambient.thread_state()):
                        viol.append({'class': 'thread', 'msg': 'after %s(seed %s) %s: %s' % (
                            o['op'], o['seed'], 'returned' if kind == 'ok' else 'raised ' + type(val).__name__, d)})
            return body
        for k, t in enumerate(spec['threads']):
            sim.add(body_of(k, t))
        sim.run()
        viol += work.problem_viol(sim)
        what = ', '.join('%s(%s)' % (o['op'], o['seed']) for t in spec['threads'] for o in t)
        for d in ambient.diff(before, ambient.state()):
            viol.append({'class': 'process:' + d.split(':')[0], 'msg': 'after %s, faults %s: %s' % (
                what, sim.faults_fired, d)})
        now = canon.canon(L.Properties.get_prop_dict(), L)
        if not canon.same(now, conf):
            viol.append({'class': 'config', 'msg': 'configuration after %s: %s' % (what, canon.brief(now, 700))})
        h = catalog.hash_key((what, sim.faults_fired, sim.switch_hash))
        st = work.sim_stats(sim, spec, {'ops': sum(len(t) for t in spec['threads']), 'settings_compared': len(before),
                                        'histories': [h]})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
