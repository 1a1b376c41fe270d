"""C06: concurrent calls do not interfere, and every call completes."""
import sys
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work
from ..engine import pmap, HarnessError


def mirrored(args, L):
    """the same ellipsoids and hyperplanes in the opposite order; None when there is nothing to exchange"""
    objs = []

    def obj(v):
        return isinstance(v, (L.Ellipsoid, L.Hyperplane))

    def walk(v, f):
        if obj(v):
            return f(v)
        if isinstance(v, np.ndarray) and v.dtype.kind == 'O':
            w = np.empty(v.size, dtype=object)
            for i, x in enumerate(v.ravel()):
                w[i] = walk(x, f)
            return w.reshape(v.shape)
        if isinstance(v, (list, tuple)):
            return type(v)(walk(x, f) for x in v)
        return v
    walk(args, objs.append)
    if len(set(id(x) for x in objs)) < 2 or len(set(type(x) for x in objs)) > 1:
        return None
    objs.reverse()
    it = iter(objs)
    return walk(args, lambda v: next(it))


def mirror_child(item):
    L, name, seed = item
    c = catalog.build(name, seed, L)
    args = mirrored(c.args, L)
    if args is None:
        return None
    try:
        return work.outcome('ok', c.call(args), L)
    except Exception as e:
        return work.outcome('exc', e, L)


class P(PoolProp):
    id = 'C06'
    quick_runs = 1500
    thorough_runs = 60000
    rule = ('2-4 simulated threads with 1-3 library calls each from a generated pool, on distinct or shared arguments; '
            'every bytecode of the library and every call it makes is a possible switch; a case is non-trivial when '
            'at least one switch happened inside a call, and distinct by the hash of its switches')

    def prepare(self):
        PoolProp.prepare(self)
        self.meetings = work.meetings(self.pool)
        self.mirrors, cand, n = [], [], {}
        self.mrefs = {}
        for name, s, r in self.pool:
            n[name] = n.get(name, 0) + 1
            if n[name] <= 6 and r.steps < 20000:
                cand.append((name, s))
        self.add_mirrors(cand)
        self.mirrors = [c for c in cand if c in self.mrefs]

    def add_mirrors(self, cand):
        for c, (kind, val) in zip(cand, pmap(mirror_child, [(self.L,) + tuple(c) for c in cand])):
            if kind != 'ok':
                raise HarnessError('mirrored %s: %s %s' % (c, kind, val))
            if val is not None:
                self.mrefs[c] = val

    def prepare_replay(self, spec):
        PoolProp.prepare_replay(self, spec)
        self.mrefs = {}
        self.add_mirrors(list(dict.fromkeys((o['op'], o['seed']) for t in spec['threads'] for o in t
                                            if o.get('mirror'))))

    def spec(self, rng, i):
        if i % 5 in (1, 3):     # each function of the library, in turn, with two calls inside
            ops, sw = work.meet(rng, self.meetings, i * 2 // 5)
            return {'threads': [[{'id': j, 'op': o[0], 'seed': o[1], 'late': False}] for j, o in enumerate(ops)],
                    'shared': rng.random() < 0.3, 'verbose': False, 'seed': rng.randrange(1 << 48), 'switches': sw,
                    'sched': None}
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        per = rng.choice([1, 1, 2, 3])
        ops = self.pick_ops(rng, nt * per)
        twin = rng.random() < 0.2
        if twin:                             # the same operation in two threads, one shortly behind the other
            nt, per = 2, 1
            ops = work.twin_ops(rng, self.pool, i, 2)
        elif rng.random() < 0.35:            # the same call in several threads
            same = ops[0]
            ops = [same if rng.random() < 0.7 else x for x in ops]
        mirror = False
        if twin and self.mirrors and rng.random() < 0.6:
            ops = [self.mirrors[i % len(self.mirrors)]] * 2
            mirror = True
        threads = []
        k = 0
        late = rng.random() < 0.3
        for t in range(nt):
            th = []
            for _ in range(per):
                th.append({'id': k, 'op': ops[k][0], 'seed': ops[k][1], 'late': bool(late and rng.random() < 0.7)})
                k += 1
            threads.append(th)
        if mirror:
            threads[0][0]['late'] = threads[1][0]['late'] = False
            threads[1][0]['mirror'] = True
        spec = {'threads': threads, 'shared': rng.random() < 0.7 and not mirror, 'verbose': rng.random() < 0.2,
                'seed': rng.randrange(1 << 48)}
        if any(n == 'conf_read' for n, _ in ops):
            spec['verbose'] = False
        return (work.lag_sched if twin else work.apply_sched)(spec, rng, self.steps_of)

    def paired(self, spec):
        a = spec['threads'][0][:1]
        return bool(a) and (a[0]['op'], a[0]['seed']) == (spec['threads'][-1][0]['op'], spec['threads'][-1][0]['seed'])

    def execute(self, spec):
        L = self.L
        cx = catalog.Context(spec['shared'])
        viol = []
        cases = {}
        if spec['verbose']:
            L.Properties.set_is_verbose(True)
        old = sys.stderr
        for th in spec['threads']:
            for o in th:
                if not o.get('late'):
                    if o.get('mirror'):
                        c = catalog.build(o['op'], o['seed'], L)
                        c.args = mirrored(cases[spec['threads'][0][0]['id']].args if self.paired(spec) else c.args, L)
                        cases[o['id']] = c
                    else:
                        cases[o['id']] = catalog.build(o['op'], o['seed'], L, cx)
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        results = {}
        keep = []

        def body_of(ops):
            def body(th):
                for o in ops:
                    c = cases.get(o['id'])
                    if c is None:
                        def f(o=o):
                            cc = catalog.build(o['op'], o['seed'], L)
                            return cc.call(cc.args)
                    else:
                        def f(c=c):
                            return c.call(c.args)
                    kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), f)
                    results[o['id']] = work.outcome(kind, val, L)
                    keep.append((o['id'], kind, val))
            return body
        for th in spec['threads']:
            sim.add(body_of(th))
        sys.stderr = Sink()
        try:
            sim.run()
        finally:
            sys.stderr = old
        viol += work.problem_viol(sim)
        if not viol:
            again = {i: work.outcome(k, v, L) for i, k, v in keep}
            for th in spec['threads']:
                for o in th:
                    key = (o['op'], o['seed'])
                    ref = self.mrefs[key] if o.get('mirror') else self.refs[key].out
                    got = results.get(o['id'])
                    if got is None:
                        viol.append({'class': 'lost', 'msg': 'operation %d never ran' % o['id']})
                    elif not canon.same(got, ref):
                        viol.append({'class': 'result', 'msg': '%s(seed %d) in a concurrent run gives %s, alone %s' % (
                            o['op'], o['seed'], canon.brief(got), canon.brief(ref))})
                    elif not canon.same(again[o['id']], ref):
                        viol.append({'class': 'later', 'msg': 'the result of %s(seed %d) was changed by other calls '
                                     'after it had been returned: %s, was %s' % (
                                         o['op'], o['seed'], canon.brief(again[o['id']]), canon.brief(ref))})
        st = work.sim_stats(sim, spec, {'ops': len(results)})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}
