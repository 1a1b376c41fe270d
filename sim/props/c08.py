"""C08: calls never modify their arguments, not even for a moment."""
import sys
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work


def arrays(v, L, out):
    """every array a caller holds in these arguments, with the buffers they are views of"""
    if isinstance(v, np.ndarray):
        if not any(v is x for x in out):
            out.append(v)
            if v.dtype.kind == 'O':
                for x in v.ravel():
                    arrays(x, L, out)
            elif isinstance(v.base, np.ndarray):
                arrays(v.base, L, out)
    elif isinstance(v, dict):
        for x in v.values():
            arrays(x, L, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays(x, L, out)
    return out


def objects(v, L, out):
    if isinstance(v, (L.Ellipsoid, L.Hyperplane)):
        if not any(v is x for x in out):
            out.append(v)
    elif isinstance(v, np.ndarray) and v.dtype.kind == 'O':
        for x in v.ravel():
            objects(x, L, out)
    elif isinstance(v, dict):
        for x in v.values():
            objects(x, L, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            objects(x, L, out)
    return out


def quick(a):
    """exact, cheap picture of one array"""
    if a.dtype.kind == 'O':
        return (a.shape, a.flags.writeable, [id(x) for x in a.ravel()])
    return (a.shape, a.dtype.str, a.flags.writeable, a.strides, a.tobytes())


def laid_out(v, how):
    """the same arguments with arrays in another memory layout"""
    if isinstance(v, np.ndarray) and v.dtype.kind != 'O' and v.ndim:
        if how == 'C':
            return np.array(v, order='C')
        if how == 'F':
            return np.array(v, order='F')
        w = np.empty(v.shape + (2,), dtype=v.dtype)[..., 0]
        w[...] = v
        return w
    if type(v) in (list, tuple):
        return type(v)(laid_out(x, how) for x in v)
    return v


def read_only(v, L):
    for a in arrays(v, L, []):
        a.flags.writeable = False


def read(o, L):
    if isinstance(o, L.Ellipsoid):
        return (o.get_center_vec(), o.get_shape_mat())
    p = o.parameters()
    return (p[0], p[1])


class P(PoolProp):
    id = 'C08'
    quick_runs = 2200
    thorough_runs = 100000
    rule = ('a call runs (complete, rejected, or cut short by an injected fault) while an observer compares the caller\'s '
            'arrays at sampled bytecodes and another simulated thread reads the objects passed; arrays are writable or '
            'read-only, in C, Fortran or strided layout; non-trivial: arguments exist; distinct by call, mode and faults')
    pool_size = {'quick': 900, 'thorough': 3000}

    def spec(self, rng, i):
        n, s, r = self.pool[i % len(self.pool)] if i < len(self.pool) else rng.choice(self.pool)
        o = {'id': 0, 'op': n, 'seed': s, 'observe': rng.choice([1, 3, 10, 40]) * (1 if r.steps < 3000 else 5)}
        mode = rng.choice(['rw', 'rw', 'ro'])
        if i >= len(self.pool) and rng.random() < 0.25:
            kind = rng.choice(['mem', 'kbd', 'linalg'])
            o['faults'] = [[kind, rng.randint(1, max(1, r.linalg if kind == 'linalg' else r.steps))]]
        ths = [[o]]
        k = 1
        reads = []
        if rng.random() < 0.5:
            reads = [{'id': k + j, 'read': 1} for j in range(rng.choice([2, 6, 12]))]
            ths.append(reads)
        elif rng.random() < 0.5:
            m = rng.choice([p for p in self.pool if p[2].steps < 4000])
            ths.append([{'id': 1, 'op': m[0], 'seed': m[1]}])
        spec = {'threads': ths, 'mode': mode, 'seed': rng.randrange(1 << 48), 'verbose': rng.random() < 0.1}
        if rng.random() < 0.5:           # rounding can depend on it, so results are not compared then
            spec['layout'] = rng.choice(['C', 'C', 'F', 'S'])
        if n == 'conf_read' or any(x.get('op') == 'conf_read' for t in ths for x in t):
            spec['verbose'] = False
        if len(ths) > 1:
            spec['switches'] = None
            spec['sched'] = {'gap': max(1, int(r.steps / rng.choice([3, 10, 25])))}
        else:
            spec['switches'] = []
        return spec

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] for o in t if 'op' in o]

    def viable(self, spec):
        return bool(spec['threads'][0])

    def execute(self, spec):
        L = self.L
        viol = []
        cx = catalog.Context(True)
        cases = {}
        watch = []
        objs = []
        if spec['verbose']:
            L.Properties.set_is_verbose(True)
        for t in spec['threads']:
            for o in t:
                if 'op' in o:
                    c = cases[o['id']] = catalog.build(o['op'], o['seed'], L, cx)
                    if o['id'] == 0 and spec.get('layout'):
                        c.args = laid_out(c.args, spec['layout'])
                    if spec['mode'] == 'ro':
                        read_only(c.args, L)
                    arrays(c.args, L, watch)
                    objects(c.args, L, objs)
        pics = [quick(a) for a in watch]
        first = [canon.exact(canon.canon(read(o, L), None)) for o in objs]
        snaps = {i: canon.snapshot(c.args, L) for i, c in cases.items()}
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        seen = [0]

        def observer(th):
            seen[0] += 1
            if viol:
                return
            for a, p in zip(watch, pics):
                if quick(a) != p:
                    viol.append({'class': 'during', 'msg': 'while %s runs (event %d), the caller\'s array of shape %s '
                                 'is temporarily or permanently changed' % (what(th.op_id), th.n, p[0])})
        sim.observer = observer

        def what(i):
            c = cases.get(i)
            return 'operation %s' % i if c is None else '%s(seed %s)' % (c.name, c.seed)
        res = {}

        def body_of(ops):
            def body(th):
                for o in ops:
                    p = work.plan_for(spec, o, sw)
                    if 'op' in o:
                        c = cases[o['id']]
                        kind, val, n = sim.call(th, o['id'], p, lambda: c.call(c.args))
                        res[o['id']] = work.outcome(kind, val, L)
                        continue
                    for ob, f in zip(objs, first):
                        kind, val, n = sim.call(th, o['id'], p, lambda: read(ob, L))
                        if kind != 'ok' or canon.exact(canon.canon(val, None)) != f:
                            viol.append({'class': 'seen', 'msg': 'another thread reading an object passed to %s while '
                                         'it runs sees %s instead of %s' % (what(0), canon.brief(canon.canon(
                                             val, None)), canon.brief(f))})
                        p = kernel.OpPlan()
                        p.trace = False
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        sys.stderr = Sink()
        sim.run()
        viol += work.problem_viol(sim)
        for i, c in cases.items():
            if canon.snapshot(c.args, L) != snaps[i]:
                viol.append({'class': 'after', 'msg': 'the arguments of %s are changed, faults %s' % (
                    what(i), sim.faults_fired)})
        for a, p in zip(watch, pics):
            if quick(a) != p:
                viol.append({'class': 'buffer', 'msg': 'an array of shape %s the caller holds is changed by %s (now %s'
                             ', writable %s)' % (p[0], what(0), a.shape, a.flags.writeable)})
        for t in spec['threads']:
            for o in t:
                if 'op' in o and not o.get('faults') and not (o['id'] == 0 and spec.get('layout')):
                    ref = self.refs[(o['op'], o['seed'])].out
                    if not canon.same(res.get(o['id']), ref):
                        viol.append({'class': 'result', 'msg': '%s with %s arrays gives %s, alone with writable arrays '
                                     '%s' % (what(o['id']), 'read-only' if spec['mode'] == 'ro' else 'writable',
                                             canon.brief(res.get(o['id'])), canon.brief(ref))})
        o0 = spec['threads'][0][0]
        st = work.sim_stats(sim, spec, {'ops': len(cases), 'observations': seen[0], 'arrays_watched': len(watch),
                                        'objects_watched': len(objs), 'modes': {spec['mode']: 1},
                                        'histories': [catalog.hash_key((o0['op'], o0['seed'], spec['mode'],
                                                                        sim.faults_fired))] if watch or objs else []})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
