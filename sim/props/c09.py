"""C09: objects and results are independent of buffers held by callers."""
import sys
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work
from .c08 import objects

# helpers that may hand back their own argument when there is nothing to do
SELF = ('tri_shrink',)


class Ctx(catalog.Context):
    """ellipsoids and hyperplanes are shared, arrays are not"""

    def get(self, key, mk):
        if key[0] not in ('ell', 'hyp'):
            return mk()
        return catalog.Context.get(self, key, mk)


def scribble(v, seen=None):
    """a caller re-using every buffer it can reach (but not objects of the library)"""
    if seen is None:
        seen = []
    n = 0
    if isinstance(v, np.ndarray):
        if any(v is x for x in seen):
            return 0
        seen.append(v)
        if v.dtype.kind == 'O':
            for x in v.ravel():
                n += scribble(x, seen)
            if v.flags.writeable:
                v[...] = 'scribbled'
            return n + 1
        if not v.flags.writeable:
            return 0
        k = v.dtype.kind
        if k in 'fc':
            v[...] = -7.25
        elif k in 'iu':
            v[...] = 1
        elif k == 'b':
            v[...] = ~v
        elif k in 'US':
            v[...] = 'z'
        return 1
    if isinstance(v, dict):
        for x in list(v.values()):
            n += scribble(x, seen)
        for k in list(v):
            v[k] = 'scribbled'
        v['scribbled'] = 1
        return n + 1
    if isinstance(v, (list, tuple)):
        for x in v:
            n += scribble(x, seen)
        if isinstance(v, list):
            v[:] = ['scribbled'] * (len(v) + 1)
            n += 1
    return n


def picture(v, L):
    return canon.exact(work.canonical(v, L))


def has_ell(x):
    if isinstance(x, (tuple, list)):
        return bool(len(x)) and (isinstance(x[0], str) and x[0] == 'Ell' or any(has_ell(y) for y in x))
    return False


class P(PoolProp):
    id = 'C09'
    quick_runs = 2200
    thorough_runs = 100000
    rule = ('1-2 simulated threads make calls and, after a call has returned (or failed by an injected fault), overwrite '
            'every array, list and dictionary passed to it or returned by it, or what getters of objects return, or '
            'project a returned object in place; all other objects, results, the configuration and later calls are '
            'compared; non-trivial: something was overwritten; distinct by the sequence of steps')
    pool_size = {'quick': 900, 'thorough': 3000}

    def spec(self, rng, i):
        nt = rng.choice([1, 1, 2])
        ths, k = [], 0
        for t in range(nt):
            ops = self.pick_ops(rng, rng.choice([2, 3, 5]) if nt == 1 else rng.choice([1, 2]))
            if i < len(self.pool) and t == 0:
                ops[0] = self.pool[i][:2]
            if rng.random() < 0.4:
                ops.append(rng.choice(ops))
            th, mine = [], []
            for n, s in ops:
                o = {'id': k, 'op': n, 'seed': s}
                if rng.random() < 0.12:
                    r = self.refs[(n, s)]
                    o['faults'] = [[rng.choice(['mem', 'kbd']), rng.randint(1, max(1, r.steps))]]
                th.append(o)
                mine.append(k)
                k += 1
                for _ in range(rng.choice([0, 1, 1, 2])):
                    j = rng.choice(mine)
                    w = rng.choice(['args', 'args', 'res', 'res', 'get', 'proj', 'settings'])
                    if ops[mine.index(j)] in self.gives and rng.random() < 0.4:
                        w = 'proj'
                    th.append({'id': k, 'scribble': j, 'what': w})
                    k += 1
            ths.append(th)
        spec = {'threads': ths, 'seed': rng.randrange(1 << 48)}
        if nt > 1:
            return work.apply_sched(spec, rng, self.steps_of)
        spec['switches'] = []
        return spec

    def prepare(self):
        PoolProp.prepare(self)
        self.gives = set((n, s) for n, s, r in self.pool if has_ell(r.out))       # operations that return ellipsoids

    def steps_of(self, o):
        return PoolProp.steps_of(self, o) if 'op' in o else 1

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] for o in t if 'op' in o]

    def execute(self, spec):
        L = self.L
        viol = []
        cx = Ctx(True)
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        calls = {}
        conf = canon.canon(L.Properties.get_prop_dict(), L)
        cnt = {'scribbles': 0, 'buffers': 0}

        def check(why, skip):
            """everything except what was overwritten is as it was"""
            if viol:
                return
            for key, ob in list(cx.pool.items()):
                p = first.setdefault(key, None)
                q = picture(ob, L)
                if p is None:
                    first[key] = q
                elif p != q:
                    viol.append({'class': 'object', 'msg': 'object %r changed: %s' % (key, why)})
            for i, c in list(calls.items()):
                for ob, p in c['objs']:
                    if picture(ob, L) != p:
                        viol.append({'class': 'object', 'msg': 'an object returned by call %d, %s(seed %s), changed from '
                                     '%s to %s: %s' % (i, c['name'], c['seed'], canon.brief(p),
                                                       canon.brief(picture(ob, L)), why)})
                if 'res' not in c['spoilt'] and not (skip == (i, 'args') and c['name'] in SELF):
                    if picture(c['val'], L) != c['pic']:
                        viol.append({'class': 'result', 'msg': 'the result of call %d, %s(seed %s), changed: %s' % (
                            i, c['name'], c['seed'], why)})
                if 'args' not in c['spoilt'] and not (skip == (i, 'res') and c['name'] in SELF):
                    if canon.snapshot(c['args'], L) != c['apic']:
                        viol.append({'class': 'argument', 'msg': 'the arguments of call %d, %s(seed %s), changed: %s' % (
                            i, c['name'], c['seed'], why)})
            now = canon.canon(L.Properties.get_prop_dict(), L)
            if canon.exact(now) != canon.exact(conf):
                viol.append({'class': 'config', 'msg': 'the configuration became %s: %s' % (canon.brief(now, 600), why)})
        first = {}

        def body_of(ops):
            def body(th):
                for o in ops:
                    if viol:
                        return
                    if 'op' in o:
                        c = catalog.build(o['op'], o['seed'], L, cx)
                        for key, ob in cx.pool.items():
                            if key not in first:
                                first[key] = picture(ob, L)
                        p = work.plan_for(spec, o, sw)
                        p.trace = bool(p.faults) or len(spec['threads']) > 1
                        apic = canon.snapshot(c.args, L)
                        kind, val, n = sim.call(th, o['id'], p, lambda: c.call(c.args))
                        out = work.outcome(kind, val, L)
                        ref = self.refs[(o['op'], o['seed'])].out
                        if not o.get('faults') and not canon.same(out, ref):
                            viol.append({'class': 'later', 'msg': '%s(seed %s) gives %s after callers overwrote their '
                                         'buffers and %s in a fresh process' % (o['op'], o['seed'], canon.brief(out),
                                                                                canon.brief(ref))})
                        val = val if kind == 'ok' else None
                        calls[o['id']] = {'args': c.args, 'val': val, 'name': o['op'], 'seed': o['seed'],
                                          'pic': picture(val, L), 'apic': apic, 'spoilt': set(),
                                          'objs': [(x, picture(x, L)) for x in objects(val, L, [])]}
                        if o['op'] in SELF and calls[o['id']]['val'] is not None:
                            pass
                        continue
                    c = calls.get(o['scribble'])
                    if c is None:
                        continue
                    w = o['what']
                    cnt['scribbles'] += 1
                    why = 'after the caller overwrote %s of call %d, %s(seed %s)' % (
                        {'args': 'the arguments', 'res': 'the result', 'get': 'what getters of the objects', 'proj':
                         'a result object (in-place projection)', 'settings': 'the settings read'}[w], o['scribble'],
                        c['name'], c['seed'])
                    if w == 'args':
                        c['spoilt'].add('args')
                        if c['name'] in SELF:
                            c['spoilt'].add('res')
                        cnt['buffers'] += scribble(c['args'])
                    elif w == 'res':
                        c['spoilt'].add('res')
                        if c['name'] in SELF:
                            c['spoilt'].add('args')
                        cnt['buffers'] += scribble(c['val'])
                    elif w == 'get':
                        for ob in objects([c['args'], c['val']], L, []):
                            if isinstance(ob, L.Ellipsoid):
                                cnt['buffers'] += scribble([ob.get_center_vec(), ob.get_shape_mat(), ob.double(),
                                                            ob.parameters()])
                            else:
                                cnt['buffers'] += scribble([ob.double(), ob.parameters()])
                            arr = np.empty((1,), dtype=object)
                            arr[0] = ob
                            cnt['buffers'] += scribble([ob.to_dict(arr, True)[:3], ob.get_abs_tol(arr, None),
                                                        ob.get_rel_tol(arr, None)])
                    elif w == 'settings':
                        P = L.Properties
                        cnt['buffers'] += scribble([P.get_prop_dict(), list(P.parse_prop({}, None)),
                                                    list(P.parse_prop({'abs_tol': 1e-6, 'q': 1}, ['abs_tol']))])
                    elif w == 'proj':
                        es = [ob for ob, _ in c['objs'] if isinstance(ob, L.Ellipsoid) and
                              ob.get_center_vec().size >= 2]
                        if es:
                            e = es[o['id'] % len(es)]
                            arr = np.empty((1,), dtype=object)
                            arr[0] = e
                            n = e.get_center_vec().size
                            L.Ellipsoid.projection(arr, np.eye(n)[:, 1:] if o['id'] % 2 else np.eye(n)[:, ::-1])
                            c['objs'] = [(x, p) for x, p in c['objs'] if x is not e]
                            c['spoilt'].add('res')
                            cnt['buffers'] += 1
                    check(why, (o['scribble'], w))
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        sys.stderr = Sink()
        sim.run()
        viol += work.problem_viol(sim)
        if not viol:
            check('at the end', None)
        h = catalog.hash_key(repr(spec['threads']))
        st = work.sim_stats(sim, spec, {'ops': len(calls), 'scribbles': cnt['scribbles'],
                                        'buffers_overwritten': cnt['buffers'],
                                        'histories': [h] if cnt['buffers'] else []})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
