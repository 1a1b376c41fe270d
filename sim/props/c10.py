"""C10: a failed call leaves no trace."""
import sys
import math
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work
from ..engine import rng_of

CONF = {
    'set_abs_tol': [3e-6], 'set_rel_tol': [4e-5], 'set_n_plot_2d_points': [41], 'set_n_plot_3d_points': [42],
    'set_n_time_grid_points': [43], 'set_is_verbose': [True], 'init': [], 'set_conf_repo_mgr': [None],
    'parse_prop': [None, None],
}


def full_config():
    return {'version': 'w', 'is_verbose': False, 'abs_tol': 2e-7, 'rel_tol': 3e-6, 'reg_tol': 4e-5,
            'ode_solver_name': 'ode23', 'is_ode_norm_control': True, 'is_enabled_ode_solver_options': False,
            'n_plot_2d_points': 12, 'n_plot_3d_points': 13, 'n_time_grid_points': 14}


def config(L):
    """the configuration as everyone can see it, or a description of why it cannot be seen"""
    try:
        return canon.canon(L.Properties.get_prop_dict(), L)
    except Exception as e:
        return ('broken', type(e).__name__, str(e))


def injected(val, fired):
    kinds = [f[1].split(':')[0] for f in fired]
    if isinstance(val, MemoryError) and 'mem' in kinds:
        return True
    if isinstance(val, KeyboardInterrupt) and 'kbd' in kinds:
        return True
    return isinstance(val, np.linalg.LinAlgError) and 'linalg' in kinds


class P(PoolProp):
    id = 'C10'
    quick_runs = 3000
    thorough_runs = 150000
    rule = ('a library call is cut short by one injected allocation failure, interrupt or LAPACK failure at a chosen '
            'bytecode, alone or while one or two other simulated threads run calls on the same objects; then it and '
            'other calls are repeated; non-trivial: the fault fired; distinct by operation, kind and place of the fault')
    pool_size = {'quick': 500, 'thorough': 2000}
    cfg = {'n_time_grid_points': 199}     # something to recognise: not the default configuration

    def prepare(self):
        PoolProp.prepare(self)
        self.meetings = work.meetings(self.pool, 20000)
        sites = {}
        for n, s, r in self.pool:
            if r.steps < 20000:
                for k, ns in r.sites.items():
                    sites.setdefault(k, []).append((n, s, ns))
        self.sites = [sites[k] for k in sorted(sites)]
        self.light = [p for p in self.pool if p[2].steps < 3000]

    def spec(self, rng, i):
        ops = []
        conf = rng.random() < 0.2
        near = None
        if i % 8 == 1 and self.sites:    # each place that calls a numerical routine in turn
            conf = False
            near = self.sites[i // 8 % len(self.sites)]
            n, s, ns = rng.choice(near)
            o = {'id': 0, 'op': n, 'seed': s, 'faults': [['linalg', rng.choice(ns)]]}
        elif i % 2 == 0:              # inside each function of the library in turn
            conf = False
            f, near = work.spread(rng, self.meetings, i // 2)
            n, s, ns = rng.choice(near)
            at = rng.choice(ns) + int(math.exp(rng.uniform(0., math.log(120.))))
            o = {'id': 0, 'op': n, 'seed': s, 'faults': [[rng.choice(['mem', 'mem', 'kbd']), at]]}
        elif conf:
            f = rng.choice(sorted(CONF))
            o = {'id': 0, 'op': '@' + f, 'seed': rng.randrange(1000), 'faults': [
                [rng.choice(['mem', 'kbd']), rng.randint(1, {'parse_prop': 160, 'init': 90}.get(f, 30))]]}
        else:
            while True:
                n, s, r = rng.choice(self.pool)
                if rng.random() < max(0.15, min(1.0, 4000.0 / (r.steps + 1))):
                    break
            kind = rng.choice(['mem', 'mem', 'kbd', 'linalg'] if r.linalg else ['mem', 'kbd'])
            at = rng.randint(1, max(1, r.linalg)) if kind == 'linalg' else rng.randint(1, max(1, r.steps))
            o = {'id': 0, 'op': n, 'seed': s, 'faults': [[kind, at]]}
        ops.append(o)
        ths = [ops]
        k = 1
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            n, s, r = rng.choice(self.light)
            if rng.random() < 0.3 and not conf:
                n, s = o['op'], o['seed']
            ths.append([{'id': k, 'op': n, 'seed': s}])
            k += 1
        after = []
        for _ in range(rng.choice([1, 2])):
            n, s, r = rng.choice(self.light)
            if near:
                n, s, _ = rng.choice(near) if rng.random() < 0.7 else (o['op'], o['seed'], 0)
            elif rng.random() < 0.4 and not conf:
                n, s = rng.choice([p[:2] for p in self.pool if p[0] == o['op']])
            after.append({'id': k, 'op': n, 'seed': s})
            k += 1
        spec = {'threads': ths, 'after': after, 'lists': ['after'], 'verbose': rng.random() < 0.15,
                'seed': rng.randrange(1 << 48)}
        if any(x['op'] == 'conf_read' for t in ths + [after] for x in t):
            spec['verbose'] = False
        if len(ths) > 1:
            return work.apply_sched(spec, rng, self.steps_of)
        spec['switches'] = []
        return spec

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] + [spec['after']] for o in t if o['op'][0] != '@']

    def viable(self, spec):
        return bool(spec['threads'][0]) and bool(spec['threads'][0][0].get('faults'))

    def conf_case(self, o):
        P = self.L.Properties
        f = o['op'][1:]
        if f == 'set_conf_repo_mgr':
            args = [full_config()]
            return catalog.Case(args, lambda a: P.set_conf_repo_mgr(a[0]), mutates=True)
        if f == 'parse_prop':
            args = [{'abs_tol': 1e-5, 'zzz': 4}, ['rel_tol', 'abs_tol', 'n_plot_2d_points']]
            return catalog.Case(args, lambda a: P.parse_prop(a[0], a[1]))
        args = list(CONF[f])
        return catalog.Case(args, lambda a: getattr(P, f)(*a), mutates=True)

    def conf_expected(self, o):
        """configuration after the call, computed from the one before"""
        f = o['op'][1:]
        c = self.L.Properties.get_prop_dict()
        if f == 'set_conf_repo_mgr':
            return full_config()
        if f == 'init':
            return self.base
        if f == 'parse_prop':
            return dict(c)
        d = dict(c)
        d[f[4:]] = CONF[f][0]
        return d

    def execute(self, spec):
        L = self.L
        viol = []
        self.base = dict(L.Properties.get_prop_dict())
        work.apply_config(L, self.cfg)
        o0 = spec['threads'][0][0]
        isconf = o0['op'][0] == '@'
        if spec['verbose']:
            L.Properties.set_is_verbose(True)
        cx = catalog.Context(True)
        cases = {}
        for t in spec['threads']:
            for o in t:
                cases[o['id']] = self.conf_case(o) if o['op'][0] == '@' else catalog.build(o['op'], o['seed'], L, cx)
        byst = [catalog.build(o['op'], o['seed'], L, cx) for o in spec['after']]
        snap_args = {i: canon.snapshot(c.args, L) for i, c in cases.items()}
        snap_objs = [(k, v, canon.snapshot(v, L)) for k, v in cx.pool.items()]
        before = config(L)
        expected = [before]
        if isconf:
            expected.append(canon.canon(self.conf_expected(o0), L))
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        res = {}
        old = sys.stderr
        sys.stderr = Sink()

        def body_of(ops):
            def body(th):
                for o in ops:
                    c = cases[o['id']]
                    kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), lambda: c.call(c.args))
                    res[o['id']] = (kind, val, work.outcome(kind, val, L))
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        sim.run()
        viol += work.problem_viol(sim)
        fired = list(sim.faults_fired)
        if not viol:
            kind, val, out = res[o0['id']]
            what = '%s(seed %s), %s at event %s' % (o0['op'], o0['seed'], fired and fired[0][1], fired and fired[0][2])
            if kind == 'exc' and injected(val, fired):
                failed = True
            else:
                failed = False
                if isconf:
                    if kind == 'exc':
                        viol.append({'class': 'result', 'msg': '%s ended with %s' % (what, canon.brief(out))})
                elif not canon.same(out, self.refs[(o0['op'], o0['seed'])].out):
                    viol.append({'class': 'result', 'msg': '%s ended with %s; undisturbed it gives %s' % (
                        what, canon.brief(out), canon.brief(self.refs[(o0['op'], o0['seed'])].out))})
            for t in spec['threads'][1:]:
                for o in t:
                    if not canon.same(res[o['id']][2], self.refs[(o['op'], o['seed'])].out):
                        if isconf and (o0['op'] != '@parse_prop'):
                            # objects made meanwhile take their settings from the changing configuration
                            continue
                        viol.append({'class': 'other', 'msg': '%s(seed %s) in another thread gives %s while %s; alone '
                                     'it gives %s' % (o['op'], o['seed'], canon.brief(res[o['id']][2]), what,
                                                      canon.brief(self.refs[(o['op'], o['seed'])].out))})
            for i, c in cases.items():
                if canon.snapshot(c.args, L) != snap_args[i]:
                    viol.append({'class': 'args', 'msg': 'arguments of operation %d (%s) differ after %s' % (
                        i, c.name if hasattr(c, 'name') else o0['op'], what)})
            for k, v, s in snap_objs:
                if canon.snapshot(v, L) != s:
                    viol.append({'class': 'objects', 'msg': 'object %r differs after %s' % (k, what)})
            now = config(L)
            if not any(canon.same(now, e) for e in expected):
                viol.append({'class': 'config', 'msg': 'configuration after %s: %s' % (what, canon.brief(now, 700))})
            if isconf and not failed and not canon.same(now, expected[-1]):
                viol.append({'class': 'config', 'msg': 'the call returned but the configuration is %s' %
                             canon.brief(now, 700)})
            held = [l for l in sim.held if l._count]
            if held:
                viol.append({'class': 'locks', 'msg': '%d locks still held after %s' % (len(held), what)})
        if not viol:
            viol += self.again(spec, cases, byst, isconf, o0, what, expected)
        sys.stderr = old
        st = work.sim_stats(sim, spec, {
            'ops': sum(len(t) for t in spec['threads']) + len(spec['after']),
            'fault_places': ['%s/%s/%s' % (o0['op'], f[1], f[2]) for f in fired]})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def again(self, spec, cases, byst, isconf, o0, what, expected):
        """repeat the call on the same arguments, then other calls"""
        L = self.L
        viol = []
        sim2 = kernel.Simulation()
        box = []

        def body(th):
            p = kernel.OpPlan()
            p.trace = False
            c = cases[o0['id']]
            kind, val, n = sim2.call(th, 0, p, lambda: c.call(c.args))
            box.append(work.outcome(kind, val, L))
            if isconf:
                box.append(config(L))
                L.Properties.init()
                L.Properties.set_n_time_grid_points(199)
                if spec['verbose']:
                    L.Properties.set_is_verbose(True)
            for b in byst:
                kind, val, n = sim2.call(th, 1, p, lambda: b.call(b.args))
                box.append(work.outcome(kind, val, L))
        sim2.add(body)
        sim2.run()
        v = work.problem_viol(sim2)
        if v:
            return v
        first = box.pop(0)
        if isconf:
            now = box.pop(0)
            if first[0] != 'returns':
                viol.append({'class': 'retry', 'msg': 'after %s the same call gives %s' % (what, canon.brief(first))})
            elif not canon.same(now, expected[-1]):
                viol.append({'class': 'retry', 'msg': 'after %s and the same call again the configuration is %s' % (
                    what, canon.brief(now, 700))})
        elif not canon.same(first, self.refs[(o0['op'], o0['seed'])].out):
            viol.append({'class': 'retry', 'msg': 'after %s the same call gives %s, undisturbed %s' % (
                what, canon.brief(first), canon.brief(self.refs[(o0['op'], o0['seed'])].out))})
        for o, got in zip(spec['after'], box):
            ref = self.refs[(o['op'], o['seed'])].out
            if not canon.same(got, ref):
                viol.append({'class': 'later', 'msg': 'after %s, %s(seed %s) gives %s, undisturbed %s' % (
                    what, o['op'], o['seed'], canon.brief(got), canon.brief(ref))})
        return viol

    def nontrivial(self, stats):
        return len(stats.sets.get('fault_places', ()))
