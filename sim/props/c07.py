"""C07: results do not depend on what was called before."""
import sys
import numpy as np

from .base import PoolProp, Sink
from .. import kernel, catalog, canon, work
from ..engine import pmap, rng_of, HarnessError

CFGS = [None,
        {'abs_tol': 3e-6, 'rel_tol': 4e-5, 'n_plot_2d_points': 17, 'n_plot_3d_points': 15},
        {'abs_tol': 1e-9, 'rel_tol': 1e-8, 'n_plot_2d_points': 33, 'n_plot_3d_points': 44, 'n_time_grid_points': 9}]
SCALES = [1.5, 0.25, 4.0]


def fill(dst, src):
    """contents of src into the very arrays of dst, where shapes and types allow"""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray):
        if dst is not src and dst.shape == src.shape and dst.dtype == src.dtype and dst.flags.writeable:
            dst[...] = src
    elif isinstance(dst, (list, tuple)) and type(dst) is type(src):
        for x, y in zip(dst, src):
            fill(x, y)
        if isinstance(dst, list) and len(dst) == len(src):
            for i in range(len(dst)):
                if not isinstance(dst[i], (np.ndarray, list, tuple, dict)) and type(dst[i]) is type(src[i]):
                    dst[i] = src[i]
    elif isinstance(dst, dict) and isinstance(src, dict):
        for k in dst:
            if k in src:
                if isinstance(dst[k], (np.ndarray, list, tuple, dict)):
                    fill(dst[k], src[k])
                elif type(dst[k]) is type(src[k]):
                    dst[k] = src[k]


def ellipsoids(v, L, out):
    if isinstance(v, L.Ellipsoid):
        if not any(v is x for x in out):
            out.append(v)
    elif isinstance(v, np.ndarray) and v.dtype.kind == 'O':
        for x in v.ravel():
            ellipsoids(x, L, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            ellipsoids(x, L, out)
    return out


def scale(v, k, seen):
    """multiply the numbers in the arrays by k"""
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            for x in v.ravel():
                scale(x, k, seen)
        elif v.dtype.kind in 'fc' and v.flags.writeable and not any(np.shares_memory(v, x) for x in seen):
            seen.append(v)
            v *= k
    elif isinstance(v, (list, tuple)):
        for x in v:
            scale(x, k, seen)
    elif isinstance(v, dict):
        for x in v.values():
            scale(x, k, seen)


def mutate(case, mut, L):
    """put the arguments of a case into a stated condition"""
    if mut[0] is not None and 'kinds' in getattr(case, 'tags', ()):
        # the numbers of another case of the kind, perhaps the same in another guise
        if mut[0] >= 0:
            case.args[:] = catalog.build(case.name, mut[0], L).args
    elif mut[0] is not None:
        fill(case.args, catalog.build(case.name, case.seed, L).args)
        if mut[0] < 0:
            scale(case.args, SCALES[-1 - mut[0]], [])
        else:
            fill(case.args, catalog.build(case.name, mut[0], L).args)
    if mut[1] and not getattr(case, 'tags', ()):
        case.tags = ('projected',)
        for e in ellipsoids(case.args, L, []):
            n = e.get_center_vec().size
            if n >= 2:
                arr = np.empty((1,), dtype=object)
                arr[0] = e
                L.Ellipsoid.projection(arr, np.eye(n)[:, :n - 1])


def ref_child(item):
    L, name, seed, mut, cfg = item
    work.apply_config(L, CFGS[cfg])
    c = catalog.build(name, seed, L)
    mutate(c, mut, L)
    try:
        val = c.call(c.args)
        out = work.outcome('ok', val, L)
    except Exception as e:
        out = work.outcome('exc', e, L)
    return out


def set_config(L, cfg):
    L.Properties.init()
    work.apply_config(L, CFGS[cfg])


class P(PoolProp):
    id = 'C07'
    quick_runs = 2300
    thorough_runs = 60000
    pool_size = {'quick': 500, 'thorough': 2000}
    rule = ('one simulated thread runs 3-12 library calls, some failing, some cut short by injected faults, under '
            'changing configurations, re-using argument objects whose contents are refilled or projected in between; '
            'non-trivial: at least two calls; distinct by the sequence of calls and conditions')
    exclude = ()

    def prepare(self):
        PoolProp.prepare(self)
        self.meetings = work.meetings(self.pool, 12000)
        rng = rng_of('C07 variants', self.seed)
        by = {}
        for n, s, r in self.pool:
            by.setdefault(n, []).append(s)
        self.entries = []          # (name, seed, fill, projected, cfg)
        for n, s, r in self.pool:
            for _ in range(2):
                f = None
                if rng.random() < 0.6:
                    f = rng.choice(by[n]) if rng.random() < 0.6 else rng.randrange(100000)
                pr = int(catalog.GROUP[n] == 'ell' and rng.random() < 0.12)
                self.entries.append((n, s, f, pr, rng.choice([0, 0, 0, 0, 1, 2])))
            c = rng.choice([0, 0, 0, 1])
            self.entries.append((n, s, None, 0, c))
            if catalog.GROUP[n] == 'kind':
                self.entries += [(n, s, rng.randrange(100000), 0, 0) for _ in range(10)]
            else:
                self.entries.append((n, s, rng.choice([-1, -2, -3]), 0, c))
        self.by = {}
        self.pairs = {}
        for e in self.entries:
            self.pairs.setdefault((e[0], e[1]), []).append(e)
            self.by.setdefault(e[0], []).append(e)
        self.vrefs = {}
        self.add(self.entries)
        # a numerical routine failing at each place it is called from, then the same call again
        self.sweep, n = [], {}
        for name, s, r in self.pool:
            n[name] = n.get(name, 0) + 1
            if r.linalg and n[name] <= 4 and (r.steps < 6000 or n[name] == 1):
                e = [x for x in self.pairs[(name, s)] if x[3] == 0]
                self.sweep += [(e, k) for k in range(1, min(r.linalg, 9) + 1)]
        rng.shuffle(self.sweep)
        own = set((n, s) for f, ops in self.meetings[0] if '/logging/' not in f[0] for n, s, _ in ops)
        self.hot_sweep = [x for x in self.sweep if tuple(x[0][0][:2]) in own]

    def add(self, entries):
        miss = [e for e in dict.fromkeys(entries) if e not in self.vrefs]
        outs = pmap(ref_child, [(self.L, e[0], e[1], (e[2], e[3]), e[4]) for e in miss])
        for e, (k, v) in zip(miss, outs):
            if k != 'ok':
                raise HarnessError('reference %s: %s %s' % (e, k, v))
            self.vrefs[e] = v

    def prepare_replay(self, spec):
        self.refs = {}
        self.vrefs = {}
        self.add([tuple(o['e']) for t in spec['threads'] for o in t])

    def spec(self, rng, i):
        if i % 4 == 3 and self.sweep:
            sweep, j = self.sweep, i // 4
            if self.hot_sweep and j % 2:
                sweep, j = self.hot_sweep, j // 2
            es, k = sweep[j % len(sweep)]
            ops = [rng.choice(es), rng.choice(es), rng.choice(rng.choice(self.sweep)[0])]
            ops = [{'id': j, 'e': list(e), 'keep': rng.random() < 0.7} for j, e in enumerate(ops)]
            ops[0]['faults'] = [['linalg', k]]
            return {'threads': [ops], 'switches': [], 'seed': 0, 'verbose': False}
        if rng.random() < 0.4:
            return self.again(rng, i)
        n = rng.choice([3, 5, 8, 12])
        x = rng.random()
        names = list(self.by)
        if x < 0.6:
            kinds = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif x < 0.8:
            g = catalog.GROUP[rng.choice(names)]
            kinds = [a for a in names if catalog.GROUP[a] == g]
        else:
            kinds = names
        cand = [e for k in kinds for e in self.by[k]]
        if i % 3 == 1:                # calls that go through the same function of the library
            _, near = work.spread(rng, self.meetings, i // 3)
            cand = [e for name, s, _ in near for e in self.pairs[(name, s)]]
            n = max(n, rng.choice([8, 12, 16]))
        elif rng.random() < 0.5 and len(cand) > 8:
            cand = rng.sample(cand, 8)
        ops = []
        while len(ops) < n:
            e = rng.choice(cand if rng.random() < 0.85 else self.entries)
            r = self.refs[(e[0], e[1])]
            if rng.random() > max(0.2, min(1.0, 12000.0 / (r.steps + 1))):
                continue
            o = {'id': len(ops), 'e': list(e), 'keep': rng.random() < 0.7}
            if rng.random() < 0.2:
                o['faults'] = [[rng.choice(['mem', 'kbd', 'linalg']), rng.randint(1, max(1, r.steps))]]
                if o['faults'][0][0] == 'linalg':
                    o['faults'][0][1] = rng.randint(1, max(1, r.linalg))
            ops.append(o)
        return {'threads': [ops], 'switches': [], 'seed': 0, 'verbose': rng.random() < 0.25}

    def again(self, rng, i):
        """the same call on the very same objects, whose contents change in between"""
        p = self.pool[i % len(self.pool)]
        es = self.pairs[(p[0], p[1])]
        ops = [{'id': k, 'e': list(rng.choice(es)), 'keep': True} for k in range(rng.choice([2, 4]))]
        if rng.random() < 0.4:
            o = rng.choice(ops[:-1])
            o['faults'] = [[rng.choice(['mem', 'kbd']), rng.randint(1, max(1, p[2].steps))]]
            if p[2].linalg and rng.random() < 0.5:
                o['faults'] = [['linalg', rng.randint(1, p[2].linalg)]]
        return {'threads': [ops], 'switches': [], 'seed': 0, 'verbose': False}

    def execute(self, spec):
        L = self.L
        viol = []
        sim = work.make_sim(spec)
        kept = {}
        held = []
        checked = [0]

        def body(th):
            cfg = 0
            for o in spec['threads'][0]:
                e = tuple(o['e'])
                name, seed, f, pr, c = e
                if c != cfg:
                    set_config(L, c)
                    cfg = c
                    if spec['verbose']:
                        L.Properties.set_is_verbose(True)
                key = (name, seed, pr, c)
                case = kept.get(key) if o['keep'] else None
                if case is None:
                    case = catalog.build(name, seed, L)
                    if o['keep']:
                        kept[key] = case
                if case.tags and 'projected' in case.tags:
                    case = catalog.build(name, seed, L)
                    mutate(case, (f, pr), L)
                elif pr:
                    # use the objects first, then change them in place, then use them again
                    mutate(case, (f if f is not None else seed, 0), L)
                    try:
                        case.call(case.args)
                    except Exception:
                        pass
                    mutate(case, (None, 1), L)
                else:
                    mutate(case, (f if f is not None else seed, 0), L)
                p = kernel.OpPlan()
                p.faults = o.get('faults') or []
                p.trace = bool(p.faults)
                kind, val, n = sim.call(th, o['id'], p, lambda: case.call(case.args))
                held.append(val)
                if o.get('faults'):
                    continue
                got = work.outcome(kind, val, L)
                checked[0] += 1
                if spec['verbose'] and name == 'conf_read':
                    continue
                if not canon.same(got, self.vrefs[e]):
                    viol.append({'class': 'result', 'msg': 'call %d, %s(seed %s, contents %s, projected %s, configuration'
                                 ' %s), gives %s after the earlier calls and %s in a fresh process' % (
                                     o['id'], name, seed, f, pr, c, canon.brief(got), canon.brief(self.vrefs[e]))})
        if spec['verbose']:
            L.Properties.set_is_verbose(True)
        sim.add(body)
        old = sys.stderr
        sys.stderr = Sink()
        try:
            sim.run()
        finally:
            sys.stderr = old
        viol += work.problem_viol(sim)
        h = catalog.hash_key(tuple(tuple(o['e']) for o in spec['threads'][0]))
        st = work.sim_stats(sim, spec, {'ops': len(spec['threads'][0]), 'results_checked': checked[0],
                                        'histories': [h] if len(spec['threads'][0]) > 1 else []})
        return {'viol': viol, 'spec': spec, 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
