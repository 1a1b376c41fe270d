"""C14: comparison of dictionaries does not depend on ordering."""
import sys
import random
import numpy as np

from .base import Prop, Sink
from .. import kernel, catalog, canon, work

KEYS = ['a', 'b', 'c', 'dd', 'e1', 'zz', 'key', 'Alpha', '_u', 'x' * 9, 'b2', 'q-7', 'A', 'KEY', 'Key', 'alpha', 'a ',
        '\u00e9', 'e\u0301', '10', '9', 'a_1', 'a.1']
SALT = [0]


class Key(str):
    """a string whose hash is chosen by the simulator"""
    __slots__ = ()

    def __hash__(self):
        h = SALT[0]
        for ch in str.__str__(self):
            h = (h * 1000003 ^ ord(ch)) & 0xFFFFFFFF
        return h % 7 if SALT[0] % 3 == 0 else h

    def __eq__(self, o):
        return str.__eq__(self, o)

    def __ne__(self, o):
        return not str.__eq__(self, o)


def gen(r, depth=0):
    """JSON description of a nested dictionary: list of [key, value description]"""
    out = []
    x = 1. if depth else r.random()
    keys = KEYS if x > 0.1 else KEYS + ['n%d' % j for j in range(80)]
    for k in r.sample(keys, r.randint(1, 5) if x > 0.2 else r.randint(6, 16) if x > 0.1 else r.randint(17, 70)):
        t = r.randrange(10) if x > 0.1 else r.choice([2, 3, 4, 5, 5, 8, 9, 9])
        if t <= 1 and depth < 2:
            v = ['d', gen(r, depth + 1)]
        elif t == 2:
            v = ['m', [r.choice([0., 1.5, -2., 1e-8, 3.]) for _ in range(4)]]
        elif t == 3:
            v = ['s', r.choice(['x', 'y', '', 'text'])]
        elif t == 4:
            v = ['l', [['i', r.randrange(3)] for _ in range(r.randint(0, 3))]]
        elif t == 5:
            v = ['i', r.randrange(5)]
        elif t == 6 and depth < 2:
            v = ['ld', [gen(r, depth + 1) for _ in range(r.randint(1, 2))]]
        elif t == 7 and depth < 2:
            v = ['ad', [gen(r, depth + 1) for _ in range(r.randint(1, 3))]]
        elif t == 8:
            v = ['b', r.random() < 0.5]
        else:
            v = ['f', r.choice([0., 1., 1. + 1e-7, 2.5, -1., 1e3])]
        out.append([k, v])
    return out


def change(r, d, p, same_keys=False):
    """a copy with some values, types or keys different"""
    out = []
    for k, v in d:
        x = r.random() * (1 - 0.4 * p) + 0.4 * p if same_keys and p < 1 else r.random()
        if x < p * 0.25:
            continue
        if x < p * 0.4:
            out.append([r.choice(KEYS) + "'", v])
            continue
        t, w = v
        if t == 'd':
            v = ['d', change(r, w, p, same_keys)]
        elif t in ('ld', 'ad'):
            v = [t, [change(r, y, p, same_keys) for y in w]]
        elif x < p:
            if t == 'f':
                v = ['f', w + r.choice([1e-9, 1e-3, 1.])]
            elif t == 'i':
                v = r.choice([['i', w + 1], ['f', float(w)], ['s', 'x']])
            elif t == 'm':
                v = ['m', [y + r.choice([0., 1e-9, 1.]) for y in w]]
            elif t == 's':
                v = ['s', w + '!']
            elif t == 'b':
                v = ['b', not w]
            elif t == 'l':
                v = ['l', [['i', y[1] + r.choice([0, 1])] for y in w]]
        out.append([k, v])
    if not same_keys and r.random() < p * 0.3:
        out.append(['extra%d' % r.randrange(3), ['i', 1]])
    return out


def make(d, r, hashed):
    """the dictionary with its keys inserted in an order drawn from r (sorted when r is None)"""
    items = sorted(d, key=lambda kv: kv[0])
    if r is not None:
        r.shuffle(items)
    out = {}
    for k, v in items:
        out[Key(k) if hashed else k] = value(v, r, hashed)
    return out


def value(v, r, hashed):
    t, w = v
    if t == 'd':
        return make(w, r, hashed)
    if t == 'ld':
        return [make(x, r, hashed) for x in w]
    if t == 'ad':
        a = np.empty((len(w),), dtype=object)
        for i, x in enumerate(w):
            a[i] = make(x, r, hashed)
        return a
    if t == 'm':
        return np.array(w).reshape((2, 2))
    if t == 'l':
        return [y[1] for y in w]
    return w


def ell_dict(d, r):
    items = [[k, v] for k, v in sorted(d.items())]
    if r is not None:
        r.shuffle(items)
    return {k: (np.array(v) if isinstance(v, list) else v) for k, v in items}


class P(Prop):
    id = 'C14'
    quick_runs = 900
    thorough_runs = 150000
    rule = ('nested dictionaries (and ellipsoids and hyperplanes made from dictionaries) with equal, different and missing '
            'keys are compared with 4-10 insertion orders and seeded key hashes in 1-3 simulated threads; verdict and '
            'report must be those of the sorted order; distinct by contents, orders and switches')

    def spec(self, rng, i):
        bases = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(['dict', 'dict', 'dict', 'list', 'vec', 'ell', 'hyp'])
            if kind in ('ell', 'hyp'):
                bases.append([kind, self.gen_objs(rng, kind), rng.random() < 0.6])
                continue
            m = 1 if kind == 'dict' else rng.randint(1, 3)
            xs = [gen(rng) for _ in range(m)]
            p = rng.choice([0.0, 0.15, 0.4, 0.4, 1.5])
            same_keys = rng.random() < 0.5
            ys = [change(rng, x, p, same_keys) for x in xs]
            bases.append([kind, [xs, ys], rng.choice([0., 1e-6]), rng.choice([None, 1e-3])])
        nt = rng.choice([1, 2, 2, 3])
        ths, k = [], 0
        same = rng.randrange(1 << 30) if rng.random() < 0.4 else None      # in several threads the very same objects
        for t in range(nt):
            th = []
            for _ in range(rng.choice([2, 3])):
                th.append({'id': k, 'base': rng.randrange(len(bases)), 'order': rng.randrange(1 << 30),
                           'hashed': rng.random() < 0.5})
                if same is not None and rng.random() < 0.85:
                    th[-1].update(order=same, hashed=bool(same % 2))
                k += 1
            ths.append(th)
        spec = {'threads': ths, 'bases': bases, 'seed': rng.randrange(1 << 48), 'salt': rng.randrange(1 << 30)}
        if nt > 1:
            return (work.apply_sched if same is None else work.lag_sched)(spec, rng, lambda o: 700)
        spec['switches'] = []
        return spec

    def gen_objs(self, rng, kind):
        n = rng.randint(1, 3)

        def one():
            if kind == 'ell':
                q = [[(1. + a) if a == b else 0. for b in range(n)] for a in range(n)]
                d = {'shape_mat': q, 'center_vec': [float(rng.randrange(3)) for _ in range(n)]}
            else:
                d = {'normal_vec': [float(rng.randrange(1, 4)) for _ in range(n)], 'shift': float(rng.randrange(1, 3))}
            if rng.random() < 0.5:
                d['abs_tol'] = rng.choice([1e-7, 2e-7])
            if rng.random() < 0.5:
                d['rel_tol'] = rng.choice([1e-6, 2e-6])
            if kind == 'ell' and rng.random() < 0.5:
                d['n_plot_2d_points'] = rng.choice([10, 20])
                d['n_plot_3d_points'] = rng.choice([10, 20])
            return d
        a = [one() for _ in range(rng.randint(1, 3))]
        b = [dict(x) for x in a]
        if rng.random() < 0.7:
            b[rng.randrange(len(b))] = one()
        return [a, b]

    def case(self, base, r, hashed):
        """function making the comparison, arguments with the given orders"""
        L = self.L
        if base[0] in ('ell', 'hyp'):
            cls = L.Ellipsoid if base[0] == 'ell' else L.Hyperplane
            x = cls.from_dict([ell_dict(d, r) for d in base[1][0]])
            y = cls.from_dict([ell_dict(d, r) for d in base[1][1]])
            return lambda: cls.is_equal(x, y, base[2])
        kind, (xs, ys), tol, rel = base
        x = [make(d, r, hashed) for d in xs]
        y = [make(d, r, hashed) for d in ys]
        if kind == 'dict':
            return lambda: L.dict.dict_compare(x[0], y[0], tol, rel)
        if kind == 'list':
            return lambda: L.dict.dict_compare(x, y, tol, rel)
        ax, ay = np.empty((len(x),), dtype=object), np.empty((len(y),), dtype=object)
        for i in range(len(x)):
            ax[i], ay[i] = x[i], y[i]
        return lambda: L.dict.dict_compare_vec(ax, ay, tol, rel)

    def execute(self, spec):
        L = self.L
        viol = []
        SALT[0] = spec['salt']
        sys.stderr = Sink()
        refs = []
        for b in spec['bases']:
            f = self.case(b, None, False)
            try:
                refs.append(work.outcome('ok', f(), L))
            except Exception as e:
                refs.append(work.outcome('exc', e, L))
        cases = {}
        for o in (o for t in spec['threads'] for o in t):
            key = (o['base'], o['order'], o['hashed'])
            if key not in cases:
                cases[key] = self.case(spec['bases'][o['base']], random.Random(o['order']), o['hashed'])
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        n = [0]
        trace = len(spec['threads']) > 1

        def body_of(ops):
            def body(th):
                for o in ops:
                    f = cases[o['base'], o['order'], o['hashed']]
                    p = work.plan_for(spec, o, sw)
                    p.trace = trace
                    kind, val, _ = sim.call(th, o['id'], p, f)
                    n[0] += 1
                    out = work.outcome(kind, val, L)
                    if not canon.same(out, refs[o['base']]) or repr(out) != repr(refs[o['base']]):
                        viol.append({'class': 'order', 'msg': 'comparison %d of contents %d (%s), keys in order %d%s, gives '
                                     '%s; in sorted order %s' % (
                                         o['id'], o['base'], spec['bases'][o['base']][0], o['order'],
                                         ' with chosen hashes' if o['hashed'] else '', canon.brief(out, 600),
                                         canon.brief(refs[o['base']], 600))})
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        sim.run()
        viol += work.problem_viol(sim)
        eq = sum(r[0] == 'returns' and 'False' not in repr(r) for r in refs)
        st = work.sim_stats(sim, spec, {'ops': n[0], 'contents_equal': eq, 'contents': len(refs),
                                        'contents_raising': sum(r[0] == 'raises' for r in refs),
                                        'histories': [catalog.hash_key((repr(spec['threads']), repr(spec['bases'])))]})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
