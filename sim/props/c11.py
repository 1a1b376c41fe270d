"""C11: in-place projection is all-or-nothing."""
import sys
import random
import numpy as np

from .base import Prop, Sink
from .. import kernel, catalog, canon, work
from .c10 import injected


def make_ells(L, rec):
    """distinct ellipsoids by recipe"""
    out = []
    for n, kind, seed in rec:
        r = catalog.Rng(seed, L, catalog.Context())
        kw = {}
        if seed % 3 == 0:
            kw = {'abs_tol': 3e-7, 'rel_tol': 2e-6, 'n_plot_2d_points': 21, 'n_plot_3d_points': 22}
        if kind == 'deg':
            out.append(L.Ellipsoid(r.vec(n), r.deg_raw(n), **kw))
        elif kind == 'huge':
            q = r.spd_raw(n) * 10. ** r.i(7, 13)
            d = np.diag(np.diag(q))
            try:
                out.append(L.Ellipsoid(r.vec(n), q, **kw))
            except ValueError:
                out.append(L.Ellipsoid(r.vec(n), d, **kw))
        elif kind == 'ball':
            out.append(L.Ellipsoid(np.eye(n) * [1., 1., 4.][seed % 3], **kw))
        elif kind == 'diag':
            out.append(L.Ellipsoid(r.vec(n) * (seed % 2), np.diag(1. + np.arange(n)), **kw))
        elif kind == 'point':
            out.append(L.Ellipsoid(r.vec(n), np.zeros((n, n)), **kw))
        elif kind == 'int':
            out.append(L.Ellipsoid(np.arange(n), np.diag(np.arange(1, n + 1)), **kw))
        else:
            out.append(L.Ellipsoid(r.vec(n), r.spd_raw(n), **kw))
    return out


def make_basis(kind, n, k, seed):
    r = np.random.RandomState(seed)
    q = np.linalg.qr(r.randn(n, n))[0]
    if kind == 'orth':
        return q[:, :k]
    if kind == 'axes':
        return np.eye(n)[:, r.permutation(n)[:k]]
    if kind == 'scaled':
        return np.eye(n)[:, r.permutation(n)[:k]] * (1. + np.arange(k))
    if kind == 'full':
        return q
    if kind == 'perm':
        return np.eye(n)[:, r.permutation(n)] * r.choice([1., 1., 2., -1.], n)
    if kind == 'eye':
        return np.eye(n)
    if kind == 'first':
        return np.eye(n)[:, :k]
    if kind == 'int':
        return np.eye(n, dtype=int)[:, r.permutation(n)[:k]] * 2
    if kind == 'skew':                     # columns with a clearly positive scalar product
        b = q[:, :max(2, k)].copy()
        b[:, 0] += b[:, 1]
        return b
    if kind == 'zero':
        b = q[:, :k].copy()
        b[:, -1] = 0.
        return b
    if kind == 'tall':
        return np.linalg.qr(r.randn(n + 1, n + 1))[0][:, :k]
    if kind == 'wide':
        return np.hstack((q, q[:, :1]))
    if kind == 'text':
        return np.array([['a'] * k] * n)
    if kind == 'nan':
        b = q[:, :k].copy()
        b[0, 0] = np.nan
        return b
    return q[:, 0]                         # 'flat'


GOOD = ('orth', 'axes', 'scaled', 'full', 'perm', 'eye', 'first', 'int')
BAD = ('skew', 'tall', 'wide', 'text')


class P(Prop):
    id = 'C11'
    quick_runs = 2000
    thorough_runs = 150000
    rule = ('in-place projections of arrays of 1-6 ellipsoids, with repeated objects, mixed kinds and scales, valid and '
            'invalid bases, in one or two simulated threads, cut short by one injected fault or none; the oracle is '
            'B\'QB and B\'c computed apart; non-trivial: more than one ellipsoid or a fault; distinct by inputs and fault')

    def spec(self, rng, i):
        ths, k = [], 0
        nt = rng.choice([1, 1, 1, 2])
        for t in range(nt):
            n = rng.choice([2, 2, 3, 3, 4, 5])
            m = rng.choice([1, 2, 3, 4])
            kinds = rng.choice([['spd'], ['spd', 'deg'], ['spd', 'huge'], ['spd', 'int', 'deg'], ['spd', 'ball', 'diag'], ['ball', 'diag', 'point', 'spd']])
            rec = [[n, rng.choice(kinds), rng.randrange(100000)] for _ in range(m)]
            if rng.random() < 0.1:
                rec[-1][0] = n + 1                 # one of another dimension
            order = list(range(m))
            if rng.random() < 0.5:
                order += [rng.randrange(m) for _ in range(rng.choice([1, 2, 3]))]
                rng.shuffle(order)
            bk = rng.choice(GOOD * 2 + BAD * 2 + ('zero', 'nan', 'flat'))
            o = {'id': k, 'rec': rec, 'order': order, 'basis': [bk, n, rng.randint(1, n), rng.randrange(100000)],
                 'form': rng.choice(['array', 'list', 'column', 'row'])}
            if rng.random() < 0.65:
                kind = rng.choice(['mem', 'mem', 'kbd', 'linalg'])
                o['faults'] = [[kind, rng.randint(1, 3 * m) if kind == 'linalg' else rng.randint(1, 150 + 750 * m)]]
            ths.append([o])
            k += 1
        spec = {'threads': ths, 'seed': rng.randrange(1 << 48), 'conf': rng.random() < 0.2}
        if nt > 1:
            return work.apply_sched(spec, rng, lambda o: 1500)
        spec['switches'] = []
        return spec

    def viable(self, spec):
        return any(spec['threads'])

    def simplify(self, spec):
        out = []
        for ti, th in enumerate(spec['threads']):
            for o in th:
                for j in range(len(o['order'])):
                    if len(o['order']) > 1:
                        ths = [list(t) for t in spec['threads']]
                        ths[ti] = [dict(o, order=o['order'][:j] + o['order'][j + 1:])]
                        out.append(dict(spec, threads=ths))
        return out

    def execute(self, spec):
        L = self.L
        viol = []
        E = L.Ellipsoid
        if spec['conf']:
            L.Properties.set_abs_tol(2e-7)
            L.Properties.set_n_plot_2d_points(35)
        jobs = {}
        for t in spec['threads']:
            for o in t:
                es = make_ells(L, o['rec'])
                arr = np.empty((len(o['order']),), dtype=object)
                for j, a in enumerate(o['order']):
                    arr[j] = es[a]
                inp = {'array': arr, 'list': list(arr), 'column': arr.reshape((-1, 1)), 'row': arr.reshape((1, -1))}[
                    o['form']]
                jobs[o['id']] = {'es': es, 'inp': inp, 'arr': arr, 'basis': make_basis(*o['basis']),
                                 'was': [(e.get_center_vec(), e.get_shape_mat(), canon.settings(e, L)) for e in es],
                                 'used': sorted(set(o['order'])),
                                 'twin': [E.get_copy([e]).ravel()[0] for e in es]}
        twins = {i: [canon.exact(canon.canon(x, L)) for x in j['twin']] for i, j in jobs.items()}
        conf = canon.exact(canon.canon(L.Properties.get_prop_dict(), L))
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)
        res = {}

        def body_of(ops):
            def body(th):
                for o in ops:
                    j = jobs[o['id']]
                    b0 = j['basis'].copy()
                    kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw),
                                            lambda: E.projection(j['inp'], j['basis']))
                    res[o['id']] = (kind, val)
                    if not (np.array_equal(b0, j['basis']) or o['basis'][0] == 'nan'):
                        viol.append({'class': 'basis', 'msg': 'the basis matrix was changed'})
            return body
        for t in spec['threads']:
            sim.add(body_of(t))
        old, sys.stderr = sys.stderr, Sink()
        sim.run()
        viol += work.problem_viol(sim)
        if not viol:
            for t in spec['threads']:
                for o in t:
                    fired = [f for f in sim.faults_fired if f[0] == o['id']]
                    viol += self.judge(o, jobs[o['id']], res[o['id']], fired, L)
                    tw = [canon.exact(canon.canon(x, L)) for x in jobs[o['id']]['twin']]
                    if tw != twins[o['id']]:
                        viol.append({'class': 'copy', 'msg': 'a copy made before the projection was changed by it'})
            if canon.exact(canon.canon(L.Properties.get_prop_dict(), L)) != conf:
                viol.append({'class': 'config', 'msg': 'the configuration was changed'})
        if not viol:
            viol += self.again(spec, jobs, res, L)
        h = catalog.hash_key((repr(spec['threads']), sim.faults_fired))
        st = work.sim_stats(sim, spec, {'ops': len(jobs), 'histories': [h] if sim.faults_fired or any(
            len(o['order']) > 1 for t in spec['threads'] for o in t) else [],
            'bases': {o['basis'][0]: 1 for t in spec['threads'] for o in t},
            'repeated_objects': sum(len(o['order']) > len(set(o['order'])) for t in spec['threads'] for o in t)})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def state(self, e, was, basis, L):
        """'same', 'projected', or a description"""
        c, q, s = e.get_center_vec(), e.get_shape_mat(), canon.settings(e, L)
        if s != was[2]:
            return 'settings changed from %s to %s' % (was[2], s)
        if c.shape == was[0].shape and q.shape == was[1].shape and c.tobytes() == was[0].tobytes() and \
                q.tobytes() == was[1].tobytes():
            same = True
        else:
            same = False
        proj = False
        if basis is not None and basis.ndim == 2 and basis.dtype.kind in 'fiu' and basis.shape[0] == was[0].size:
            with np.errstate(all='ignore'):
                b = basis / np.sqrt(np.sum(basis * basis, 0))
                c2, q2 = b.T @ was[0], b.T @ was[1] @ b
            if c.shape == c2.shape and q.shape == q2.shape:
                sc, sq = np.max(np.abs(was[0])) + 1e-300, np.max(np.abs(was[1])) + 1e-300
                proj = bool(np.max(np.abs(c - c2)) <= 1e-8 * sc and np.max(np.abs(q - q2)) <= 1e-8 * sq)
        if same and proj:
            return 'both'
        if same:
            return 'same'
        if proj:
            return 'projected'
        return 'neither the original nor the projection: centre %s, shape of size %s' % (c.tolist(), q.shape)

    def judge(self, o, j, res, fired, L):
        viol = []
        kind, val = res
        what = 'projection of %d ellipsoids (order %s, %s) on a %r basis, faults %s' % (
            len(o['order']), o['order'], [r[1] for r in o['rec']], o['basis'][0], [f[1:] for f in fired])
        st = [self.state(j['es'][a], j['was'][a], j['basis'], L) for a in j['used']]
        unused = [self.state(j['es'][a], j['was'][a], None, L) for a in range(len(j['es'])) if a not in j['used']]
        if any(x != 'same' for x in unused):
            viol.append({'class': 'bystander', 'msg': '%s changed an ellipsoid that is not in the array' % what})
        if kind == 'ok':
            bad = [x for x in st if x not in ('projected', 'both')]
            if bad:
                viol.append({'class': 'incomplete', 'msg': '%s returned, but the ellipsoids are: %s' % (what, st)})
            flat = np.ravel(np.array(val, dtype=object))
            want = np.ravel(np.array(j['arr'], dtype=object))
            if len(flat) != len(want) or any(x is not y for x, y in zip(flat, want)):
                viol.append({'class': 'returned', 'msg': '%s returned other objects than it was given' % what})
        else:
            mine = injected(val, fired)
            if not mine and not isinstance(val, Exception):
                viol.append({'class': 'error', 'msg': '%s raised %r' % (what, val)})
            allowed = ('same', 'both')
            if isinstance(val, KeyboardInterrupt):
                allowed = ('same', 'both', 'projected')
            bad = [x for x in st if x not in allowed]
            if bad:
                viol.append({'class': 'partial', 'msg': '%s raised %s, and left the ellipsoids: %s' % (
                    what, type(val).__name__, st)})
        dims = set(o['rec'][a][0] for a in j['used'])
        simple = not any(o['rec'][a][1] == 'huge' for a in j['used'])
        if not fired:
            if o['basis'][0] in BAD and not (o['basis'][0] == 'tall' and dims == {o['basis'][1] + 1}) and not (kind == 'exc' and isinstance(val, ValueError)):
                viol.append({'class': 'accepted', 'msg': '%s was not rejected' % what})
            if o['basis'][0] in GOOD and dims == {o['basis'][1]} and simple and kind != 'ok':
                viol.append({'class': 'rejected', 'msg': '%s raised %r' % (what, val)})
        return viol

    def again(self, spec, jobs, res, L):
        """the failed projection, repeated, does what it should have done"""
        viol = []
        for t in spec['threads']:
            for o in t:
                j = jobs[o['id']]
                kind, val = res[o['id']]
                if kind == 'ok' or not o.get('faults') or isinstance(val, KeyboardInterrupt):
                    continue
                try:
                    r = ('ok', L.Ellipsoid.projection(j['inp'], j['basis']))
                except Exception as e:
                    r = ('exc', e)
                for v in self.judge(o, j, r, [], L):
                    viol.append({'class': 'retry-' + v['class'], 'msg': 'repeated after a failure: ' + v['msg']})
        return viol

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
