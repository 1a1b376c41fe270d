"""Histories of configuration calls in simulated threads, checked against the sequential model."""
import sys
import random
import numpy as np

from .base import Prop, Sink
from .. import kernel, catalog, canon, work, confmodel
from ..engine import pmap, HarnessError

Q2 = np.array([[2.0, 0.3], [0.3, 1.0]])
C2 = np.array([0.5, -1.0])
N2 = np.array([1.0, 2.0])


def scal(x):
    return x.item() if isinstance(x, np.generic) else x


def settings_of(L, obj):
    out = list(canon.settings(obj, L))
    return out


def defaults_child(L):
    return L.Properties.get_prop_dict()


class Uniq(object):
    """unique valid values for every write"""

    def __init__(self, rng):
        self.k = rng.randrange(1, 50)
        self.rng = rng

    def val(self, name):
        self.k += 1
        k = self.k
        if name == 'abs_tol':
            return round(1e-7 * (1 + k * 0.001), 13)
        if name in ('rel_tol', 'reg_tol'):
            return round(1e-5 * (1 + k * 0.001), 11)
        if name in ('n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points'):
            return 20 + k
        if name in confmodel.BOOL:
            return self.rng.random() < 0.5
        if name == 'version':
            return 'v%d' % k
        return self.rng.choice(['ode45', 'ode23', 'ode113'])

    def full(self, fixed=None):
        d = {n: self.val(n) for n in confmodel.ORDER}
        d['is_verbose'] = False
        if fixed:
            d.update(fixed)
        ks = list(d)
        self.rng.shuffle(ks)
        return {k: d[k] for k in ks}


class ConfProp(Prop):
    def prepare(self):
        kind, val = pmap(defaults_child, [self.L])[0]
        if kind != 'ok':
            raise HarnessError('defaults: %s %s' % (kind, val))
        self.defaults = {k: scal(v) for k, v in val.items()}
        self.model = confmodel.Model(self.defaults)

    # -- performing one operation with the library
    def perform(self, op, made, touched):
        """returns a function to be run under control, giving a JSON-able result"""
        L = self.L
        P = L.Properties
        k = op[0]
        if k == 'set':
            f = getattr(P, 'set_' + op[1])
            return lambda: f(op[2])
        if k == 'get':
            f = getattr(P, 'get_' + op[1])
            return lambda: scal(f())
        if k == 'dump':
            return lambda: dict(P.get_prop_dict())
        if k == 'mgr':
            return lambda: dict(P.get_conf_repo_mgr())
        if k == 'replace':
            d = dict(op[1])
            return lambda: P.set_conf_repo_mgr(d)
        if k == 'init':
            return lambda: P.init()
        if k == 'parse':
            args = {a: (list(b) if isinstance(b, list) else b) for a, b in op[1].items()}
            names = None if op[2] is None else list(op[2])
            touched.append((op, args, dict(args), names, None if names is None else list(names)))

            def parse():
                a, b = P.parse_prop(args, names)
                return [[scal(x) for x in a], dict(b)]
            return parse
        kw = dict(op[2])
        touched.append((op, kw, dict(kw), None, None))
        form = op[1]

        def new():
            objs = build_form(L, form, kw)
            made.append((op, objs))
            out = [settings_of(L, o) for o in objs]
            return out
        return new


def build_form(L, form, kw):
    E, H = L.Ellipsoid, L.Hyperplane
    if form == 'ell0':
        return [E(**kw)]
    if form == 'ell1':
        return [E(Q2, **kw)]
    if form == 'ell2':
        return [E(C2, Q2, **kw)]
    if form == 'ell_rep':
        return list(E.from_rep_mat(C2, Q2, [2, 1], **kw).ravel())
    if form == 'ell_dict':
        d = dict(kw, shape_mat=Q2, center_vec=C2)
        return list(E.from_dict([d]).ravel())
    if form == 'ell_sum':
        a = E(C2, Q2, abs_tol=1e-7, rel_tol=1e-6, n_plot_2d_points=10, n_plot_3d_points=10)
        return list(np.ravel(E.minksum_ea([a, a], N2.reshape(2, 1))))
    if form == 'ell_sum_ia':
        a = E(C2, Q2, abs_tol=1e-7, rel_tol=1e-6, n_plot_2d_points=10, n_plot_3d_points=10)
        return list(np.ravel(E.minksum_ia([a, a], N2.reshape(2, 1))))
    if form == 'ell_neg':
        a = E(C2, Q2, abs_tol=1e-7, rel_tol=1e-6, n_plot_2d_points=10, n_plot_3d_points=10)
        return list(np.ravel(E.uminus([a, a])))
    if form == 'ell_polar':
        a = E(C2 * 0.1, Q2, abs_tol=1e-7, rel_tol=1e-6, n_plot_2d_points=10, n_plot_3d_points=10)
        return list(np.ravel(E.polar(np.array([a]))))
    if form == 'ell_ball':
        return [L.core.ell_unitball(2)]
    if form == 'hyp_neg':
        return list(np.ravel(H.uminus([H(N2, 2., abs_tol=1e-7, rel_tol=1e-6)])))
    if form == 'hyp0':
        return [H(**kw)]
    if form == 'hyp2':
        return [H(N2, 2., **kw)]
    if form == 'hyp_rep':
        return list(H.from_rep_mat(N2, 2., [1, 2], **kw).ravel())
    if form == 'hyp_dict':
        d = dict(kw, normal_vec=N2, shift=1.)
        return list(H.from_dict([d]).ravel())
    raise KeyError(form)


def run_history(prop, spec, extra=None):
    """execute spec['threads'] of configuration operations; returns sim, history, made, touched"""
    L = prop.L
    sim = work.make_sim(spec)
    sw = work.thread_switch_plan(spec)
    hist = []
    made = []
    touched = []

    def body_of(tid, ops):
        def body(th):
            for o in ops:
                op = o['do']
                if op[0] == 'copy':
                    extra(sim, th, o, work.plan_for(spec, o, sw), made)
                    continue
                f = prop.perform(op, made, touched)
                inv = sim.stamp()
                kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), f)
                ret = sim.stamp()
                if kind == 'ok':
                    got = ['ok', val]
                else:
                    got = ['rej', type(val).__name__, str(val)]
                if op[0] == 'new' and kind == 'ok':
                    for s in val:        # every object has to be explained by a configuration of its own
                        s = s[:2] if op[1].startswith('hyp') else s
                        hist.append((tid, inv, ret, op, ['ok', s]))
                else:
                    hist.append((tid, inv, ret, op, got))
        return body
    for t, ops in enumerate(spec['threads']):
        sim.add(body_of(t, ops))
    sim.run()
    return sim, hist, made, touched
