"""C02: objects capture one configuration at construction and keep it for ever."""
import copy
import pickle
import sys
import random
import numpy as np

from .base import Sink
from .conf_base import ConfProp, Uniq, run_history, scal, settings_of, build_form, Q2, C2, N2
from .. import work, confmodel, canon, catalog, kernel

ELL_FORMS = ['ell0', 'ell1', 'ell2', 'ell2', 'ell_rep', 'ell_dict']
HYP_FORMS = ['hyp0', 'hyp2', 'hyp2', 'hyp_rep', 'hyp_dict']
BARE = ['ell_sum', 'ell_sum_ia', 'ell_neg', 'ell_polar', 'ell_ball', 'hyp_neg']
SAME = ['get_copy', 'get_copy', 'get_copy2', 'rep_mat', 'rep_mat', 'copy', 'deepcopy', 'pickle', 'dict']
ELL_COPY = SAME + ['get_projection', 'copy_projection']
Q3 = np.array([[2.0, 0.3, 0.1], [0.3, 1.0, -0.2], [0.1, -0.2, 1.5]])
C3 = np.array([0.5, -1.0, 0.25])
BASIS = {2: np.array([[0.6], [0.8]]), 3: np.array([[1., 0.], [0., 1.], [0., 0.]])}
LARGE = {'abs_tol': 0.05, 'rel_tol': 0.07, 'reg_tol': 0.05, 'n_plot_2d_points': 7, 'n_plot_3d_points': 9,
         'n_time_grid_points': 5, 'ode_solver_name': 'ode113', 'is_ode_norm_control': False,
         'is_enabled_ode_solver_options': True, 'version': 'large', 'is_verbose': False}
SMALL = dict(LARGE, abs_tol=1e-13, rel_tol=1e-13, reg_tol=1e-13, n_plot_2d_points=333, n_plot_3d_points=310,
             version='small', is_verbose=True)


def copies(L, obj, how):
    cls = type(obj)
    if how == 'get_copy':
        return list(np.ravel(cls.get_copy(obj)))
    if how == 'get_copy2':
        return list(np.ravel(cls.get_copy([obj, obj])))
    if how == 'rep_mat':
        return list(np.ravel(obj.rep_mat([1, 2])))
    if how == 'copy':
        return [copy.copy(obj)]
    if how == 'deepcopy':
        return copy.deepcopy([obj, obj])[:1]
    if how == 'pickle':
        return [pickle.loads(pickle.dumps(obj, k)) for k in (0, 2, 4)]     # 5 cannot save two empty arrays
    if how == 'dict':
        return list(np.ravel(cls.from_dict(list(np.ravel(cls.to_dict([obj], True)[0])))))
    n = int(np.ravel(cls.dimension([obj]))[0])
    if how == 'get_projection':
        return list(np.ravel(cls.get_projection([obj], BASIS[n])))
    c = cls.get_copy([obj, obj])
    return list(np.ravel(cls.projection(c, BASIS[n])))


def behaviour(L, obj):
    """what an object does with its settings"""
    out = []

    def add(name, f):
        try:
            out.append((name, 'returns', canon.canon(f(), L)))
        except Exception as e:
            out.append((name, 'raises', type(e).__name__, str(e)))
    cls = type(obj)
    if isinstance(obj, L.Ellipsoid):
        n = int(obj.get_center_vec().size)
        add('settings', lambda: settings_of(L, obj))
        add('to_dict', lambda: cls.to_dict([obj], True)[0])
        add('parameters', obj.parameters)
        add('dimension', lambda: cls.dimension([obj], return_rank=True))
        if n:
            add('is_degenerate', lambda: cls.is_degenerate([obj]))
            add('rho', lambda: cls.rho(obj, np.eye(n)))
            add('is_internal', lambda: cls.is_internal([obj], np.ones((n, 1)), 'u'))
            add('is_equal', lambda: cls.is_equal([obj], [obj], True))
        if n in (2, 3):
            add('boundary', lambda: obj.get_boundary().shape)
            add('boundary by factor', lambda: obj.get_boundary_by_factor(2.).shape)
            add('rho boundary', lambda: [x.shape for x in obj.get_rho_boundary()])
    else:
        add('settings', lambda: settings_of(L, obj))
        add('to_dict', lambda: cls.to_dict([obj], True)[0])
        add('dimension', lambda: cls.dimension([obj]))
        n = int(np.ravel(obj.parameters()[0]).size)
        if n > 1:
            v, s = obj.parameters()
            v = np.ravel(v)
            x0 = v * float(np.ravel(s)[0]) / float(v @ v)
            u = v / np.linalg.norm(v)
            add('contains', lambda: [cls.contains([obj], (x0 + u * d).reshape(n, 1)) for d in
                                     (0., 1e-9, 1e-3)])
            add('is_parallel', lambda: cls.is_parallel([obj], [obj]))
            add('is_equal', lambda: cls.is_equal([obj], [obj], True))
    return out


class P(ConfProp):
    id = 'C02'
    quick_runs = 1000
    thorough_runs = 200000
    rule = ('2-4 simulated threads create ellipsoids and hyperplanes (9 direct forms, 6 operations that create objects), '
            'with some settings given, copy objects (copies, replicas, projections), and replace or change the '
            'configuration; every object has to be explained by one configuration of a sequential order; afterwards '
            'settings and behaviour of all objects are compared under other configurations; non-trivial: at least one '
            'switch inside a call; distinct by the hash of the switches')

    def spec(self, rng, i):
        u = Uniq(rng)
        nt = rng.choice([2, 2, 3, 3, 4])
        per = rng.choice([2, 3, 4])
        threads, k = [], 0
        mut = rng.choice(['replace', 'replace', 'set', 'both'])
        names = confmodel.ELL
        heavy = 0
        for t in range(nt):
            th = []
            for _ in range(per):
                x = rng.random()
                if x < 0.42:
                    y = rng.random()
                    if y < 0.55:
                        form, over = rng.choice(ELL_FORMS), confmodel.ELL
                    elif y < 0.8 or heavy >= 1:
                        form, over = rng.choice(HYP_FORMS), confmodel.HYP
                    else:
                        form, over = rng.choice(BARE), []
                        heavy += 1
                    kw = {n: u.val(n) for n in over if rng.random() < 0.25}
                    op = ['new', form, kw]
                elif x < 0.5:
                    nm = rng.sample(confmodel.ORDER, rng.choice([1, 2, 4]))
                    op = ['parse', {n: u.val(n) for n in nm if rng.random() < 0.3}, nm if rng.random() < 0.8 else None]
                elif x < 0.62:
                    op = ['copy', rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), rng.choice(ELL_COPY)]
                elif x < 0.68:
                    op = ['dump']
                elif mut == 'set' or (mut == 'both' and rng.random() < 0.5):
                    n = rng.choice([c for c in names if c in confmodel.SETTERS])
                    op = ['set', n, u.val(n)]
                elif rng.random() < 0.9:
                    op = ['replace', u.full()]
                else:
                    op = ['init']
                th.append({'id': k, 'do': op})
                k += 1
            threads.append(th)
        spec = {'threads': threads, 'seed': rng.randrange(1 << 48), 'base': [rng.randrange(1, 60) for _ in range(4)]}
        return work.apply_sched(spec, rng, lambda o: 40 if o['do'][0] in ('set', 'replace', 'dump', 'init') else 400)

    def execute(self, spec):
        L = self.L
        viol = []
        b = spec['base']
        ekw = {'abs_tol': 1.5e-7 + b[0] * 1e-10, 'rel_tol': 2e-6 + b[1] * 1e-9, 'n_plot_2d_points': 60 + b[2],
               'n_plot_3d_points': 60 + b[3]}
        hkw = {k: ekw[k] for k in confmodel.HYP}
        originals = [L.Ellipsoid(C2, Q2, **ekw), L.Ellipsoid(C3, Q3, **ekw), L.Hyperplane(N2, 2., **hkw),
                     L.Hyperplane(C3, -1., **hkw),
                     L.Ellipsoid(**ekw), L.Ellipsoid(C2, np.zeros((2, 2)), **ekw), L.Ellipsoid(np.eye(3), **ekw),
                     L.Ellipsoid(C3, np.diag([1., 0., 0.]), **ekw), L.Ellipsoid(np.array([[4.]]), **ekw),
                     L.Hyperplane(**hkw)]
        ell = [isinstance(o, L.Ellipsoid) for o in originals]
        want = [settings_of(L, o) for o in originals]
        out = []

        def do_copy(sim, th, o, plan, made):
            j = o['do'][1]
            obj = originals[j]
            how = o['do'][2]
            if how not in SAME and (not ell[j] or obj.get_center_vec().size < 2) or how == 'dict' and j in (4, 9):
                how = 'get_copy'
            kind, val, n = sim.call(th, o['id'], plan, lambda: copies(L, obj, how))
            if kind != 'ok':
                viol.append({'class': 'copy', 'msg': '%s of object %d raises %r' % (how, j, val)})
                return
            for c in val:
                got = settings_of(L, c)
                out.append((how, j, c))
                if got != want[j]:
                    viol.append({'class': 'copy', 'msg': '%s of an object with settings %s has settings %s' % (
                        how, want[j], got)})
        old, sys.stderr = sys.stderr, Sink()
        sim, hist, made, touched = run_history(self, spec, do_copy)
        viol += work.problem_viol(sim)
        und = 0
        if not viol:
            last = (99, sim.stamp(), sim.stamp(), ['dump'],
                    ['ok', {k: scal(v) for k, v in L.Properties.get_prop_dict().items()}])
            why = confmodel.linearizable(self.model, dict(self.defaults), hist + [last])
            if why == 'undecided':
                und = 1
            elif why:
                viol.append({'class': 'order', 'msg': why})
        nobj = 0
        if not viol:
            seen = {}
            for h in hist:
                pass
            objs = [(op, o) for op, os_ in made for o in os_] + [(['original', j], o) for j, o in enumerate(originals)]
            objs += [(['copy', how, j], c) for how, j, c in out]
            r = random.Random(str(spec['seed']) + 'beh')
            nobj = len(objs)
            if nobj > 6:
                objs = r.sample(objs, 6)
            sets0 = [settings_of(L, o) for _, o in objs]
            res = []
            for cfg in (LARGE, SMALL, None):
                if cfg is None:
                    L.Properties.init()
                else:
                    L.Properties.set_conf_repo_mgr(dict(cfg))
                res.append([behaviour(L, o) for _, o in objs])
            for q, (what, o) in enumerate(objs):
                for w, rr in zip(('tiny tolerances', 'default configuration'), res[1:]):
                    for x, y in zip(res[0][q], rr[q]):
                        if not canon.same(x, y):
                            viol.append({'class': 'behaviour', 'msg': 'object %s: %s under a configuration with large '
                                         'tolerances, %s under %s' % (what, canon.brief(x), canon.brief(y), w)})
                if settings_of(L, o) != sets0[q]:
                    viol.append({'class': 'changed', 'msg': 'object %s: settings %s became %s' % (
                        what, sets0[q], settings_of(L, o))})
            for j, o in enumerate(originals):
                if settings_of(L, o) != want[j]:
                    viol.append({'class': 'changed', 'msg': 'original %d: settings %s became %s' % (
                        j, want[j], settings_of(L, o))})
        sys.stderr = old
        st = work.sim_stats(sim, spec, {'ops': len(hist) + len(out), 'undecided': und, 'objects': nobj})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}
