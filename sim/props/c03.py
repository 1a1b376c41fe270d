"""C03: invalid settings are contained and recoverable."""
import sys
import random

from .base import Sink
from .conf_base import ConfProp, Uniq, run_history, scal, settings_of, Q2, C2, N2
from .c02 import ELL_FORMS, HYP_FORMS, BARE, ELL_COPY, SAME, copies, behaviour
from .. import work, confmodel, canon

INF = float('inf')
BAD = {'tol': ['1e-6', None, 0.0, -1e-7, float('nan'), [1e-6], -INF, -0.0],
       'num': ['200', None, 20.5, [20], 0.1, INF, -INF, float('nan'), {}, 1e-300],
       'bool': ['yes', None, 2.5, []],
       'version': [None, 3, 2.1],
       'ode': ['ode99', None, 45, '']}
UNKNOWN = ['abs_tl', 'AbsTol', 'n_plot_points', '', 'abs_tol ', 'verbose', 'n_plot_2d_points_']


# equal to a valid value, but of another type
MATES = {'tol': ([1.0, 2.0], [1, 2, True]), 'bool': ([True, False], [1, 0, 1.0, 0.0])}


def bad(rng, name, u):
    k = ('tol' if name in confmodel.TOL else 'num' if name in confmodel.NUM else 'bool' if name in confmodel.BOOL
         else 'version' if name == 'version' else 'ode')
    if u.mates and k in MATES:
        return rng.choice(MATES[k][1])
    return rng.choice(BAD[k])


def enc(v):
    return 'NaN!' if isinstance(v, float) and v != v else v


class Mates(Uniq):
    mates = False

    def val(self, name):
        v = Uniq.val(self, name)
        return self.rng.choice(MATES['tol'][0]) if self.mates and name in confmodel.TOL else v


class P(ConfProp):
    id = 'C03'
    quick_runs = 1100
    thorough_runs = 200000
    rule = ('2-4 simulated threads configure invalid values (setters, whole configurations), create and copy objects, '
            'parse settings with invalid and unknown ones given explicitly; the history has to be explained by a '
            'sequential model that says which calls are rejected; then existing objects are examined, valid values are '
            'configured again and every thread works again; non-trivial: at least one call was rejected; distinct by '
            'history and switches')

    def spec(self, rng, i):
        u = Mates(rng)
        u.mates = rng.random() < 0.3
        nt = rng.choice([1, 2, 2, 3, 3, 4])
        per = rng.choice([2, 3, 4]) if nt > 1 else rng.choice([4, 6])
        focus = rng.sample(confmodel.SETTERS + ['reg_tol', 'ode_solver_name'], 2) + ['abs_tol', 'n_plot_2d_points']
        threads, k, heavy = [], 0, 0
        for t in range(nt):
            th = []
            for _ in range(per):
                x = rng.random()
                if x < 0.35:
                    y = rng.random()
                    if y < 0.5:
                        form, over = rng.choice(ELL_FORMS), confmodel.ELL
                    elif y < 0.85 or heavy >= 1:
                        form, over = rng.choice(HYP_FORMS), confmodel.HYP
                    else:
                        form, over = rng.choice(BARE), []
                        heavy += 1
                    q = rng.choice([0.2, 0.5, 0.8])
                    kw = {n: (bad(rng, n, u) if rng.random() < 0.12 else u.val(n)) for n in over if rng.random() < q}
                    op = ['new', form, kw]
                elif x < 0.52:
                    nm = rng.sample(confmodel.ORDER, rng.choice([1, 2, 3, 5]))
                    args = {n: (bad(rng, n, u) if rng.random() < 0.3 else u.val(n)) for n in nm if rng.random() < 0.5}
                    if rng.random() < 0.3:
                        args['other'] = rng.choice([1, 'z', None])
                    if rng.random() < 0.2:
                        nm.insert(rng.randrange(len(nm) + 1), rng.choice(UNKNOWN))
                    op = ['parse', args, nm if rng.random() < 0.85 else None]
                elif x < 0.6:
                    op = ['copy', rng.randrange(3), rng.choice(ELL_COPY)]
                elif x < 0.66:
                    op = rng.choice([['dump'], ['get', rng.choice(focus)]])
                elif x < 0.85:
                    n = rng.choice([c for c in focus if c in confmodel.SETTERS] or ['abs_tol'])
                    op = ['set', n, bad(rng, n, u) if rng.random() < 0.6 else u.val(n)]
                elif x < 0.96:
                    fx = {n: bad(rng, n, u) for n in focus if rng.random() < 0.3}
                    op = ['replace', u.full(fx)]
                else:
                    op = ['init']
                th.append({'id': k, 'do': op})
                k += 1
            threads.append(th)
        spec = {'threads': threads, 'seed': rng.randrange(1 << 48), 'start': [], 'recover': rng.choice(
            ['set', 'replace', 'init']), 'lists': ['start']}
        for n in focus:
            if rng.random() < 0.3 and n in confmodel.SETTERS:
                spec['start'].append([n, bad(rng, n, u)])
        if nt > 1:
            return work.apply_sched(spec, rng, lambda o: 40 if o['do'][0] in ('set', 'replace', 'dump', 'get', 'init')
                                    else 300)
        spec['switches'] = []
        return spec

    def execute(self, spec):
        L = self.L
        P = L.Properties
        viol = []
        ekw = {'abs_tol': 1.5e-7, 'rel_tol': 2e-6, 'n_plot_2d_points': 31, 'n_plot_3d_points': 32}
        hkw = {k: ekw[k] for k in confmodel.HYP}
        originals = [L.Ellipsoid(C2, Q2, **ekw), L.Hyperplane(N2, 2., **hkw), L.Ellipsoid(Q2)]
        want = [settings_of(L, o) for o in originals]
        beh0 = [behaviour(L, o) for o in originals]
        old, sys.stderr = sys.stderr, Sink()
        ncopy = [0]

        def do_copy(sim, th, o, plan, made):
            j, how = o['do'][1:]
            if j == 1 and how not in SAME:
                how = 'get_copy'
            kind, val, n = sim.call(th, o['id'], plan, lambda: copies(L, originals[j], how))
            ncopy[0] += 1
            if kind != 'ok':
                viol.append({'class': 'copy', 'msg': '%s of an object that has all its settings raises %r' % (how, val)})
            else:
                for c in val:
                    if settings_of(L, c) != want[j]:
                        viol.append({'class': 'copy', 'msg': '%s of an object with settings %s has %s' % (
                            how, want[j], settings_of(L, c))})
        start = dict(self.defaults)
        for n, v in spec['start']:
            getattr(P, 'set_' + n)(v)
            start[n] = v
        sim, hist, made, touched = run_history(self, spec, do_copy)
        viol += work.problem_viol(sim)
        und = 0
        if not viol:
            last = (99, sim.stamp(), sim.stamp(), ['dump'],
                    ['ok', {k: scal(v) for k, v in P.get_prop_dict().items()}])
            why = self.explain(start, hist + [last])
            if why == 'undecided':
                und = 1
            elif why:
                viol.append({'class': 'order', 'msg': why})
        viol += self.untouched(touched)
        if not viol:
            for j, o in enumerate(originals):
                now = behaviour(L, o)
                for x, y in zip(beh0[j], now):
                    if not canon.same(x, y):
                        viol.append({'class': 'existing', 'msg': 'existing object %d: %s before, %s under configuration '
                                     '%s' % (j, canon.brief(x), canon.brief(y), P.get_prop_dict())})
        rej = sum(1 for h in hist if h[4][0] == 'rej')
        if not viol:
            viol += self.recover(spec)
        sys.stderr = old
        kinds = {}
        for h in hist:
            kinds['%s:%s' % (h[3][0], h[4][0])] = kinds.get('%s:%s' % (h[3][0], h[4][0]), 0) + 1
        hh = hash((repr(spec['threads']), sim.switch_hash)) & 0xFFFFFFFFFFFF
        st = work.sim_stats(sim, spec, {'ops': len(hist) + ncopy[0], 'undecided': und, 'rejected': rej,
                                        'calls': kinds, 'histories': [hh] if rej else []})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    def explain(self, start, hist):
        # nan is not equal to itself: write it as a string of its own on both sides
        def e(x):
            if isinstance(x, dict):
                return {k: e(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return type(x)(e(v) for v in x)
            return enc(x)
        return confmodel.linearizable(self.model, e(start), [(a, b, c, e(op), e(g)) for a, b, c, op, g in hist])

    def untouched(self, touched):
        out = []
        for op, args, was, names, names_was in touched:
            if list(args) != list(was) or any(args[k] is not was[k] for k in was):
                out.append({'class': 'caller', 'msg': 'the dictionary %r given to %s became %r' % (was, op[0], args)})
            if names != names_was:
                out.append({'class': 'caller', 'msg': 'the names %r given to %s became %r' % (names_was, op[0], names)})
        return out

    def recover(self, spec):
        L = self.L
        P = L.Properties
        state = dict(self.defaults)
        if spec['recover'] == 'init':
            P.init()
        elif spec['recover'] == 'replace':
            state.update(abs_tol=2e-6, n_plot_2d_points=77, version='back')
            P.set_conf_repo_mgr(dict(state))
        else:
            cur = {k: scal(v) for k, v in P.get_prop_dict().items()}
            state = dict(cur)
            for n in confmodel.SETTERS:
                v = self.defaults[n]
                getattr(P, 'set_' + n)(v)
                state[n] = v
            for n in confmodel.ORDER:            # options without a setter of their own
                if not confmodel.valid(n, state[n]):
                    d = dict(P.get_prop_dict())
                    d[n] = self.defaults[n]
                    state[n] = self.defaults[n]
                    P.set_conf_repo_mgr(d)
        ths, k = [], 0
        for t in spec['threads']:
            ths.append([{'id': k, 'do': ['new', 'ell1', {}]}, {'id': k + 1, 'do': ['new', 'hyp2', {}]},
                        {'id': k + 2, 'do': ['parse', {}, None]}])
            k += 3
        s2 = {'threads': ths, 'seed': spec['seed'], 'switches': [], 'sched': None}
        sim, hist, made, touched = run_history(self, s2)
        v = work.problem_viol(sim)
        if v:
            return v
        why = self.explain(state, hist)
        if why and why != 'undecided':
            return [{'class': 'recovery', 'msg': 'after valid values were configured again (%s): %s' % (
                spec['recover'], why)}]
        return []

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
