"""C15: saved objects survive restart under any configuration."""
import sys
import copy
import pickle
import random
import numpy as np

from .base import Sink
from .conf_base import ConfProp, settings_of
from .c03 import bad, Mates
from .. import work, confmodel, canon, catalog, kernel
from ..engine import in_child, HarnessError

HOW = ['pickle', 'pickle', 'pickle_list', 'pickle_old', 'dict', 'dict', 'dict_list', 'dict_text', 'deepcopy', 'dict_own']


def make(L, seed, force=None):
    """an object from a number; settings not given come from the configuration in force"""
    r = catalog.Rng(seed, L, catalog.Context())
    kw = catalog.kwsettings(r, True) if r.p(0.6) else {}
    if r.p(0.35):                   # values with all digits, and far from the usual ones
        kw[r.c('abs_tol', 'rel_tol')] = r.f(1., 9.) * r.c(1e-5, 1e-6, 1e-7, 1e-9, 1e-13, 1e-21)
    if force:
        kw.update(force)
    if r.p(0.62):
        n = r.c(0, 1, 2, 2, 3, 3, 4)
        if n == 0:
            return L.Ellipsoid(**kw)
        s = r.c(1.0, 1.0, 1.0, 100.0)
        q = (r.deg_raw(n) if r.p(0.2) and n > 1 and kw.get('abs_tol', 1) >= 1e-9 else r.spd_raw(n)) * s
        if r.p(0.2):
            return L.Ellipsoid(q, **kw)
        e = L.Ellipsoid(r.vec(n) * r.c(1., 1e-3, 1e4), q, **kw)
        k = r.i(0, 5)
        if k == 0 and n > 1:
            e = np.ravel(L.Ellipsoid.get_projection([e], np.eye(n)[:, :n - 1]))[0]
        elif k == 1:
            e = np.ravel(L.Ellipsoid.get_copy([e]))[0]
        elif k == 2:
            e = -e
        return e
    kw = {a: b for a, b in kw.items() if a in confmodel.HYP}
    n = r.i(1, 4)
    h = L.Hyperplane(r.vec(n) * r.c(1., 1., 30.), r.c(0., r.f(), -r.f(0.1, 3.), 1e3), **kw)
    k = r.i(0, 4)
    if k == 0:
        h = np.ravel(L.Hyperplane.get_copy([h]))[0]
    elif k == 1:
        h = -h
    return h


def export(L, objs, how):
    """bytes"""
    cls = type(objs[0])
    if how == 'pickle':
        return pickle.dumps(objs[0])
    if how == 'pickle_old':
        return pickle.dumps(objs[0], 2)
    if how == 'pickle_list':
        return pickle.dumps(objs)
    if how == 'deepcopy':
        return pickle.dumps(copy.deepcopy(objs), 4)
    if how in ('dict', 'dict_own'):
        return pickle.dumps(cls.to_dict([objs[0]], True)[0].ravel()[0])
    d = list(cls.to_dict(objs, True)[0].ravel())
    if how == 'dict_text':
        t = [{k: (v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v) for k, v in x.items()} for x in d]
        return repr((t, [{k: v.shape for k, v in x.items() if isinstance(v, np.ndarray)} for x in d])).encode()
    return pickle.dumps(d)


def restore(L, data, how, is_ell):
    cls = L.Ellipsoid if is_ell else L.Hyperplane
    if how in ('pickle', 'pickle_old'):
        return [pickle.loads(data)]
    if how in ('pickle_list', 'deepcopy'):
        return list(pickle.loads(data))
    if how in ('dict', 'dict_own'):
        return list(np.ravel(cls.from_dict([pickle.loads(data)])))
    if how == 'dict_text':
        import ast
        t, shapes = ast.literal_eval(data.decode())
        t = [{k: (np.array(v, dtype=float).reshape(s[k]) if k in s else v) for k, v in x.items()}
             for x, s in zip(t, shapes)]
        return list(np.ravel(cls.from_dict(t)))
    return list(np.ravel(cls.from_dict(pickle.loads(data))))


def describe(L, o):
    """plain data an independent judge needs"""
    s = settings_of(L, o)
    if isinstance(o, L.Ellipsoid):
        return {'ell': True, 'c': np.array(o.get_center_vec()), 'q': np.array(o.get_shape_mat()), 's': s}
    v, g = o.parameters()
    return {'ell': False, 'v': np.array(v, dtype=float).ravel(), 'g': float(np.ravel(g)[0]), 's': s}


def agree(a, b, exact):
    """None or what differs"""
    if a['ell'] != b['ell']:
        return 'the kind of object'
    if len(a['s']) != len(b['s']) or any(float(x) != float(y) for x, y in zip(a['s'], b['s'])):
        return 'settings: %s became %s' % (a['s'], b['s'])
    if a['ell']:
        for k in 'cq':
            if a[k].shape != b[k].shape or (a[k].size and not np.allclose(a[k], b[k], rtol=1e-12, atol=0)):
                return '%s: %s became %s' % ({'c': 'centre', 'q': 'shape matrix'}[k], a[k].tolist(), b[k].tolist())
        return None
    if a['v'].shape != b['v'].shape:
        return 'dimension'
    x = np.append(a['v'], a['g']) / np.linalg.norm(a['v'])
    y = np.append(b['v'], b['g']) / np.linalg.norm(b['v'])
    t = 1e-9 * max(1., float(np.max(np.abs(x))))
    if np.max(np.abs(x - y)) <= t or (np.max(np.abs(x + y)) <= t and not exact):
        return None
    return 'hyperplane: %s became %s' % (x.tolist(), y.tolist())


def rebuild(L, d):
    s = d['s']
    kw = {'abs_tol': s[0], 'rel_tol': s[1]}
    if d['ell']:
        kw.update(n_plot_2d_points=int(s[2]), n_plot_3d_points=int(s[3]))
        if not d['c'].size:
            return L.Ellipsoid(**kw)
        return L.Ellipsoid(d['c'], d['q'], **kw)
    return L.Hyperplane(d['v'], d['g'], **kw)


class P(ConfProp):
    id = 'C15'
    quick_runs = 1300
    thorough_runs = 100000
    rule = ('2-3 processes one after another: each restores what the process before it had completely exported (10 ways: '
            'pickles and dictionaries, single and in lists), creates further objects and exports everything again, while '
            'other simulated threads change the configuration; the process crashes at a chosen event, only completed '
            'exports survive; restored objects and settings are compared with plain data recorded at export; '
            'non-trivial: something exported by one process was restored in another; distinct by spec and switches')

    def spec(self, rng, i):
        u = Mates(rng)
        procs, k = [], 0
        for g in range(rng.choice([2, 2, 3])):
            ths = []
            for t in range(rng.choice([1, 1, 2])):
                th = []
                for _ in range(rng.choice([1, 2, 3])):
                    th.append({'id': k, 'save': rng.choice(HOW), 'objs': [rng.randrange(1 << 30) for _ in range(
                        rng.choice([1, 1, 2, 3]))]})
                    k += 1
                ths.append(th)
            if rng.random() < 0.6:
                th = []
                for _ in range(rng.choice([1, 2, 3])):
                    y = rng.random()
                    if y < 0.5:
                        th.append({'id': k, 'do': ['replace', self.conf(rng, u, g)]})
                    elif y < 0.8:
                        n = rng.choice(confmodel.SETTERS)
                        v = u.val(n) if n != 'is_verbose' else rng.random() < 0.3
                        th.append({'id': k, 'do': ['set', n, v]})
                    else:
                        th.append({'id': k, 'do': ['init']})
                    k += 1
                ths.append(th)
            crash = None
            if rng.random() < 0.6:
                o = rng.choice([o for th in ths for o in th[len(th) // 2:]])
                crash = [o['id'], rng.randint(1, 600 if 'save' in o else 8)]
            procs.append({'threads': ths, 'conf': self.conf(rng, u, 0), 'crash': crash,
                          'rconf': self.conf(rng, u, 1) if rng.random() < 0.8 else None})
        nt = max(len(p['threads']) for p in procs)
        spec = {'procs': procs, 'seed': rng.randrange(1 << 48)}
        s2 = {'threads': procs[0]['threads']}
        if len(s2['threads']) > 1:
            work.apply_sched(s2, rng, lambda o: 300)
            spec['sched'] = s2['sched'] if s2['switches'] is None else {'gap': rng.choice([50, 200])}
            spec['switches'] = None
        else:
            spec['sched'] = {'gap': rng.choice([3, 30, 200])}
            spec['switches'] = None
        return spec

    def conf(self, rng, u, invalid):
        d = u.full()
        d['is_verbose'] = rng.random() < 0.1
        x = rng.random()
        if x < 0.2:
            d['abs_tol'], d['rel_tol'] = rng.choice([1e-12, 0.3, 1e-4]), rng.choice([1e-12, 0.5])
        if x > 0.8:
            d['n_plot_2d_points'] = rng.choice([1, 5000, 20.0])
        if invalid and rng.random() < 0.5:
            for n in rng.sample(confmodel.ORDER, rng.choice([1, 2, 11])):
                d[n] = bad(rng, n, u)
        return d

    def viable(self, spec):
        return bool(spec['procs'])

    def simplify(self, spec):
        out = []
        pr = spec['procs']
        if spec.get('switches'):
            out.append(dict(spec, switches=[]))
        for g in range(len(pr)):
            if len(pr) > 1:
                out.append(dict(spec, procs=pr[:g] + pr[g + 1:]))
            if pr[g]['crash']:
                out.append(dict(spec, procs=pr[:g] + [dict(pr[g], crash=None)] + pr[g + 1:]))
            if pr[g].get('rconf'):
                out.append(dict(spec, procs=pr[:g] + [dict(pr[g], rconf=None)] + pr[g + 1:]))
            for ti, t in enumerate(pr[g]['threads']):
                for oi, o in enumerate(t):
                    ths = [list(x) for x in pr[g]['threads']]
                    del ths[ti][oi]
                    out.append(dict(spec, procs=pr[:g] + [dict(pr[g], threads=ths)] + pr[g + 1:]))
                    for j in range(len(o.get('objs') or ())):
                        if len(o['objs']) > 1:
                            ths = [list(x) for x in pr[g]['threads']]
                            ths[ti][oi] = dict(o, objs=o['objs'][:j] + o['objs'][j + 1:])
                            out.append(dict(spec, procs=pr[:g] + [dict(pr[g], threads=ths)] + pr[g + 1:]))
        return out

    # -- one process
    def process(self, arg):
        spec, g, disk = arg
        L = self.L
        P = L.Properties
        pr = spec['procs'][g]
        viol = []
        sys.stderr = Sink()
        r = random.Random('%s/%d/sched' % (spec['seed'], g))
        sim = kernel.Simulation(rng=r)
        sw = {}
        for op, step, tgt in spec.get('switches') or ():
            sw.setdefault(op, {})[step] = tgt
        new = []
        state = {'crashed': False}
        restored = []
        P.set_conf_repo_mgr(dict(pr['rconf'] if pr.get('rconf') is not None else pr['conf']))

        def check_restored(ent, objs):
            how = ent['how']
            if len(objs) != len(ent['desc']):
                viol.append({'class': 'number', 'msg': '%d objects exported with %s, %d restored' % (
                    len(ent['desc']), how, len(objs))})
                return
            for d, o in zip(ent['desc'], objs):
                why = agree(d, describe(L, o), how.startswith('pickle') or how == 'deepcopy')
                if why:
                    viol.append({'class': 'restored', 'msg': 'exported with %s in process %d, restored in process %d: %s'
                                 % (how, ent['proc'], g, why)})
                    continue
                ref = rebuild(L, d)
                try:
                    eq, rep = type(o).is_equal([o], [ref], True)
                    ok = bool(np.all(eq))
                except Exception as e:
                    ok, rep = False, repr(e)
                if not ok:
                    viol.append({'class': 'equal', 'msg': 'exported with %s in process %d and restored in process %d, '
                                 'does not compare equal: %s' % (how, ent['proc'], g, rep)})

        def do_restore(ent):
            """runs while the configuration may be anything"""
            return restore(L, ent['data'], ent['how'], ent['desc'][0]['ell'])

        def save(o, objs, sid):
            """the exporting program: data first, then the entry that makes it count"""
            data = export(L, objs, o['save'])
            return data

        def body_of(tid, ops, mine):
            def body(th):
                todo = list(mine)
                for j, ent in enumerate(todo):
                    p = work.plan_for(spec, {'id': 10000 * (g + 1) + 100 * tid + j}, sw)
                    kind, val, n = sim.call(th, 10000 * (g + 1) + 100 * tid + j, p, lambda: do_restore(ent))
                    if kind != 'ok':
                        viol.append({'class': 'restore', 'msg': 'exported with %s in process %d, restoring in process %d '
                                     'under configuration %s raises %r' % (ent['how'], ent['proc'], g, pr.get('rconf'), val)})
                    else:
                        restored.append((ent, val))
                if tid == 0 and pr.get('rconf') is not None:
                    P.set_conf_repo_mgr(dict(pr['conf']))
                for o in ops:
                    p = work.plan_for(spec, o, sw)
                    if pr['crash'] and pr['crash'][0] == o['id']:
                        p.limit = pr['crash'][1]
                    if 'do' in o:
                        f = self.perform(o['do'], [], [])
                        sim.call(th, o['id'], p, f)
                        continue
                    try:
                        objs = [make(L, s) for s in o['objs']]
                        if o['save'] not in ('pickle_list', 'deepcopy') and len(objs) > 1:
                            objs = [x for x in objs if type(x) is type(objs[0])]
                    except ValueError:
                        continue             # the configuration in force is invalid or rejects the matrix
                    if o['save'] == 'dict_own' and restored:
                        objs = [restored[0][1][0]]
                    desc = [describe(L, x) for x in objs]
                    kind, val, n = sim.call(th, o['id'], p, lambda: save(o, objs, 0))
                    if kind != 'ok':
                        viol.append({'class': 'export', 'msg': 'exporting with %s raises %r' % (o['save'], val)})
                        continue
                    if state['crashed']:
                        continue
                    one = o['save'] in ('pickle', 'pickle_old', 'dict', 'dict_own')
                    new.append({'how': o['save'], 'data': val, 'desc': desc[:1] if one else desc, 'proc': g,
                                'op': o['id']})
            return body
        nth = len(pr['threads'])
        savers = [t for t in range(nth) if pr['threads'][t] and 'save' in pr['threads'][t][0]] or [0]
        for t in range(nth):
            mine = disk[savers.index(t)::len(savers)] if t in savers else []
            sim.add(body_of(t, pr['threads'][t], mine))
        sim.run()
        crashed = False
        if sim.problem is not None and sim.problem[0] == 'hang' and pr['crash'] and sim.problem[1][0] == pr['crash'][0]:
            crashed = True
            sim.problem = None
        v = work.problem_viol(sim)
        viol += v
        P.init()
        for ent, objs in restored:
            check_restored(ent, objs)
        return {'viol': viol, 'disk': disk + new, 'crashed': crashed, 'restored': sum(len(x[1]) for x in restored),
                'switches': [list(x) for x in sim.switches], 'steps': sim.total_steps, 'hash': sim.switch_hash,
                'saved': {e['how']: 1 for e in new}, 'threads': nth, 'forced': sim.forced}

    def execute(self, spec):
        disk, viol, sws = [], [], []
        steps = crashes = restored = 0
        h = []
        saved = {}
        after_crash = 0
        prev = False
        for g in range(len(spec['procs'])):
            kind, val = in_child(self.process, (spec, g, disk), 120.0)
            if kind == 'error':
                raise HarnessError(val)
            if kind != 'ok':
                viol.append({'class': kind, 'msg': 'process %d %s (%s)' % (g, kind, val)})
                break
            viol += val['viol']
            disk = val['disk']
            sws += val['switches']
            steps += val['steps']
            crashes += val['crashed']
            restored += val['restored']
            if prev:
                after_crash += val['restored']
            prev = prev or val['crashed']
            h.append(val['hash'])
            for a, b in val['saved'].items():
                saved[a] = saved.get(a, 0) + b
            if viol:
                break
        hh = hash((repr(spec['procs']), tuple(h))) & 0xFFFFFFFFFFFF
        st = {'runs': 1, 'steps': steps, 'switches': len(sws), 'crashes': crashes, 'restored': restored,
              'restored_after_crash': after_crash, 'exports': saved, 'faults_fired': {'crash': crashes},
              'interleavings': [hash(tuple(h)) & 0xFFFFFFFFFFFF] if sws else [], 'histories': [hh] if restored else []}
        s = dict(spec)
        s['switches'] = sws
        s['sched'] = None
        return {'viol': viol, 'spec': s, 'stats': st}

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
