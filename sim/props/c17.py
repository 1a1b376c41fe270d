"""C17: any import order, or a failed import that is retried, gives the same library."""
import sys
import os
import importlib
import random

from .base import Prop, Sink
from .. import kernel, catalog, canon, work, diskseam, loader, confmodel
from ..engine import rng_of, pmap, HarnessError

NAMES = {'Properties': ('ellipy.elltool.conf.properties.Properties', 'Properties'),
         'Ellipsoid': ('ellipy.elltool.core.ellipsoid.Ellipsoid', 'Ellipsoid'),
         'Hyperplane': ('ellipy.elltool.core.hyperplane.Hyperplane', 'Hyperplane'),
         'core': ('ellipy.elltool.core.core', None), 'common': ('ellipy.gen.common.common', None),
         'dict': ('ellipy.gen.dict.dict', None), 'logging': ('ellipy.gen.logging.logging', None),
         'la': ('ellipy.gras.la.la', None), 'gen': ('ellipy.gras.gen.gen', None),
         'sym': ('ellipy.gras.sym.sym', None), 'geom': ('ellipy.gras.geom.geom', None),
         'ell': ('ellipy.gras.geom.ell.ell', None), 'sup': ('ellipy.gras.geom.sup.sup', None),
         'tri': ('ellipy.gras.geom.tri.tri', None)}
KINDS = ['eio', 'permission', 'missing', 'undecodable', 'nul']
BYTES = {'set': {'abs_tol': 3.25e-6, 'rel_tol': 4.5e-5, 'n_plot_2d_points': 61, 'n_plot_3d_points': 62,
                 'n_time_grid_points': 63, 'is_verbose': False}}


class Lazy(object):
    """imports each module when it is first needed"""

    def __getattr__(self, name):
        if name.startswith('__') or name not in NAMES:
            raise AttributeError(name)
        mod, attr = NAMES[name]
        m = importlib.import_module(mod)
        return getattr(m, attr) if attr else m


class Nothing(object):
    pass


class Loaded(object):
    """classes that are already there; looking does not import anything"""

    def __getattr__(self, name):
        if name.startswith('__') or name not in NAMES:
            raise AttributeError(name)
        mod, attr = NAMES[name]
        m = sys.modules.get(mod)
        return getattr(m, attr, Nothing) if m is not None else Nothing


def modules():
    """all modules of the package, as they are on disk"""
    out = []
    base = os.path.join(os.path.realpath(loader.ROOT), 'ellipy')
    for d, sub, files in os.walk(base):
        sub[:] = sorted(s for s in sub if s not in ('test', 'tests', '__pycache__'))
        rel = os.path.relpath(d, os.path.dirname(base)).replace(os.sep, '.')
        for f in sorted(files):
            if f == '__init__.py':
                out.append(rel)
            elif f.endswith('.py') and not f.startswith('test'):
                out.append(rel + '.' + f[:-3])
    return out


def lazy():
    loader.library()
    return Lazy()


def ref_child(item):
    name, seed = item
    loader.library()
    return work.ref_child((Lazy(), name, seed, None)), across(name, seed)


def across(name, seed):
    """calls from one module of the library into another that an operation makes"""
    lib, n, got = kernel.LIB_DIR, len(kernel.LIB_DIR), set()

    def prof(frame, event, arg):
        if event == 'call':
            a, b = frame.f_code.co_filename, frame.f_back and frame.f_back.f_code.co_filename
            if b and a != b and a.startswith(lib) and b.startswith(lib):
                got.add((b[n:], a[n:], frame.f_code.co_name))
    try:
        c = catalog.build(name, seed, Lazy())
        sys.setprofile(prof)
        c.call(c.args)
    except Exception:
        pass
    finally:
        sys.setprofile(None)
    return frozenset(got)


def defaults_child(_):
    L = loader.library()
    return {k: v for k, v in L.Properties.get_prop_dict().items()}


class P(Prop):
    id = 'C17'
    needs_library = False
    quick_runs = 1300
    thorough_runs = 60000
    rule = ('a fresh process imports the modules of the package in a generated order, mixed with operations that import '
            'what they need, while chosen reads of source files fail once and are retried; configuration is changed in '
            'between or by another simulated thread during imports; then configuration, defaults and results of '
            'operations are compared with a plain process; non-trivial: distinct order, faults and switches')
    stub = ('opening of source files passes through a fault seam; thread scheduling, locks and clock are simulated')
    pool_size = {'quick': 110, 'thorough': 700}

    def prepare(self):
        self.mods = modules()
        items = work.choose_items(lazy, 'C17/%s' % self.seed, self.pool_size[self.tier], exclude=('conf_read',))
        self.refs, self.edges = {}, {}
        self.add_refs(items)
        self.pool = [it for it in items if self.refs[it].usable and (self.refs[it].steps < 12000 or it[0].startswith('tol_'))]
        self.tolerant = [it for it in self.pool if it[0].startswith('tol_')]    # what the configuration decides
        self.choose_probes()
        self.get_defaults()

    def get_defaults(self):
        kind, val = pmap(defaults_child, [None])[0]
        if kind != 'ok':
            raise HarnessError('defaults: %s %s' % (kind, val))
        self.defaults = val

    def add_refs(self, items):
        for it, (kind, val) in zip(items, pmap(ref_child, items)):
            if kind != 'ok':
                raise HarnessError('reference run of %s: %s %s' % (it, kind, val))
            self.refs[it], self.edges[it] = val

    def choose_probes(self):
        """few operations that together use every function of one module from another that the pool uses"""
        self.probes, left = [], set().union(*[self.edges[it] for it in self.pool])
        self.n_edges = len(left)
        while left:
            it = max(self.pool, key=lambda x: (len(self.edges[x] & left) / (300. + self.refs[x].steps), x))
            self.probes.append(it)
            left -= self.edges[it]

    def prepare_replay(self, spec):
        self.mods = modules()
        self.refs, self.edges = {}, {}
        self.add_refs([tuple(a[1:3]) for a in spec['acts'] + spec['later'] + spec['ops'] if a[0] == 'op'])
        self.get_defaults()

    def spec(self, rng, i):
        acts = []
        order = list(self.mods)
        rng.shuffle(order)
        k = rng.choice([1, 1, 2, 3, len(order)])
        for m in order[:k]:
            acts.append(['import', m])
        for _ in range(rng.choice([0, 1, 2, 4])):
            acts.insert(rng.randrange(len(acts) + 1), ['op'] + list(rng.choice(self.pool)))
        if rng.random() < 0.2:
            acts.insert(0, ['from', rng.choice(sorted(NAMES))])
        later = []
        for m in order[k:]:
            if rng.random() < 0.5:
                later.append(['import', m])
        faults = []
        if rng.random() < 0.7:
            n = 0
            for _ in range(rng.choice([1, 1, 2, 3])):
                n += rng.choice([1, 1, 2, rng.randint(1, 12)])
                faults.append([n, rng.choice(KINDS)])
        if i % 5 == 2:             # each file failing once, whatever needs it first
            k = i // 5
            f = self.mods[k % len(self.mods)]
            faults = [['/' + f.replace('.', '/') + '.py' if k % 2 else f.split('.')[-1] + '.py', rng.choice(KINDS)]]
            top = ['from', rng.choice(['Ellipsoid', 'Ellipsoid', 'Hyperplane', 'Properties', 'ell', 'dict'])]
            acts = [top] + acts[:rng.choice([0, 0, 2])]
        ops = [['op'] + list(rng.choice(self.pool)) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3 and self.tolerant:
            ops.append(['op'] + list(rng.choice(self.tolerant)))
        if faults:
            ops += [['op'] + list(it) for it in (self.probes if i % 5 == 2 else rng.sample(self.probes, min(
                len(self.probes), 4)))]
        spec = {'acts': acts, 'later': later, 'faults': faults, 'lists': ['acts', 'later', 'faults'],
                'conf': rng.choice(['set', 'replace', 'set', 'none']), 'when': rng.randint(0, len(acts)),
                'ops': ops,
                'retry': rng.choice(['now', 'now', 'later']),
                'concurrent': rng.random() < 0.35, 'seed': rng.randrange(1 << 48)}
        spec['lists'].append('ops')
        spec['threads'] = [[{'id': 0}], [{'id': j} for j in range(1, 5)]] if spec['concurrent'] else [[{'id': 0}]]
        if spec['concurrent']:
            work.apply_sched(spec, rng, lambda o: 300 if o['id'] == 0 else 8)
        else:
            spec['switches'] = []
        return spec

    def viable(self, spec):
        return not spec['concurrent'] or (len(spec['threads']) > 1 and bool(spec['threads'][0]))

    def execute(self, spec):
        viol = []
        lib = kernel.LIB_DIR
        if any(m == 'ellipy' or m.startswith('ellipy.') for m in sys.modules):
            raise HarnessError('the library is already imported')
        diskseam.install([lib])
        opened = [0]
        hit = []
        left = [list(f) for f in spec['faults']]

        def plan(path, op):
            if op != 'open' or not path.endswith('.py'):
                return None
            opened[0] += 1
            for f in left:
                if f[0] <= opened[0] if isinstance(f[0], int) else path.endswith(f[0]):
                    left.remove(f)
                    hit.append((path[len(lib):], f[1]))
                    return f[1]
            return None
        L, seen = Lazy(), Loaded()
        old, sys.stderr = sys.stderr, Sink()
        diskseam.PLAN = plan
        conf = {}
        nops = [0]
        put_off = []

        def attempt(what, f):
            """f() until no fault gets in the way"""
            for _ in range(len(spec['faults']) + 2):
                n = len(hit)
                try:
                    return ('ok', f())
                except (kernel.SimAbort, HarnessError):
                    raise
                except BaseException as e:
                    if len(hit) == n:
                        return ('exc', e)
                    if spec['retry'] == 'later' and what is not None:
                        put_off.append((what, f))
                        return ('put off', None)
            return ('exc', None)

        def said(e):
            return '%s: %s' % (type(e).__name__, e)

        def act(a):
            if a[0] in ('import', 'from'):
                def f():
                    if a[0] == 'from':
                        return getattr(L, a[1])
                    return importlib.import_module(a[1])
                k, v = attempt(a, f)
                if k == 'exc':
                    viol.append({'class': 'import', 'msg': 'importing %s fails with %s; actions before: %s; failed reads '
                                 '%s' % (a[1], said(v), spec['acts'], hit)})
                return
            # an operation, with whatever it imports
            key = (a[1], a[2])
            box = {}

            def f():
                c = catalog.build(a[1], a[2], L)
                n = len(hit)
                try:
                    return work.outcome('ok', c.call(c.args), seen)
                except BaseException as e:
                    if len(hit) > n:
                        raise              # perhaps because of the failed read
                    return work.outcome('exc', e, seen)
            k, v = attempt(None, f)
            nops[0] += 1
            if k == 'exc':
                viol.append({'class': 'import', 'msg': 'preparing %s fails with %s; failed reads %s' % (key, said(v), hit)})
            elif not canon.same(v, self.refs[key].out):
                viol.append({'class': 'result', 'msg': '%s gives %s, in a plain process %s; actions %s; failed reads %s' % (
                    key, canon.brief(v), canon.brief(self.refs[key].out), spec['acts'], hit)})

        def again():
            while put_off and not viol:
                a, f = put_off.pop(0)
                k, v = attempt(None, f)
                if k == 'exc':
                    viol.append({'class': 'import', 'msg': 'importing %s again, after other modules, fails with %s; '
                                 'actions %s; failed reads %s' % (a[1], said(v), spec['acts'], hit)})

        def configure():
            k, P = attempt(None, lambda: L.Properties)
            if k == 'exc':
                viol.append({'class': 'import', 'msg': 'importing Properties fails with %s; failed reads %s' % (said(P), hit)})
                return
            now = dict(P.get_prop_dict())
            if not confmodel.eq(now, self.defaults):
                viol.append({'class': 'defaults', 'msg': 'the configuration nobody has changed is %s; actions %s; failed '
                             'reads %s' % (now, spec['acts'], hit)})
            if spec['conf'] == 'set':
                for n in confmodel.SETTERS:
                    v = BYTES['set'][n]
                    getattr(P, 'set_' + n)(v)
                    now[n] = v
            elif spec['conf'] == 'replace':
                now = dict(now, version='mine', abs_tol=7.5e-7, n_plot_2d_points=71)
                P.set_conf_repo_mgr(dict(now))
            conf['P'] = P
            conf['want'] = now
        sim = None
        plain = spec['conf'] == 'none' and not spec['concurrent']
        try:
            for j, a in enumerate(spec['acts']):
                if j == spec['when']:
                    configure()
                if viol:
                    break
                if a[0] == 'op' and conf and not plain:
                    # results depend on the configuration: only the imports matter
                    attempt(None, lambda: catalog.build(a[1], a[2], L))
                    continue
                act(a)
            if not viol and not conf:
                configure()
            if not viol:
                sim = self.later(spec, act, conf, viol, plan)
                again()
            if not viol:
                diskseam.PLAN = None
                self.finish(spec, conf, viol, act, hit, L)
        finally:
            diskseam.PLAN = None
            sys.stderr = old
        h = catalog.hash_key((repr(spec['acts']), repr(spec['later']), repr(hit), sim.switch_hash if sim else 0))
        fh = {}
        for _, kind in hit:
            fh[kind] = fh.get(kind, 0) + 1
        st = {'runs': 1, 'ops': nops[0], 'disk_faults_hit': fh, 'files_opened': opened[0], 'histories': [h],
              'faults_fired': fh, 'failed_files': sorted(set(p for p, _ in hit))}
        out = dict(spec)
        if sim is not None:
            st.update({'switches': len(sim.switches), 'steps': sim.total_steps, 'concurrent': 1,
                       'interleavings': [sim.switch_hash & 0xFFFFFFFFFFFF] if sim.switches else []})
            out = work.replayable(spec, sim)
        return {'viol': viol, 'spec': out, 'stats': st}

    def later(self, spec, act, conf, viol, plan):
        """further imports, alone or while another thread uses the configuration"""
        if not spec['concurrent']:
            for a in spec['later']:
                if viol:
                    break
                act(a)
            return None
        P = conf['P']
        sim = work.make_sim(spec)
        sw = work.thread_switch_plan(spec)

        def importer(th):
            def f():
                for a in spec['later']:
                    act(a)
            for o in spec['threads'][0]:
                kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), f)
                if kind != 'ok':
                    viol.append({'class': 'import', 'msg': 'importing fails with %r' % (val,)})

        def user(th):
            for o in spec['threads'][1]:
                v = 1e-6 * (1 + o['id'])

                def f():
                    P.set_abs_tol(v)
                    conf['want']['abs_tol'] = v
                    return P.get_abs_tol()
                kind, val, n = sim.call(th, o['id'], work.plan_for(spec, o, sw), f)
                if kind != 'ok' or val != v:
                    viol.append({'class': 'lost', 'msg': 'while modules are imported, abs_tol set to %r reads %r' % (v, val)})
        sim.add(importer)
        sim.add(user)
        sim.run()
        viol += work.problem_viol(sim)
        return sim

    def finish(self, spec, conf, viol, act, hit, L):
        for m in self.mods:
            try:
                importlib.import_module(m)
            except Exception as e:
                viol.append({'class': 'import', 'msg': 'in the end %s cannot be imported: %s: %s; actions %s; failed reads '
                             '%s' % (m, type(e).__name__, e, spec['acts'], hit)})
                return
        now = dict(conf['P'].get_prop_dict())
        if not confmodel.eq(now, conf['want']):
            viol.append({'class': 'reset', 'msg': 'configuration %s became %s by importing modules; actions %s, then %s' % (
                conf['want'], now, spec['acts'], spec['later'])})
        # every way to reach the configuration reaches this one
        for name in sorted(sys.modules):
            m = sys.modules[name]
            if not name.startswith('ellipy') or m is None:
                continue
            q = m.__dict__.get('Properties')
            if isinstance(q, type) and hasattr(q, 'get_prop_dict'):
                try:
                    got = dict(q.get_prop_dict())
                except Exception as e:
                    got = repr(e)
                if not confmodel.eq(got, conf['want']):
                    viol.append({'class': 'duplicate', 'msg': 'through %s the configuration is %s, it was made %s; failed '
                                 'reads %s' % (name, got, conf['want'], hit)})
        if viol:
            return
        import numpy as np
        e = L.Ellipsoid(np.eye(2))
        want = tuple(float(conf['want'][n]) for n in confmodel.ELL)
        if canon.settings(e, L) != want:
            viol.append({'class': 'duplicate', 'msg': 'a new ellipsoid has settings %s, configured are %s; actions %s; '
                         'failed reads %s' % (canon.settings(e, L), want, spec['acts'], hit)})
            return
        h = L.Hyperplane(np.ones(2), 1.)
        if canon.settings(h, L)[:2] != want[:2]:
            viol.append({'class': 'duplicate', 'msg': 'a new hyperplane has settings %s, configured are %s' % (
                canon.settings(h, L), want)})
            return
        conf['P'].init()
        if not confmodel.eq(dict(conf['P'].get_prop_dict()), self.defaults):
            viol.append({'class': 'defaults', 'msg': 'after init the configuration is %s' % conf['P'].get_prop_dict()})
        for a in spec['ops']:
            act(a)

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
