"""Workloads made of library calls in simulated threads: generation, execution, references."""
import io
import dis
import sys
import types
import math
import random
import traceback
import numpy as np

from . import kernel, catalog, canon
from .engine import rng_of, pmap, HarnessError

FILTERS = {'shared': kernel.SHARED_OPS, 'write': kernel.WRITE_OPS, None: None}


def canonical(v, L):
    """canonical form; a value that cannot even be looked at is a value of its own"""
    try:
        return canon.canon(v, L)
    except kernel.SimAbort:
        raise
    except Exception as e:
        return ('unreadable', type(e).__name__, str(e))


def outcome(kind, val, L):
    if kind == 'exc':
        return ('raises', type(val).__name__, str(val))
    return ('returns', canonical(val, L))


def thread_switch_plan(spec):
    """operation id -> {step: target}"""
    d = {}
    for op_id, step, tgt in spec.get('switches') or ():
        d.setdefault(op_id, {})[step] = tgt
    return d


def plan_for(spec, o, swmap):
    p = kernel.OpPlan()
    if spec.get('switches') is not None:
        p.preempts = swmap.get(o['id'], {})
        if not p.preempts:
            p.preempts = {}
    sched = spec.get('sched')
    if spec.get('switches') is None and sched:
        p.gap = sched['gap']
        p.filt = FILTERS[sched.get('filt')]
        if sched.get('lag'):
            p.fixed = True
            ths = spec.get('threads') or (spec.get('gens') or [[]])[0]
            if ths and ths[0] and o is ths[0][0]:
                p.lag = sched['lag']
    p.faults = o.get('faults') or []
    p.observe = o.get('observe') or 0
    return p


def make_sim(spec):
    r = random.Random(str(spec.get('seed')) + '/sched')
    return kernel.Simulation(rng=r)


def gen_sched(rng):
    """swarm: how this run is scheduled"""
    k = rng.random()
    if k < 0.22:
        return {'gap': rng.choice([1, 2, 4]), 'filt': 'shared'}
    if k < 0.40:
        return {'gap': rng.choice([1, 3, 7, 20])}
    if k < 0.55:
        return {'gap': rng.choice([50, 200])}
    if k < 0.70:
        return {'gap': rng.choice([1, 5, 30]), 'filt': 'write'}
    if k < 0.78:
        return {'gap': rng.choice([500, 2000])}
    if k < 0.84:
        return gen_lag(rng, rng.choice([0, 2000, 20000]))
    return {'few': rng.choice([1, 1, 2, 3, 5])}


def gen_lag(rng, steps=0):
    """lock step: one thread is a number of events ahead, from then on each makes one event, or a few, at a time"""
    g = 1 + int(steps / 1200)
    return {'gap': g, 'lag': g + int(math.exp(rng.uniform(0., math.log(400.))))}


def twin_ops(rng, pool, i, n):
    """the same operation n times, with the same or other arguments"""
    name = pool[i % len(pool)][0]
    if rng.random() < 0.7:               # each kind of operation equally often
        names = list(dict.fromkeys(a[0] for a in pool))
        name = names[i % len(names)]
    own = [(a[0], a[1]) for a in pool if a[0] == name]
    short = [(a[0], a[1]) for a in pool if a[0] == name and a[2].steps < 5000]
    name, seed = rng.choice(short if short and rng.random() < 0.7 else own)
    if rng.random() < 0.5:
        return [(name, seed)] * n
    return [(name, seed)] + [rng.choice(own) for _ in range(n - 1)]


def lag_sched(spec, rng, steps_of):
    if rng.random() < 0.25:
        return apply_sched(spec, rng, steps_of)
    spec['switches'] = None
    spec['sched'] = gen_lag(rng, max(steps_of(o) for t in spec['threads'] for o in t))
    return spec


def meetings(pool, most=40000):
    """function of the library -> the operations of the pool that enter it, and when"""
    out = {}
    for name, s, r in pool:
        if r.steps <= most:
            for f, ns in r.entries.items():
                if f[2].startswith('<'):
                    continue
                out.setdefault(f, []).append((name, s, tuple(ns)))
    hot = set(f for f in stateful_functions() if '/conf/' not in f[0])    # the configuration is looked at elsewhere
    return [(f, out[f]) for f in sorted(out) if f in hot], [(f, out[f]) for f in sorted(out) if f not in hot]


def spread(rng, meetings, i):
    """the i-th function: those with a state of their own as often as all others together"""
    hot, cold = meetings
    return hot[i // 2 % len(hot)] if hot and (i % 2 or not cold) else cold[(i // 2 if hot else i) % len(cold)]


def meet(rng, meetings, i):
    """two operations that are inside the same function at the same time: (operations, switches)"""
    f, ops = spread(rng, meetings, i)
    near = sorted(ops, key=lambda o: o[2][0])[:1 + len(ops) // 3]
    pair = []
    for _ in range(2):
        pair.append(rng.choice(near if rng.random() < 0.5 else ops))
    if rng.random() < 0.5 and pair[0] == pair[1]:
        pair[1] = rng.choice(ops)
    na, nb = [o[2][0] if rng.random() < 0.7 else rng.choice(o[2]) for o in pair]

    def few(m):
        return int(math.exp(rng.uniform(0., math.log(m)))) - 1
    sw = []
    k = rng.random()
    if k < 0.55:                          # both go through it in lock step
        a, b, g = na + 1 + few(30), nb + 1 + few(30), rng.choice([1, 1, 1, 2, 3, 5])
        if rng.random() < 0.4:
            a, b = na + 1, nb + 1 + few(4)
        sw.append([0, a, 1])
        for j in range(rng.choice([12, 40, 120])):
            sw.append([1, b + j * g, 0])
            sw.append([0, a + (j + 1) * g, 1])
    elif k < 0.8:                         # one is interrupted there by the other, all of it
        sw.append([0, na + 1 + few(200), 1])
    else:                                 # and the other there by the first
        sw.append([0, na + 1 + few(200), 1])
        sw.append([1, nb + 1 + few(200), 0])
    return [(o[0], o[1]) for o in pair], sw


def few_switches(rng, threads, steps_of, n):
    """a handful of switches at random places of random operations"""
    ops = [(t, o) for t, th in enumerate(threads) for o in th]
    out = []
    seen = set()
    for _ in range(n):
        t, o = rng.choice(ops)
        tgt = rng.choice([x for x in range(len(threads)) if x != t]) if len(threads) > 1 else 0
        s = rng.randint(0, max(1, steps_of(o)))
        if (o['id'], s) in seen:
            continue
        seen.add((o['id'], s))
        out.append([o['id'], s, tgt])
    return out


def apply_sched(spec, rng, steps_of):
    s = gen_sched(rng)
    if 'few' in s:
        spec['switches'] = few_switches(rng, spec['threads'], steps_of, s['few'] + len(spec['threads']))
        spec['sched'] = {'gap': 0}
    else:
        spec['switches'] = None
        spec['sched'] = s
    return spec


def sim_stats(sim, spec, extra=None):
    f = {}
    for _, kind, _ in sim.faults_fired:
        f[kind] = f.get(kind, 0) + 1
    d = {'runs': 1, 'steps': sim.total_steps, 'switches': len(sim.switches), 'forced_switches': sim.forced,
         'lock_waits': sim.lock_waits, 'faults_fired': f, 'sim_time_s': kernel.CLOCK.now - sim.clock0,
         'interleavings': [sim.switch_hash & 0xFFFFFFFFFFFF] if sim.switches else [],
         'threads': {str(len(sim.threads)): 1}, 'clock_jumps': kernel.CLOCK.jumps}
    if extra:
        d.update(extra)
    return d


def replayable(spec, sim):
    s = dict(spec)
    s['switches'] = [list(x) for x in sim.switches]
    s['sched'] = None
    return s


def problem_viol(sim):
    """deadlocks, hangs and harness errors of a run"""
    p = sim.problem
    if p is None:
        return []
    if p[0] == 'harness':
        raise HarnessError(p[1])
    if p[0] == 'deadlock':
        return [{'class': 'deadlock', 'msg': 'deadlock: threads %s wait for locks nobody will release' % (p[1],)}]
    return [{'class': 'hang', 'msg': 'operation %s still running after %s steps' % (p[1][0], p[1][1])}]


# ---------------------------------------------------------------- references

class Ref(object):
    __slots__ = ('out', 'steps', 'invalid', 'regs', 'usable', 'lines', 'linalg', 'why', 'entries', 'sites')


def ref_child(item):
    """one operation alone in a pristine process"""
    L, name, seed, cfg = item
    r = Ref()
    r.usable = False
    r.why = None
    r.entries = {}
    r.sites = {}
    try:
        apply_config(L, cfg)
        c = catalog.build(name, seed, L)
    except Exception:
        r.why = traceback.format_exc()
        r.out, r.steps, r.invalid, r.regs, r.linalg = None, 0, False, None, 0
        return r
    sim = kernel.Simulation()
    sim.entries = r.entries
    sim.sites = r.sites
    box = {}

    def body(th):
        box['o'] = sim.call(th, 0, kernel.OpPlan(), lambda: c.call(c.args))
        box['l'] = th.linalg_count
    sim.add(body)
    sim.run()
    if sim.problem is not None:
        r.why = repr(sim.problem)
        r.out, r.steps, r.invalid, r.regs, r.linalg = None, 0, False, None, 0
        return r
    kind, val, n = box['o']
    r.out = outcome(kind, val, L)
    r.steps = n
    r.invalid = c.invalid
    r.regs = c.verbose_regs
    r.linalg = box['l']
    r.usable = True
    return r


def apply_config(L, cfg):
    if not cfg:
        return
    P = L.Properties
    for k, v in cfg.items():
        if k == 'repo':
            P.set_conf_repo_mgr(dict(v))
        else:
            getattr(P, 'set_' + k)(v)


def references(L, items, cfg=None):
    """items: list of (name, seed) -> list of Ref"""
    outs = pmap(ref_child, [(L, n, s, cfg) for n, s in items])
    refs = []
    for (n, s), (kind, val) in zip(items, outs):
        if kind != 'ok':
            raise HarnessError('reference run of %s/%s: %s %s' % (n, s, kind, val))
        refs.append(val)
    return refs


def features_child(args):
    """what each candidate exercises: steps from line to line in the library, and pairs of the choices that made it"""
    L, items, cfg = args
    L = L() if callable(L) else L
    try:
        apply_config(L, cfg)
    except Exception:
        pass
    old, sys.stderr = sys.stderr, io.StringIO()
    lib = kernel.LIB_DIR
    out = []
    for name, seed in items:
        log = []
        arcs = set()
        left = [1500000]

        def tracer(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(lib):
                return None
            f = code.co_filename[len(lib):]
            last = [0]

            def local(frame, event, arg):
                if event == 'line':
                    arcs.add((f, last[0], frame.f_lineno))
                    last[0] = frame.f_lineno
                    left[0] -= 1
                    if left[0] < 0:
                        raise kernel.SimAbort
                return local
            return local
        try:
            c = catalog.build(name, seed, L, None, log)
            sys.settrace(tracer)
            try:
                c.call(c.args)
            finally:
                sys.settrace(None)
        except BaseException:
            pass
        log = log[:8]
        pairs = [(name, i, log[i]) for i in range(len(log))]
        pairs += [(name, i, log[i], j, log[j]) for i in range(len(log)) for j in range(i + 1, len(log))]
        out.append((sorted(catalog.hash_key(a) for a in arcs), [catalog.hash_key(a) for a in pairs]))
    sys.stderr = old
    return out


def choose_items(L, key, n, groups=None, exclude=(), cfg=None, ns=None):
    """n different operations: of each kind a share, chosen among candidates for what they add to the variants covered"""
    rng = rng_of('pool', key)
    ns = catalog.names(groups, exclude) if ns is None else sorted(set(ns))
    total = float(sum(catalog.WEIGHT[a] for a in ns))
    cand = {}
    for a in ns:
        want = max(12, int(4 * n * catalog.WEIGHT[a] / total))
        cand[a] = [(a, s) for s in rng.sample(range(100000), want)]
    flat = [it for a in ns for it in cand[a]]
    size = 40
    chunks = [flat[i:i + size] for i in range(0, len(flat), size)]
    feat = {}
    for ch, (kind, val) in zip(chunks, pmap(features_child, [(L, ch, cfg) for ch in chunks])):
        if kind != 'ok':        # the references tell what is wrong
            val = [((), ())] * len(ch)
        for it, (arcs, pairs) in zip(ch, val):
            feat[it] = (frozenset(arcs), frozenset(pairs))
    items = []
    covered = {}
    # richer operations get a larger share
    share = {a: catalog.WEIGHT[a] * (1 + min(1.5, 0.01 * len(frozenset().union(*[feat[it][1] for it in cand[a]])))) for a in ns}
    tot = float(sum(share.values()))
    for a in ns:
        k = max(2, int(round(n * share[a] / tot)))
        left = list(cand[a])
        for _ in range(min(k, len(left))):
            best, gain = None, -1.0
            for it in left:
                arcs, pairs = feat[it]
                g = sum(3.0 / (1 + covered.get(x, 0)) ** 2 for x in arcs) + \
                    sum(1.0 / (1 + covered.get(x, 0)) ** 2 for x in pairs)
                if g > gain:
                    best, gain = it, g
            left.remove(best)
            items.append(best)
            for x in feat[best][0] | feat[best][1]:
                covered[x] = covered.get(x, 0) + 1
    rng.shuffle(items)
    return items


def make_pool(L, key, n, groups=None, exclude=(), cfg=None, must=None):
    items = choose_items(L, key, n, groups, exclude, cfg)
    refs = references(L, items, cfg)
    pool = [(a, b, r) for (a, b), r in zip(items, refs) if r.usable]
    return pool + enrich(L, key, pool, cfg)


def enrich(L, key, pool, cfg, n=36):
    """more operations that enter functions with a state of their own"""
    rng = rng_of('enrich', key)
    hot = set(f for f in stateful_functions() if '/conf/' not in f[0] and '/logging/' not in f[0])
    short = {}
    for a, b, r in pool:
        for f in r.entries:
            if f in hot and r.steps < 6000:
                short.setdefault(f, []).append(a)
    items = []
    for f in sorted(short):
        names = sorted(set(short[f]))
        for k in range(n - len(short[f])):
            items.append((names[k % len(names)], rng.randrange(100000)))
    refs = references(L, items, cfg) if items else []
    return [(a, b, r) for (a, b), r in zip(items, refs) if r.usable]


# ---------------------------------------------------------------- functions with state of their own

_PLAIN = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, range, type, types.ModuleType,
          types.FunctionType, types.BuiltinFunctionType, property, staticmethod, classmethod, np.ufunc)


def _stateful(v):
    if isinstance(v, types.FunctionType) and v.__code__.co_filename.startswith(kernel.HARNESS_DIR):
        return False
    return hasattr(v, '__wrapped__') or not isinstance(v, _PLAIN) and type(v).__module__ not in ('typing', '__future__')


def _uses_state(code, env):
    """does the function change globals or class attributes, or use module-level objects that can change?"""
    last = None
    for ins in dis.get_instructions(code):
        if ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
            return True
        if ins.opname == 'LOAD_GLOBAL' and _stateful(env.get(ins.argval)):
            return True
        if ins.opname in ('STORE_ATTR', 'LOAD_ATTR', 'LOAD_METHOD', 'DELETE_ATTR') and last is not None:
            owner = env.get(last.argval) if last.opname == 'LOAD_GLOBAL' else None
            if last.opname in ('LOAD_FAST', 'LOAD_DEREF') and last.argval == 'cls' and ins.opname == 'STORE_ATTR':
                return True
            if owner is not None:
                if ins.opname in ('STORE_ATTR', 'DELETE_ATTR'):
                    return True
                if isinstance(owner, type) and _stateful(owner.__dict__.get(ins.argval)):
                    return True
        last = ins
    return False


def stateful_functions():
    """the functions of the library, as references name them, that have a state beyond their arguments"""
    out = set()
    seen = set()

    def look(code, env):
        if code in seen:
            return
        seen.add(code)
        if code.co_filename.startswith(kernel.LIB_DIR) and _uses_state(code, env):
            out.add((code.co_filename[len(kernel.LIB_DIR):], code.co_firstlineno, code.co_name))
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                look(c, env)

    def member(v):
        for _ in range(4):
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            elif hasattr(v, '__wrapped__'):
                v = v.__wrapped__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                member(f)
        elif isinstance(v, types.FunctionType):
            if any(_stateful(d) for d in v.__defaults__ or ()):
                out.add((v.__code__.co_filename[len(kernel.LIB_DIR):], v.__code__.co_firstlineno, v.__code__.co_name))
            look(v.__code__, v.__globals__)
    for name in sorted(sys.modules):
        m = sys.modules[name]
        if name.split('.')[0] != 'ellipy' or m is None:
            continue
        for v in list(vars(m).values()):
            member(v)
            if isinstance(v, type) and (getattr(v, '__module__', None) or '').startswith('ellipy'):
                for w in list(vars(v).values()):
                    member(w)
    return out
