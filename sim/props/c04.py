"""C04: each verbose diagnostic is emitted exactly once."""
import sys
import io
import re
import random

from .base import PoolProp
from .. import kernel, catalog, canon, work
from ..engine import rng_of, pmap

REG_OPS = ['ell_minksum_ea', 'ell_minksum_ia', 'ell_is_bigger', 'ell_is_internal']


def masked(texts):
    return sorted(re.sub(r'-*\d[-\d]*', '#', x) for x in texts)


class Stream(io.TextIOBase):
    """in-memory standard error stream that knows which operation wrote what"""

    def __init__(self, box, name):
        io.TextIOBase.__init__(self)
        self.box = box
        self.name_ = name
        self.parts = []

    def writable(self):
        return True

    def write(self, text):
        b = self.box
        sim = b['sim']
        th = sim.by_ident.get(kernel._real_ident()) if sim is not None else None
        op = th.op_id if th is not None and th.plan is not None else None
        self.parts.append((op, text))
        b['log'].append((self.name_, op, text, b['stamp'][0]))
        return len(text)

    def flush(self):
        pass


def split_lines(parts):
    """[(set of operations that wrote a piece of it, line)], and what is left without an end"""
    out = []
    cur, ops = '', set()
    for op, text in parts:
        while text:
            k = text.find('\n')
            ops.add(op)
            if k < 0:
                cur += text
                break
            cur += text[:k]
            out.append((ops, cur))
            cur, ops = '', set()
            text = text[k + 1:]
    return out, cur


def texts_child(item):
    L, name, seed = item
    c = catalog.build(name, seed, L)
    L.Properties.set_is_verbose(True)
    box = {'sim': None, 'log': [], 'stamp': [0]}
    s = Stream(box, 's')
    old, sys.stderr = sys.stderr, s
    try:
        c.call(c.args)
    finally:
        sys.stderr = old
    return masked(x for _, x in split_lines(s.parts)[0])


class P(PoolProp):
    id = 'C04'
    quick_runs = 800
    thorough_runs = 100000
    rule = ('1-4 simulated threads, in 1-3 generations, run operations that regularise a known number of degenerate '
            'ellipsoids while verbose mode and the standard error stream are constant, switched between calls, or '
            'switched by another thread in the middle of them; every line is attributed to the call that wrote it and '
            'counted; non-trivial: at least one line expected; distinct by operations and switches')
    pool_size = {'quick': 130, 'thorough': 1200}

    def prepare(self):
        n = self.pool_size[self.tier]
        items = work.choose_items(self.L, 'regs/%s/%s' % (self.id, self.seed), n, ns=REG_OPS)
        refs = work.references(self.L, items)
        self.pool = [(a, b, r) for (a, b), r in zip(items, refs) if r.usable and r.regs is not None]
        fill = work.make_pool(self.L, 'C04fill/%s' % self.seed, n // 2)
        self.fill = [p for p in fill if p[2].steps < 6000 and p[2].regs is None and p[0] != 'conf_read']
        self.refs = {(a, b): r for a, b, r in self.pool + self.fill}
        self.texts_of(sorted(self.refs))
        self.some = [p for p in self.pool if p[2].regs]
        self.many = [p for p in self.some if p[2].regs >= 3 and p[2].steps < 60000]
        self.light = [p for p in self.some if p[2].steps < 8000] or self.some

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for g in spec['gens'] for t in g for o in t if 'op' in o]

    def prepare_replay(self, spec):
        self.refs = {}
        self.add_refs(self.ops_of(spec))
        self.texts_of(sorted(self.refs))

    def texts_of(self, items):
        items = [x for x in items if self.refs[x].regs is not None and self.refs[x].out[0] == 'returns']
        self.texts = {}
        for it, (kind, val) in zip(items, pmap(texts_child, [(self.L, a, b) for a, b in items])):
            self.texts[it] = val if kind == 'ok' else None

    def spec(self, rng, i):
        if self.many and rng.random() < 0.07:
            # verbose mode switched in the middle of a call that regularises several times
            name = rng.choice(sorted(set(p[0] for p in self.many)))
            n, s, r = rng.choice([p for p in self.many if p[0] == name])
            vals = rng.choice([[False], [False], [False, True], [True], [True, False]])
            a = [{'id': 0, 'op': n, 'seed': s}]
            b = [{'id': 1 + j, 'verbose': v} for j, v in enumerate(vals)]
            sw = [[0, k, 1] for k in sorted(rng.sample(range(1, r.steps), len(vals)))]
            sw += [[1 + j, 0, 0] for j in range(1, len(vals))]
            return {'gens': [[a, b]], 'mode': 'during', 'verbose': not vals[0], 'seed': rng.randrange(1 << 48),
                    'switches': sw, 'sched': {'gap': 0}}
        mode = rng.choice(['constant', 'constant', 'between', 'during', 'during', 'off'])
        gens, k = [], 0
        kinds = [rng.choice(self.light)[0] for _ in range(rng.choice([1, 1, 2]))]
        for g in range(rng.choice([1, 1, 1, 2, 3])):
            nt = 1 if mode == 'between' else rng.choice([1, 2, 2, 3, 3, 4]) if mode != 'during' else rng.choice([2, 2, 3])
            ths = []
            for t in range(nt):
                th = []
                for _ in range(rng.choice([1, 1, 2, 3] if nt == 1 else [1, 1, 2])):
                    x = rng.random()
                    if x < 0.75:
                        c = [p for p in self.light if p[0] in kinds] if rng.random() < 0.8 else rng.choice([self.light, self.light, self.some])
                        n, s, r = rng.choice(c)
                    elif x < 0.88:
                        n, s, r = rng.choice(self.pool)
                    else:
                        n, s, r = rng.choice(self.fill)
                    if mode == 'between' and rng.random() < 0.5:
                        th.append({'id': k, 'verbose': rng.random() < 0.6})
                        k += 1
                    if mode == 'between' and rng.random() < 0.5:
                        th.append({'id': k, 'stderr': rng.randrange(3)})
                        k += 1
                    th.append({'id': k, 'op': n, 'seed': s})
                    k += 1
                ths.append(th)
            if mode == 'during':
                th = []
                what = rng.choice(['verbose', 'stderr', 'both'])
                for _ in range(rng.choice([1, 2, 4])):
                    if what == 'verbose' or what == 'both' and rng.random() < 0.5:
                        th.append({'id': k, 'verbose': rng.random() < 0.5})
                    else:
                        th.append({'id': k, 'stderr': rng.randrange(3)})
                    k += 1
                ths.append(th)
            gens.append(ths)
        spec = {'gens': gens, 'mode': mode, 'verbose': mode != 'off' and (mode == 'constant' or rng.random() < 0.7),
                'seed': rng.randrange(1 << 48)}
        allth = [t for g in gens for t in g]
        if any(len(g) > 1 for g in gens):
            sp2 = {'threads': gens[0]}
            work.apply_sched(sp2, rng, self.steps_of)
            spec['switches'], spec['sched'] = None, sp2['sched']
            if sp2['switches'] is not None:
                sw = []
                for g in gens:
                    if len(g) > 1:
                        sw += work.few_switches(rng, g, self.steps_of, rng.choice([2, 4, 6]))
                spec['switches'] = sw
        else:
            spec['switches'], spec['sched'] = [], None
        return spec

    def steps_of(self, o):
        return PoolProp.steps_of(self, o) if 'op' in o else 8

    def simplify(self, spec):
        """the shrinker of the engine works on 'threads'; here generations, threads and operations are removed"""
        out = []
        for gi, g in enumerate(spec['gens']):
            if len(spec['gens']) > 1:
                s = dict(spec)
                s['gens'] = [x for j, x in enumerate(spec['gens']) if j != gi]
                out.append(self.prune(s))
            for ti, t in enumerate(g):
                for oi in range(len(t)):
                    s = dict(spec)
                    s['gens'] = [[list(y) for y in x] for x in spec['gens']]
                    del s['gens'][gi][ti][oi]
                    out.append(self.prune(s))
        return out

    @staticmethod
    def prune(s):
        ids = set(o['id'] for g in s['gens'] for t in g for o in t)
        if s.get('switches'):
            s['switches'] = [x for x in s['switches'] if x[0] in ids]
        return s

    def execute(self, spec):
        L = self.L
        P = L.Properties
        viol = []
        box = {'sim': None, 'log': []}
        streams = [Stream(box, 's%d' % j) for j in range(3)]
        outs = Stream(box, 'stdout')
        P.set_is_verbose(bool(spec['verbose']))
        calls = {}             # id -> [inv, ret, op, result]
        vlog = [(0, 0, bool(spec['verbose']))]     # verbose writes: inv, ret, value
        slog = [(0, 0, 0)]
        stamp = [0]
        box['stamp'] = stamp
        sims = []
        sw = work.thread_switch_plan(spec)
        old = sys.stderr, sys.stdout
        sys.stderr, sys.stdout = streams[0], outs
        r = random.Random(str(spec.get('seed')) + '/sched')
        try:
            for g in spec['gens']:
                sim = kernel.Simulation(rng=r)
                box['sim'] = sim
                sims.append(sim)

                def body_of(ops, sim=sim):
                    def body(th):
                        for o in ops:
                            p = work.plan_for(spec, o, sw)
                            if 'op' in o:
                                c = catalog.build(o['op'], o['seed'], L)

                                def f(c=c):
                                    return c.call(c.args)
                            elif 'verbose' in o:
                                def f(o=o):
                                    P.set_is_verbose(o['verbose'])
                            else:
                                def f(o=o):
                                    sys.stderr = streams[o['stderr']]
                            stamp[0] += 1
                            inv = stamp[0]
                            kind, val, n = sim.call(th, o['id'], p, f)
                            stamp[0] += 1
                            if 'op' in o:
                                calls[o['id']] = (inv, stamp[0], o, work.outcome(kind, val, L))
                            elif 'verbose' in o:
                                vlog.append((inv, stamp[0], o['verbose']))
                            else:
                                slog.append((inv, stamp[0], o['stderr']))
                    return body
                for t in g:
                    sim.add(body_of(t))
                sim.run()
                viol += work.problem_viol(sim)
                if viol:
                    break
        finally:
            sys.stderr, sys.stdout = old
        box['sim'] = None
        total = 0
        if not viol:
            per = {}           # op id -> {stream: lines}
            for q, s in enumerate(streams):
                lines, rest = split_lines(s.parts)
                if rest:
                    viol.append({'class': 'torn', 'msg': 'stream %d ends with an unfinished line %r' % (q, rest)})
                for ops, text in lines:
                    if len(ops) > 1:
                        viol.append({'class': 'torn', 'msg': 'line %r was written by calls %s' % (text, sorted(
                            str(x) for x in ops))})
                    for o in ops:
                        per.setdefault(o, {}).setdefault(q, []).append(text)
            if outs.parts:
                viol.append({'class': 'stdout', 'msg': 'written to standard output: %r' % (outs.parts[:3],)})
            if None in per:
                viol.append({'class': 'outside', 'msg': 'written outside any call: %r' % (per[None],)})
            for i, (inv, ret, o, out) in calls.items():
                ref = self.refs[(o['op'], o['seed'])]
                what = '%s(seed %s), call %d' % (o['op'], o['seed'], i)
                if not canon.same(out, ref.out):
                    continue             # the business of another property
                got = per.get(i, {})
                texts = [x for q in got for x in got[q]]
                vals = self.in_force(vlog, inv, ret)
                if vals == {False}:
                    if texts:
                        viol.append({'class': 'off', 'msg': '%s wrote %r with verbose mode off' % (what, texts[:4])})
                    continue
                if ref.regs is None:
                    continue
                total += 2 * ref.regs
                n = len(texts)
                if vals == {True}:
                    if n != 2 * ref.regs:
                        viol.append({'class': 'count', 'msg': '%s regularises %d times and wrote %d lines with verbose '
                                     'mode on: %r' % (what, ref.regs, n, texts[:6])})
                    alone = self.texts.get((o['op'], o['seed']))
                    if alone is not None and n == len(alone) and masked(texts) != alone:
                        viol.append({'class': 'lines', 'msg': '%s wrote %r; alone in a fresh process %r' % (
                            what, texts[:6], alone[:6])})
                elif n > 2 * ref.regs or n % 2:
                    viol.append({'class': 'count', 'msg': '%s regularises %d times and wrote %d lines while verbose '
                                 'mode was being switched: %r' % (what, ref.regs, n, texts[:6])})
                # once verbose mode has been switched off, a call may finish the diagnostic it has begun, no more
                late = {}
                for _, op, text, when in box['log']:
                    if op == i and self.in_force(vlog, when + 0.5, when + 0.5) == {False}:
                        k = sum(1 for a in vlog if a[0] <= when)
                        late[k] = late.get(k, 0) + text.count('\n')
                if any(x > 2 for x in late.values()):
                    viol.append({'class': 'late', 'msg': '%s wrote %s lines after verbose mode had been switched off: %r' % (
                        what, max(late.values()), texts[:6])})
                ok = self.in_force(slog, inv, ret)
                for q in got:
                    if q not in ok:
                        viol.append({'class': 'stream', 'msg': '%s wrote %r to stream %d, but standard error was %s '
                                     'during the call' % (what, got[q][:2], q, sorted(ok))})
        sim = sims[0]
        for s in sims[1:]:
            sim.switches += s.switches
            sim.total_steps += s.total_steps
            sim.switch_hash = hash((sim.switch_hash, s.switch_hash))
            sim.forced += s.forced
            sim.lock_waits += s.lock_waits
            sim.faults_fired += s.faults_fired
            if len(s.threads) > len(sim.threads):
                sim.threads = s.threads
        hh = hash((repr(spec['gens']), sim.switch_hash)) & 0xFFFFFFFFFFFF
        st = work.sim_stats(sim, spec, {'ops': len(calls), 'lines_expected': total, 'modes': {spec['mode']: 1},
                                        'lines_written': sum(len(s.parts) for s in streams),
                                        'histories': [hh] if total else []})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}

    @staticmethod
    def in_force(log, inv, ret):
        """values of a register that may have been in force at some moment between inv and ret"""
        # writes certainly overwritten before the call: those followed by another write that began after them
        out = set()
        for a in log:
            if a[0] > ret:
                continue
            dead = any(a[1] < b[0] and b[1] < inv for b in log if b is not a)
            if not dead:
                out.add(a[2])
        return out

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
