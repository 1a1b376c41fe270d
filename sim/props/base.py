"""What every property module provides."""
import io
import sys
import random

from .. import kernel, catalog, canon, work
from ..engine import rng_of, HarnessError


class Sink(io.StringIO):
    """healthy standard error stream kept in memory"""


class Prop(object):
    id = None
    title = None
    needs_library = True
    quick_runs = 1000
    thorough_runs = 20000
    rule = ''
    real = ('all of ellipy, numpy, scipy, and the logging, inspect, copy and pickle modules of the standard library '
            'run unmodified')
    stub = ('thread scheduling, threading/_thread locks, time.time/monotonic/sleep are simulated; '
            'numpy.linalg entry points pass through a fault seam; standard error is an in-memory stream')
    assumptions = []
    budget = {'quick': 420.0, 'thorough': 6 * 3600.0}

    def __init__(self, L, tier, seed):
        self.L = L
        self.tier = tier
        self.seed = seed

    @property
    def n_runs(self):
        return self.quick_runs if self.tier == 'quick' else self.thorough_runs

    def prepare(self):
        pass

    def prepare_replay(self, spec):
        self.prepare()

    def specs(self):
        out = []
        for i in range(self.n_runs):
            rng = rng_of(self.id, self.seed, i)
            s = self.spec(rng, i)
            s['prop'] = self.id
            s['index'] = i
            s.setdefault('seed', rng.randrange(1 << 48))
            out.append(s)
        return out

    def spec(self, rng, i):
        raise NotImplementedError

    def execute(self, spec):
        raise NotImplementedError

    def known(self, v):
        return bool(v.get('known'))

    def viable(self, spec):
        return True

    def simplify(self, spec):
        return []

    def final(self, stats):
        """violations that need all runs together"""
        return []

    def sample(self, spec):
        """short description of one case for the evidence file"""
        return spec

    def nontrivial(self, stats):
        s = stats.sets.get('interleavings')
        return len(s) if s else stats.n.get('nontrivial', 0)


class PoolProp(Prop):
    """threads running operations from a pool whose results alone are known"""
    pool_size = {'quick': 450, 'thorough': 1500}
    groups = None
    exclude = ()
    cfg = None

    def prepare(self):
        self.pool = work.make_pool(self.L, '%s/%s' % (self.id, self.seed), self.pool_size[self.tier], self.groups,
                                   self.exclude, self.cfg)
        self.refs = {(n, s): r for n, s, r in self.pool}

    def prepare_replay(self, spec):
        self.refs = {}
        self.add_refs(self.ops_of(spec))

    def add_refs(self, items):
        miss = [x for x in dict.fromkeys(items) if x not in self.refs]
        for it, r in zip(miss, work.references(self.L, miss, self.cfg)):
            self.refs[it] = r

    def ops_of(self, spec):
        return [(o['op'], o['seed']) for t in spec['threads'] for o in t]

    def steps_of(self, o):
        r = self.refs.get((o['op'], o['seed']))
        return r.steps if r is not None else 1000

    def pick_ops(self, rng, n, bias=None):
        """n operations; often of few kinds, so that they meet in the same code"""
        out = []
        kinds = None
        if bias is None:
            bias = rng.random()
        if bias < 0.5:
            k = rng.choice([1, 1, 2, 3])
            kinds = set(rng.choice(self.pool)[0] for _ in range(k))
        elif bias < 0.7:
            g = catalog.GROUP[rng.choice(self.pool)[0]]
            kinds = set(x for x in catalog.OPS if catalog.GROUP[x] == g)
        cand = [p for p in self.pool if kinds is None or p[0] in kinds]
        while len(out) < n:
            p = rng.choice(cand if rng.random() < 0.85 else self.pool)
            if rng.random() < max(0.12, min(1.0, 2500.0 / (p[2].steps + 1))):    # short calls more often
                out.append((p[0], p[1]))
        return out
