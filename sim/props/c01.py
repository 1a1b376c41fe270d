"""C01: configuration options are linearizable registers."""
from .conf_base import ConfProp, Uniq, run_history, scal
from .. import work, confmodel


class P(ConfProp):
    id = 'C01'
    quick_runs = 6000
    thorough_runs = 250000
    rule = ('2-4 simulated threads run 2-5 getters, setters, snapshots, replacements and resets each, every bytecode a '
            'possible switch; the invoke/return history is checked for linearizability against a dictionary model; '
            'non-trivial: at least one switch inside a call; distinct by the hash of the switches')

    def spec(self, rng, i):
        u = Uniq(rng)
        nt = rng.choice([2, 2, 3, 3, 4])
        per = rng.choice([2, 3, 4, 5]) if nt < 4 else rng.choice([2, 3])
        hot = rng.sample(confmodel.SETTERS, rng.choice([1, 2, 3]))
        wts = {'set': rng.choice([1, 3]), 'get': rng.choice([1, 3]), 'dump': rng.choice([0, 1, 2]),
               'mgr': rng.choice([0, 0.4]), 'replace': rng.choice([0, 1, 2]), 'init': rng.choice([0, 0.6, 2])}
        kinds = [k for k in wts for _ in range(int(wts[k] * 5))]
        few = rng.random() < 0.3             # few values, so that the same one, or an equal one, is written again

        def value(n):
            if not few:
                return u.val(n)
            if n in confmodel.BOOL:
                return rng.choice([True, False, 1, 0])
            if n in confmodel.NUM:
                return rng.choice([200, 200.0, 31, 250])
            return rng.choice([1e-6, 1e-5, 2e-6])
        threads, k = [], 0
        for t in range(nt):
            th = []
            for _ in range(per):
                kind = rng.choice(kinds)
                if kind == 'set':
                    n = rng.choice(hot)
                    op = ['set', n, value(n)]
                elif kind == 'get':
                    op = ['get', rng.choice(hot) if rng.random() < 0.8 else rng.choice(confmodel.ORDER)]
                elif kind == 'replace':
                    op = ['replace', u.full()]
                    op[1]['is_verbose'] = u.val('is_verbose')
                else:
                    op = [kind]
                th.append({'id': k, 'do': op})
                k += 1
            threads.append(th)
        spec = {'threads': threads, 'seed': rng.randrange(1 << 48)}
        return work.apply_sched(spec, rng, lambda o: 40)

    def execute(self, spec):
        sim, hist, made, touched = run_history(self, spec)
        viol = work.problem_viol(sim)
        und = 0
        if not viol:
            last = (99, sim.stamp(), sim.stamp(), ['dump'],
                    ['ok', {k: scal(v) for k, v in self.L.Properties.get_prop_dict().items()}])
            why = confmodel.linearizable(self.model, dict(self.defaults), hist + [last])
            if why == 'undecided':
                und = 1
            elif why:
                viol.append({'class': 'order', 'msg': why})
        st = work.sim_stats(sim, spec, {'ops': len(hist), 'undecided': und})
        return {'viol': viol, 'spec': work.replayable(spec, sim), 'stats': st}
