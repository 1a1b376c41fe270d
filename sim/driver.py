"""Command line: driver.py <property> [quick|thorough]   |   driver.py replay <file>"""
import os
import sys
import json
import time
import importlib
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_prop(pid, tier, seed):
    from . import loader
    mod = importlib.import_module('sim.props.' + pid.lower())
    L = None
    if mod.P.needs_library:
        loader.base()
        L = loader.library()
    else:
        loader.base()
    return mod.P(L, tier, seed)


def main(argv):
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'selfcheck':
        return selfcheck(argv[1:] or ['C01', 'C06', 'C10'], 24)
    if argv[0] == 'determinism':
        return selfcheck(argv[2:] or ALL, int(argv[1]))
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else (os.environ.get('VERIF_TIER') or 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    return check(pid, tier, seed)


ALL = ['C%02d' % i for i in range(1, 19)]


def _same_twice(item):
    from . import engine
    prop, spec = item
    a = engine.run_spec(prop, spec)
    b = engine.run_spec(prop, spec)
    return (a == b or repr(a) == repr(b), repr(a)[:400], repr(b)[:400])


def selfcheck(pids, n):
    """every run twice: the same seed must give the same execution, event for event"""
    from . import engine
    bad = 0
    for pid in pids:
        prop = load_prop(pid, 'quick', 1)
        prop.pool_size = dict(getattr(prop, 'pool_size', None) or {}, quick=40)
        prop.quick_runs = n
        prop.prepare()
        res = engine.pmap(_same_twice, [(prop, s) for s in prop.specs()], limit=600)
        diff = [(i, r) for i, r in enumerate(res) if r[0] != 'ok' or not r[1][0]]
        print('%s: %d runs twice, %d differ' % (pid, n, len(diff)), flush=True)
        for i, r in diff[:2]:
            print('  run %d: %s' % (i, str(r)[:900]))
        bad += len(diff)
    return 1 if bad else 0


def check(pid, tier, seed):
    from . import engine, kernel
    t0 = kernel._real_monotonic()
    prop = load_prop(pid, tier, seed)
    print('property %s  tier %s  VERIF_SEED %d  workers %d' % (pid, tier, seed, engine.NPROC), flush=True)
    prop.prepare()
    t1 = kernel._real_monotonic()
    stats = engine.Stats()
    specs = prop.specs()
    found, errors, complete, done = engine.explore(prop, specs, stats, prop.budget[tier], print)
    t2 = kernel._real_monotonic()
    print('%d of %d runs in %.1f s (preparation %.1f s)' % (done, len(specs), t2 - t1, t1 - t0), flush=True)
    for k in sorted(stats.known):
        print('KNOWN-FINDING: property=%s %s' % (pid, k), flush=True)
    rc = 0
    nviol = 0
    reported = None
    extra = prop.final(stats) if not found and complete else []
    if extra:
        found = extra
    if found:
        reported = report(prop, found, pid)
        if reported is None:
            print('error: a violation was seen but could not be reproduced: harness not deterministic', flush=True)
            for i, r in found[:3]:
                print('  run %d: %s' % (i, r['viol'][0]), flush=True)
            rc = 2
        else:
            nviol = len(found)
            rc = 1
    elif errors:
        print('error: %d runs failed inside the harness; first:\n%s' % (len(errors), errors[0][1]), flush=True)
        rc = 2
    elif not complete:
        print('error: only %d of %d runs finished within %g s' % (done, len(specs), prop.budget[tier]), flush=True)
        rc = 2
    evidence(prop, pid, tier, seed, stats, specs, done, t2 - t1, kernel._real_monotonic() - t0, nviol)
    if reported is not None:
        print('VIOLATION property=%s replay=%s' % (pid, reported), flush=True)
    elif rc == 0:
        print('held on everything explored', flush=True)
    return rc


def report(prop, found, pid):
    """confirm, minimise, store and replay the first violation that reproduces"""
    from . import engine
    for idx, res in found[:6]:
        want = engine.classes(res, prop)
        spec = res['spec']
        ok = False
        for cand in (spec, res.get('orig') or spec):
            for _ in range(3):
                r2 = engine.run_spec(prop, cand)
                if want & engine.classes(r2, prop):
                    ok = True
                    break
            if ok:
                break
        if not ok:
            orig = prop_spec(prop, idx)
            if orig is not None:
                for _ in range(3):
                    r2 = engine.run_spec(prop, orig)
                    if want & engine.classes(r2, prop):
                        ok, cand = True, orig
                        break
        if not ok:
            continue
        best, tried = cand, 0
        if not (want & {'stuck', 'died'}):
            best, tried = engine.minimise(prop, cand, want)
        final = engine.run_spec(prop, best)
        if not (want & engine.classes(final, prop)):
            best, final = cand, r2
        viol = [v for v in final['viol'] if not prop.known(v)]
        path = os.path.join(VERIF, 'evidence', '%s-replay.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'run': idx, 'verif_seed': prop.seed, 'tier': prop.tier, 'violation': viol,
                       'spec': best, 'candidates_tried': tried}, f, indent=1)
        print('run %d violates %s; minimised with %d candidates to:' % (idx, pid, tried))
        print(json.dumps(best)[:3000])
        for v in viol[:4]:
            print('  [%s] %s' % (v['class'], v['msg'][:1500]))
        # the replay file in a fresh interpreter
        import subprocess
        rc = subprocess.call([sys.executable, '-m', 'sim.driver', 'replay', path], cwd=VERIF,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        print('replay in a fresh process: %s' % ('reproduced' if rc == 1 else 'rc %d' % rc), flush=True)
        return path
    return None


def prop_spec(prop, idx):
    try:
        return prop.specs()[idx]
    except Exception:
        return None


def replay(path):
    from . import engine
    with open(path) as f:
        d = json.load(f)
    prop = load_prop(d['property'], d.get('tier') or 'quick', d.get('verif_seed') or 1)
    prop.prepare_replay(d['spec'])
    res = engine.run_spec(prop, d['spec'])
    if 'error' in res:
        print(res['error'])
        return 2
    viol = [v for v in res['viol'] if not prop.known(v)]
    for v in viol:
        print('[%s] %s' % (v['class'], v['msg']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced')
    return 0


def evidence(prop, pid, tier, seed, stats, specs, done, wall_runs, wall, nviol):
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    st = stats.out()
    cov = {'evaluations': int(done), 'distinct_nontrivial': int(prop.nontrivial(stats)), 'rule': prop.rule,
           'samples': [prop.sample(s) for s in specs[:3]],
           'seeds': 'one integer per run, derived from VERIF_SEED=%d, the property and the run index' % seed,
           'runs_per_hour': int(done / max(wall_runs, 1e-3) * 3600),
           'simulated_time_s': st.get('sim_time_s', 0), 'faults_fired': st.get('faults_fired', {}),
           'distinct_interleavings': st.get('interleavings', 0),
           'measure_of_distinctness': 'hash of the sequence of (operation, event number in the operation, next thread)',
           'counters': st, 'real_components': prop.real, 'simulated_components': prop.stub}
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': list(prop.assumptions), 'wall_s': round(wall, 2), 'violations': nviol}
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.rename(tmp, path)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
