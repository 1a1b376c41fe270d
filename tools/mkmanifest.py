"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
C = {
'C01': ('seeded bytecode-level schedules of threads on the real configuration; recorded history checked for linearizability against a sequential register model', 'Sampled interleavings of 2-4 threads; the linearizability decision on each recorded history is exact.'),
'C02': ('seeded schedules of constructions against configuration replacements; every object compared with the configurations in force during its construction', 'Sampled interleavings and histories.'),
'C03': ('seeded sequences of corrupting and repairing options over threads, against a reference model of option checks', 'Sampled fault sequences; the model states which calls must be rejected.'),
'C04': ('seeded histories and schedules of verbose calls with stream redirection; emitted lines compared with the lines each call writes alone', 'Sampled histories and interleavings.'),
'C05': ('faulty standard error streams and clock jumps injected at seeded writes; results compared with the same call run silently', 'Sampled fault placements.'),
'C06': ('seeded bytecode-level schedules of 2-4 threads of library calls; every result compared with the same call run alone; deadlock detection by the simulated locks', 'Sampled interleavings over a catalogue of all public operations; comparison is exact (bit level up to -0.0/NaN).'),
'C07': ('seeded call histories with failures and re-filled buffers; final calls compared with a fresh process', 'Sampled histories.'),
'C08': ('arguments watched at every scheduling point and after each call, for writable/read-only and differently laid out arguments, with faults', 'Sampled operations, layouts, instants and fault points.'),
'C09': ('a hostile caller overwrites any buffer it ever passed or received at seeded points of a history; everything else must stay the same', 'Sampled histories.'),
'C10': ('allocation failures, LAPACK failures and interrupts injected at a seeded point inside each call', 'Sampled fault points; the outcome, the state left behind and the repeated call are compared with a fault-free run.'),
'C11': ('allocation, LAPACK and interrupt faults at seeded points inside in-place projections', 'Sampled arrays, bases and fault points; before/after states compared with the all-projected and none-projected states.'),
'C12': ('disk faults on source files, seeded threads and call depths around rejections; text compared with the rejection alone', 'Sampled fault sequences and interleavings.'),
'C13': ('callbacks that fail, re-enter the library, yield to other threads, keep or overwrite their arguments, by seed', 'Sampled behaviours; the sequence of calls is compared with the one the operation must make.'),
'C14': ('insertion orders, hash functions and schedules chosen by seed; verdict and report compared with one canonical order', 'Sampled orders.'),
'C15': ('crash points and configurations chosen by seed, restore in a separate process; settings and data compared with the original', 'Sampled crash points and configuration pairs; only completed exports must survive.'),
'C16': ('interpreter-wide settings compared around seeded calls, with faults and overlap', 'Sampled operations, fault points and interleavings.'),
'C17': ('seeded import orders with transient read failures and concurrent configuration use in fresh processes', 'Sampled orders and faults.'),
'C18': ('outcomes of the steps of the release command chosen by seed; recorded sequence of steps checked', 'The real setup.py command with stand-ins for the shell; three known findings are listed in known_findings.txt.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
REASON = ('A pure function of its arguments: no schedule, clock, I/O, crash or history enters into it, so there is '
          'nothing for a simulator to decide; generating inputs would be property-based testing, a different technique. '
          '(That the answer stays the same under schedules, histories and faults is C06, C07 and C10.)')
m = {'version': 1, 'setup_cmd': './run.sh selfcheck',
     'checks': [{'property': p, 'quick_cmd': './run.sh %s quick' % p, 'thorough_cmd': './run.sh %s thorough' % p,
                 'technique': T + t, 'level': 'exploration',
                 'level_note': n + ' Trusts the simulator in sim/, CPU-level determinism of PyPy, numpy and LAPACK.'}
                for p, (t, n) in C.items()],
     'not_applicable': [{'property': p['id'], 'reason': REASON} for p in props if p['id'] not in C],
     'notes': 'No hooks in /repo: the seams are sys.settrace opcode events, simulated threading locks, numpy.linalg and '
              'io.open wrappers, and stand-in streams, all installed from /verif inside the simulated process. '
              'Replay: ./run.sh replay <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
