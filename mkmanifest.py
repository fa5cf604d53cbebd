"""Writes MANIFEST.json."""
import json
NA = "Pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour is involved, so there is nothing for a simulator to decide; generating inputs would be property-based testing, not deterministic simulation."
NOTE = {
 'C01': 'Seeded search over schedules; every result is compared with the same operation run alone in a new process. Preemptions at executed lines and opcodes of engine code only.',
 'C02': 'Seeded search over histories, faults and interruption points; every later operation is compared with the same operation on a new runtime in a new process.',
 'C03': 'Seeded search over programs and placements of faults, compared with an independent reference interpreter. Exceptions are raised by user code (functions, attributes, items, iterators, __str__) and by the engine itself (unassigned variables, wrong arguments).',
 'C04': 'Seeded search over programs and placements of faults and false values, compared with an independent reference interpreter.',
 'C05': 'Seeded search over programs, faults of user code and points of asynchronous interrupts; identity of the exception object is checked. StopIteration is excluded.',
 'C06': 'Seeded search over programs and faults of the simulated file system (errors, short reads, vanishing files, undecodable bytes, failing packages), compared with a reference interpreter. Faults of stat() only where no other script has the same import path.',
 'C07': 'Seeded search over programs with hypertags, faults, re-entrant calls and schedules, compared with an independent reference interpreter.',
 'C08': 'Seeded search over sequences and interleavings of DOM operations, compared with the same operation run alone on the same tree in a new process, plus a picture of each tree before and after.',
 'C09': 'Seeded search over programs and faults; the complete log of calls of user code is compared with that of an independent reference interpreter.',
 'C10': 'Seeded search over sequences and interleavings of calls sharing argument objects; deep pictures of the objects before and after, results compared with solo runs. A script that calls a mutating method of an object itself is out of scope.',
 'C11': 'Seeded search over I/O faults and script errors; every simulated file handle must have been closed explicitly when the operation ends. Operations interrupted asynchronously are excluded.',
 'C12': 'Step budgets instead of wall-clock time: 10 times the steps of the solo run plus a constant; cyclic import graphs; growth of steps on doubled inputs (up to about 64 elements). Very deep nesting (thousands of levels) is not explored.',
 'C13': 'Differential: the same operations under different clocks, jumps, randomness, identity, environment variables (all that the engine asks for), earlier history and hash seed.',
 'C14': 'Seeded search over layouts and histories, compared with a model of the documented search order. Removal of loaded scripts and packages that appear later are not explored.',
}
checks = []
for i in range(1, 15):
    p = 'C%02d' % i
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p + ' --tier thorough', 'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'deterministic simulation with fault injection: seeded search over ' + {'C01': 'thread schedules', 'C14': 'file layouts and histories', 'C13': 'environments and clock jumps', 'C08': 'operation sequences and schedules', 'C10': 'call sequences and schedules', 'C12': 'import graphs, schedules and interrupts', 'C07': 'programs, faults and schedules'}.get(p, 'programs and fault sequences'),
                   'level': 'exploration', 'level_note': NOTE[p]})
doc = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks,
       'not_applicable': [{'property': 'N%02d' % i, 'reason': NA} for i in range(1, 9)],
       'notes': 'No hooks in /repo: all seams are installed from outside (dst/seam.py, dst/simfs.py, dst/sched.py). Replay: ./check --replay FILE.'}
json.dump(doc, open('MANIFEST.json', 'w'), indent=1)
