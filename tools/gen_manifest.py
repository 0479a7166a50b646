#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/sim/props.cc').read()
have = set(re.findall(r'^  \{"([A-Z]\d\d)"', src, re.M))
T = 'deterministic simulation: '
BASE = 'Seeded search: a clean batch is evidence, not proof. '
C = {
 'M01': (T + 'seeded stream delivery, end-of-log and memory layout; exact zone reference model', BASE + 'Trusts the reference semantics in sim/model.cc; patterns whose skip tables exceed an allocation budget are discarded.'),
 'M02': (T + 'seeded stream delivery, end-of-log and memory layout; exact reference semantics of expressions', BASE + 'Trusts the reference semantics in sim/model.cc; expressions with very many derivations of one segment are discarded.'),
 'M03': (T + 'seeded stream delivery, end-of-log, memory layout and container; exact zone reference model', BASE + 'Trusts the reference semantics in sim/model.cc.'),
 'M04': (T + 'seeded stream delivery, end-of-log, memory layout and container; exact zone reference model', BASE + 'Trusts the reference semantics in sim/model.cc.'),
 'M05': (T + 'seeded stream delivery, end-of-log and memory layout; exact reference semantics of signals', BASE + 'Trusts the reference semantics in sim/model.cc; repetition of changing values is out of scope (N04).'),
 'I01': (T + 'differential runs of one log under seeded delivery schedules, sources and encodings', BASE + 'Oracle: byte equality of reports and equality of exit status.'),
 'S01': (T + 'producer crash at every byte or a random byte; reference record reader and matcher', BASE + 'Trusts the reference reader and matcher.'),
 'S02': (T + 'stored bytes corrupted, inserted or foreign; reference record reader and matcher', BASE + 'For inf, nan, hexadecimal and non-increasing timestamps only termination without a crash is checked.'),
 'S03': (T + 'read error injected at every byte or a random byte, permanent or transient', BASE + 'Trusts the reference matcher for the records before the failure.'),
 'O01': (T + 'write error or kill injected at every byte or I/O point of the report', BASE + 'Oracle: the fault-free report of the same run.'),
 'L01': (T + 'producer stalls after every delivery; at each stall the due matches must have been handed over', BASE + 'Due matches come from the reference model; stdout is line buffered as on a terminal, or the answer container is observed directly.'),
 'L02': (T + 'live heap sampled at every producer stall of long simulated streams', BASE + 'Bounds growth over streams of thousands of events, not for infinite streams.'),
 'D01': (T + 'allocator under simulator control: address order, reuse, stale contents, guard pages and canaries', BASE + 'Oracle: same set of matches and exit status under all sampled layouts; out-of-bounds accesses inside a block and reads of uninitialised stack are seen only through their effects.'),
 'D02': (T + 'seeded histories of parse/translate/match operations in one process, with injected abandonment, against fresh processes', BASE + 'Oracle: the same operation alone in a fresh simulated process.'),
 'D03': (T + 'real threads stepped one at a time by a seeded scheduler at every memory access of the repository code', BASE + 'Sequentially consistent interleavings only; weak-memory effects are out of reach.'),
 'F01': (T + 'allocation failure injected at the n-th allocation, once or for good', BASE + 'Oracle: the fault-free report of the same run.'),
 'F02': (T + 'open and read failures, truncation and corruption of the automaton file; invalid command lines and expressions', BASE + 'A malformed automaton is one whose text is cut or not a graph.'),
 'F03': (T + 'open, write and close failures injected into the output of tre2ta', BASE + 'Oracle: the fault-free output of the same run.'),
 'C01': (T + 'open, read, write and close failures, short writes, kills and corrupted bytes injected into a conversion; reference record reader', BASE + 'Trusts the reference reader; the converted log is matched again by monaa -b.'),
 'T01': (T + 'tre2ta and monaa -f against monaa -e under independent memory layouts and deliveries', BASE + 'Oracle: equality of the sets of reported segments.'),
 'W01': (T + 'seeded operation histories on the on-demand container over a faulty stream against a vector model', BASE + 'Trusts the model of the container in sim/.'),
}
NA = {
 'N01': 'The parser is a pure function of the expression text: no schedule, clock, I/O or fault for a simulation to decide. (Invalid expressions as a fault of the command line are covered by F02, and expressions in three textual styles by M02.)',
 'N02': 'Interval arithmetic is a pure function on values: no schedule, clock, I/O or fault for a simulation to decide.',
 'N03': 'The tables are a pure function of the automaton; their effect on the reported matches is decided by M01, M03 and M04.',
 'N04': 'The normal form of these expressions is broken on the pinned tree beyond a small repair (see DESIGN.md), and it is a pure function of the expression: no schedule, clock, I/O or fault for a simulation to decide. The rest of signal mode is M05.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in C and i in have:
        tech, note = C[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}', 'evidence_file': f'evidence/{i}.json',
                       'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 build.py && python3 build.py tsan' if 'D03' in have else 'python3 build.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is interposed at link time or passed in through the public interfaces (see DESIGN.md). known findings: known_findings.txt.'}
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
