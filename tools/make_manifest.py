#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection: seeded search over '
CHECKS = {
 'C01': ('histories of nested decorated calls with exceptions and settings changes injected inside bodies', 'Every simulated history compared with a reference model of the depth budget and a fresh process.'),
 'C02': ('instruction-level thread schedules', 'Real interpreter threads serialised by a scheduler that decides every switch; results compared with the same thread alone in a fresh process.'),
 'C03': ('histories of evaluations, failures and settings changes', 'Each evaluation compared with a fresh process and an exact reference model.'),
 'C04': ('histories of operations over live values with injected failures', 'All live values and caller containers observed again after every operation.'),
 'C05': ('histories of valid and invalid settings changes, resets and failing operations', 'Each setting observed by its effect after every operation, against a dictionary model.'),
 'C06': ('histories of compilations, rejected and interrupted ones included', 'Each compilation compared with the same text and flags in a fresh process.'),
 'C07': ('histories of program runs failing part-way', 'Outputs compared with an interpreter of the abstract program, or a fresh process.'),
 'C08': ('histories of outputs over several sinks with injected sink failures and torn writes', 'Deliveries to every sink and to standard output compared with the text returned by the same call.'),
 'C09': ('scripted random sources and histories of samplings', 'Random source behind a seam: exact draw distribution by scripted sources, repeatability by state restore.'),
 'C10': ('invocation histories of decorated functions with failures injected at chosen invocations', 'Invocation list, mixture and exception identity compared with an exact reference.'),
 'C11': ('recursive function sets, depth settings and failing warning prints', 'Nesting, substitutions and warnings compared with a reference model.'),
 'C12': ('one-shot and failing iterators', 'Results and reads compared with the same call given a list.'),
 'C13': ('histories of restricted runs of hostile programs with import and lookup faults', 'Effects recorded through host objects and a scratch directory; hostile programs from a fixed grammar.'),
 'C14': ('asynchronous exceptions at chosen bytecode instructions', 'Afterwards everything observable compared with a fresh process; live values and settings observed.'),
 'C15': ('thread schedules of compilations and executions', 'Real threads under the deterministic scheduler; texts and outputs compared with a fresh process.'),
 'C16': ('hash seeds of fresh interpreter processes', 'The same batch in several processes must agree bit for bit.'),
}
PURE = 'a pure function of its arguments: no schedule, clock, I/O, randomness, crash point or history takes part, so there is nothing for a simulator to decide; '
NA = {
 'C30': PURE + 'its reference model is nevertheless the oracle of C03, C07, C10 and C11, which would report a wrong distribution they come across.',
 'C31': PURE + 'selections are compared with a model only as an oracle inside C03.',
 'C32': PURE + 'programs are compared with an interpreter of the abstract program only as an oracle inside C07.',
 'C33': PURE + 'deciding it needs a generator or proof over program texts, not simulation.',
 'C34': PURE + 'what the simulation decides about output is its delivery (C08).',
 'C35': PURE + 'an algebraic law over values.',
 'C36': PURE + 'a numeric error bound.',
}
m = {'version': 1, 'setup_cmd': f'{PY} -c "import sys; sys.path.insert(0, \'/verif\'); from simdice import seam; seam.load()"', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: every seam the simulator needs exists (callbacks, sinks, iterators, the random module, imports, sys.monitoring events, forked pristine processes).'}
for k, (t, n) in CHECKS.items():
    m['checks'].append({'property': k, 'quick_cmd': f'{PY} -m simdice check {k}', 'thorough_cmd': f'{PY} -m simdice check {k} thorough', 'technique': TECH + t, 'level': 'exploration',
                        'level_note': n + ' Holds on the seeded runs explored, not for all; trusts the simulator, its reference models and CPython.'})
p = pathlib.Path(__file__).resolve().parent.parent / 'MANIFEST.json'
p.write_text(json.dumps(m, indent=1) + '\n')
