#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose simulation exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = dict(Q='queue', P='pool', W='wear', D='stream', T='timer', I='interp', B='format', E='input', M='memtest', A='alloc', R='ring', L='led', F='filter', C='container', S='text', K='text', N='text')
TECH = dict(
 Q='deterministic simulation: seeded schedules, interrupts, weak memory and allocation failures against a queue model',
 P='deterministic simulation: seeded schedules and weak memory, ownership history check',
 W='deterministic simulation: seeded power loss, torn and failed flash operations against a durability model',
 D='deterministic simulation: seeded completions and failing starts of simulated transmit hardware against a stream model',
 T='deterministic simulation: seeded clocks, overflow, late polls against a reference timer',
 I='deterministic simulation: seeded interrupts at every memory access, history check of announcements and readings',
 B='deterministic simulation: seeded torn, truncated and corrupted storage against a reference format',
 E='deterministic simulation: seeded noisy, bouncing inputs and sampling instants against reference detectors',
 M='deterministic simulation: seeded memory faults injected under every access of the test, shadow memory oracle',
 A='deterministic simulation: seeded allocation failures, block ledger oracle',
 R='deterministic simulation: seeded producer/consumer stalls and block sizes against a reference ring',
 L='deterministic simulation: seeded update ticks, speed changes and restarts against reference waveforms and animations',
 F='deterministic simulation: seeded glitching sensor (spikes, dropouts, saturation, stuck) against exact reference filters',
 S='deterministic simulation: seeded printing interrupts and exhausted space against reference texts',
 K='deterministic simulation: seeded measurement sessions with outliers, aborts and restarts against a reference fit',
 N='deterministic simulation: seeded stuck and extreme generator outputs behind std::rand against the exact map',
 C='deterministic simulation: seeded capacity exhaustion and failing element copies against reference containers')
NOTE = dict(
 Q='Samples schedules and stale loads of a C++20 view-based memory model over the real code compiled from /repo; trusts that model, the clang instrumentation and the simulated heap. Not exhaustive.',
 P='Samples interleavings of up to four simulated threads of the real code under a C++20 view-based memory model; compare-and-swap reads the newest store. Not exhaustive.',
 W='Samples fault histories of the real code over simulated flash with torn programs, partial erases, power loss at every storage operation, lost writes; assumes the storage reports erases honestly. Not exhaustive.',
 D='Samples message, completion and start-failure histories of the real code over simulated transmit hardware that reads its memory until completion. Not exhaustive.',
 T='Samples clock values (all widths, around overflow), periods and poll instants; reference arithmetic is exact. Not exhaustive.',
 I='Samples interrupt instants at every memory access of the real code (single core); ordering on several cores is not claimed by the property. Not exhaustive.',
 B='Samples contents, truncation points and corruptions of the real code under AddressSanitizer against an independently written encoder and parser. Not exhaustive.',
 E='Samples input waveforms, bounce, noise, query instants and hand-overs of the real code against independently written detectors. Not exhaustive.',
 M='Samples fault kinds, places and instants under every memory access of the real test; the simulated memory decides what each read returns. Not exhaustive.',
 A='Samples allocation histories and failures of the real code; a ledger of live blocks with canaries decides. Not exhaustive.',
 R='Samples histories of producers and consumers with stalls of the real code against reference rings. Not exhaustive.',
 L='Samples histories of requests and updates of the real code against reference phases computed in extended precision, with tolerances for the fixed-point steps. Not exhaustive.',
 F='Samples readings of a simulated glitching sensor through the real code against exact averages; single-precision results within rounding. Not exhaustive.',
 S='Samples messages, interrupt instants, copies and buffer sizes of the real code under AddressSanitizer against independently formatted texts. Not exhaustive.',
 K='Samples calibration sessions of the real code against fits computed in extended precision, within rounding. Not exhaustive.',
 N='Samples generator outputs and bounds of the real code against exact arithmetic. Not exhaustive.',
 C='Samples operation histories of the real code under AddressSanitizer, at capacity and with failing element copies, against independently written models. Not exhaustive.')
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
na = {}
exec(open(f'{V}/tools/not_applicable.py').read(), na)
checks, rest = [], []
for p in props:
    i = p['id']
    if i in na['REASONS']:
        rest.append({'property': i, 'reason': na['REASONS'][i]}); continue
    if not os.path.exists(f'{V}/sim/h_{H[i[0]]}.cc'):
        rest.append({'property': i, 'reason': 'its simulation is not built yet'}); continue
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                   'evidence_file': f'evidence/{i}.json', 'technique': TECH[i[0]], 'level': 'exploration', 'level_note': NOTE[i[0]]})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'No hooks are needed: the seams are template parameters, callbacks, operator new, and the memory accesses of the code compiled with -fsanitize=thread against our own runtime.', 'source_commits': []},
     'checks': checks, 'not_applicable': rest,
     'notes': 'check.sh builds the simulation from /repo and runs it; replay.sh <file> re-executes a reported violation. See DESIGN.md.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(rest), 'not applicable')
