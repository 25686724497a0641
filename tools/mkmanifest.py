#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in dst/checks (run by hand)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C20': 'pure function of its input: no randomness, schedule, clock, I/O, fault or shared state for a simulator to control; deciding it means input generation (property-based testing) or proof, not deterministic simulation',
 'C21': 'pure functions of their input (table recursion, determinants, predicates) with no nondeterminism or fault surface; they are exercised only indirectly, by the law and rejection checks C01, C02, C18, C19',
 'C22': 'deterministic numerical formulas evaluated at a point: no schedule, randomness, clock or fault can change the value, so simulation adds nothing over plain numerical comparison',
}
NOTE = {
 'exploration': 'Seeded search over simulated runs: evidence on everything explored, not proof. ',
 'fault_enumeration': 'Seeded fault placement over all call boundaries of sampled histories; evidence, not proof. ',
}
tech = {
 'C01': 'deterministic simulation: seeded call histories under a simulated random source, exact-law oracle by determinant enumeration',
 'C02': 'deterministic simulation: seeded histories of k-DPP calls under a simulated random source, enumeration oracle',
 'C03': 'deterministic simulation: seeded chains started at stationarity, invariance judged against enumerated law',
 'C04': 'deterministic simulation: chains under a biased simulated random source, step-wise invariants',
 'C05': 'deterministic simulation with a simulated clock (stalls, wall-clock jumps), refinement against the unlimited chain',
 'C06': 'deterministic simulation: seeded thread schedules, perturbed clock/hash seed/global generators, run-twice comparison',
 'C07': 'deterministic simulation: seeded operation histories with failing calls, reference model of the record',
 'C08': 'deterministic simulation with fault injection at seeded call boundaries, law and model checks afterwards',
 'C09': 'deterministic simulation with fault injection, byte snapshots of caller data and earlier results',
 'C10': 'deterministic simulation with fault injection, snapshots of process-wide state around every operation',
 'C11': 'deterministic simulation: seeded histories of rejection samplers and failing callbacks, enumerated law',
 'C12': 'deterministic simulation: seeded walks with biased random source, spanning-tree enumeration oracle',
 'C13': 'deterministic simulation: seeded call histories of matrix models against exact small-size laws',
 'C14': 'deterministic simulation: seeded runs with rejection-budget exhaustion, quadrature oracle for the law',
 'C15': 'deterministic simulation: seeded histories under a biased random source, exact enumerated laws',
 'C16': 'deterministic simulation: seeded Gibbs runs, exact conditional and ensemble laws as oracle',
 'C17': 'deterministic simulation with failing callbacks and biased randomness, exact leverage scores as oracle',
 'C18': 'deterministic simulation: seeded conversion/sampling histories with faults, reference kernels as model',
 'C23': 'deterministic simulation: seeded histories with rejected and interrupted calls, model of the last sample against what is normalised or handed to a recording display',
 'C24': 'deterministic simulation: seeded cycles of calls on several objects with failures in between, exact independence tests between calls',
 'C25': 'deterministic simulation with fault injection: seeded histories cut by a copy or by a process restart from pickled state, run-against-run comparison',
 'C19': 'deterministic simulation: seeded retry histories on invalid and borderline kernels, rejection model',
}
sys.path.insert(0, V)
checks, na = [], []
hist = {}
for p in props:
    cid = p['id']
    path = '%s/dst/checks/%s.py' % (V, cid.lower())
    if cid in NA:
        na.append({'property': cid, 'reason': NA[cid]})
    elif os.path.exists(path):
        src = open(path).read()
        level = 'fault_enumeration' if "level = 'fault_enumeration'" in src else 'exploration'
        checks.append({
            'property': cid,
            'quick_cmd': 'bin/check %s quick' % cid,
            'thorough_cmd': 'bin/check %s thorough' % cid,
            'technique': tech[cid], 'level': level,
            'level_note': NOTE[level] + 'Trusts numpy/scipy, CPython and the reference models in dst/; '
                          'bounds, thresholds and stubs are listed in DESIGN.md and in the evidence file.'})
    else:
        na.append({'property': cid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam already exists (random_state, kernel callbacks, module time, sys.setprofile/settrace, stdout).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'n/a')
