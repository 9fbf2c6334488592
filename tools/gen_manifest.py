#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SS = 'explicit-state model checking of the implementation'
T = {
 'C01': (SS + ': all call sequences over a menu of block sizes, capacities and end_of_input, states saved, restored and hashed; oracle: one-call conversion', 'model_checking'),
 'C02': ('exhaustive bounded enumeration of call histories on the ASan/UBSan-instrumented implementation with exactly sized buffers', 'exploration'),
 'C03': (SS + ': multichannel converter in lockstep with one mono converter per channel', 'model_checking'),
 'C04': ('bounded exhaustive enumeration of histories x continuations, differential against a new converter', 'model_checking'),
 'C05': (SS + ': all histories, clone points and interleavings of operations on original and clone, differential', 'model_checking'),
 'C06': (SS + ' in lockstep with an exact position/interpolation model', 'model_checking'),
 'C07': (SS + ' against direct evaluation of the published filter at exact positions', 'model_checking'),
 'C08': ('bounded exhaustive enumeration of lengths, ratios, channel counts and termination call patterns, explored to the end of stream', 'model_checking'),
 'C09': (SS + ': progress and termination checked in every reachable state', 'model_checking'),
 'C10': (SS + ': all callback block / read size sequences against the process interface', 'model_checking'),
 'C11': (SS + ' in lockstep with a ratio-trajectory model', 'model_checking'),
 'C12': (SS + ': every invalid call tried in every reachable state, differential on the continuation', 'model_checking'),
 'C13': ('exhaustive fault enumeration: every allocation point fails in every explored history; life cycles explored over all deletion orders', 'fault_enumeration'),
 'C14': ('complete enumeration of the input domains (2^16, 2^32, 2^32 values) and of lengths and alignments', 'exploration'),
 'C15': ('stateless model checking under a controlled scheduler: all interleavings of memory accesses up to preemption bound 2, conflict-directed', 'model_checking'),
 'C16': ('bounded exhaustive enumeration of histories x environments (heap/stack/buffer contents, addresses, alignments), differential', 'model_checking'),
 'C17': ('complete enumeration of the fractional positions of the filter index per ratio, measured on the implementation', 'exploration'),
 'C18': ('complete enumeration of int arguments and of all doubles around the limits; every call sequence to a depth for src_error', 'model_checking'),
 'C19': ('bounded exhaustive enumeration of arguments and of sequences of simple calls, differential against new/process/delete', 'model_checking'),
 'C20': (SS + ' over all positions of a disturbance and all cuttings, differential', 'model_checking'),
 'C21': (SS + ': the states of endless fixed call patterns on periodic signals are followed until they close a cycle (lasso)', 'model_checking'),
}
N = {
 'C01': 'Every cutting over the stated menus up to the stated stream lengths; menus and ratios are finite samples of the unbounded sets. Trusts the one-call conversion as reference (checked against independent models by C06 and C07).',
 'C02': 'Complete over the enumerated histories; out-of-bounds accesses that stay inside another live object of the same allocation are not seen by ASan.',
 'C03': 'Complete over the enumerated cuttings, channel counts and ratios.',
 'C04': 'Complete over the enumerated histories and continuations; equality is bitwise.',
 'C05': 'Complete over the enumerated histories and interleavings; equality is bitwise.',
 'C06': 'Values within float rounding of an independent model over all enumerated cuttings and ratio sequences; drift over endless streams is decided by C21.',
 'C07': 'Trusts the committed copy of the coefficient tables; tolerance is one unit of the filter index plus float rounding.',
 'C08': 'Complete for the stated ranges of length, ratio and pattern. Changing ratios after end_of_input are outside the statement.',
 'C09': 'Livelock within a call is detected by a CPU time limit and replayed before it is reported.',
 'C10': 'Complete over the enumerated block and read size sequences.',
 'C11': 'Values within the filter-index tolerance of the model trajectory.',
 'C12': 'Complete product of argument values in the explored states.',
 'C13': 'Every allocation point of every constructor; allocator of the harness decides leaks and overruns.',
 'C14': 'Complete for the element domain; NaN is not specified and not checked.',
 'C15': 'Sequentially consistent interleavings of instrumented accesses; library code only, libm/libc calls are atomic.',
 'C16': 'Complete over the enumerated histories and environments.',
 'C17': 'Complete over filter phases per enumerated ratio; spectra are computed from the measured impulse responses.',
 'C18': 'Complete for ints (2^32) of the lookup functions; ratio limits to the last unit.',
 'C19': 'Complete over the enumerated arguments; equality is bitwise.',
 'C20': 'Linearity is checked to float rounding; locality exactly.',
 'C21': 'A closed cycle of complete states proves the behaviour for ever for that pattern; patterns whose states do not close within the bound are followed for a long bounded time.',
}
checks = [dict(property=c, quick_cmd='python3 run.py %s --tier quick' % c, thorough_cmd='python3 run.py %s --tier thorough' % c, evidence_file='evidence/%s.json' % c,
    technique=t[0], level=t[1], level_note=N[c]) for c, t in sorted(T.items()) if os.path.exists(os.path.join(R, 'src', c.lower() + '.cpp'))]
na = [dict(property=c, reason='check not built yet') for c in sorted(T) if not os.path.exists(os.path.join(R, 'src', c.lower() + '.cpp'))]
json.dump(dict(version=1, setup_cmd='python3 run.py --build-all', checks=checks, not_applicable=na, notes='No hooks in /repo: the library sources are compiled unmodified; allocator calls are renamed in the object file.'),
    open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
