#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = 'bounded-exhaustive exploration of the real code against an executable reference model'
CHECKS = {
 'C01': (EX.replace('an executable reference model', 'a panic/abort/hang monitor'), 'every text of up to 6/7 symbols of several alphabets, single and double edits, doubled and nested parts, list lengths; overflow checks and debug assertions on; crashes and hangs attributed by a supervising process'),
 'C02': ('exhaustive exploration of accepted inputs, print/parse/print state comparison', 'all values of the attribute spaces, all single edits, all ordered pairs of samples at all levels, product of line variants, list lengths'),
 'C03': (EX, 'all line sequences up to depth 5/6 (11 kinds) and 6/8 (7 kinds), from several starting sections, all ordered pairs of samples, list lengths'),
 'C04': (EX, 'every attribute at every level and place; all API addition sequences of one attribute per name up to length 2/3'),
 'C05': (EX, 'all line sequences up to depth 6/7 from the start and several intermediate states, single faults, prefixes, connection masks'),
 'C06': (EX, 'all ordered attribute sequences up to depth 4/5 per section, products of sections, list lengths'),
 'C07': (EX, 'all sequences of good, unsupported and wrong lines up to a depth, both modes, compared with the model and with the document without the unsupported lines'),
 'C08': (EX, 'all sequences of lines, blank lines and line ends up to a depth; every bad line at every place'),
 'C09': ('exhaustive enumeration of equivalence-preserving transformations, product comparison', 'all case masks, white-space places, line-end assignments, blank-line subsets, pairs of variants over 12 documents and about 190 lines'),
 'C10': (EX, 'token products of each line kind with the boundary alphabets, all single edits'),
 'C11': (EX, 'token products with all kinds, protocols, formats 0..=300 and boundaries, format list lengths, all single edits'),
 'C12': (EX, 'token products of each attribute with the boundary alphabets and extension sequences, all single edits; one known finding is listed'),
 'C13': (EX, 'token products of each attribute with the boundary alphabets, all single edits'),
 'C14': (EX, 'all sequences of parameters up to a depth, all values of a boundary table per parameter, all single edits'),
 'C15': (EX, 'token products, parameter and alternative sequences, all single edits'),
 'C16': (EX, 'token products, list lengths, all single edits'),
 'C18': (EX, 'product of address texts and declared types, all pairs and triples for the equality laws, all edits of address texts'),
 'C19': ('exhaustive exploration of operation sequences of the real anonymizer against a reference map', 'all sequences of maskings up to a depth over kinds and values, runs of many values of every kind, product of two anonymizers'),
 'C20': ('exhaustive enumeration of sessions and repeated maskings against a reference projection', 'all attributes and pairs at all levels, address products, repeated masking in one and two sessions'),
 'C21': ('exhaustive exploration of operation sequences of the real API against a reference state machine', 'all sequences of editing operations up to a depth from several media sections'),
 'C22': ('exhaustive exploration of operation sequences of the real API against a reference state machine', 'all sequences of building operations up to a depth, all attribute orders, print and parse of every built session'),
 'C23': ('exhaustive exploration of call histories and of thread schedules (controlled scheduler, preemption bound) of the real code', 'all ordered pairs/triples of calls in new processes, repetitions; all schedules of two threads with one preemption, two for a subset, yield points at every heap operation and log call'),
 'C24': ('product exploration of four builds of the real code over one bounded input space, JSON compared with a reference tree', 'all single edits of attribute, line and document samples and pairs of attributes, in the four feature sets'),
 'C25': ('bounded-exhaustive exploration of the value space of every attribute type, print and parse of the real code', 'all combinations of boundary values with a number of fields away from the default, all combinations of the small types'),
 'C26': ('bounded-exhaustive product exploration: every public entry point of the real code against the document parser', 'all samples, single edits and short texts through all entry points, all line sequences up to depth 5/6 as a document and as line lists divided at every place, all fingerprint lengths and edits, constructors with boundary values'),
 'C17': (EX, '105 numeric fields, each with all integers up to 70000/1050000 and 600/20000 integers around each power of two, digit strings, leading zeros'),
}
WAIT = {}
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        checks.append(dict(property=p, quick_cmd=f'./check.sh {p} quick', thorough_cmd=f'./check.sh {p} thorough',
                           technique=t, level='model_checking', level_note=n + '; bounds are stated in DESIGN.md and in the evidence'))
    else:
        na.append(dict(property=p, reason=WAIT.get(p, 'the check is not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks run the explorer mc/ (one Rust program, path dependency on /repo); see DESIGN.md. Reproduce a violation with: mc/target/release/mc replay <replay file>.')
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
