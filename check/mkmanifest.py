#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'Every reader and writer is proved equal to a parse function and an encoding function for all inputs, file level included; lemmas over these functions, for all kinds and nestings, show that parsing inverts encoding.',
    'C02': 'No panic, overflow or out-of-range access in any reader, for all byte sequences; recursion depth is bounded by the stack (known finding).',
    'C03': 'Size comparison and declared sizes are part of every reader\'s and writer\'s postcondition.',
    'C04': 'String readers and writers against the format\'s definition, for all strings and byte sequences.',
    'C05': 'Scalar readers and writers against bit-exact little-endian encodings, for all values.',
    'C06': 'Header acceptance and content, for all byte sequences and headers.',
    'C07': 'Layout selection by custom versions in every version-dependent reader and writer.',
    'C08': 'The path stack is a frame condition of every reader; hint lookup and the error for a missing hint are part of Property::new\'s postcondition.',
    'C09': 'Unknown kinds kept byte for byte, with header and inside containers.',
    'C10': 'Container framing and compression kinds; zlib itself is an axiom (inflate inverts deflate).',
    'C11': 'Collections: readers, writers and constructors against element-by-element definitions; the map wrapper\'s own functions, and that equal maps hash equally.',
    'C12': 'Struct readers and writers, repeated names included.',
    'C13': 'All text histories, arguments and options.',
    'C14': 'Returned counts equal the length of what was appended, for every writer.',
    'C15': 'Writers succeed exactly when the value is representable and the sink accepts everything; sinks are modelled as accepting any part of a request or failing.',
    'C16': 'Error kind, offending value and position for every refusal; the message shows every value the error carries (its wording is outside the proof).',
    'C17': 'Byte, word, integer and text conversions by Verus for all values and strings, with the lemma that parsing inverts printing; the conversions with unsafe code also by Kani for all values.',
    'C18': 'Every accessor and conversion, in both directions, for all values.',
    'C19': 'As C01, starting from what reading returns: lemmas show that everything reading returns can be written and is in the form C01 speaks of.',
}
THEOREMS = {
    'C01': ['lemma_rt_file', 'c01'],
    'C11': ['lemma_map_hash'],
    'C17': ['lemma_guid_text', 'lemma_guid_words'],
    'C19': ['lemma_read_file', 'c19'],
}
NOT_APPLICABLE = [{
    'property': 'C20',
    'reason': 'The code that decides it is generated by serde\'s derive macros and runs inside serde (untagged and flattened forms go through serde\'s private buffering of '
              'arbitrary data) and the format\'s own crate. Contracts would have to be assumed for all of that and would be most of the claim. What /repo itself writes by hand there '
              'are seven one-line functions; the text form of a GUID they rely on is C17.',
}]
checks = []
for p, n in NOTE.items():
    checks.append({
        'property': p,
        'quick_cmd': 'VERIF_TIER=quick python3 check/run.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check/run.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contract-based deductive verification (Verus) of function bodies extracted mechanically from /repo on every run; a differential search supplies concrete inputs for failed obligations and is the bounded stand-in for anything outside the verifier\'s reach',
        'level': 'proof',
        'level_note': n,
    } | ({'theorems': THEOREMS[p]} if p in THEOREMS else {}))
m = {'version': 1, 'setup_cmd': 'bash check/setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'Commands run from /verif. Evidence in evidence/<id>.json. Replay a violation with: bash check/replay.sh <replay file>.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
