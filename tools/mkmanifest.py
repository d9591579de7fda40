#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
    'C01': 'model-based stateful property testing and fuzzing against an ordered map',
    'C02': 'stateful property testing; tree shape reconstructed from comparator traces, balance invariant',
    'C03': 'model-based stateful property testing and fuzzing against a map, hostile hash functions',
    'C04': 'property testing of round-trip, order and hash-content laws over generated numbers and blobs',
    'C05': 'model-based stateful property testing and fuzzing against a sequence',
    'C06': 'model-based stateful property testing and fuzzing against a multiset',
    'C07': 'stateful property testing with recorded locators against a set model',
    'C08': 'model-based stateful property testing and fuzzing against a bit vector',
    'C09': 'model-based stateful property testing and fuzzing against a byte string',
    'C10': 'stateful property testing with generated reader behaviour against a byte string model',
    'C11': 'differential property testing and fuzzing against a reference encoder, guarded buffers',
    'C12': 'differential property testing and fuzzing against a reference decoder, guarded buffers',
    'C13': 'exhaustive short sequences and code points plus generated strings against a reference UTF-8 codec',
    'C14': 'exhaustive comparison of all code points with reference tables plus random call sequences',
    'C15': 'differential property testing and fuzzing against a reference NFD, guarded buffers of any size',
    'C16': 'differential property testing and fuzzing against a reference NFC and quick check',
    'C17': 'round-trip and differential property testing and fuzzing against the documented encoding',
    'C18': 'property testing and fuzzing against naive reference definitions',
    'C19': 'exhaustive bytes in several locales plus generated strings against ASCII definitions',
    'C20': 'differential property testing and fuzzing against a reference UTS #46 / Punycode encoder',
    'C21': 'exhaustive comparison of all code points with the reference mapping table',
    'C22': 'differential property testing against the calendar definition and gmtime_r',
    'C23': 'property testing against exact 128-bit arithmetic',
    'C24': 'stateful property testing with a tracking reallocator over all other generators',
    'C25': 'differential property testing against snprintf over generated formats and arguments',
    'C26': 'stateful and metamorphic property testing: generated cases of all harnesses interleaved by a generated schedule and run in parallel threads, against their results alone',
}
NOTE = ('Held on every generated case of the run (counts, classes and samples in the evidence file); random and '
        'coverage-guided search of a generated input space, in optimised and in AddressSanitizer builds of the '
        'working tree. Trusts the reference model, the compilers and the C library.')
EXH = ('All code points 0..10FFFF are enumerated against tables derived from the pinned data files (cross-checked '
       'with an independent Unicode 13 implementation). ')
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build-all',
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'property-based testing: ' + t,
        'level': 'exploration',
        'level_note': (EXH if p in ('C14', 'C21') else '') + NOTE,
    } for p, t in sorted(T.items())],
    'not_applicable': [],
    'notes': 'No hooks in /repo: the harnesses compile the working tree as it is. /repo carries "fix:" commits only; '
             'see known_findings.txt and DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
