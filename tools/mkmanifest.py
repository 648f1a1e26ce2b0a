#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C24': 'core/src/resolve and core/src/graph are commented out in lib.rs and do not compile, so there is no executable resolver that a specification could be bound to'}
NOTE = {
    '*': 'Every recorded step of the real code is checked by TLC against the TLA+ specification (a step that no action explains is a violation); the law of the property itself is checked exhaustively on the specification within small bounds. Trusted: TLC, the probe that records steps, the Python generator of inputs (its mistakes are detected where the specification can tell). Inputs are bounded in size and sampled outside the exhaustively enumerated part.',
    'C08': 'As for the other properties; testing with ~= aborts in the code (known finding C08-compatible), so for those two operators only the abort itself is accepted.',
    'C23': 'The answers of the built extension module, driven from the system Python, are compared step by step with those of the Rust library, which C01-C10 check against the specification.',
    'C22': 'Sessions of calls in several orders and threads are validated against a specification whose only state is the table of answers given so far.  Thread schedules are those of the operating system.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'hooks': {'guard': '--cfg ronda_verif', 'enable': 'RUSTFLAGS="--cfg ronda_verif" cargo build in /verif/harness (path dependency on /repo/core)',
               'source_commits': ['76c984e39f80973bd41392716d1a84cae329fcb5']},
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'TLA+ specification model checked with TLC; recorded executions of the code validated against it',
                 'level': 'model_checking', 'level_note': NOTE.get(p['id'], NOTE['*'])} for p in props if p['id'] not in NA],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'bin/check ID REPLAY re-runs a recorded violation. Known findings: known_findings.jsonl.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
