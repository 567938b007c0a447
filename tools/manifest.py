#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import props  # noqa: E402

NA = {
}
checks = []
for pid, p in sorted(props.PROPS.items()):
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid}',
        'thorough_cmd': f'python3 check.py {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'symbolic execution of the LLVM IR of the real code (compiled from /repo on every run), assertions decided by SMT (z3; thorough: also cvc5) over all inputs within the bounds',
        'level': 'model_checking',
        'level_note': 'Bounds: ' + p['bounds'] + ('. Outside: ' + p['outside'] if p['outside'] else '') +
                      '. Counterexamples and sample paths are replayed natively. Trusted: the executor\'s reading of LLVM IR, its term simplifier, the reference decoder, the solver.',
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
    'notes': 'No hooks in /repo: the harness crates use the public API only (C23: a copy of the macro sources, made on every run). Exit 2 means no answer (the harness does not build or a query is inconclusive).',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
