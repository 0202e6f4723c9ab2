#!/usr/bin/env python3
"""Derives properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(PROPS.items()):
        f.write(json.dumps({'id': i, **{k: p[k] for k in ('title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}}) + '\n')
checks = [{
    'property': i,
    'quick_cmd': 'python3 check.py %s' % i,
    'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
    'technique': 'symbolic execution of the compiled LLVM IR of the real code with SMT (z3): bounded, all values within bounds',
    'level': 'model_checking',
    'level_note': 'Holds for every value of the symbolic inputs, schedules and faults within these bounds: %s. Trusts rustc/LLVM, z3 and the models in shims/; '
                  'counterexamples and sampled paths are re-executed natively.' % '; '.join('%s: %s' % kv for kv in p['bounds'].items()),
} for i, p in sorted(PROPS.items())]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: everything the harnesses use is public API. tokio, log, env_logger and tracing are replaced by models through [patch] in harness/Cargo.toml.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
