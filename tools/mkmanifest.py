#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'sanitized round-trip monitoring against a value model',
 'C02': 'encoded bytes observed and judged by an independent encoder model and libprotobuf',
 'C03': 'decoding of rewritten wire forms under sanitizers, judged by a wire model and libprotobuf',
 'C04': 'ASan/UBSan/MSan and guard pages under mutation, libFuzzer and workspace sweeps',
 'C05': 'fault injection at every position of recorded encodings, online error code oracle',
 'C06': 'buffer size sweep under guard pages and ASan with exact-size oracle',
 'C07': 'workspace size and alignment sweeps with pointer monitor over reachable memory',
 'C08': 'MemorySanitizer and poisoned workspaces with default-value monitor',
 'C09': 'purity monitor: dumps and bytes compared around encode/decode histories',
 'C10': 'ThreadSanitizer stress with per-thread result oracle',
 'C11': 'model-based monitoring of random API histories under sanitizers',
 'C12': 'cross-version decoding monitored against a wire model and libprotobuf',
 'C13': 'differential monitoring of transcripts across compilers, optimisation and float configuration',
 'G14': 'compiler diagnostics monitored over generated and hand-made schemas',
 'G15': 'compiled probes of generated declarations judged by the schema model',
 'G16': 'differential monitoring of generator runs across contexts',
 'G17': 'metamorphic monitoring of the parser under formatting rewrites',
 'G18': 'parse model observed and judged by schema model and protoc descriptors',
 'G19': 'resolved types observed and judged by protoc descriptors',
 'G20': 'fault injection into schemas with a monitor of exit status, stderr and file system',
}
NOTE = {
 'C': 'Holds on the observed executions only: random and hostile schemas and values from VERIF_SEED. Trusts the compilers, sanitizers, the small Python wire model and, where present, libprotobuf 3.21.',
 'G': 'Holds on the observed generator runs only: random and hand-made schemas from VERIF_SEED. Trusts Python, the compilers, the schema printer and, where present, protoc 3.21.',
}
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(D, 'vf', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                           technique=T[i], level='exploration', level_note=NOTE[i[0]]))
    elif i == 'R21':
        na.append(dict(property=i, reason='The Rust and Mys generators are unfinished stubs (the Rust generator emits C text, the crate returns constants), and no Mys compiler or protobuf crate is available; there is no running behaviour to monitor. Their determinism and output placement are covered by G16.'))
    else:
        na.append(dict(property=i, reason='The check is not built yet.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Checks share vf/; ./check ID [quick|thorough]. No hooks are needed: all instrumentation is in builds made outside /repo.'),
          open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
