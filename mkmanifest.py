#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os
from props import PROPS
NA = {
    'C18': 'needs a big-endian machine; none can be simulated here (the byte order is fixed at compile time) and no schedule or fault is involved',
}
checks = []
for i in sorted(PROPS):
    P = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 run.py check %s' % i,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check %s' % i,
                   'technique': 'deterministic simulation with fault injection' + (': ' + P['technique'] if 'technique' in P else ': seeded histories and faults, ' + P['note']),
                   'level': P['level'], 'level_note': P['note'] + '; seeded sampling on the real library code inside one simulated process. Trusted: the simulator, the reference model and codecs, clang and its sanitizer runtime. ' + '; '.join(P['assumptions']) + '.'})
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
na = [{'property': i, 'reason': NA.get(i, 'check under construction')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh hist && bash sim/build.sh hist-na && bash sim/build.sh hist-am && bash sim/build.sh thr', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are added to /repo: the seams are the memory hooks the library offers, its single CPU-detection function (replaced at link time), the memory-access callbacks of -fsanitize=thread (the simulator provides them itself) and byte buffers.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
