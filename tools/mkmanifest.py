"""Write MANIFEST.json from the checks that exist and properties.jsonl."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

TECH = {
    'C17': 'property-based mutation testing and coverage-guided fuzzing under ASan/UBSan',
    'C18': 'property-based testing with injected errors and I/O faults',
    'C12': 'property-based testing, metamorphic (split/concatenate) and model differential',
    'C06': 'property-based testing, metamorphic (respelling)',
    'C16': 'property-based testing, round trip and model differential',
    'C19': 'property-based testing, metamorphic over options and model differential',
    'C20': 'property-based testing, metamorphic over requests and environments',
}
NOTE = ('generated-input search: no violation among the cases generated (bounds in DESIGN.md and the evidence '
        'file); trusts the reference model/decoders in asmv/ and the host toolchain')

props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        importlib.import_module('asmv.checks.' + i.lower())
    except ImportError:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 -m asmv.check %s --tier quick' % i,
                   'thorough_cmd': 'python3 -m asmv.check %s --tier thorough' % i,
                   'technique': TECH.get(i, 'property-based testing against a reference model'),
                   'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 -m asmv.build plain san msan fuzz',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
