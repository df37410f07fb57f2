"""Write MANIFEST.json from contracts/props.py (plain data)."""
import json
from contracts.props import PROPS
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
PY = '/opt/venv/bin/python'
TECH = 'contract-based deductive verification of the real code: contracts on the functions, verification conditions generated from the traced code of /repo on every run, loop invariants, discharged by Z3 (then cvc5); failed obligations are replayed against the real code'
NA = {}
checks = []
for i in ids:
    if i in PROPS:
        b = PROPS[i].get('bounded', [])
        note = PROPS[i].get('note', 'Every obligation is discharged for all inputs and sizes, floats read as exact reals.')
        if b:
            note += ' Bounded, not proved: ' + '; '.join(b) + '.'
        note += ' Trusted: Z3/cvc5, JAX tracing and XLA, the primitive semantics and schematic lemmas of /verif/dv, assumed contracts of jax.random and jnp helpers (DESIGN.md).'
        checks.append(dict(property=i, quick_cmd=f'{PY} check.py {i}', thorough_cmd=f'{PY} check.py {i} --tier thorough', technique=TECH,
                           evidence_file=f'evidence/{i}.json', level=PROPS[i].get('level', 'proof'), level_note=note))
na = [dict(property=i, reason=NA.get(i, 'No contract for this property is discharged yet.')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
