#!/opt/venv/bin/python
"""writes MANIFEST.json from properties.jsonl and the existing checks"""
import importlib
import json
import os
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = {}
NOTE = {}


def main():
    props = [json.loads(line) for line in (V / 'properties.jsonl').read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p['id']
        src = V / 'checks' / f'{i}.py'
        if not src.exists():
            na.append({'property': i, 'reason': 'planned: the check of this property is not written yet'})
            continue
        ns = {}
        for line in src.read_text().splitlines():
            for k in ('LEVEL', 'TECHNIQUE', 'NOTE'):
                if line.startswith(k + ' = '):
                    ns[k] = eval(line.split(' = ', 1)[1])
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python run.py {i} --quick',
            'thorough_cmd': f'/opt/venv/bin/python run.py {i} --thorough',
            'technique': ns.get('TECHNIQUE', 'property-based testing (Hypothesis) against an independent oracle'),
            'level': ns.get('LEVEL', 'exploration'),
            'level_note': ns.get('NOTE', 'random search over generated inputs within stated bounds; see DESIGN.md'),
        })
    m = {
        'version': 1,
        'setup_cmd': "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, numpy, h5py, pyvista\"",
        'checks': checks,
        'not_applicable': na,
    }
    (V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
    print(len(checks), 'checks', len(na), 'not claimed')


main()
