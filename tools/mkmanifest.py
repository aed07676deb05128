"""Write MANIFEST.json from properties.jsonl and vh/registry.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines() if l.strip()]
reg = json.loads((ROOT / 'vh' / 'registry.json').read_text())
NOTE = ('Randomised search over generated models with fixed case counts; independent reference codecs as oracle.'
        ' It samples the input space and proves nothing beyond the cases run.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'property-based testing (Hypothesis) against independent reference codecs and models',
            'level': 'exploration',
            'level_note': NOTE,
        })
    else:
        na.append({'property': i, 'reason': 'Property-based testing applies; its check is not built yet.'})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check is ./check ID [quick|thorough]; ./check ID --replay FILE runs one saved case. See DESIGN.md.',
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
