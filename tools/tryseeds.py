"""Run the check of each planted bug's property against it: tryseeds.py [ID...]"""
import json, pathlib, subprocess, sys, time

ROOT = pathlib.Path('/verif/seeded')
ids = sys.argv[1:] or sorted(p.name for p in ROOT.iterdir())
missed = []
for i in ids:
    meta = json.loads((ROOT / i / 'meta.json').read_text())
    subprocess.check_call(['git', '-C', '/repo', 'apply', str(ROOT / i / 'patch.diff')])
    t = time.time()
    try:
        r = subprocess.run(['./check', meta['property'], 'quick'], cwd='/verif', capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    first = (r.stdout.strip().splitlines() or [''])[0][:150]
    print(f'{i:28} {meta["property"]} exit {r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {time.time()-t:.0f}s  {first}')
    if r.returncode not in (0, 1):
        print(r.stderr[-600:])
    if not (r.returncode == 1 and v):
        missed.append(i)
print('missed:', missed)
