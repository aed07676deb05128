"""
For each fixed defect in KNOWN_FINDINGS.md without a saved case: undo the
fix in /repo's working tree, run the check, keep the minimal case it finds
in corpus/ID/<commit>.case, and restore the tree.
"""
import ast, pathlib, re, subprocess, sys

ROOT = pathlib.Path('/verif')
only = sys.argv[1:]
for m in re.finditer(r'^fixed: property=(\w+) (\w+) (.*)$', (ROOT / 'KNOWN_FINDINGS.md').read_text(), re.M):
    pid, commit, what = m.groups()
    out = ROOT / 'corpus' / pid / f'{commit}.case'
    if out.exists() and commit not in only:
        continue
    diff = subprocess.run(['git', '-C', '/repo', 'diff', commit, commit + '^'], capture_output=True, text=True, check=True).stdout
    r = subprocess.run(['git', '-C', '/repo', 'apply', '-3'], input=diff, text=True, capture_output=True)
    if r.returncode:
        print(commit, 'cannot be undone alone:', r.stderr.strip()[:200])
        subprocess.check_call(['git', '-C', '/repo', 'reset', '-q', '--hard', 'HEAD'])
        continue
    try:
        r = subprocess.run(['./check', pid], cwd=ROOT, capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'reset', '-q', '--hard', 'HEAD'])
    v = re.search(r'^VIOLATION property=\w+ replay=(.*)$', r.stdout, re.M)
    print(commit, pid, 'found' if v else f'NOT FOUND (exit {r.returncode})', '|', what[:70])
    print('     ', r.stdout.splitlines()[0][:160])
    if v:
        d = ast.literal_eval(open(v[1]).read())
        d['message'] = d['message'].split('\n')[0]
        out.parent.mkdir(parents=True, exist_ok=True)
        out.write_text(repr(d) + '\n')
