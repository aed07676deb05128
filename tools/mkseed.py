"""
Helper to plant a bug: mkseed.py ID SPEC.py

SPEC.py defines: property, needs, what_it_breaks, file, edits = [(old, new)],
(or several files: edits = [(file, old, new)]), demo (Python source run with
/repo's interpreter, cwd /repo; exits 0 on the unchanged tree).
Applies it in a scratch copy, runs the build, the tests and the demo there.
"""
import json, os, pathlib, shutil, subprocess, sys

ROOT = pathlib.Path('/verif/seeded')


def main():
    ident, specfile = sys.argv[1:3]
    ns = {}
    exec(compile(open(specfile).read(), specfile, 'exec'), ns)
    make(ident, ns)


def make(ident, ns):
    scratch = '/tmp/mkseed/repo'
    shutil.rmtree('/tmp/mkseed', ignore_errors=True)
    os.makedirs('/tmp/mkseed')
    subprocess.check_call(['cp', '-a', '/repo', scratch])
    for e in ns['edits']:
        f, old, new = e if len(e) == 3 else (ns['file'], *e)
        p = pathlib.Path(scratch, f)
        s = p.read_text()
        assert s.count(old) == 1, (ident, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.run(['git', '-C', scratch, 'diff'], capture_output=True, text=True, check=True).stdout
    d = ROOT / ident
    d.mkdir(parents=True, exist_ok=True)
    (d / 'patch.diff').write_text(diff)
    (d / 'demo.py').write_text(ns['demo'].lstrip('\n'))
    (d / 'demo.sh').write_text('#!/bin/sh\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d / 'demo.sh', 0o755)
    (d / 'meta.json').write_text(json.dumps({k: ns[k] for k in ('property', 'needs', 'what_it_breaks')}, indent=1) + '\n')
    ok = subprocess.run([str(d / 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run([str(d / 'demo.sh')], cwd=scratch, capture_output=True, text=True)
    env = dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE='1')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'],
                       cwd=scratch, capture_output=True, text=True, env=env)
    dt = subprocess.run(['/opt/venv/bin/python', '-m', 'sphinx', '-q', '-E', '-b', 'doctest', '-d', '/tmp/mkseed/dt',
                         'source', '/tmp/mkseed/doctest'], cwd=scratch + '/docs', capture_output=True, text=True, env=env)
    shutil.rmtree('/tmp/mkseed', ignore_errors=True)
    print(ident, ns['property'], 'demo unchanged:', ok.returncode, 'patched:', bad.returncode, 'tests:', t.returncode,
          t.stdout.strip().splitlines()[-1:], 'doctests:', dt.returncode)
    if ok.returncode: print(ok.stdout[-800:], ok.stderr[-1500:])
    if not bad.returncode: print('!! demo does not notice')
    else: print('   ', (bad.stderr or bad.stdout).strip().splitlines()[-1:])
    if t.returncode: print(t.stdout[-1500:])
    if dt.returncode: print(dt.stdout[-1500:], dt.stderr[-500:])


if __name__ == '__main__':
    main()
