"""
Try the hand-written changes of probes.py: probe.py [NAME...]

Each is applied to a scratch copy of ndspy (under /tmp/m) and the check named
with it is run there. Changes that a check should notice and does not, and
harmless ones it complains about, are printed.
"""
import multiprocessing, pathlib, shutil, subprocess, sys, time

sys.path.insert(0, str(pathlib.Path(__file__).parent))
from mutate import prepare, keep_original, BASE
import probes


def change(p):
    edits = p[2:] if isinstance(p[2], tuple) else (p[2:],)
    out = {}
    for e in edits:
        f, old, new = e[:3]
        t = out.get(f) or (BASE / 'orig' / f).read_text()
        n = e[3] if len(e) > 3 else 1
        parts = t.split(old)
        if len(parts) <= n:
            return f'no text {old!r} in {f}'
        out[f] = old.join(parts[:n]) + new + old.join(parts[n:])
    return out


def work(job):
    i, todo = job
    d = BASE / f'w{i}'
    for p, harmless in todo:
        new = change(p)
        if isinstance(new, str):
            print(f'BAD {p[0]}: {new}', flush=True)
            continue
        for f, t in new.items():
            try:
                compile(t, f, 'exec')
            except SyntaxError as e:
                print(f'BAD {p[0]}: {e}', flush=True)
            (d / 'repo' / 'ndspy' / f).write_text(t)
        for c in p[1].split():
            t0 = time.time()
            r = subprocess.run([str(d / 'verif' / 'check'), c], capture_output=True, text=True, timeout=3000)
            good = (0 if harmless else 1) == r.returncode
            print(f'{"ok" if good else "WRONG"} {p[0]} {c} exit {r.returncode} {time.time() - t0:.0f}s' + ('' if good else '\n' + (r.stdout + r.stderr)[-700:]), flush=True)
        for f in new:
            shutil.copy(BASE / 'orig' / f, d / 'repo' / 'ndspy' / f)


def main():
    names = sys.argv[1:]
    todo = [(p, False) for p in probes.PROBES] + [(p, True) for p in probes.HARMLESS]
    if names:
        todo = [(p, h) for p, h in todo if any(n == p[0] or n.endswith('*') and p[0].startswith(n[:-1]) for n in names)]
    n = min(4, len(todo))
    keep_original()
    for i in range(n):
        prepare(i)
    with multiprocessing.Pool(n) as pool:
        for _ in pool.imap_unordered(work, [(i, todo[i::n]) for i in range(n)]):
            pass
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == '__main__':
    main()
