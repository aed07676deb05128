"""
What the checks never do: gaps.py [ID...]

Runs the checks against a scratch copy of ndspy in which conditions, comparisons,
loops, returned and assigned values are recorded. Prints the conditions that always
had one outcome, the comparisons that never met their boundary, the loops
that never ran zero, one or many times, and the kinds of values of every place,
so that the generators can be extended.
"""
import ast, collections, glob, json, os, pathlib, pickle, shutil, subprocess, sys

BASE = pathlib.Path(os.environ.get('SCRATCH', '/tmp/gaps'))
ROOT = pathlib.Path(__file__).resolve().parent.parent

RECORDER = '''
import os, pickle, atexit
seen = {}
pid = os.getpid()

def kind(x):
    t = type(x)
    if x is None or t is bool:
        return str(x)
    if isinstance(x, int):
        if -1 <= x <= 1:
            return str(int(x))
        if x < 0:
            return 'neg'
        n = int(x).bit_length()
        if n in (7, 8, 15, 16, 24, 31, 32) and x == (1 << n) - 1:
            return 'ones%d' % n
        if n in (8, 9, 16, 17, 25, 32, 33) and x == 1 << n - 1:
            return 'pow%d' % (n - 1)
        for m in (7, 8, 15, 16, 24, 31, 32):
            if n <= m:
                return 'int%d' % m
        return 'intbig'
    try:
        n = len(x)
    except Exception:
        return t.__name__
    return '%s%s' % (t.__name__, '[0]' if n == 0 else '[1]' if n == 1 else '[<64]' if n < 64 else '[<256]' if n < 256 else '[<64K]' if n < 65536 else '[big]')

def note(i, k):
    d = seen.get(i)
    if d is None:
        d = seen[i] = {}
    d[k] = d.get(k, 0) + 1

def v(i, x):
    note(i, kind(x))
    return x

def cond(i, x):
    note(i, 'T ' + kind(x) if x else 'F ' + kind(x))
    return x

def cmp(i, a, b):
    try:
        d = a - b
        note(i, '=' if d == 0 else '-1' if d == -1 else '+1' if d == 1 else '<' if d < 0 else '>')
    except Exception:
        try:
            note(i, 'eq' if a == b else 'ne')
        except Exception:
            pass

def loop(i, it):
    n = 0
    try:
        for x in it:
            n += 1
            yield x
    finally:
        note(i, '0' if n == 0 else '1' if n == 1 else '<64' if n < 64 else '<256' if n < 256 else '<64K' if n < 65536 else 'big')

def dump():
    with open(os.path.join(os.environ['GAPS_OUT'], 'g%d.pickle' % os.getpid()), 'wb') as f:
        pickle.dump(seen, f)
    seen.clear()

atexit.register(dump)
exit0 = os._exit
def leave(code):
    dump()
    exit0(code)
os._exit = leave
'''


class Wrap(ast.NodeTransformer):
    def __init__(self, mod, src):
        self.mod, self.src, self.sites, self.func = mod, src, {}, []

    def site(self, kind, n):
        i = f'{self.mod}:{n.lineno}:{n.col_offset}:{kind}'
        self.sites[i] = ast.get_source_segment(self.src, n) or ''
        return ast.copy_location(ast.Constant(i), n)

    def call(self, f, n, *args):
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_gaps_', ast.Load()), f, ast.Load()), list(args), []), n)

    def test(self, n):
        s = self.site('if', n)
        return self.call('cond', n, s, self.visit(n))

    def visit_If(self, n):
        n.test = self.test(n.test)
        n.body = [self.visit(x) for x in n.body]
        n.orelse = [self.visit(x) for x in n.orelse]
        return n

    def visit_While(self, n):
        return self.visit_If(n)

    def visit_IfExp(self, n):
        n.test = self.test(n.test)
        n.body, n.orelse = self.visit(n.body), self.visit(n.orelse)
        return n

    def visit_BoolOp(self, n):
        n.values = [self.test(x) for x in n.values]
        return n

    def visit_Compare(self, n):
        orig = n
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            s = self.site('cmp', n)
            l, r = self.visit(n.left), self.visit(n.comparators[0])
            a, b = ast.Name('_ga', ast.Load()), ast.Name('_gb', ast.Load())
            new = ast.Compare(a, n.ops, [b])
            lam = ast.Lambda(ast.arguments([], [ast.arg('_ga'), ast.arg('_gb')], None, [], [], None, []),
                             ast.Subscript(ast.Tuple([self.call('cmp', n, s, a, b), new], ast.Load()), ast.Constant(1), ast.Load()))
            return ast.copy_location(ast.Call(lam, [l, r], []), n)
        self.generic_visit(n)
        return n

    def visit_For(self, n):
        s = self.site('loop', n.iter)
        n.iter = self.call('loop', n.iter, s, self.visit(n.iter))
        n.body = [self.visit(x) for x in n.body]
        n.orelse = [self.visit(x) for x in n.orelse]
        return n

    def visit_Assign(self, n):
        if self.func:
            s = self.site('set', n.value)
            n.value = self.call('v', n.value, s, self.visit(n.value))
        return n

    def visit_Return(self, n):
        if n.value is not None:
            s = self.site('return', n.value)
            n.value = self.call('v', n.value, s, self.visit(n.value))
        return n

    def visit_FunctionDef(self, n):
        self.func.append(n)
        n.body = [self.visit(x) for x in n.body]
        note = []
        for a in n.args.args + n.args.kwonlyargs:
            if a.arg not in ('self', 'cls'):
                i = f'{self.mod}:{n.lineno}:{a.col_offset}:arg'
                self.sites[i] = f'{n.name}({a.arg})'
                note.append(ast.copy_location(ast.Expr(self.call('v', n, ast.copy_location(ast.Constant(i), n), ast.copy_location(ast.Name(a.arg, ast.Load()), n))), n))
        first = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[first:first] = note
        self.func.pop()
        return n

    def visit_Assert(self, n):
        n.test = self.test(n.test)
        return n

    def visit_ClassDef(self, n):
        f, self.func = self.func, []
        n.body = [self.visit(x) for x in n.body]
        self.func = f
        return n


def main():
    ids = sys.argv[1:] or sorted(json.loads((ROOT / 'vh/registry.json').read_text()))
    shutil.rmtree(BASE, ignore_errors=True)
    (BASE / 'out').mkdir(parents=True)
    repo, verif = BASE / 'repo', BASE / 'verif'
    repo.mkdir()
    shutil.copytree('/repo/ndspy', repo / 'ndspy', ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    for f in [verif / 'check', *(verif / 'vh').glob('*.py')]:
        t = f.read_text()
        f.write_text(t.replace("'/verif'", f"'{verif}'").replace("'/repo/ndspy'", f"'{repo}/ndspy'").replace("'/repo'", f"'{repo}'")
                     .replace('PYTHONPATH=/verif:/repo', f'PYTHONPATH={verif}:{repo}'))
    sites = {}
    for p in sorted((repo / 'ndspy').rglob('*.py')):
        src = p.read_text()
        mod = str(p.relative_to(repo / 'ndspy'))[:-3]
        w = Wrap(mod, src)
        tree = ast.parse(src)
        tree = w.visit(tree)
        at = 1 if tree.body and isinstance(tree.body[0], ast.Expr) else 0
        while at < len(tree.body) and isinstance(tree.body[at], ast.ImportFrom) and tree.body[at].module == '__future__':
            at += 1
        tree.body[at:at] = ast.parse('import _gaps_').body
        ast.fix_missing_locations(tree)
        p.write_text(ast.unparse(tree))
        sites.update(w.sites)
    (repo / '_gaps_.py').write_text(RECORDER)
    env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', GAPS_OUT=str(BASE / 'out'))
    for i in ids:
        r = subprocess.run([str(verif / 'check'), i, 'quick'], cwd=verif, env=env, capture_output=True, text=True)
        print(i, r.returncode, r.stdout.strip().splitlines()[-1:] , r.stderr.strip()[-300:], file=sys.stderr, flush=True)
    total = collections.defaultdict(collections.Counter)
    for f in glob.glob(str(BASE / 'out' / '*.pickle')):
        for k, d in pickle.loads(pathlib.Path(f).read_bytes()).items():
            total[k].update(d)
    for i in sorted(sites, key=lambda s: (s.split(':')[0], int(s.split(':')[1]), int(s.split(':')[2]))):
        d = total.get(i, {})
        what = i.rsplit(':', 1)[1]
        text = ' '.join(sites[i].split())[:90]
        flag = ''
        if not d:
            flag = 'NEVER'
        elif what == 'if' and len({k[0] for k in d}) < 2:
            flag = 'ONE-SIDED'
        elif what == 'cmp' and not {'=', 'eq'} & set(d):
            flag = 'NO-EQUAL'
        elif what == 'loop' and len(d) < 3:
            flag = 'FEW'
        print(f'{i}\t{flag}\t{text}\t' + ' '.join(f'{k}' for k, _ in sorted(d.items(), key=lambda t: -t[1])))
    shutil.rmtree(BASE, ignore_errors=True)


main()
