"""
Mutation testing of the checks: mutate.py COUNT SEED [MODULE...]

Makes scratch copies of /repo and /verif under /tmp/m, changes one place of
ndspy at a time, and runs the checks that look at that module (without
shrinking). Prints the changes that no check notices, to be looked at: each
is either without effect or something the checks should be able to see.
With BIG=1 in the environment the changes are ones that only matter for
large numbers and long lists.
"""
import ast, json, multiprocessing, os, pathlib, random, re, shutil, subprocess, sys, time

BASE = pathlib.Path(os.environ.get('SCRATCH', '/tmp/m'))
CHECKS = {
    '__init__': 'C27', '_common': 'C11 C30 C29 C32 C09 C22 C05', '_lzCommon': 'C01 C03', 'lz10': 'C01 C02 C25', 'codeCompression': 'C03 C04 C25', 'code': 'C05 C06 C10 C24 C32',
    'fnt': 'C07 C08 C32', 'narc': 'C09 C08 C26 C32', 'rom': 'C10 C11 C12 C13 C32', 'bmg': 'C14 C15 C26 C32', 'soundSequence': 'C16 C17 C32', 'soundSequenceArchive': 'C18 C26 C32',
    'soundBank': 'C19 C26 C32', 'soundWave': 'C20 C26 C32', 'soundWaveArchive': 'C20 C26 C32', 'soundStream': 'C21 C26 C32', 'soundArchive': 'C22 C23 C26 C32', 'soundGroup': 'C22 C23 C32',
    'soundSequencePlayer': 'C22 C32', 'soundStreamPlayer': 'C22 C32', 'graphics2D': 'C28', 'color': 'C33 C28', 'texture': 'C29 C26 C32', 'model': 'C29 C26', 'bnbl': 'C30 C26 C32', 'bncl': 'C30 C26 C32',
    'extras/music': 'C31 C32', 'extras/__init__': 'C31',
}
GENERAL = ['C24', 'C25', 'C34', 'C35']

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
CMP_TEXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '//'), ast.FloorDiv: ('//', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.LShift: ('<<', '>>'),
       ast.RShift: ('>>', '<<'), ast.Mod: ('%', '//'), ast.BitXor: ('^', '|')}


def mutants(src):
    """[(start, end, new text, description)] for a source text."""
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    raw = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert, ast.AnnAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, (ast.FunctionDef, ast.arg)):
            for a in ([n.returns] if isinstance(n, ast.FunctionDef) else [n.annotation]):
                if a is not None:
                    for x in ast.walk(a):
                        skip.add(id(x))
    for n in ast.walk(tree):
        if isinstance(n, ast.Assert):
            out.append((*span(n), 'pass', 'drop assert'))
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            old = CMP_TEXT[type(n.ops[0])]
            mid = raw[a:b].decode()
            if mid.count(old) == 1:
                out.append((a, b, mid.replace(old, CMP[type(n.ops[0])]), 'compare'))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            l, r = (n.left, n.right) if isinstance(n, ast.BinOp) else (n.target, n.value)
            a, b = span(l)[1], span(r)[0]
            old, new = BIN[type(n.op)]
            mid = raw[a:b].decode()
            if mid.count(old) == 1:
                out.append((a, b, mid.replace(old, new), 'operator'))
            if isinstance(n, ast.AugAssign):
                out.append((*span(n), 'pass', 'drop'))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = span(n)
            for d in (1, -1):
                out.append((a, b, hex(n.value + d) if n.value + d > 9 else f'({n.value + d})', 'constant'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((*span(n), str(not n.value), 'boolean'))
        elif isinstance(n, ast.Constant) and type(n.value) is str and re.fullmatch(r'[<>]?(\d*[xcbB?hHiIlLqQs])+', n.value) and len(n.value) > 1:
            a, b = span(n)
            t = raw[a:b].decode()
            for x, y in ('H', 'h'), ('h', 'H'), ('I', 'i'), ('B', 'b'), ('b', 'B'), ('<', '>'), ('I', 'HH'):
                if x in t:
                    out.append((a, b, t.replace(x, y, 1), 'format'))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b].decode()
            x, y = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if mid.count(x) == 1:
                out.append((a, b, mid.replace(x, y), 'boolop'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((*span(n), '(' + raw[slice(*span(n.operand))].decode() + ')', 'not'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__':
                continue
            out.append((*span(n.test), 'False', 'condition'))
            if not isinstance(n, ast.While):
                out.append((*span(n.test), 'True', 'condition'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((*span(n), 'pass', 'drop'))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((*span(n), 'pass', 'drop'))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((*span(n), 'pass', 'drop'))
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
            a, b = span(n.args[0]), span(n.args[1])
            out.append((a[0], b[1], (raw[slice(*b)] + raw[a[1]:b[0]] + raw[slice(*a)]).decode(), 'swap arguments'))
        elif isinstance(n, ast.Slice):
            for side in (n.lower, n.upper):
                if side is not None and not isinstance(side, ast.Constant):
                    a, b = span(side)
                    out.append((a, b, '(' + raw[a:b].decode() + ') + 1', 'slice'))
    return out


MASK = {'I': 0xFFFF, 'H': 0xFF, 'B': 0x7F, 'i': 0xFFFF, 'h': 0xFF, 'Q': 0xFFFF}


def big_mutants(src):
    """Changes that only show with large numbers or long lists, like mutants()."""
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for l in raw.split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def kinds(call):
        """The letters of a struct format, one for each value."""
        if not (call.args and isinstance(call.args[0], ast.Constant) and isinstance(call.args[0].value, str)):
            return None
        out = []
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', call.args[0].value):
            out += [c] if c == 's' else [] if c == 'x' else [c] * int(n or 1)
        return out

    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            name, text = n.func.attr, raw[slice(*span(n))].decode()
            direct = isinstance(n.func.value, ast.Name) and n.func.value.id == 'struct'
            if name in ('pack', 'pack_into'):
                k = kinds(n) if direct else None
                args = n.args[direct + (2 if name == 'pack_into' else 0):]
                for i, a in enumerate(args):
                    if isinstance(a, (ast.Constant, ast.Starred)):
                        continue
                    c = k[i] if k and i < len(k) else 'I' if not direct else None
                    if c in MASK:
                        t = raw[slice(*span(a))].decode()
                        out.append((*span(a), f'({t}) & {MASK[c]:#x}', 'pack'))
            elif name in ('unpack', 'unpack_from', 'iter_unpack'):
                k = kinds(n) if direct else ['?'] * 12
                for i, c in enumerate(k or []):
                    if c in MASK or c == '?':
                        out.append((*span(n), f'tuple(_v & {MASK.get(c, 0xFFFF):#x} if _i == {i} and isinstance(_v, int) else _v for _i, _v in enumerate({text}))', f'unpack value {i}'))
            elif name == 'extend':
                t = raw[slice(*span(n.args[0]))].decode()
                out.append((*span(n.args[0]), f'list({t})[:0x7FFF]', 'extend'))
        if isinstance(n, ast.For):
            t = raw[slice(*span(n.iter))].decode()
            for m in 64, 256:
                out.append((*span(n.iter), f'list({t})[:{m}]', f'loop {m}'))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            g = n.generators[0].iter
            t = raw[slice(*span(g))].decode()
            out.append((*span(g), f'list({t})[:64]', 'comprehension 64'))
    return out


def keep_original():
    shutil.rmtree(BASE, ignore_errors=True)
    shutil.copytree('/repo/ndspy', BASE / 'orig')


def prepare(i):
    d = BASE / f'w{i}'
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    shutil.copytree(BASE / 'orig', d / 'repo' / 'ndspy')
    shutil.copytree('/verif', d / 'verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
    (d / 'verif' / 'evidence').mkdir()
    for f in list((d / 'verif' / 'vh').glob('*.py')) + [d / 'verif' / 'check']:
        t = f.read_text()
        t = t.replace("'/verif'", f"'{d}/verif'").replace("'/repo/ndspy'", f"'{d}/repo/ndspy'").replace("'/repo'", f"'{d}/repo'").replace('PYTHONPATH=/verif:/repo', f'PYTHONPATH={d}/verif:{d}/repo')
        t = t.replace('Phase.shrink', '')
        f.write_text(t)
    return d


def work(job):
    i, todo = job
    d = BASE / f'w{i}'
    out = []
    for mod, (a, b, new, what) in todo:
        f = d / 'repo' / 'ndspy' / (mod + '.py')
        raw = (BASE / 'orig' / (mod + '.py')).read_bytes()
        line = raw[:a].count(b'\n') + 1
        mutated = raw[:a] + new.encode() + raw[b:]
        f.write_bytes(mutated)
        text = mutated.split(b'\n')[line - 1].decode().strip()
        res = 'SURVIVED'
        t = time.time()
        try:
            compile(mutated, mod, 'exec')
        except SyntaxError:
            res = 'syntax'
        else:
            for c in dict.fromkeys(CHECKS[mod].split() + ([] if os.environ.get('BIG') else GENERAL)):
                if os.environ.get('BIG') and c in ('C26', 'C32'):
                    continue
                try:
                    r = subprocess.run([str(d / 'verif' / 'check'), c], capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired:
                    res = f'timeout {c}'
                    break
                if r.returncode == 1:
                    res = f'caught {c}'
                    break
                if r.returncode:
                    res = f'ERROR {c} {r.stderr.strip()[-300:]}'
                    break
        f.write_bytes(raw)
        orig = raw.split(b'\n')[line - 1].decode().strip()
        print(f'{res:12} {mod}:{line} {what} {time.time()-t:.0f}s | {orig}  =>  {text}', flush=True)
    return out


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    mods = sys.argv[3:] or list(CHECKS)
    rnd = random.Random(seed)
    keep_original()
    todo = []
    for m in mods:
        ms = (big_mutants if os.environ.get('BIG') else mutants)((BASE / 'orig' / (m + '.py')).read_text())
        todo += [(m, x) for x in ms]
    print(len(todo), 'places')
    rnd.shuffle(todo)
    todo = todo[:count]
    n = 4
    for i in range(n):
        prepare(i)
    with multiprocessing.Pool(n) as pool:
        for _ in pool.imap_unordered(work, [(i, todo[i::n]) for i in range(n)]):
            pass
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == '__main__':
    main()
