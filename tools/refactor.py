"""
Run all checks on copies of ndspy that were rewritten mechanically without
changing what it does: refactor.py [KIND...] [-- CHECK...]

Every check has to stay quiet.
"""
import ast, pathlib, re, shutil, subprocess, sys

sys.path.insert(0, str(pathlib.Path(__file__).parent))
from mutate import prepare, keep_original, BASE


def private_names(trees):
    names = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
    return {n for n in names if n.startswith('_') and not n.startswith('__') and len(n) > 1}


class Names(ast.NodeTransformer):
    """Other names for private functions, classes and attributes."""

    def __init__(self, names):
        self.names = names

    def new(self, n):
        return n + 'Renamed' if n in self.names else n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.name = self.new(n.name)
        return n
    visit_ClassDef = visit_FunctionDef

    def visit_Name(self, n):
        n.id = self.new(n.id)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.new(n.attr)
        return n

    def visit_Global(self, n):
        n.names = [self.new(x) for x in n.names]
        return n
    visit_Nonlocal = visit_Global

    def visit_ImportFrom(self, n):
        for a in n.names:
            if n.module:
                a.name = self.new(a.name)
        return n


class Locals(ast.NodeTransformer):
    """Other names for local variables of functions."""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global, ast.ClassDef)) for x in ast.walk(n) if x is not n):
            self.generic_visit(n)
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [a for a in (n.args.vararg, n.args.kwarg) if a]}
        mine = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in mine:
                x.id = 'local_' + x.id
            elif isinstance(x, ast.ExceptHandler) and x.name in mine:
                x.name = 'local_' + x.name
        return n


class Branches(ast.NodeTransformer):
    """Errors instead of asserts; branches and comparisons the other way round."""

    def visit_Assert(self, n):
        msg = n.msg or ast.Constant('assertion failed')
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(ast.Call(ast.Name('ValueError', ast.Load()), [msg], []), None)], [])

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_Compare(self, n):
        self.generic_visit(n)
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in swap and isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], [swap[type(n.ops[0])]()], [n.left])
        return n


class Results(ast.NodeTransformer):
    """bytes instead of bytearray as results, and loops over lists that were copied."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name == 'save' and n.returns is None or n.name in ('saveColor', 'savePalette', 'saveImageTiles', 'saveTilemapTiles'):
            for x in ast.walk(n):
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and 'data' in x.value.id.lower():
                    x.value = ast.Call(ast.Name('bytes', ast.Load()), [x.value], [])
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=0)
        return n

    def visit_While(self, n):
        """while c: ... as while True: if not c: break; ..."""
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []), *n.body], [])


PROPERTIES = '''

def _makeProperties():
    """Attributes kept under private names."""
    import enum as _enum
    for _cls in list(globals().values()):
        if not isinstance(_cls, type) or _cls.__module__ != __name__ or issubclass(_cls, (_enum.Enum, tuple, Exception)):
            continue
        for _sub in [_cls] + [x for x in vars(_cls).values() if isinstance(x, type)]:
            _addProperties(_sub)


def _addProperties(_cls):
    for _name in _ATTRIBUTES.get(_cls.__name__, ()):
        def _make(_name):
            key = '_value_of_' + _name

            def get(self):
                try:
                    return self.__dict__[key]
                except KeyError:
                    raise AttributeError(_name) from None

            def set(self, value):
                self.__dict__[key] = value
            return property(get, set)
        if not any(_name in vars(c) for c in _cls.__mro__ if c.__name__ not in _ATTRIBUTES or True):
            setattr(_cls, _name, _make(_name))


_makeProperties()
'''


def attributes(tree):
    """{class: [names that __init__ and other methods assign]}"""
    out = {}
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            names = set()
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self' and not x.attr.startswith('_'):
                            names.add(x.attr)
            out[c.name] = sorted(names)
    return out


def rewrite(kind, files):
    trees = {f: ast.parse(f.read_text()) for f in files}
    if kind == 'names':
        names = private_names(trees.values())
        for t in trees.values():
            Names(names).visit(t)
            Locals().visit(t)
    elif kind == 'branches':
        for t in trees.values():
            Branches().visit(t)
    elif kind == 'results':
        for t in trees.values():
            Results().visit(t)
    tail = {f: f'\n\n_ATTRIBUTES = {attributes(t)!r}\n{PROPERTIES}' if kind == 'properties' else '' for f, t in trees.items()}
    for f, t in trees.items():
        f.write_text(ast.unparse(ast.fix_missing_locations(t)) + '\n' + tail[f])


KINDS = ['names', 'branches', 'results', 'properties']


def main():
    args = sys.argv[1:]
    checks = args[args.index('--') + 1:] if '--' in args else [f'C{i:02d}' for i in range(1, 36)]
    kinds = (args[:args.index('--')] if '--' in args else args) or KINDS
    keep_original()
    for kind in kinds:
        d = prepare(0)
        pkg = d / 'repo' / 'ndspy'
        rewrite(kind, sorted(pkg.rglob('*.py')))
        for c in checks:
            r = subprocess.run([str(d / 'verif' / 'check'), c], capture_output=True, text=True, timeout=3000)
            print(f'{"ok" if r.returncode == 0 else "WRONG"} {kind} {c}' + ('' if r.returncode == 0 else '\n' + (r.stdout + r.stderr)[-900:]), flush=True)
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == '__main__':
    main()
