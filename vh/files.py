"""C25: functions that load from and save to files, and the command-line tools."""
import contextlib
import io
import os
import pathlib
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .core import Check, Facet, Violation, blobs, expand
from . import kinds
from .cross import convert
from .kinds import BY_NAME, snapshot

import ndspy.codeCompression
import ndspy.color
import ndspy.graphics2D
import ndspy.lz10

REPO = os.path.dirname(os.path.dirname(os.path.abspath(ndspy.__file__)))

# Kinds whose objects can be saved to files
FILE_KINDS = [k for k in kinds.KINDS if k.cls is not None and k.name not in ('NSBTX', 'NSBMD')]

# Options of save(): name -> values by bits of a number
OPTIONS = {
    'ROM': ['updateDeviceCapacity'],
    'main code file': ['compress'],
    'STRM': ['updateTime'],
    'SWAV': ['updateTime', 'updateTotalLength'],
}

# What the constructors call the values save() returns after the data
ARGUMENTS = {
    'main code file': ['ramAddress'],
    'SSEQ': ['unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID'],
    'SSAR': ['unk02', 'names'],
    'SBNK': ['unk02', 'waveArchiveIDs'],
    'SWAR': ['unk02'],
    'STRM': ['unk02', 'volume', 'priority', 'playerID', 'unk07'],
}

NAMES = ['file', 'file.bin', 'a b.x.y', 'ファイル.dat', 'x.cmp.bin']


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='vh-files-') as d:
        yield pathlib.Path(d)


def path_of(d, style, name):
    """A path as a str or path-like object, and the real path."""
    p = d / name
    if style == 0:
        return str(p), p
    if style == 1:
        return p, p

    class Other:
        def __fspath__(self):
            return str(p)
    return Other(), p


def listing(d):
    return {p.name: p.read_bytes() for p in d.iterdir()}


def occupy(p, how):
    """Put a longer or shorter file in the place of a file to be written."""
    if how:
        p.write_bytes(b'old contents' * (1 if how == 1 else 400))


def c25_objects_eval(case, T):
    (name, spec), opts, style, fname, how = case
    k = BY_NAME[name]
    options = {o: bool(opts >> i & 1) for i, o in enumerate(OPTIONS.get(name, []))}
    if opts & 8:
        options = {o: v for o, v in options.items() if v}
    with T.sut(f'making a {name}'):
        o, other = k.build(spec), k.build(spec)
    if o is None:
        return
    if name in ('STRM', 'SWAV') and o.sampleRate < 256:
        # there is no time value for these
        options.pop('updateTime', None)
    if options.get('updateTotalLength'):
        o.loopOffset = other.loopOffset = 0
    with T.sut(f'saving a {name}'):
        saved = o.save(**options)
    data = bytes(saved[0] if isinstance(saved, tuple) else saved)
    args = [] if name not in ARGUMENTS else [o.ramAddress] if name == 'main code file' else list(saved[1:])
    with scratch() as d:
        given, p = path_of(d, style, NAMES[fname])
        occupy(p, how)
        with T.sut(f'saving a {name} to a file'):
            other.saveToFile(given, **options)
        T.eq(sorted(listing(d)), [NAMES[fname]], f'files after saving a {name} to a file')
        T.same_bytes(p.read_bytes(), data, f'file written for a {name} {options}')
        T.eq(snapshot(other), snapshot(o), f'{name} after saving it to a file')

        keywords = dict(zip(ARGUMENTS.get(name, []), args))
        by_name = bool(opts & 4) and len(keywords) == len(args)
        used = opts >> 4
        if not by_name and name != 'main code file':
            args = args[:used % (len(args) + 1)] if opts & 2 else args
        with T.sut(f'loading a {name} from a file'):
            want = k.cls(data, **keywords) if by_name else k.cls(data, *convert(args, bytes))
            got = k.cls.fromFile(given, **keywords) if by_name else k.cls.fromFile(given, *args)
        T.eq(snapshot(got), snapshot(want), f'{name} loaded from a file')
        T.check(type(got) is type(want), f'{name}.fromFile() gave a {type(got).__name__}')
        T.eq(listing(d), {NAMES[fname]: data}, f'files after loading a {name} from a file')
    T.nontrivial()
    T.label(name)
    T.label('options', any(options.values()))


def c25_functions_eval(case, T):
    what, spec, flag, style, fname, how = case
    G = ndspy.graphics2D
    data = expand(spec)
    load = save = None      # (in memory, from/to a file), with the arguments in between
    if what == 'palette':
        data = data[:len(data) & ~1]
        load = ndspy.color.loadPalette, ndspy.color.loadPaletteFromFile, (), {}
        with T.sut('loading a palette'):
            obj = ndspy.color.loadPalette(data)
        save = ndspy.color.savePalette, ndspy.color.savePaletteToFile, obj, {}
    elif what == 'tiles':
        f = G.ImageFormat.I4 if flag else G.ImageFormat.I8
        data += bytes(-len(data) % 64)
        load = G.loadImageTiles, G.loadImageTilesFromFile, (f,), {'format': f}
        with T.sut('loading tiles'):
            obj = G.loadImageTiles(data, f)
        save = G.saveImageTiles, G.saveImageTilesToFile, obj, {}
    elif what == 'tilemap':
        f = G.TilemapFormat.I8 if flag else G.TilemapFormat.I10H1V1P4
        data = data[:len(data) & ~1]
        load = G.loadTilemapTiles, G.loadTilemapTilesFromFile, (f,), {'format': f}
        with T.sut('loading tilemap tiles'):
            obj = G.loadTilemapTiles(data, f)
        save = G.saveTilemapTiles, G.saveTilemapTilesToFile, obj, {}
    else:
        M = {'lz10': ndspy.lz10, 'code': ndspy.codeCompression}[what[:4]]
        if what.endswith('+'):
            kw = {'isArm9': True} if what[:4] == 'code' and flag else {}
            load = M.compress, M.compressFromFile, tuple(kw.values()), kw
            save = M.compress, M.compressToFile, data, kw
        else:
            with T.sut('compressing'):
                data = M.compress(data)
            load = M.decompress, M.decompressFromFile, (), {}
            save = M.decompress, M.decompressToFile, data, {}
    with scratch() as d:
        given, p = path_of(d, style, NAMES[fname])
        p.write_bytes(data)
        mem, fil, args, kw = load
        with T.sut(f'{fil.__name__}'):
            if style == 1:
                want, got = mem(data, *args), fil(given, *args)
            else:
                want, got = mem(data, **kw), fil(given, **kw)
        T.eq(snapshot(got), snapshot(want), f'{fil.__module__}.{fil.__name__}()')
        T.eq(listing(d), {NAMES[fname]: data}, f'files after {fil.__name__}()')
        mem, fil, obj, kw = save
        if what in ('tiles', 'tilemap') and not obj:
            return
        p.unlink()
        occupy(p, how)
        with T.sut(f'{fil.__name__}'):
            if style == 1:
                want = mem(obj, *kw.values())
                fil(obj, given, *kw.values())
            else:
                want = mem(obj, **kw)
                fil(obj, given, **kw)
        T.eq(listing(d), {NAMES[fname]: bytes(want)}, f'files after {fil.__module__}.{fil.__name__}()')
    T.nontrivial(len(data) > 4)
    T.label(what)


def command(case, T, run):
    module, sub, spec, fname, out, arm9, where = case
    M = {'lz10': ndspy.lz10, 'codeCompression': ndspy.codeCompression}[module]
    data = expand(spec)
    comp = sub[0] == 'c'
    with T.sut(f'{module} in memory'):
        if comp:
            want = M.compress(data, isArm9=True) if arm9 and module == 'codeCompression' else M.compress(data)
        else:
            data = M.compress(data)
            want = M.decompress(data)
    with scratch() as d:
        name = NAMES[fname]
        (d / name).write_bytes(data)
        (d / 'sub').mkdir()
        target = {0: pathlib.Path(name).stem + ('.cmp' if comp else '.dec'), 1: 'out', 2: 'sub/o.u.t', 3: 'has.suffix'}[out]
        occupy(d / target, out & 1 and arm9 + 1)
        pre = '' if where else str(d) + os.sep
        args = [sub, pre + name] + ([pre + target] if out else [])
        if comp and arm9 and module == 'codeCompression':
            args.insert(1 if out % 2 else len(args), '--is_arm9')
        run(module, args, d)
        files = {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file()}
        T.eq(files, {name: data, target: bytes(want)}, f'files after {module} {args}')
    T.nontrivial(len(data) > 4 and want != data)
    T.label(module + ' ' + sub)
    T.label('default output', out == 0)


@contextlib.contextmanager
def working_directory(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def c25_cli_eval(case, T):
    def run(module, args, d):
        M = sys.modules['ndspy.' + module]
        text = io.StringIO()
        argv = sys.argv
        with working_directory(d):
            try:
                with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text), T.sut(f'{module}.main({args})'):
                    if len(args) % 2:
                        sys.argv = [module] + args
                        M.main()
                    else:
                        M.main(args)
            except SystemExit as e:
                if e.code not in (0, None):
                    raise Violation(f'{module}.main({args}) ended with {e.code}: {text.getvalue()[-300:]}') from None
            finally:
                sys.argv = argv
    command(case, T, run)


def c25_process_eval(case, T):
    def run(module, args, d):
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', PYTHONUTF8='1')
        r = subprocess.run([sys.executable, '-m', 'ndspy.' + module] + args, cwd=d, env=env, capture_output=True, text=True, timeout=120)
        T.check(r.returncode == 0, f'python3 -m ndspy.{module} {args} ended with {r.returncode}: {r.stderr[-500:]}')
    command(case, T, run)


def c25_object_strategy():
    return st.tuples(kinds.cases(FILE_KINDS), st.integers(0, 255), st.integers(0, 2), st.integers(0, 4), st.integers(0, 2))


def c25_function_strategy():
    return st.tuples(st.sampled_from(['palette', 'tiles', 'tilemap', 'lz10+', 'lz10-', 'code+', 'code-']), blobs(0x600), st.booleans(),
                     st.integers(0, 2), st.integers(0, 4), st.integers(0, 2)).map(
        # only long data can be compressed as a main code file
        lambda c: (*c[:1], ('period', c[3], 0x4800), *c[2:]) if c[0] == 'code+' and c[2] else c)


def c25_cli_strategy():
    return st.tuples(st.sampled_from(['lz10', 'codeCompression']), st.sampled_from(['c', 'compress', 'd', 'decompress']),
                     blobs(0x600), st.integers(0, 4), st.integers(0, 3), st.booleans(), st.booleans()).map(
        lambda c: (*c[:2], ('period', c[3], 0x4800), *c[3:]) if c[0] == 'codeCompression' and c[1][0] == 'c' and c[5] else c)


CHECKS = {
    'C25': Check('C25', [
        Facet('objects', c25_object_strategy, c25_objects_eval, 2500, 25000, 'non-trivial: an object was written to and read from a file'),
        Facet('functions', c25_function_strategy, c25_functions_eval, 1500, 15000, 'non-trivial: more than four bytes of data'),
        Facet('command line', c25_cli_strategy, c25_cli_eval, 1000, 10000, 'non-trivial: more than four bytes of data, changed by the tool'),
        Facet('processes', c25_cli_strategy, c25_process_eval, 40, 400, 'non-trivial: more than four bytes of data, changed by the tool'),
    ], 'Generated objects and data, with scratch files.', []),
}
