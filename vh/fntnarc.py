"""C07-C09: filename tables and NARC archives."""
import struct

from hypothesis import strategies as st

from . import reuse, roms, trees
from .core import Check, Facet, Violation, blobs, expand, u16

import ndspy.fnt
import ndspy.narc


# C07 -----------------------------------------------------------------------


def judge_tree(tree, T):
    want = trees.ref_write(tree)
    with T.sut('saving a filename table'):
        data = ndspy.fnt.save(trees.to_folder(tree))
    try:
        back = trees.ref_read(data)
    except ValueError as e:
        raise Violation(f'saved filename table is invalid: {e}')
    T.eq(back, tree, 'tree in the saved table (independent reader)')
    with T.sut('loading a saved filename table'):
        folder = ndspy.fnt.load(bytes(data))
    T.eq(trees.from_folder(folder), tree, 'tree after save and load')
    with T.sut('loading a canonical filename table'):
        folder = ndspy.fnt.load(want)
    T.eq(trees.from_folder(folder), tree, 'tree of a canonical table')
    with T.sut('resaving a canonical filename table'):
        again = ndspy.fnt.save(folder)
    T.same_bytes(again, want, 'canonical table after load and save')
    n = trees.count(tree)
    T.nontrivial(n > 1)
    T.label('one folder', n == 1)
    T.label('more than 255 folders', n > 255)
    T.label('deeper than 5', trees.depth(tree) > 5)
    T.label('empty folder', any(not t[1] and not t[2] for _, t in trees.all_folders(tree)))
    T.label('table longer than 0xFFFF', len(want) > 0xFFFF)


def c07_eval(case, T):
    tree = trees.resolve(case)
    T.label('ids ' + case[0])
    T.label('name of 127 characters', any(len(p) == 127 for path, _ in trees.all_files(tree) + trees.all_folders(tree) for p in path))
    T.label('non-ASCII name', any(not p.isascii() for path, _ in trees.all_files(tree) + trees.all_folders(tree) for p in path))
    judge_tree(tree, T)


def c07_big_eval(case, T):
    judge_tree(trees.big_tree(case), T)


def c07_wide_eval(case, T):
    judge_tree(trees.wide_tree(case), T)


def c07_unfit_eval(case, T):
    spec, where, kind, n = case
    tree = trees.resolve(spec)
    places = [tree] + [t for _, t in trees.all_folders(tree)]
    t = places[where % len(places)]
    name = {'long': 'n' * (128 + n), 'empty': '', 'letters': 'n\u0100' + 'n' * (n % 5)}[kind]
    if n & 1 and t[2] and kind != 'empty':
        t[2][n % len(t[2])] = (name, t[2][n % len(t[2])][1])
        what = 'folder'
    else:
        t[1].insert(n % (len(t[1]) + 1), name)
        what = 'file'
    with T.raises(f'saving a filename table with a {what} named {name!r}'):
        ndspy.fnt.save(trees.to_folder(tree))
    T.label(f'{what} {kind}')
    T.nontrivial()


def c07_unfit_strategy():
    return st.tuples(trees.tree_specs(5, 3), st.integers(0, 5), st.sampled_from(['long', 'empty', 'letters']), st.one_of(st.integers(0, 1), st.integers(0, 300)))


def c07_foreign_strategy():
    return st.tuples(trees.tree_specs(10, 5), st.sampled_from(['dfs', 'bfs']), st.integers(0, 50), st.integers(0, 50),
                     st.binary(max_size=3), blobs(4), st.booleans(), st.lists(st.integers(0, 30), max_size=3))


def c07_foreign_eval(case, T):
    spec, order, interleave, shuffle, gap, tail, share, alike = case
    tree = trees.resolve(spec)
    leaves = [t for _, t in trees.all_folders(tree) if not t[2]]
    if share and leaves:
        for a in alike:
            leaves[a % len(leaves)][1][:] = leaves[0][1]
    data = trees.ref_write(tree, order, interleave, shuffle, gap, share) + expand(tail)
    with T.sut('loading a filename table'):
        folder = ndspy.fnt.load(data)
    T.eq(trees.from_folder(folder), tree, 'tree of a valid table')
    T.nontrivial(trees.count(tree) > 2)
    T.label('breadth first', order == 'bfs')
    T.label('interleaved', interleave)
    T.label('entry tables shuffled', shuffle)
    T.label('entry table shared', share and len({tuple(t[1]) for t in leaves}) < len(leaves))


# C08 -----------------------------------------------------------------------


def mutate_path(parts, how, other):
    """Near misses of a path."""
    parts = list(parts)
    k = how % 8
    if k == 0:
        parts[-1] = parts[-1] + 'a'
    elif k == 1:
        parts[-1] = parts[-1][:-1]
    elif k == 2:
        parts[-1] = parts[-1].swapcase()
    elif k == 3:
        parts = parts[1:]
    elif k == 4:
        parts = parts + [other]
    elif k == 5:
        parts = [other] + parts
    elif k == 6:
        parts = parts[:-1]
    else:
        parts[0] = other
    return tuple(parts)


def c08_strategy():
    return st.tuples(trees.tree_specs(10, 5, ids='gaps'), st.lists(st.integers(0, 7), min_size=1, max_size=8),
                     trees.names(), st.booleans())


def judge_lookups(folder, tree, T, what):
    """Everything about one folder object against its tree model."""
    files = trees.all_files(tree)
    folders = trees.all_folders(tree)
    byid = {i: p for p, i in files}
    for path, i in files:
        p = '/'.join(path)
        got = folder.idOf(p)
        T.eq(got, i, f'{what}: ID of {p!r}')
        T.eq(folder.filenameOf(i), p, f'{what}: filename of {i}')
        T.eq(folder[p], i, f'{what}: [{p!r}]')
        T.eq(folder[i], p, f'{what}: [{i}]')
        T.check(p in folder and i in folder, f'{what}: {p!r} or {i} is not "in" the folder')
    filepaths = {p for p, _ in files}
    for path, t in folders:
        p = '/'.join(path)
        sub = folder.subfolder(p)
        obj = folder
        for part in path:
            obj = next(f for n, f in obj.folders if n == part)
        T.check(sub is obj, f'{what}: subfolder({p!r}) is not the folder object in the tree')
        if path not in filepaths:
            T.check(folder[p] is obj, f'{what}: [{p!r}] is not the folder object')
            T.check(folder.idOf(p) is None, f'{what}: ID of the folder {p!r} is {folder.idOf(p)}')
            T.check(p in folder, f'{what}: {p!r} is not "in" the folder')
    ids = sorted(byid)
    for i in {-1, 0, 1, 65535, *(x + d for x in ids for d in (-1, 1))}:
        if i not in byid:
            T.check(folder.filenameOf(i) is None, f'{what}: ID {i} does not exist, but has filename {folder.filenameOf(i)!r}')
            T.check(i not in folder, f'{what}: {i} does not exist but is "in" the folder')
            with T.raises(f'{what}: indexing with missing ID {i}', KeyError):
                folder[i]
    return files, folders


def c08_eval(case, T):
    spec, hows, other, reload_ = case
    tree = trees.resolve(spec)
    folder = trees.to_folder(tree)
    with T.sut('looking up names and IDs'):
        if reload_:
            folder = ndspy.fnt.load(bytes(ndspy.fnt.save(folder)))
        files, folders = judge_lookups(folder, tree, T, 'root')
        for path, t in folders:
            judge_lookups(folder.subfolder('/'.join(path)), t, T, 'folder ' + '/'.join(path))
        filepaths = dict(files)
        folderpaths = dict(folders)
        bases = list(filepaths) + list(folderpaths) + [(other,)]
        misses = 0
        for n, base in enumerate(bases):
            for h in hows:
                p = mutate_path(base, h + n, other)
                if any(not x for x in p) and p:
                    continue
                s = '/'.join(p)
                if p not in filepaths:
                    T.check(folder.idOf(s) is None, f'idOf({s!r}) is {folder.idOf(s)!r}, but there is no such file')
                    misses += 1
                if p not in folderpaths:
                    T.check(folder.subfolder(s) is None, f'subfolder({s!r}) found something, but there is no such folder')
                if p not in filepaths and p not in folderpaths:
                    T.check(s not in folder, f'{s!r} is "in" the folder')
                    with T.raises(f'indexing with {s!r}', KeyError):
                        folder[s]
        # slashes at the ends make no difference
        for p in list(filepaths)[:3]:
            for s in ('/' + '/'.join(p), '/'.join(p) + '/'):
                T.eq(folder.idOf(s), filepaths[p], f'ID of {s!r}')
        for p in list(folderpaths)[:3]:
            for s in ('/' + '/'.join(p), '/'.join(p) + '/'):
                T.check(folder.subfolder(s) is folder.subfolder('/'.join(p)), f'subfolder({s!r})')
    T.nontrivial(files and folders)
    T.label('file and folder with the same path', set(filepaths) & set(folderpaths))
    T.label('same file name in two folders', len({p[-1] for p in filepaths}) < len(filepaths))
    T.label('near misses', misses)
    T.label('deeper than 4', trees.depth(tree) > 4)


def c08_edit_strategy():
    edit = st.tuples(st.sampled_from(['file', 'file', 'folder', 'reverse', 'first', 'drop', 'prune', 'move', 'add', 'add folder']), st.integers(0, 300), trees.names())
    return st.tuples(trees.tree_specs(8, 4, ids='gaps'), st.lists(st.tuples(st.integers(0, 30), edit), min_size=1, max_size=6), st.booleans())


def c08_edit_eval(case, T):
    """The same lookups after each of several edits of the folders."""
    spec, edits, reload_ = case
    tree = trees.resolve(spec)
    folder = trees.to_folder(tree)
    with T.sut('looking up names and IDs'):
        if reload_:
            folder = ndspy.fnt.load(bytes(ndspy.fnt.save(folder)))
    model = roms.nested(tree)
    done = 0
    known = {p for p, _ in trees.all_files(tree)}
    gone = set()
    for n, (a, edit) in enumerate([(0, None)] + edits):
        if edit and not roms.edit_names(folder, model, a, edit, 0xFFFF):
            continue
        ids = [i for _, i in trees.all_files(model)]
        if len(set(ids)) < len(ids):
            break   # an ID with two names: not specified
        done += 1
        with T.sut('looking up names and IDs after an edit'):
            files, folders = judge_lookups(folder, model, T, f'after {done - 1} edits')
            for path, t in folders:
                judge_lookups(folder.subfolder('/'.join(path)), t, T, f'after {done - 1} edits: folder ' + '/'.join(path))
            now = {p for p, _ in files}
            gone = (gone | known) - now
            for p in gone:
                s = '/'.join(p)
                T.check(folder.idOf(s) is None, f'idOf({s!r}) is {folder.idOf(s)!r}, but there is no such file any more')
            known |= now
    T.nontrivial(done > 1)
    T.label('edits', done > 1)
    T.label('names that are gone', gone)


def c08_wide_eval(case, T):
    c08_big_eval(case, T, trees.wide_tree)


def c08_big_eval(case, T, make=trees.big_tree):
    tree = make(case)
    folder = trees.to_folder(tree)
    files = trees.all_files(tree)
    with T.sut('looking up names and IDs'):
        for path, i in files[::max(1, len(files) // 60)]:
            p = '/'.join(path)
            T.eq(folder.idOf(p), i, f'ID of {p!r}')
            T.eq(folder.filenameOf(i), p, f'filename of {i}')
        last = max((i for _, i in files), default=0)
        T.check(folder.filenameOf(last + 1) is None, f'ID {last + 1} does not exist')
    T.nontrivial(len(files) > 100)
    T.label('more than 1000 files', len(files) > 1000)


# C09 -----------------------------------------------------------------------


def ref_narc_write(files, tree, big, order=None, gaps=(), nofnt=False, fntpad=b'\xff'):
    """Canonical NARC; with order/gaps, one whose file data is stored differently."""
    fimg = bytearray()
    ent = {}
    for n, i in enumerate(order if order is not None else range(len(files))):
        if gaps:
            fimg += bytes(gaps[n % len(gaps)])
        ent[i] = (len(fimg), len(fimg) + len(files[i]))
        fimg += files[i]
        fimg += bytes(-len(fimg) % 4)
    fatb = struct.pack('<4sII', b'BTAF', 12 + 8 * len(files), len(files))
    fatb += b''.join(struct.pack('<II', *ent[i]) for i in range(len(files)))
    fnt = struct.pack('<IHH', 4, 0, 1) if nofnt else trees.ref_write(tree)
    fnt += fntpad * (-len(fnt) % 4)
    fntb = struct.pack('<4sI', b'BTNF', 8 + len(fnt)) + fnt
    gmif = struct.pack('<4sI', b'GMIF', 8 + len(fimg)) + bytes(fimg)
    total = 16 + len(fatb) + len(fntb) + len(gmif)
    # The beginning is in the given byte order: byte order mark and version
    # only (sizes are little-endian in both)
    head = b'NARC' + (b'\xfe\xff\x00\x01' if big else b'\xff\xfe\x01\x00')
    head += struct.pack('<IHH', total, 16, 3)
    return head + fatb + fntb + gmif


def ref_narc_read(data):
    data = bytes(data)
    if data[:4] != b'NARC':
        raise ValueError('magic')
    if data[4:8] == b'\xff\xfe\x01\x00':
        big = False
    elif data[4:8] == b'\xfe\xff\x00\x01':
        big = True
    else:
        raise ValueError(f'byte order mark and version {data[4:8].hex(" ")}')
    size, hsize, blocks = struct.unpack_from('<IHH', data, 8)
    if size != len(data) or hsize != 16 or blocks != 3:
        raise ValueError(f'header: size {size} (file has {len(data)}), header size {hsize}, blocks {blocks}')
    pos = 16
    blk = {}
    for magic in (b'BTAF', b'BTNF', b'GMIF'):
        m, n = struct.unpack_from('<4sI', data, pos)
        if m != magic:
            raise ValueError(f'block {m} where {magic} was expected')
        if n < 8 or n % 4 or pos + n > len(data):
            raise ValueError(f'block {m} has size {n}')
        blk[magic] = data[pos + 8:pos + n]
        pos += n
    if pos != len(data):
        raise ValueError('blocks do not fill the file')
    n, = struct.unpack_from('<I', blk[b'BTAF'])
    if len(blk[b'BTAF']) != 4 + 8 * n:
        raise ValueError('FATB size')
    img = blk[b'GMIF']
    files = []
    prev = 0
    for i in range(n):
        a, b = struct.unpack_from('<II', blk[b'BTAF'], 4 + 8 * i)
        if a % 4 or a < prev or b < a or b > len(img):
            raise ValueError(f'file {i} at {a:#x}-{b:#x}')
        if any(img[prev:a]):
            raise ValueError('padding between files is not zero')
        files.append(img[a:b])
        prev = b
    return files, trees.ref_read(blk[b'BTNF'], padding=True), big


def narc_models(max_files=14):
    return st.tuples(st.lists(blobs(300), max_size=max_files), trees.tree_specs(6, 4), st.booleans())


def c09_eval(case, T):
    fspecs, tspec, big = case
    files = [expand(f) for f in fspecs]
    tree = trees.resolve(tspec)
    with T.sut('saving a NARC'):
        narc = ndspy.narc.NARC.fromFilesAndNames(list(files), trees.to_folder(tree))
        narc.endiannessOfBeginning = '>' if big else '<'
        data = narc.save()
    try:
        rf, rt, rb = ref_narc_read(data)
    except ValueError as e:
        raise Violation(f'saved NARC is invalid: {e}')
    T.eq(rf, files, 'files in the saved NARC (independent reader)')
    T.eq(rt, tree, 'names in the saved NARC (independent reader)')
    T.eq(rb, big, 'byte order in the saved NARC (independent reader)')
    want = ref_narc_write(files, tree, big)
    for src, what in ((data, 'a saved NARC'), (want, 'a canonical NARC')):
        with T.sut('loading ' + what):
            n2 = ndspy.narc.NARC(src)
        T.eq(n2.files, files, f'files of {what}')
        T.eq(trees.from_folder(n2.filenames), tree, f'names of {what}')
        T.eq(n2.endiannessOfBeginning, '>' if big else '<', f'byte order of {what}')
        with T.sut('resaving ' + what):
            T.same_bytes(n2.save(), src, f'{what} after load and save')
    T.nontrivial(len(files) > 1)
    T.label('no files', not files)
    T.label('empty file', b'' in files)
    T.label('big-endian beginning', big)
    T.label('length not a multiple of 4', any(len(f) % 4 for f in files))
    T.label('named files', trees.file_total(tree))


def c09_big_eval(case, T):
    import random
    seed, n, size, big = case
    r = random.Random(seed)
    files = [r.randbytes(r.randint(0, size)) for _ in range(n)]
    tree = trees.big_tree((seed, r.randint(0, 20), 30, 0))
    with T.sut('saving a NARC'):
        narc = ndspy.narc.NARC.fromFilesAndNames(list(files), trees.to_folder(tree))
        narc.endiannessOfBeginning = '>' if big else '<'
        data = narc.save()
    T.same_bytes(data, ref_narc_write(files, tree, big), 'saved NARC')
    with T.sut('loading a NARC'):
        n2 = ndspy.narc.NARC(data)
    T.eq(n2.files, files, 'files')
    T.eq(trees.from_folder(n2.filenames), tree, 'names')
    T.eq(n2.endiannessOfBeginning, '>' if big else '<', 'byte order')
    T.nontrivial(n > 255 or len(data) > 0xFFFF)
    T.label('more than 255 files', n > 255)
    T.label('longer than 0xFFFF', len(data) > 0xFFFF)
    T.label('longer than 0x100000', len(data) > 0x100000)


def c09_foreign_strategy():
    return st.tuples(narc_models(), st.lists(st.sampled_from([0, 4, 16, 3]), max_size=3), st.randoms(use_true_random=False).map(
        lambda r: r.randint(0, 9999)), st.booleans(), st.sampled_from([b'\xff', b'\0']))


def c09_foreign_eval(case, T):
    import random
    (fspecs, tspec, big), gaps, seed, nofnt, fntpad = case
    files = [expand(f) for f in fspecs]
    tree = (0, [], []) if nofnt else trees.resolve(tspec)
    order = list(range(len(files)))
    random.Random(seed).shuffle(order)
    data = ref_narc_write(files, tree, big, order, gaps, nofnt, fntpad)
    with T.sut('loading a NARC'):
        narc = ndspy.narc.NARC(data)
    T.eq(narc.files, files, 'files')
    T.eq(trees.from_folder(narc.filenames), tree, 'names')
    T.eq(narc.endiannessOfBeginning, '>' if big else '<', 'byte order')
    with T.sut('resaving a NARC'):
        out = narc.save()
    try:
        rf, rt, rb = ref_narc_read(out)
    except ValueError as e:
        raise Violation(f'resaved NARC is invalid: {e}')
    T.eq((rf, rt, rb), (files, tree, big), 'content of a resaved NARC')
    T.nontrivial(len(files) > 1)
    T.label('stored in another order', order != sorted(order))
    T.label('nameless', nofnt)


CHECKS = {
    'C07': Check('C07', [
        Facet('trees', lambda: trees.tree_specs(14, 6), c07_eval, 5000, 80000, 'non-trivial: more than one folder'),
        Facet('big', trees.big_specs, c07_big_eval, 400, 5000, 'up to 600 folders with up to 20 files each, chains up to 120 deep'),
        Facet('wide', trees.wide_specs, c07_wide_eval, 80, 800, 'up to 2000 subfolders and 5000 files in one folder'),
        Facet('foreign', c07_foreign_strategy, c07_foreign_eval, 3000, 50000, 'valid tables arranged differently; non-trivial: more than two folders'),
        Facet('names that do not fit', c07_unfit_strategy, c07_unfit_eval, 800, 8000, 'names that are empty, longer than 127 characters or not Latin-1; non-trivial: all'),
        reuse.facet('filename table'),
    ], 'Generated folder trees against a reference reader and writer of filename tables; non-trivial: more than one folder.'),
    'C08': Check('C08', [
        Facet('lookups', c08_strategy, c08_eval, 4000, 60000, 'non-trivial: has files and folders'),
        Facet('edits', c08_edit_strategy, c08_edit_eval, 2000, 30000, 'the same after each of several edits; non-trivial: at least one edit'),
        Facet('big', trees.big_specs, c08_big_eval, 160, 2000, 'non-trivial: more than 100 files'),
        Facet('wide', trees.wide_specs, c08_wide_eval, 80, 800, 'up to 2000 subfolders and 5000 files in one folder; non-trivial: more than 100 files'),
    ], 'Every path, ID and near miss in a generated folder tree against a flat map of the tree; non-trivial: has files and subfolders.'),
    'C09': Check('C09', [
        Facet('archives', narc_models, c09_eval, 5000, 80000, 'non-trivial: more than one file'),
        Facet('big', lambda: st.tuples(st.integers(0, 9999), st.one_of(st.tuples(st.integers(0, 600), st.sampled_from([3, 40, 600, 5000])),
                                                                         st.tuples(st.integers(1, 9), st.sampled_from([40000, 300000]))), st.booleans()).map(lambda x: (x[0], *x[1], x[2])),
              c09_big_eval, 160, 2000, 'up to 600 files of up to 5000 bytes, or fewer of up to 300000; non-trivial: more than 255 files or 64 KiB'),
        Facet('foreign', c09_foreign_strategy, c09_foreign_eval, 3000, 40000, 'valid archives with file data in another order, gaps, or no names'),
        reuse.facet('NARC'),
    ], 'Generated NARC archives against a reference reader and writer; non-trivial: more than one file.'),
}
