"""Folder trees: generator, reference filename table codec, model <-> ndspy."""
import random
import struct

from hypothesis import strategies as st

from .core import HarnessError

import ndspy.fnt

# A tree model is (firstID, [file names], [(folder name, tree)]).


# ---------------------------------------------------------------------------
# Generator

LATIN = st.characters(min_codepoint=1, max_codepoint=255, exclude_characters='/')


def names(extra=''):
    return st.one_of(
        st.text('abAB01._', min_size=1, max_size=3),
        st.text('abAB01._ -', min_size=1, max_size=12),
        st.text(LATIN, min_size=1, max_size=10),
        st.tuples(st.sampled_from('xy\xe9'), st.sampled_from([126, 127])).map(lambda t: t[0] * t[1]),
    )


@st.composite
def tree_specs(draw, max_folders=12, max_files=6, ids='any', name=None):
    """
    A flat spec: (mode, [(parent, name, [files], id number)]), resolved by
    resolve(). mode: how first IDs are assigned ('seq', 'gaps', 'any').
    """
    name = name or names()
    folders = []
    used = {}
    n = draw(st.integers(0, max_folders))
    files = st.lists(name, max_size=max_files, unique=True)
    folders.append((0, '', draw(files), draw(st.integers(0, 300))))
    for i in range(1, n + 1):
        # deep chains and wide levels are both likely
        parent = draw(st.one_of(st.just(i - 1), st.integers(0, i - 1)))
        nm = draw(name)
        while (parent, nm) in used:
            nm = (nm + str(i))[-127:]
        used[parent, nm] = 1
        folders.append((parent, nm, draw(files), draw(st.one_of(st.integers(0, 5), st.integers(0, 0xFFFF)))))
    mode = draw(st.sampled_from(['seq', 'gaps', 'any'])) if ids == 'any' else ids
    return mode, folders


def resolve(spec):
    """
    Spec -> tree. 'seq': canonical IDs (files of a folder, then its
    subfolders, depth first). 'gaps': disjoint ID ranges in scrambled order.
    'any': arbitrary first IDs.
    """
    mode, folders = spec
    children = {i: [] for i in range(len(folders))}
    for i, (parent, *_rest) in enumerate(folders):
        if i:
            children[parent].append(i)
    first = {}
    if mode == 'seq':
        nxt = folders[0][3] if folders else 0
        def walk(i):
            nonlocal nxt
            first[i] = nxt
            nxt += len(folders[i][2])
            for c in children[i]:
                walk(c)
        walk(0)
    elif mode == 'gaps':
        order = sorted(range(len(folders)), key=lambda i: (folders[i][3] * 7919 % 31, i))
        nxt = 0
        for i in order:
            nxt += folders[i][3] % 4
            first[i] = nxt
            nxt += len(folders[i][2])
    else:
        for i, f in enumerate(folders):
            first[i] = f[3]

    def build(i):
        return (first[i], list(folders[i][2]), [(folders[c][1], build(c)) for c in children[i]])
    return build(0)


def big_tree(spec):
    """(seed, folders, files per folder, chain) -> tree, for sizes that would be slow to draw."""
    seed, nfolders, nfiles, chain = spec
    r = random.Random(seed)
    folders = [(0, '', [f'root{i}' for i in range(r.randint(0, nfiles))], r.randint(0, 100))]
    for i in range(1, nfolders + 1):
        parent = i - 1 if (chain and i < chain) else r.randrange(max(0, i - 20), i) if r.random() < .5 else r.randrange(i)
        folders.append((parent, f'd{i}' + 'x' * r.choice([0, 3, 30]),
                        [f'f{i}_{j}' + 'y' * r.choice([0, 0, 5, 60]) for j in range(r.randint(0, nfiles))], 0))
    return resolve(('seq', folders))


def big_specs(max_folders=600, max_files=20, max_chain=120):
    return st.tuples(st.integers(0, 9999), st.one_of(st.integers(1, max_folders), st.sampled_from([254, 255, 256, 257])),
                     st.integers(0, max_files), st.integers(0, max_chain))


def wide_tree(spec):
    """(seed, subfolders, files, depth) -> tree with very many entries in one folder."""
    seed, n, nfiles, where = spec
    r = random.Random(seed)
    folders = [(0, '', ['x'] * (seed & 1), r.randint(0, 100))]
    for i in range(where):
        folders.append((i, f'p{i}', [f'q{i}'], 0))
    folders[where] = (*folders[where][:2], [f'f{j}' for j in range(nfiles)], folders[where][3])
    for i in range(n):
        folders.append((where, f'w{i}', [f'g{i}_{j}' for j in range(r.choice([0, 0, 1, 3]))], 0))
        if r.random() < .1:
            folders.append((len(folders) - 1, 'sub', ['s'], 0))
    return resolve(('seq', folders))


def wide_specs():
    n = st.one_of(st.integers(0, 700), st.sampled_from([255, 256, 257, 2000]))
    return st.tuples(st.integers(0, 9999), n, st.one_of(n, st.just(5000)), st.integers(0, 3))


# ---------------------------------------------------------------------------
# Model helpers


def count(tree):
    return 1 + sum(count(t) for _, t in tree[2])


def depth(tree):
    return 1 + max([depth(t) for _, t in tree[2]], default=0)


def all_files(tree, prefix=()):
    """[(path tuple, id)] of every file."""
    out = [(prefix + (n,), tree[0] + i) for i, n in enumerate(tree[1])]
    for n, t in tree[2]:
        out += all_files(t, prefix + (n,))
    return out


def all_folders(tree, prefix=()):
    out = []
    for n, t in tree[2]:
        out.append((prefix + (n,), t))
        out += all_folders(t, prefix + (n,))
    return out


def file_total(tree):
    return len(tree[1]) + sum(file_total(t) for _, t in tree[2])


def to_folder(tree):
    return ndspy.fnt.Folder([(n, to_folder(t)) for n, t in tree[2]], list(tree[1]), tree[0])


def from_folder(folder):
    return (folder.firstID, list(folder.files), [(n, from_folder(f)) for n, f in folder.folders])


# ---------------------------------------------------------------------------
# Reference codec


def ref_write(tree, order='dfs', interleave=0, shuffle=0, gap=b'', share=False):
    """
    Binary filename table. The canonical form numbers folders depth first
    and lists files before subfolders; the other arrangements are valid too:
    order 'bfs', folders between files (interleave: seed), entry tables
    stored in another order (shuffle: seed) with unused bytes between (gap),
    equal entry tables stored only once (share).
    """
    ids = {}
    flat = []
    if order == 'dfs':
        def walk(path, t, parent):
            ids[path] = len(flat)
            flat.append((path, t, parent))
            for i, (n, c) in enumerate(t[2]):
                walk(path + (i,), c, path)
        walk((), tree, None)
    else:
        queue = [((), tree, None)]
        while queue:
            path, t, parent = queue.pop(0)
            ids[path] = len(flat)
            flat.append((path, t, parent))
            for i, (n, c) in enumerate(t[2]):
                queue.append((path + (i,), c, path))
    subs = []
    r = random.Random(interleave)
    for path, t, parent in flat:
        entries = [bytes([len(f)]) + f.encode('latin-1') for f in t[1]]
        fold = [bytes([len(n) | 0x80]) + n.encode('latin-1') + struct.pack('<H', 0xF000 | ids[path + (i,)])
                for i, (n, c) in enumerate(t[2])]
        if interleave:
            merged = []
            while entries or fold:
                src = entries if entries and (not fold or r.random() < .5) else fold
                merged.append(src.pop(0))
        else:
            merged = entries + fold
        subs.append(b''.join(merged) + b'\0')
    positions = list(range(len(flat)))
    if shuffle:
        random.Random(shuffle).shuffle(positions)
    offsets = {}
    body = bytearray()
    stored = {}
    for p in positions:
        if share and subs[p] in stored:
            offsets[p] = stored[subs[p]]
            continue
        stored[subs[p]] = offsets[p] = 8 * len(flat) + len(body)
        body += subs[p]
        if shuffle:
            body += gap
    table = b''
    for i, (path, t, parent) in enumerate(flat):
        par = len(flat) if parent is None else 0xF000 | ids[parent]
        table += struct.pack('<IHH', offsets[i], t[0], par)
    return table + bytes(body)


def ref_read(data, padding=False):
    """
    Strict reader of a saved filename table. Raises ValueError if anything
    is inconsistent.
    """
    data = bytes(data)
    if len(data) < 9:
        raise ValueError('filename table too short')
    count = struct.unpack_from('<H', data, 6)[0]
    if count < 1 or 8 * count > len(data):
        raise ValueError(f'root announces {count} folders')
    used = [(0, 8 * count)]
    seen = set()

    def folder(i, parent):
        if i in seen:
            raise ValueError(f'folder {i} is referenced twice')
        if i >= count:
            raise ValueError(f'folder {i} of {count}')
        seen.add(i)
        off, first, par = struct.unpack_from('<IHH', data, 8 * i)
        if i and par != 0xF000 | parent:
            raise ValueError(f'folder {i} has parent {par:#x}, expected {0xF000 | parent:#x}')
        start = off
        files, folders = [], []
        while True:
            if off >= len(data):
                raise ValueError('entries run past the end')
            c = data[off]
            off += 1
            if c == 0:
                break
            n = c & 0x7F
            if n == 0:
                raise ValueError('entry with an empty name')
            name = data[off:off + n].decode('latin-1')
            if len(name) != n:
                raise ValueError('name runs past the end')
            off += n
            if c & 0x80:
                sub = struct.unpack_from('<H', data, off)[0]
                off += 2
                if sub < 0xF001:
                    raise ValueError(f'subfolder ID {sub:#x}')
                folders.append((name, sub & 0xFFF))
            else:
                files.append(name)
        used.append((start, off))
        return (first, files, [(n, folder(s, i)) for n, s in folders])

    tree = folder(0, None)
    if len(seen) != count:
        raise ValueError(f'root announces {count} folders, {len(seen)} are reachable')
    used.sort()
    for (a, b), (c, d) in zip(used, used[1:]):
        if c < b:
            raise ValueError('folder tables overlap')
    end = used[-1][1]
    if any(b != 0xFF for b in data[end:]) or len(data) - end > (3 if padding else 0):
        raise ValueError(f'{len(data) - end} unexpected bytes after the table')
    return tree
