"""C22, C23: sound archives."""
import random
import struct

from hypothesis import strategies as st

from .core import Check, Facet, HarnessError, expand, u8, u16, u32
from . import reuse, seqs, sounds

import ndspy.soundArchive as SA
import ndspy.soundBank as B
import ndspy.soundGroup as G
import ndspy.soundSequence as S
import ndspy.soundSequenceArchive as A
import ndspy.soundSequencePlayer as SP
import ndspy.soundStream as STR
import ndspy.soundStreamPlayer as STP
import ndspy.soundWaveArchive as WA

KINDS = ['seq', 'ssar', 'bank', 'swar', 'player', 'group', 'splayer', 'strm']
ATTRS = dict(zip(KINDS, ['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers', 'streams']))
FILEKINDS = ['seq', 'ssar', 'bank', 'swar', 'strm']
OPTIONS = ['fatLengthsIncludePadding', 'firstFileAlignment', 'fileAlignment', 'padAtEnd', 'padSymbSizeTo4InSDATHeader']

# ---------------------------------------------------------------------------
# Contents. A file is given by (kind, seed, size class); equal specs are equal files.


def program(r, n):
    evs = []
    for _ in range(n):
        evs.append(r.choice([('note', r.randrange(128), r.randrange(128), False, r.randrange(200)), ('rest', r.randrange(1000)),
                             ('byte', 0xC0, r.randrange(128)), ('short', 0xE1, r.randrange(300))]))
    return evs + [('end',)]


def ssar_count(seed):
    return seed % 4


def near(kind, seed, size, at):
    """Files with so much data, which differ only in a byte or two (depending on at)."""
    r = random.Random(f'{kind}{seed}')
    if kind == 'seq':
        prog = [('note', r.randrange(128), 100, False, 5) for _ in range(max(1, size // 3))]
        if at is not None:
            i = at % len(prog)
            prog[i] = ('note', (prog[i][1] + 1) % 128, 100, False, 5)
        return seqs.ref_sseq(seqs.encode_all(prog + [('end',)]))
    blob = bytearray(r.randbytes(size + -size % 4))
    if at is not None and size:
        blob[at % size] ^= 0x10
    if kind == 'swar':
        return sounds.ref_swar([(1, True, 8000, 5, 1, 2, bytes(blob))])
    m = {'type': 0, 'looped': False, 'channels': 1, 'blocks': 1, 'size': len(blob), 'last': len(blob), 'seed': 0, 'unk03': 0, 'rate': 32000, 'time': 1,
         'loop': 3, 'per': 5, 'inlast': 2, 'unk': [0] * 8}
    return sounds.ref_stream(m, [[bytes(blob)]])


def content(kind, seed, n, at='no'):
    if at != 'no':
        return near(kind, seed, n, at)
    r = random.Random(f'{kind}{seed}')
    if kind == 'seq':
        return seqs.ref_sseq(seqs.encode_all(program(r, n)))
    if kind == 'ssar':
        prog = program(r, n)
        offs = seqs.offsets(prog)
        starts = [(None if r.random() < .2 else r.choice(offs), r.randrange(9), r.randrange(128), 64, 50, r.randrange(9)) for _ in range(ssar_count(seed))]
        return seqs.ref_ssar(starts, seqs.encode_all(prog))
    if kind == 'bank':
        insts = [None if r.random() < .2 else (('single', sounds.seeded_notes(r.randrange(1, 99), 1, True)[0]), 0, 0) for _ in range(n)]
        return sounds.ref_bank(insts)
    if kind == 'swar':
        return sounds.ref_swar([(r.randrange(3), r.random() < .5, r.randrange(0x10000), r.randrange(0x10000), 1, r.randrange(99),
                                 ('rand', r.randrange(99), r.randrange(40))) for _ in range(n % 3)])
    m = {'type': r.randrange(3), 'looped': r.random() < .5, 'channels': 1 + n % 2, 'blocks': 1 + r.randrange(3), 'size': 12, 'last': 4 + r.randrange(9),
         'seed': seed, 'unk03': 0, 'rate': 32000, 'time': 1, 'loop': 3, 'per': 5, 'inlast': 2, 'unk': [r.randrange(99) for _ in range(8)]}
    if m['blocks'] == 1:
        m['size'] = m['last']
    return sounds.ref_stream(m, sounds.stream_channels(m))


# ---------------------------------------------------------------------------
# Models: {kind: [(name, entry or None)]} where an entry is
#   seq: (file, unk02, bank, volume, pressure, pressure, player, merge)
#   ssar: (file, unk02, [names], merge)      bank: (file, unk02, [IDs], merge)
#   swar: (file, unk02, merge)               strm: (file, unk02, volume, priority, player, unk07, merge)
#   player: (max, [channels], heap)          group: [(type, options, ID)]      splayer: [channels]


def names():
    return st.one_of(st.none(), st.sampled_from(['A', 'SEQ_1', 'ab', '', 'N' * 127, 'N' * 128, 'N' * 300]), st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=9))


@st.composite
def models(draw, max_entries=3, named=None):
    small = st.integers(0, 3)
    merge = st.one_of(st.just(0), st.just(0), st.integers(0, 2))
    name = names() if named is None else named

    def file(kind):
        return st.tuples(st.just(kind), st.one_of(st.just(0), small), small)

    ent = {
        'seq': st.tuples(file('seq'), u16(), u16(), u8(), u8(), u8(), u8(), merge),
        'bank': st.tuples(file('bank'), u16(), st.lists(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 0x7FFF)), max_size=4)
                          .map(lambda l: l[:max((i + 1 for i, x in enumerate(l) if x is not None), default=0)]), merge),
        'swar': st.tuples(file('swar'), u16(), merge),
        'strm': st.tuples(file('strm'), u16(), u8(), u8(), u8(), u8(), merge),
        'player': st.tuples(u16(), st.sets(st.integers(0, 15), max_size=16).map(sorted), u32()),
        'group': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 15), u32()), max_size=3),
        'splayer': st.lists(st.one_of(st.integers(0, 15), st.integers(0, 15), u8()), max_size=16),
        'ssar': st.tuples(file('ssar'), u16(), st.lists(name, min_size=3, max_size=3), merge).map(
            lambda e: (e[0], e[1], e[2][:ssar_count(e[0][1])], e[3])),
    }
    m = {}
    # sometimes only sequences within sequence archives are named
    top = st.none() if named is None and draw(st.integers(0, 9)) == 0 else name
    for k in KINDS:
        n = draw(st.integers(0, max_entries))
        m[k] = []
        for _ in range(n):
            some = [st.just(e) for _, e in m[k] if e is not None][:1]   # the same again
            m[k].append((draw(top), draw(st.one_of(ent[k], ent[k], ent[k], st.none(), *some))))
    return m


@st.composite
def large_models(draw):
    """A few files, most of them almost the same."""
    m = {k: [] for k in KINDS}
    size = draw(st.sampled_from([40, 0x100, 0x140, 0x1000, 0x4000, 0x10000, 0x10010, 100000]))
    for _ in range(draw(st.integers(2, 5))):
        k = draw(st.sampled_from(['seq', 'swar', 'strm']))
        at = draw(st.one_of(st.none(), st.just(size - 1), st.integers(0, size)))
        if k == 'seq':
            size = min(size, 0x4000)
        f = (k, draw(st.integers(0, 1)), size, at)
        merge = draw(st.sampled_from([0, 0, 1]))
        e = {'seq': (f, 1, 2, 3, 4, 5, 6, merge), 'swar': (f, 7, merge), 'strm': (f, 1, 2, 3, 4, 5, merge)}[k]
        m[k].append((draw(names()), e))
    return m


def options(canonical=False):
    al = st.sampled_from([0x20, 0x20, 4, 8, 0x10, 0x40, 0x80, 0x100, 0x200, 1, 2])
    if not canonical:
        al = st.one_of(al, st.integers(1, 70))
    return st.tuples(st.booleans(), st.one_of(st.none(), al), al, st.booleans(), st.booleans())


class Files:
    def __init__(self):
        self.list = []

    def add(self, spec, merge):
        key = (content(*spec), merge)
        if key not in self.list:
            self.list.append(key)
        return self.list.index(key)


def align(d, n):
    d += bytes(-len(d) % n)


def ref_sdat(m, opts):
    inclpad, firstal, al, padend, padsymb = opts
    out = bytearray(0x40)
    symb = (0, 0)
    strings = bytearray()
    words = []      # (value, relative to strings?)
    heads = []

    def add(s):
        if s is None:
            return (0, False)
        o = len(strings)
        strings.extend(s.encode('latin-1') + b'\0')
        return (o, True)

    for k in KINDS:
        heads.append(0x40 + 4 * len(words))
        words.append((len(m[k]), False))
        if k != 'ssar':
            words += [add(n) for n, _ in m[k]]
        else:
            sub = []
            start = 0x40 + 4 * (len(words) + 2 * len(m[k]))
            for n, e in m[k]:
                words.append(add(n))
                if e is None:
                    words.append((0, False))
                else:
                    words.append((start + 4 * len(sub), False))
                    sub.append((len(e[2]), False))
                    sub += [add(x) for x in e[2]]
            words += sub
    if strings:
        base = 0x40 + 4 * len(words)
        size = base + len(strings)
        padded = size + -size % 4
        out += b'SYMB' + struct.pack('<9I', padded, *heads) + bytes(0x18)
        for v, rel in words:
            out += struct.pack('<I', v + base if rel else v)
        out += strings
        align(out, 4)
        symb = (0x40, padded if padsymb else size)

    files = Files()
    info = bytearray(0x40)
    for i, k in enumerate(KINDS):
        struct.pack_into('<I', info, 8 + 4 * i, len(info))
        table = len(info) + 4
        info += struct.pack('<I', len(m[k])) + bytes(4 * len(m[k]))
        for j, (_, e) in enumerate(m[k]):
            if e is None:
                continue
            struct.pack_into('<I', info, table + 4 * j, len(info))
            if k == 'seq':
                info += struct.pack('<HHH4BH', files.add(e[0], e[-1]), *e[1:7], 0)
            elif k in ('ssar', 'swar'):
                info += struct.pack('<HH', files.add(e[0], e[-1]), e[1])
            elif k == 'bank':
                ids = [0xFFFF if x is None else x for x in e[2]]
                info += struct.pack('<HH4H', files.add(e[0], e[-1]), e[1], *(ids + [0xFFFF] * (4 - len(ids))))
            elif k == 'player':
                info += struct.pack('<HHI', e[0], sum(1 << c for c in e[1]), e[2])
            elif k == 'group':
                info += struct.pack('<I', len(e))
                for t, o, x in e:
                    info += struct.pack('<BHBI', t, o, 0, x)
            elif k == 'splayer':
                info += bytes([len(e), *e]) + b'\xff' * (16 - len(e)) + bytes(7)
            elif k == 'strm':
                info += struct.pack('<HH4BI', files.add(e[0], e[-1]), *e[1:6], 0)
    struct.pack_into('<4sI', info, 0, b'INFO', len(info))
    infooff = len(out)
    out += info
    fatoff = len(out)
    fatsize = 0xC + 0x10 * len(files.list)
    out += b'FAT ' + struct.pack('<II', fatsize, len(files.list)) + bytes(fatsize - 0xC)
    fileoff = len(out)
    out += bytes(0xC)
    if firstal is not None:
        align(out, firstal)
    places = []
    for i, (d, _) in enumerate(files.list):
        align(out, al)
        n = len(d) + (-len(d) % al if inclpad else 0)
        struct.pack_into('<II', out, fatoff + 0xC + 0x10 * i, len(out), n)
        places.append((len(out), len(d)))
        out += d
    if padend:
        align(out, al)
    struct.pack_into('<4sII', out, fileoff, b'FILE', len(out) - fileoff, len(files.list))
    struct.pack_into('<4sHHIHH8I', out, 0, b'SDAT', 0xFEFF, 0x100, len(out), 0x40, 4 if strings else 3,
                     *symb, infooff, len(info), fatoff, fatsize, fileoff, len(out) - fileoff)
    return bytes(out), places


def cstr(f, o, T):
    e = f.find(b'\0', o)
    T.check(0 <= o <= e, 'string is not terminated')
    return f[o:e].decode('latin-1')


def read_sdat(f, T):
    """Independent reader: file -> model with (file number, ...) entries, and the files [(offset, size)]."""
    magic, bom, ver, size, hs, nb = struct.unpack_from('<4sHHIHH', f)
    T.eq((magic, bom, ver, size, hs), (b'SDAT', 0xFEFF, 0x100, len(f), 0x40), 'header')
    so, ss, io, is_, fo, fs, do, ds = struct.unpack_from('<8I', f, 0x10)
    T.eq(nb, 4 if so else 3, 'number of blocks')
    T.eq(struct.unpack_from('<4sI', f, io), (b'INFO', is_), 'INFO block')
    T.eq(struct.unpack_from('<4sI', f, fo), (b'FAT ', fs), 'FAT block')
    T.eq(struct.unpack_from('<4sI', f, do), (b'FILE', ds), 'FILE block')
    T.eq(do + ds, len(f), 'end of the FILE block')
    T.check(all(x % 4 == 0 for x in (so, io, fo, do)), 'blocks are not aligned')
    pos = 0x40
    if so:
        T.eq(so, 0x40, 'offset of SYMB block')
        T.eq(f[so:so + 4], b'SYMB', 'SYMB block')
        bs, = struct.unpack_from('<I', f, so + 4)
        T.check(bs - 4 < ss <= bs and bs % 4 == 0, f'SYMB block size {ss:#x} in the header, {bs:#x} in the block')
        pos = so + bs
    T.eq(io, pos, 'offset of INFO block')
    T.eq(fo, io + is_, 'offset of FAT block')
    T.eq(do, fo + fs, 'offset of FILE block')
    n, = struct.unpack_from('<I', f, fo + 8)
    T.eq(fs, 0xC + 0x10 * n, 'size of FAT block')
    T.eq(struct.unpack_from('<I', f, do + 8)[0], n, 'number of files')
    files = [struct.unpack_from('<II', f, fo + 0xC + 0x10 * i) for i in range(n)]

    symbols = {}
    for i, k in enumerate(KINDS):
        if not so:
            continue
        p = so + struct.unpack_from('<I', f, so + 8 + 4 * i)[0]
        c, = struct.unpack_from('<I', f, p)
        l = []
        for j in range(c):
            if k == 'ssar':
                a, b = struct.unpack_from('<II', f, p + 4 + 8 * j)
                sub = []
                if b:
                    q, = struct.unpack_from('<I', f, so + b)
                    sub = [cstr(f, so + x, T) if x else None for x in struct.unpack_from(f'<{q}I', f, so + b + 4)]
                l.append((cstr(f, so + a, T) if a else None, sub))
            else:
                a, = struct.unpack_from('<I', f, p + 4 + 4 * j)
                l.append(cstr(f, so + a, T) if a else None)
        symbols[k] = l
    m = {}
    for i, k in enumerate(KINDS):
        p = io + struct.unpack_from('<I', f, io + 8 + 4 * i)[0]
        c, = struct.unpack_from('<I', f, p)
        offs = struct.unpack_from(f'<{c}I', f, p + 4)
        if so:
            T.eq(len(symbols[k]), c, f'number of {k} symbols')
        l = []
        for j, o in enumerate(offs):
            sy = symbols[k][j] if so else (None, None) if k == 'ssar' else None
            name = sy[0] if k == 'ssar' else sy
            q = io + o
            if o == 0:
                e = None
            elif k == 'seq':
                e = struct.unpack_from('<HHH4B', f, q)
            elif k == 'ssar':
                e = (*struct.unpack_from('<HH', f, q), sy[1])
            elif k == 'swar':
                e = struct.unpack_from('<HH', f, q)
            elif k == 'bank':
                x = struct.unpack_from('<6H', f, q)
                ids = [None if y == 0xFFFF else y for y in x[2:]]
                while ids and ids[-1] is None:
                    ids.pop()
                e = (*x[:2], ids)
            elif k == 'player':
                a, mask, h = struct.unpack_from('<HHI', f, q)
                e = (a, [b for b in range(16) if mask >> b & 1], h)
            elif k == 'group':
                e = [struct.unpack_from('<BHxI', f, q + 4 + 8 * b) for b in range(struct.unpack_from('<I', f, q)[0])]
            elif k == 'splayer':
                e = list(f[q + 1:q + 1 + f[q]])
            else:
                e = struct.unpack_from('<HH4B', f, q)
            l.append((name, e))
        m[k] = l
    return m, files, (ss, so, do)


def make_entry(k, e, how):
    """how: 'load' (from the file) or 'parse' (sequences and sequence archives also parsed)."""
    if e is None:
        return None
    if k == 'player':
        return SP.SequencePlayer(e[0], set(e[1]), e[2])
    if k == 'group':
        return [G.GroupEntry(*x) for x in e]
    if k == 'splayer':
        return STP.StreamPlayer(list(e))
    f = content(*e[0])
    if k == 'seq':
        o = S.SSEQ(f, *e[1:7])
    elif k == 'ssar':
        o = A.SSAR(f, e[1], list(e[2]))
    elif k == 'bank':
        o = B.SBNK(f, e[1], list(e[2]))
    elif k == 'swar':
        o = WA.SWAR(f, e[1])
    else:
        o = STR.STRM(f, *e[1:6])
    if how == 'parse' and k in ('seq', 'ssar'):
        o.parse()
    o.dataMergeOptimizationID = e[-1]
    return o


def build(m, opts, how):
    sd = SA.SDAT()
    for k in KINDS:
        setattr(sd, ATTRS[k], [(n, make_entry(k, e, how)) for n, e in m[k]])
    for a, v in zip(OPTIONS, opts):
        setattr(sd, a, v)
    return sd


def judge_entry(k, o, e, T, what):
    if e is None:
        T.check(o is None, f'{what} is {type(o)}, not empty')
        return
    T.check(o is not None, f'{what} is empty')
    if k == 'player':
        T.eq((o.maxSequences, sorted(o.channels), o.heapSize), tuple(e), what)
        T.check(isinstance(o.channels, set), f'{what}: type of channels')
    elif k == 'group':
        T.eq([(int(x.type), x.save()[1], x.id) for x in o], e, what)
        for x, (t, opt, i) in zip(o, e):
            T.eq((x.loadSSEQ, int(x.loadSBNKSWARsFrom), x.loadSWAR, x.loadSSAR), (bool(opt & 1), opt >> 1 & 1, bool(opt & 4), bool(opt & 8)), f'{what}: options')
    elif k == 'splayer':
        T.eq(o.channels, e, what)
    else:
        with T.sut(f'saving {what}'):
            got = o.save()
        T.same_bytes(got[0], content(*e[0]), f'{what}: file')
        if k == 'seq':
            T.eq(tuple(got[1:]), tuple(e[1:7]), f'{what}: parameters')
        elif k == 'ssar':
            T.eq((got[1], list(got[2])), (e[1], e[2]), f'{what}: parameters')
        elif k == 'bank':
            T.eq((got[1], list(got[2])), (e[1], e[2]), f'{what}: parameters')
        elif k == 'swar':
            T.eq(got[1], e[1], f'{what}: parameters')
        else:
            T.eq(tuple(got[1:]), tuple(e[1:6]), f'{what}: parameters')


def judge(sd, m, T, what):
    for k in KINDS:
        l = getattr(sd, ATTRS[k])
        T.eq([n for n, _ in l], [n for n, _ in m[k]], f'{what}: names of {ATTRS[k]}')
        for i, ((_, o), (_, e)) in enumerate(zip(l, m[k])):
            judge_entry(k, o, e, T, f'{what}: {ATTRS[k]}[{i}]')


def nameless(m):
    return all(n is None for k in KINDS for n, _ in m[k]) and all(x is None for _, e in m['ssar'] if e for x in e[2])


def judge_file(f, m, T):
    """The model in the file, by the independent reader. Returns the files."""
    got, files, ex = read_sdat(f, T)
    for k in KINDS:
        T.eq([n for n, _ in got[k]], [n for n, _ in m[k]], f'file: names of {ATTRS[k]}')
        for i, ((_, g), (_, e)) in enumerate(zip(got[k], m[k])):
            what = f'file: {ATTRS[k]}[{i}]'
            if e is None or k not in FILEKINDS:
                T.eq(g, tuple(e) if k == 'player' and e is not None else e, what)
                continue
            T.check(g is not None, what + ' is empty')
            T.check(g[0] < len(files), what + ' has no file')
            a, n = files[g[0]]
            c = content(*e[0])
            T.check(n >= len(c) and f[a:a + len(c)] == c, what + ': file contents')
            want = tuple(e[1:-1])
            if k == 'ssar' and not struct.unpack_from('<I', f, 0x10)[0]:
                T.eq(g[1], e[1], what)
            else:
                T.eq(tuple(g[1:]), want, what)
    return got, files, ex


def entries(m):
    return sum(e is not None for k in KINDS for _, e in m[k])


def labels(m, T):
    for k in FILEKINDS:
        l = [e for _, e in m[k] if e]
        T.label('same file twice', len({(e[0], e[-1]) for e in l}) < len(l))
        T.label('same data, other merge ID', len({e[0] for e in l}) < len({(e[0], e[-1]) for e in l}))
    T.label('empty slot', any(e is None for k in KINDS for _, e in m[k]))
    T.label('no names', nameless(m))


# C22 -----------------------------------------------------------------------


def c22_eval(case, T):
    m, opts, how = case
    with T.sut('saving'):
        sd = build(m, opts, how)
        f = bytes(sd.save())
    judge_file(f, m, T)
    judge(sd, m, T, 'after saving')
    with T.sut('loading'):
        l = SA.SDAT(f)
    judge(l, m, T, 'loaded')
    with T.sut('saving again'):
        f2 = bytes(l.save())
    judge_file(f2, m, T)
    with T.sut('loading again'):
        l = SA.SDAT(f2)
    judge(l, m, T, 'loaded again')
    labels(m, T)
    T.nontrivial(entries(m) > 1)


def big_model(seed, sizes):
    r = random.Random(seed)
    long = r.choice([30, 30, 300])

    def name():
        return None if r.random() < .2 else ''.join(chr(r.choice([r.randrange(1, 256), r.randrange(65, 90)])) for _ in range(r.randrange(long)))

    def entry(k):
        f = (k, r.randrange(400), r.randrange(4) if r.random() < .98 else 300)
        if k == 'seq':
            return (f, r.getrandbits(16), r.getrandbits(16), *(r.getrandbits(8) for _ in range(4)), r.choice([0, 0, 1]))
        if k == 'ssar':
            return (f, r.getrandbits(16), [name() for _ in range(ssar_count(f[1]))], r.choice([0, 0, 1]))
        if k == 'bank':
            return (f, r.getrandbits(16), [r.getrandbits(15) for _ in range(r.randrange(5))], r.choice([0, 0, 1]))
        if k == 'swar':
            return (f, r.getrandbits(16), r.choice([0, 0, 1]))
        if k == 'strm':
            return (f, r.getrandbits(16), *(r.getrandbits(8) for _ in range(4)), r.choice([0, 0, 1]))
        if k == 'player':
            return (r.getrandbits(16), sorted(r.sample(range(16), r.randrange(17))), r.getrandbits(32))
        if k == 'group':
            return [(r.randrange(4), r.randrange(16), r.getrandbits(32)) for _ in range(r.choice([1, 3, 300]))]
        return [r.randrange(16) for _ in range(r.randrange(17))]

    m = {k: [(name(), None if r.random() < .1 else entry(k)) for _ in range(n)] for k, n in zip(KINDS, sizes)}
    if r.random() < .3:
        # only the last ones have names
        for k in KINDS:
            m[k] = [(None if i < len(m[k]) - 1 else n, e) for i, (n, e) in enumerate(m[k])]
        if r.random() < .6:
            # of one kind
            k = max(KINDS, key=lambda k: len(m[k]))
            m = {j: [(n if j == k else None, (*e[:2], [None] * len(e[2]), *e[3:]) if j == 'ssar' and e else e) for n, e in l] for j, l in m.items()}
            if m[k]:
                m[k][-1] = ('last', m[k][-1][1])
    return m


def c22_big_eval(case, T):
    seed, sizes, opts = case
    m = big_model(seed, sizes)
    with T.sut('saving'):
        f = bytes(build(m, opts, 'load').save())
    if struct.unpack_from('<I', f, struct.unpack_from('<I', f, 0x20)[0] + 8)[0]:
        T.same_bytes(f, ref_sdat(m, opts)[0], 'saved archive')
    judge_file(f, m, T)
    with T.sut('loading'):
        l = SA.SDAT(f)
    judge(l, m, T, 'loaded')
    with T.sut('saving again'):
        judge_file(bytes(l.save()), m, T)
    T.nontrivial(max(sizes) > 100)


def c22_big_strategy():
    return st.tuples(st.integers(0, 10**6), st.lists(st.one_of(st.integers(0, 300), st.integers(250, 400), st.integers(0, 20), st.integers(0, 20), st.integers(1000, 1500)), min_size=8, max_size=8), options())


def c22_edit_eval(case, T):
    m, extra, opts, ops = case
    m = {k: list(v) for k, v in m.items()}
    f, _ = ref_sdat(m, opts)
    with T.sut('loading'):
        sd = SA.SDAT(f)
    judge(sd, m, T, 'loaded')
    done = 0
    for op, k, i, j in ops:
        lst = getattr(sd, ATTRS[k])
        if op == 'add':
            if not extra[k]:
                continue
            new = extra[k][j % len(extra[k])]
            i %= len(m[k]) + 1
            m[k].insert(i, new)
            lst.insert(i, (new[0], make_entry(k, new[1], 'load')))
        elif not m[k]:
            continue
        elif op == 'delete':
            i %= len(m[k])
            del m[k][i], lst[i]
        elif op == 'rename':
            i %= len(m[k])
            n = [None, 'new', '', 'name\xff'][j % 4]
            m[k][i] = (n, m[k][i][1])
            lst[i] = (n, lst[i][1])
        elif op == 'clear':
            i %= len(m[k])
            m[k][i] = (m[k][i][0], None)
            lst[i] = (lst[i][0], None)
        elif op == 'move':
            i %= len(m[k])
            m[k].append(m[k].pop(i))
            lst.append(lst.pop(i))
        elif op == 'repeat':
            i %= len(m[k])
            m[k].append(m[k][i])
            lst.append(lst[i])
        elif op == 'change':
            # change one entry, in place; others which use the same file keep theirs
            i %= len(m[k])
            n, e = m[k][i]
            o = lst[i][1]
            if e is None or sum(x is o for _, x in lst) > 1:
                continue
            if k == 'seq':
                # same kind of content, other seed
                spec = ('seq', e[0][1] + 10, e[0][2])
                o.eventsData = content(*spec)[0x1C:]
                o.volume = j
                m[k][i] = (n, (spec, *e[1:3], j, *e[4:]))
            elif k == 'swar':
                spec = ('swar', e[0][1] + 10, e[0][2])
                o.waves = WA.SWAR(content(*spec)).waves
                m[k][i] = (n, (spec, *e[1:]))
            elif k == 'bank':
                o.waveArchiveIDs = [j]
                m[k][i] = (n, (*e[:2], [j], e[-1]))
            elif k == 'ssar':
                o.unk02 = j
                m[k][i] = (n, (e[0], j, *e[2:]))
            elif k == 'strm':
                o.priority = j
                m[k][i] = (n, (*e[:3], j, *e[4:]))
            elif k == 'player':
                o.heapSize = j
                m[k][i] = (n, (*e[:2], j))
            elif k == 'group':
                o.append(G.GroupEntry.fromFlags(G.GroupEntryType.SWAR, j, loadSWAR=True))
                m[k][i] = (n, e + [(2, 6, j)])
            elif k == 'splayer':
                o.channels.reverse()
                m[k][i] = (n, e[::-1])
        done += 1
    with T.sut('saving the edited archive'):
        out = bytes(sd.save())
    judge_file(out, m, T)
    with T.sut('loading the edited archive'):
        again = SA.SDAT(out)
    judge(again, m, T, 'edited and loaded')
    labels(m, T)
    T.nontrivial(done and entries(m) > 1)


def c22_edit_strategy():
    op = st.tuples(st.sampled_from(['add', 'add', 'delete', 'rename', 'clear', 'move', 'repeat', 'change', 'change']), st.sampled_from(KINDS),
                   st.integers(0, 9), st.integers(0, 100))
    return st.tuples(models(), models(2), options(True), st.lists(op, min_size=1, max_size=5))


# C23 -----------------------------------------------------------------------


def c23_eval(case, T):
    m, opts, how = case
    inclpad, firstal, al, padend, padsymb = opts
    want, places = ref_sdat(m, opts)
    with T.sut('saving'):
        f = build(m, opts, how).save()
    f = bytes(f)
    got, files, (ss, so, do) = judge_file(f, m, T)
    # sharing, and no files besides
    keys = {}
    used = set()
    for k in FILEKINDS:
        for (_, g), (_, e) in zip(got[k], m[k]):
            if e is not None:
                key = (content(*e[0]), e[-1])
                T.eq(keys.setdefault(key, g[0]), g[0], 'file of entries with equal data and merge ID')
                used.add(g[0])
    T.eq(len(set(keys.values())), len(keys), 'number of files of entries with different data or merge IDs')
    T.eq(sorted(used), list(range(len(files))), 'used files')
    # alignment and padding
    end = do + 0xC
    by_id = {v: k[0] for k, v in keys.items()}
    for i, (o, n) in enumerate(files):
        T.check(o % al == 0, f'file {i} at {o:#x} is not aligned to {al:#x}')
        if i == 0 and firstal is not None and al % firstal * firstal % al == 0 and (firstal % al == 0 or al % firstal == 0):
            T.check(o % firstal == 0, f'first file at {o:#x} is not aligned to {firstal:#x}')
        T.check(o >= end and not any(f[end:o]), f'data before file {i}')
        size = len(by_id[i])
        T.eq(n, size + (-size % al if inclpad else 0), f'length of file {i} in the table')
        end = o + size
    T.check(not any(f[end:]), 'data after the last file')
    if files:
        T.eq(len(f), end + (-end % al if padend else 0), 'end of the archive')
    if so:
        T.eq(ss % 4 if padsymb else 0, 0, 'size of the SYMB block')
    if files:
        T.same_bytes(f, want, 'saved archive')
    labels(m, T)
    T.nontrivial(entries(m) > 1)


def lowbit(x):
    return min(x & -x, 0x200)


def determined(opts, places):
    """Whether the options can be told from the file (as far as they matter)."""
    inclpad, firstal, al, padend, padsymb = opts
    if not places or min(lowbit(o) for o, _ in places) != al:
        return False
    lastaligned = places[-1][1] % al == 0
    if inclpad:
        return padend or lastaligned
    return any(n % al for _, n in places[:-1]) or lastaligned


def c23_canonical_eval(case, T):
    m, opts = case
    f, places = ref_sdat(m, opts)
    with T.sut('loading'):
        sd = SA.SDAT(f)
    judge(sd, m, T, 'loaded')
    with T.sut('saving'):
        out = bytes(sd.save())
    judge_file(out, m, T)
    d = determined(opts, places)
    if d:
        T.same_bytes(out, f, 'archive loaded and saved')
        with T.sut('parsing'):
            for _, s in sd.sequences:
                if s is not None:
                    s.parse()
            for _, s in sd.sequenceArchives:
                if s is not None:
                    s.parse()
        with T.sut('saving with parsed sequences'):
            T.same_bytes(sd.save(), f, 'archive loaded, parsed and saved')
    # with the options set explicitly, always
    for a, v in zip(OPTIONS, opts):
        setattr(sd, a, v)
    if not places:
        labels(m, T)
        return
    with T.sut('saving with explicit options'):
        T.same_bytes(sd.save(), f, 'archive loaded and saved with the same options')
    T.nontrivial(d and len(places) > 1)
    T.label('options determined', d)
    T.label('padding in lengths', opts[0])
    T.label('first file alignment', opts[1] is not None)
    T.label('no padding at end', not opts[3])
    labels(m, T)


HOW = st.sampled_from(['load', 'parse'])


def c22_strategy():
    return st.one_of(st.tuples(models(), options(), HOW), st.tuples(models(3, st.none()), options(), HOW), st.tuples(models(6), options(), HOW))


def c23_strategy():
    return st.one_of(st.tuples(models(), options(), HOW), st.tuples(models(3, st.none()), options(), HOW))


NOTE = ['Names are Latin-1 text without NUL; wave archive IDs are 0-32767 or missing; stream players have at most 16 channels.',
        'Group options consist of the four documented flags.']

CHECKS = {
    'C22': Check('C22', [
        Facet('contents', c22_strategy, c22_eval, 1500, 20000, 'non-trivial: at least two entries'),
        Facet('edits', c22_edit_strategy, c22_edit_eval, 1500, 20000, 'non-trivial: edited, at least two entries'),
        Facet('many', c22_big_strategy, c22_big_eval, 25, 300, 'non-trivial: more than 100 entries of one kind'),
        Facet('very many', lambda: st.tuples(st.integers(0, 10**6), st.integers(0, len(KINDS) - 1), st.integers(4500, 9000), st.lists(st.integers(0, 60), min_size=8, max_size=8), options()).map(
            lambda x: (x[0], [x[2] if i == x[1] else n for i, n in enumerate(x[3])], x[4])), c22_big_eval, 16, 160, 'up to 9000 entries of one kind; all non-trivial'),
        Facet('large files', lambda: st.tuples(large_models(), options(), st.just('load')), c22_eval, 200, 2000, 'files of up to 100000 bytes that differ in one byte'),
        reuse.facet('SDAT'),
    ], 'Generated sound archives saved, read by an independent reader, loaded and edited; non-trivial: at least two entries.', NOTE),
    'C23': Check('C23', [
        Facet('files', c23_strategy, c23_eval, 1500, 20000, 'non-trivial: at least two entries'),
        Facet('canonical', lambda: st.tuples(models(4), options(True)), c23_canonical_eval, 2000, 20000,
              'non-trivial: at least two files, and the options can be told from the file'),
        Facet('large files', lambda: st.tuples(large_models(), options(), st.just('load')), c23_eval, 200, 2000, 'files of up to 100000 bytes that differ in one byte'),
        reuse.facet('SDAT'),
    ], 'Generated sound archives against a reference writer and reader with all padding options; non-trivial: at least two entries.',
        NOTE + ['The padding options are documented to be guessed on load; resaving byte for byte is required without setting them only '
                'if the file determines them (several files, some of them with padding).']),
}
