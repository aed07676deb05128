"""C10-C13: ROMs, and edit histories of ROMs and NARCs."""
import random
import struct

from hypothesis import strategies as st

from . import reuse, trees
from .core import Check, Facet, HarnessError, Violation, blobs, expand, ints

import ndspy.code
import ndspy.fnt
import ndspy.narc
import ndspy.rom

BANNERS = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}
U8 = ['unitCode', 'encryptionSeedSelect', 'deviceCapacity', 'pad015', 'pad016', 'pad017', 'pad018', 'pad019', 'pad01A',
      'pad01B', 'pad01C', 'region', 'version', 'autostart']
U32A = ['arm9EntryAddress', 'arm9RamAddress', 'arm7EntryAddress', 'arm7RamAddress']
U32B = ['normalCardControlRegisterSettings', 'secureCardControlRegisterSettings']
U16 = ['secureAreaChecksum', 'secureTransferDelay']
U32C = ['arm9CodeSettingsPointerAddress', 'arm7CodeSettingsPointerAddress', 'debugRomAddress']
RAW = {'idCode': 4, 'developerCode': 2, 'secureAreaDisable': 8, 'pad088': 0x38, 'nintendoLogo': 0x9C, 'pad16C': 0x94}
SCALARS = U8 + U32A + U32B + U16 + U32C
PARTS = ['arm9', 'arm9PostData', 'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner', 'debugRom']
POSTMAGIC = b'\x21\x06\xC0\xDE'


def crc16(data):
    """CRC-16 as the console computes it (table driven, reflected 0x8005, start 0xFFFF)."""
    crc = 0xFFFF
    for b in data:
        crc = (crc >> 8) ^ CRCTAB[(crc ^ b) & 0xFF]
    return crc


CRCTAB = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0xA001 if _c & 1 else 0)
    CRCTAB.append(_c)


# ---------------------------------------------------------------------------
# Model


@st.composite
def rom_specs(draw, max_files=12):
    code = blobs(1200, kinds=['rand', 'mixed', 'zero', 'count'])
    files = draw(st.lists(blobs(1100, kinds=['rand', 'mixed', 'count', 'ff', 'zero']), max_size=max_files))
    return {
        'hdr': draw(st.integers(0, 9999)),
        'name': draw(st.binary(max_size=12)).rstrip(b'\0'),
        'pad200': draw(st.one_of(st.just(b''), blobs(0x3E00), st.tuples(
            st.sampled_from(['rand', 'zero']), st.integers(0, 99), st.sampled_from([0x3E00, 0xE02, 0x3DFF, 0x3E01, 0x7E00])))),
        'sig': draw(st.one_of(st.just(b''), st.tuples(st.just('count'), st.integers(1, 99), st.just(0x88)))),
        'arm9': draw(st.one_of(code, st.tuples(st.just('rand'), st.integers(0, 99), st.sampled_from([0x200, 0x1F4, 0x1FF, 0x201, 0x400, 0x1E8])))),
        'post': draw(st.integers(0, 3)),
        'arm7': draw(code),
        'banner': draw(st.sampled_from([None, 1, 2, 3, 0x103, 0, 7])),
        'debug': draw(st.one_of(st.just(b''), blobs(700))),
        'files': files,
        'ov9': draw(st.integers(0, 3)) if files else 0,
        'ov7': draw(st.integers(0, 2)) if files else 0,
        'perm': draw(st.integers(0, 999)),     # which files are overlays, storage order
        'tree': draw(trees.tree_specs(5, 4)),
    }


@st.composite
def large_specs(draw):
    """Many files and overlays, or large parts."""
    spec = draw(rom_specs(2))
    seed = draw(st.integers(0, 999))
    r = random.Random(seed)
    n = draw(st.sampled_from([3, 40, 255, 256, 257, 600]))
    spec['files'] = [('rand', seed + i, r.choice([0, 1, 40, 600])) for i in range(n)]
    spec['ov9'], spec['ov7'] = draw(st.sampled_from([(0, 0), (1, 1), (130, 0), (0, 130), (257, 20)]))
    for k in draw(st.sets(st.sampled_from(['arm9', 'arm7', 'debug', 'files']), min_size=1, max_size=3)):
        size = draw(st.one_of(st.sampled_from([0x8000, 0xFFFF, 0x10000, 0x10001]), st.integers(60000, 200000)))
        if k == 'files':
            spec['files'][draw(st.integers(0, n - 1))] = ('rand', seed, size)
        else:
            spec[k] = ('rand', seed, size)
    return spec


@st.composite
def huge_specs(draw):
    """One part, or all files together, of one to seventeen megabytes."""
    spec = draw(rom_specs(4))
    part = draw(st.sampled_from(['arm9', 'arm7', 'debug', 'files']))
    size = draw(st.one_of(st.sampled_from([0xFFFE00, 0x1000001, 0x100000]), st.integers(0x100000, 0x1100000)))
    blob = ('period', draw(st.integers(0, 99)), size)
    if part == 'files':
        spec['files'] = [blob] + spec['files']
    else:
        spec[part] = blob
    return spec


def raw_bytes(r, n):
    """Header bytes: random, or with zeros or ones at either end."""
    k = r.randrange(n + 1)
    return r.choice([r.randbytes(n), r.randbytes(n), r.randbytes(k) + bytes(n - k), bytes(n - k) + r.randbytes(k),
                     r.randbytes(k) + b'\xff' * (n - k), b'\xff' * n, bytes(n)])


def build(spec):
    """Spec -> model: a dict of ROM attribute values, plus 'order' (of all files in the image)."""
    r = random.Random(spec['hdr'])
    m = {}
    if spec['hdr'] == 0:
        ref = ndspy.rom.NintendoDSRom()
        for k in SCALARS + list(RAW):
            m[k] = getattr(ref, k)
    else:
        for k in U8:
            m[k] = r.choice([0, 255, r.randrange(256), r.randrange(256)])
        for k in U32A + U32B + U32C:
            m[k] = r.choice([0, 0xFFFFFFFF, r.randrange(1 << 32), r.randrange(1 << 32), 0x02000000])
        for k in U16:
            m[k] = r.choice([0, 0xFFFF, r.randrange(1 << 16), r.randrange(1 << 16)])
        for k, n in RAW.items():
            m[k] = raw_bytes(r, n)
    m['name'] = spec['name']
    m['pad200'] = expand(spec['pad200'])
    m['rsaSignature'] = expand(spec['sig'])
    m['arm9'] = expand(spec['arm9'])
    m['arm9PostData'] = b''.join(POSTMAGIC + r.randbytes(8) for _ in range(spec['post']))
    m['arm7'] = expand(spec['arm7'])
    b = spec['banner']
    m['iconBanner'] = b'' if b is None else struct.pack('<H', b) + r.randbytes(BANNERS.get(b, 0x840) - 2)
    m['debugRom'] = expand(spec['debug'])
    m['files'] = [expand(f) for f in spec['files']]
    ids = list(range(len(m['files'])))
    q = random.Random(spec['perm'])
    if spec['perm']:
        q.shuffle(ids)
    n9 = min(spec['ov9'], len(ids))
    n7 = min(spec['ov7'], len(ids) - n9)
    ov9, ov7, rest = ids[:n9], ids[n9:n9 + n7], ids[n9 + n7:]
    if spec['perm'] % 3 == 0:
        rest.sort()

    def table(fids):
        out = b''
        for n, f in enumerate(fids):
            out += struct.pack('<8I', n, *(r.randrange(1 << 32) for _ in range(5)), f,
                               len(m['files'][f]) | (r.randrange(256) & ~1) << 24)
        return out

    m['arm9OverlayTable'] = table(ov9)
    m['arm7OverlayTable'] = table(ov7)
    m['tree'] = trees.resolve(spec['tree'])
    m['order'] = rest
    return m


def to_rom(m, order=True):
    rom = ndspy.rom.NintendoDSRom()
    for k in SCALARS + list(RAW) + PARTS + ['name', 'pad200', 'rsaSignature']:
        setattr(rom, k, m[k])
    rom.files = list(m['files'])
    rom.filenames = trees.to_folder(m['tree'])
    rom.sortedFileIds = list(m['order']) if order else []
    return rom


def overlay_files(table):
    return [struct.unpack_from('<I', table, i + 0x18)[0] for i in range(0, len(table), 32)]


def strip0(b):
    return bytes(b).rstrip(b'\0')


def padlike(b):
    """pad200 for comparison: without the signature pointer at 0x1000 and the zeros that fill it up."""
    b = bytearray(b)
    b += bytes(max(0, 0xE04 - len(b)))
    b[0xE00:0xE04] = bytes(4)
    return strip0(b)


def judge_rom(rom, m, T, what):
    for k in SCALARS:
        T.eq(getattr(rom, k), m[k], f'{what}: {k}')
    for k in list(RAW) + PARTS + ['name']:
        T.same_bytes(getattr(rom, k), m[k], f'{what}: {k}')
    T.same_bytes(padlike(rom.pad200), padlike(m['pad200']), f'{what}: pad200')
    T.same_bytes(strip0(rom.rsaSignature), strip0(m['rsaSignature']), f'{what}: rsaSignature')
    T.eq(len(rom.files), len(m['files']), f'{what}: number of files')
    for i, (a, b) in enumerate(zip(rom.files, m['files'])):
        T.same_bytes(a, b, f'{what}: file {i}')
    T.eq(trees.from_folder(rom.filenames), m['tree'], f'{what}: filenames')


# ---------------------------------------------------------------------------
# Reference writer and reader


def ref_write(m, sigptr=True, sighdr=True):
    out = bytearray(0x200)

    def pad(n, fill):
        out.extend(fill * (-len(out) % n))

    out += m['pad200']
    pad(0x4000, b'\0')
    pos = {}
    offs = {}

    def put(key, data, after=b''):
        pos[key] = len(out)
        out.extend(data)
        out.extend(after)
        pad(0x200, b'\xff')

    def optional(key):
        if m[key]:
            put(key, m[key])
        else:
            pos[key] = 0

    def overlays(key):
        optional(key)
        for f in overlay_files(m[key]):
            offs[f] = len(out)
            out.extend(m['files'][f])
            pad(0x200, b'\xff')

    put('arm9', m['arm9'], m['arm9PostData'])
    overlays('arm9OverlayTable')
    put('arm7', m['arm7'])
    overlays('arm7OverlayTable')
    fnt = trees.ref_write(m['tree'])
    put('fnt', fnt)
    put('fat', bytes(8 * len(m['files'])))
    optional('iconBanner')
    optional('debugRom')
    for f in m['order']:
        pad(0x200, b'\xff')
        offs[f] = len(out)
        out.extend(m['files'][f])
    for i, f in enumerate(m['files']):
        struct.pack_into('<II', out, pos['fat'] + 8 * i, offs[i], offs[i] + len(f))
    pad(0x20, b'\0')
    sig = len(out)
    out += m['rsaSignature']
    struct.pack_into('<I', out, 0x1000, sig if sigptr else 0)
    pad(0x400, b'\0')
    h = m['name'].ljust(12, b'\0') + m['idCode'] + m['developerCode']
    h += bytes(m[k] for k in U8)
    h += struct.pack('<8I', pos['arm9'], m['arm9EntryAddress'], m['arm9RamAddress'], len(m['arm9']),
                     pos['arm7'], m['arm7EntryAddress'], m['arm7RamAddress'], len(m['arm7']))
    h += struct.pack('<8I', pos['fnt'], len(fnt), pos['fat'], 8 * len(m['files']),
                     pos['arm9OverlayTable'], len(m['arm9OverlayTable']), pos['arm7OverlayTable'], len(m['arm7OverlayTable']))
    h += struct.pack('<3I2H', m['normalCardControlRegisterSettings'], m['secureCardControlRegisterSettings'],
                     pos['iconBanner'], m['secureAreaChecksum'], m['secureTransferDelay'])
    h += struct.pack('<2I', m['arm9CodeSettingsPointerAddress'], m['arm7CodeSettingsPointerAddress'])
    h += m['secureAreaDisable'] + struct.pack('<2I', sig if sighdr else max(0x4000, sig - 0x1E0), 0x4000) + m['pad088'] + m['nintendoLogo']
    h += struct.pack('<H', crc16(m['nintendoLogo']))
    h += struct.pack('<H', crc16(h))
    h += struct.pack('<3I', pos['debugRom'], len(m['debugRom']), m['debugRomAddress']) + m['pad16C']
    if len(h) != 0x200:
        raise HarnessError(f'header of {len(h):#x} bytes')
    out[:0x200] = h
    return bytes(out)


def ref_validate(data, m):
    """Strict structural check of a saved ROM against the model. Raises ValueError."""
    data = bytes(data)

    def req(cond, msg):
        if not cond:
            raise ValueError(msg)

    u32 = lambda o: struct.unpack_from('<I', data, o)[0]
    u16 = lambda o: struct.unpack_from('<H', data, o)[0]
    req(len(data) % 0x400 == 0, f'length {len(data):#x} is not a multiple of 0x400')
    used = [(0, 0x4000, 'header area')]

    def part(name, off, want, align, optional=False):
        if optional and not want:
            req(off == 0, f'{name}: offset {off:#x} although there is none')
            return
        req(off % align == 0, f'{name} at {off:#x} is not aligned to {align:#x}')
        req(data[off:off + len(want)] == want, f'{name} is not at {off:#x}')
        req(off >= 0x4000, f'{name} at {off:#x}')
        if want:
            used.append((off, off + len(want), name))

    part('ARM9 code', u32(0x20), m['arm9'] + m['arm9PostData'], 0x4000)
    req(u32(0x2C) == len(m['arm9']), 'ARM9 size')
    part('ARM7 code', u32(0x30), m['arm7'], 0x200)
    req(u32(0x3C) == len(m['arm7']), 'ARM7 size')
    fnt = data[u32(0x40):u32(0x40) + u32(0x44)]
    req(trees.ref_read(fnt) == m['tree'], 'filename table')
    part('filename table', u32(0x40), fnt, 0x200)
    fat = u32(0x48)
    req(u32(0x4C) == 8 * len(m['files']), f'FAT size {u32(0x4C)} for {len(m["files"])} files')
    part('FAT', fat, data[fat:fat + u32(0x4C)], 0x200)
    for k, o in (('arm9OverlayTable', 0x50), ('arm7OverlayTable', 0x58)):
        part(k, u32(o), m[k], 0x200, optional=True)
        req(u32(o + 4) == len(m[k]), f'{k} size')
    part('banner', u32(0x68), m['iconBanner'], 0x200, optional=True)
    part('debug ROM', u32(0x160), m['debugRom'], 0x200, optional=True)
    req(u32(0x164) == len(m['debugRom']), 'debug ROM size')
    for i, f in enumerate(m['files']):
        a, b = u32(fat + 8 * i), u32(fat + 8 * i + 4)
        req(b - a == len(f), f'file {i}: FAT entry {a:#x}-{b:#x} for {len(f)} bytes')
        req(b <= len(data), f'file {i} ends at {b:#x}, after the end of the ROM')
        part(f'file {i}', a, f, 0x200)
    sig = u32(0x80)
    req(sig == u32(0x1000), 'signature pointers differ')
    req(sig % 0x20 == 0 and sig <= len(data), f'signature at {sig:#x}')
    req(strip0(data[sig:sig + 0x88]) == strip0(m['rsaSignature']), 'signature is not where the header says')
    if m['rsaSignature']:
        used.append((sig, sig + len(m['rsaSignature']), 'signature'))
    req(u32(0x84) == 0x4000, 'header size')
    used.sort()
    for (a, b, n), (c, d, o) in zip(used, used[1:]):
        req(c >= b, f'{n} ({a:#x}-{b:#x}) and {o} ({c:#x}-{d:#x}) overlap')
    end = max(b for a, b, n in used if n != 'signature')
    req(end <= sig < end + 0x200, f'used size {sig:#x} does not match the last part, which ends at {end:#x}')
    req(len(data) < sig + 0x88 + 0x400, 'data after the end')
    req(u16(0x15C) == crc16(data[0xC0:0x15C]), 'logo checksum')
    req(u16(0x15E) == crc16(data[:0x15E]), 'header checksum')
    # plain header fields
    req(data[:12] == m['name'].ljust(12, b'\0'), 'title')
    pos = 12
    for k in ('idCode', 'developerCode'):
        req(data[pos:pos + len(m[k])] == m[k], k)
        pos += len(m[k])
    for k in U8:
        req(data[pos] == m[k], f'{k} is {data[pos]}')
        pos += 1
    for k, o in (('arm9EntryAddress', 0x24), ('arm9RamAddress', 0x28), ('arm7EntryAddress', 0x34), ('arm7RamAddress', 0x38),
                 ('normalCardControlRegisterSettings', 0x60), ('secureCardControlRegisterSettings', 0x64),
                 ('arm9CodeSettingsPointerAddress', 0x70), ('arm7CodeSettingsPointerAddress', 0x74), ('debugRomAddress', 0x168)):
        req(u32(o) == m[k], f'{k} is {u32(o):#x}')
    for k, o in (('secureAreaChecksum', 0x6C), ('secureTransferDelay', 0x6E)):
        req(u16(o) == m[k], f'{k} is {u16(o):#x}')
    for k, o in (('secureAreaDisable', 0x78), ('pad088', 0x88), ('nintendoLogo', 0xC0), ('pad16C', 0x16C)):
        req(data[o:o + len(m[k])] == m[k], k)


def labels(m, T):
    T.label('overlays', m['arm9OverlayTable'] or m['arm7OverlayTable'])
    T.label('empty file', b'' in m['files'])
    T.label('signature', m['rsaSignature'])
    T.label('banner', m['iconBanner'])
    T.label('debug ROM', m['debugRom'])
    T.label('data after ARM9', m['arm9PostData'])
    T.label('not in ID order', m['order'] != sorted(m['order']))
    T.label('no files', not m['files'])


# C10 -----------------------------------------------------------------------


EDITS = st.lists(st.one_of(
    st.tuples(st.just('file'), st.integers(0, 30), blobs(1500)),
    st.tuples(st.just('empty'), st.integers(0, 30), st.just(0)),
    st.tuples(st.just('append'), st.integers(0, 30), blobs(600)),
    st.tuples(st.just('add'), st.integers(0, 30), blobs(600)),
    st.tuples(st.just('drop last'), st.just(0), st.just(0)),
    st.tuples(st.just('attr'), st.integers(0, 999), st.integers(0, 9999)),
    st.tuples(st.just('part'), st.sampled_from(['arm9', 'arm7', 'debugRom', 'pad200']), blobs(2000)),
    st.tuples(st.just('post'), st.integers(0, 3), st.integers(0, 99)),
    st.tuples(st.just('banner'), st.sampled_from([0, 1, 2, 3, 0x103]), st.integers(0, 99)),
    st.tuples(st.just('signature'), st.booleans(), st.integers(1, 99)),
    st.tuples(st.just('tree'), st.just(0), trees.tree_specs(4, 4)),
    st.tuples(st.just('name'), st.just(0), st.binary(max_size=12)),
    st.tuples(st.just('order'), st.integers(0, 99), st.integers(0, 99)),
    st.tuples(st.just('reload'), st.just(0), st.just(0)),
), max_size=7)


def apply_edits(rom, m, edits, T):
    """Edit the ROM object and the model in the same way."""
    m = dict(m)
    m['files'] = list(m['files'])
    for op, a, b in edits:
        n = len(m['files'])
        if op in ('file', 'empty', 'append') and not n:
            continue
        if op == 'file':
            m['files'][a % n] = rom.files[a % n] = expand(b)
        elif op == 'empty':
            m['files'][a % n] = rom.files[a % n] = b''
        elif op == 'append':
            m['files'][a % n] = bytes(m['files'][a % n]) + expand(b)
            rom.files[a % n] = bytes(rom.files[a % n]) + expand(b)
        elif op == 'add':
            m['files'].append(expand(b))
            rom.files.append(expand(b))
        elif op == 'drop last':
            used = overlay_files(m['arm9OverlayTable']) + overlay_files(m['arm7OverlayTable'])
            if n and n - 1 not in used:
                m['files'].pop()
                rom.files.pop()
        elif op == 'attr':
            k = (SCALARS + list(RAW))[a % len(SCALARS + list(RAW))]
            r = random.Random(b)
            v = raw_bytes(r, RAW[k]) if k in RAW else r.randrange(256 if k in U8 else 65536 if k in U16 else 1 << 32)
            m[k] = v
            setattr(rom, k, v)
        elif op == 'part':
            m[a] = expand(b)
            setattr(rom, a, expand(b))
        elif op == 'post':
            v = b''.join(POSTMAGIC + random.Random(b + i).randbytes(8) for i in range(a))
            m['arm9PostData'] = v
            rom.arm9PostData = v
        elif op == 'banner':
            v = struct.pack('<H', a) + random.Random(b).randbytes(BANNERS[a] - 2) if a else b''
            m['iconBanner'] = v
            rom.iconBanner = v
        elif op == 'signature':
            v = bytes((b + i) & 0xFF or 1 for i in range(0x88)) if a else b''
            m['rsaSignature'] = v
            rom.rsaSignature = v
        elif op == 'tree':
            m['tree'] = trees.resolve(b)
            rom.filenames = trees.to_folder(m['tree'])
        elif op == 'name':
            m['name'] = b.rstrip(b'\0')
            rom.name = m['name']
        elif op == 'order':
            # any order, with IDs missing or out of date
            ids = list(range(n + 2))
            random.Random(a).shuffle(ids)
            rom.sortedFileIds = ids[:b % (n + 3)]
        elif op == 'reload':
            if not ambiguous(m):
                with T.sut('saving and reloading in between'):
                    rom = ndspy.rom.NintendoDSRom(rom.save())
    return rom, m


def ambiguous(m):
    """Something starts with the marker of the data after ARM9 right where that data would be."""
    return any(bytes(m[k][:4]) == POSTMAGIC for k in ('arm7', 'arm9OverlayTable')) or \
        any(bytes(f[:4]) == POSTMAGIC for f in m['files'])


def c10_eval(case, T):
    spec, mode, edits, capacity = case
    m = build(spec)
    if ambiguous(m):
        return
    if mode == 'scratch':
        rom = to_rom(m, order=bool(spec['perm'] & 1))
    else:
        with T.sut('loading a ROM'):
            # (in some, the header tells the end of the data and only the pointer at 0x1000 the place of the signature)
            rom = ndspy.rom.NintendoDSRom(ref_write(m, True, bool(spec['perm'] & 6)))
        judge_rom(rom, m, T, 'loaded ROM')
    rom, m = apply_edits(rom, m, edits, T)
    judge_rom(rom, m, T, 'ROM object after edits')
    with T.sut('saving'):
        data = rom.save(updateDeviceCapacity=True) if capacity else rom.save()
    if capacity:
        cap = next(c for c in range(40) if len(data) <= 1 << (17 + c))
        m['deviceCapacity'] = cap
    judge_rom(rom, m, T, 'ROM object after saving')
    with T.sut('reloading'):
        again = ndspy.rom.NintendoDSRom(data)
    judge_rom(again, m, T, 'saved and reloaded ROM')
    # code and overlays through the convenience functions
    ov = again.loadArm9Overlays()
    T.eq(sorted(o.fileID for o in ov.values()), sorted(overlay_files(m['arm9OverlayTable'])), 'ARM9 overlays')
    for i, o in ov.items():
        T.same_bytes(o.data, m['files'][o.fileID], f'ARM9 overlay {i}')
    ov = again.loadArm7Overlays()
    T.eq(sorted(o.fileID for o in ov.values()), sorted(overlay_files(m['arm7OverlayTable'])), 'ARM7 overlays')
    for i, o in ov.items():
        T.same_bytes(o.data, m['files'][o.fileID], f'ARM7 overlay {i}')
    T.nontrivial(m['files'])
    T.label('edited', edits)
    T.label('capacity updated', capacity)
    T.label(mode)
    labels(m, T)


def c10_strategy():
    return st.tuples(rom_specs(), st.sampled_from(['scratch', 'loaded']), EDITS, st.booleans())


def c10_large_strategy():
    return st.tuples(large_specs(), st.sampled_from(['scratch', 'loaded']), EDITS, st.booleans())


def c10_huge_strategy():
    return st.tuples(huge_specs(), st.sampled_from(['scratch', 'loaded']), st.just([]), st.booleans())


def c10_short_eval(case, T):
    """Files that end early read as if they were continued with zeros."""
    hdr, name, arm9, body, n = case
    m = build({**EMPTY, 'hdr': hdr, 'name': name})
    full = bytearray(ref_write(m)[:0x200])
    # nothing but the header
    full[0x20:0x24] = struct.pack('<I', arm9)
    for o in (0x2C, 0x30, 0x3C, 0x40, 0x44, 0x48, 0x4C, 0x50, 0x54, 0x58, 0x5C, 0x68, 0x80, 0x160, 0x164):
        full[o:o + 4] = bytes(4)
    full = bytes(full) + expand(body)
    if len(full) > 0x1000:
        full = full[:0x1000] + bytes(4) + full[0x1004:]
    data = full[:n]
    head = data.ljust(0x200, b'\0')
    if POSTMAGIC in data:
        return
    with T.sut('loading a short ROM'):
        rom = ndspy.rom.NintendoDSRom(data)
    pos = 0x12
    for k in U8:
        T.eq(getattr(rom, k), head[pos], k)
        pos += 1
    for k, o in OFFSETS.items():
        size = RAW.get(k) or (2 if k in U16 else 4)
        if k in RAW:
            T.same_bytes(getattr(rom, k), head[o:o + size], k)
        else:
            T.eq(getattr(rom, k), int.from_bytes(head[o:o + size], 'little'), k)
    T.same_bytes(rom.name, head[:12].rstrip(b'\0'), 'name')
    T.same_bytes(rom.pad200, data[0x200:struct.unpack_from('<I', head, 0x20)[0]], 'pad200')
    for k in PARTS + ['rsaSignature']:
        T.same_bytes(getattr(rom, k), b'', k)
    T.eq(list(rom.files), [], 'files')
    T.eq(trees.from_folder(rom.filenames), (0, [], []), 'filenames')
    T.nontrivial(len(data) > 0x40)
    T.label('shorter than a header', len(data) < 0x200)
    T.label('around 0x1000', 0xFFC <= len(data) <= 0x1008)


def c10_short_strategy():
    n = st.one_of(st.integers(0, 0x210), st.integers(0xFF8, 0x100C), st.sampled_from([0, 0x1FF, 0x200, 0x201, 0x1003, 0x1004]))
    return st.tuples(st.integers(0, 9999), st.binary(max_size=12), st.one_of(st.just(0), st.integers(0, 0x1200), st.just(0x4000)),
                     st.tuples(st.sampled_from(['rand', 'ff', 'zero']), st.integers(0, 99), st.just(0x1100)), n)


EMPTY = {'pad200': b'', 'sig': b'', 'arm9': b'', 'post': 0, 'arm7': b'', 'banner': None, 'debug': b'', 'files': [], 'ov9': 0,
         'ov7': 0, 'perm': 0, 'tree': ('seq', [(0, '', [], 0)])}
OFFSETS = {'idCode': 0xC, 'developerCode': 0x10, 'arm9EntryAddress': 0x24, 'arm9RamAddress': 0x28, 'arm7EntryAddress': 0x34,
           'arm7RamAddress': 0x38, 'normalCardControlRegisterSettings': 0x60, 'secureCardControlRegisterSettings': 0x64,
           'secureAreaChecksum': 0x6C, 'secureTransferDelay': 0x6E, 'arm9CodeSettingsPointerAddress': 0x70,
           'arm7CodeSettingsPointerAddress': 0x74, 'secureAreaDisable': 0x78, 'pad088': 0x88, 'nintendoLogo': 0xC0,
           'debugRomAddress': 0x168, 'pad16C': 0x16C}


def c10_code_strategy():
    from . import codefiles
    return st.tuples(codefiles.code_models(4), codefiles.code_models(4), st.lists(blobs(60), min_size=2, max_size=5),
                     st.booleans())


def c10_code_eval(case, T):
    """loadArm9/loadArm7 see the ROM's own code with its addresses; overlays by ID."""
    from . import codefiles
    spec9, spec7, files, subset = case
    m9, p9 = codefiles.build(spec9)
    m7, p7 = codefiles.build(spec7)
    d9, d7 = (codefiles.ref_write(m, codefiles.table_inside(m) if s[0] == 'pointer' and s[5] & 1 else None)
              for m, s in ((m9, spec9), (m7, spec7)))
    for d, mm in ((d9, m9), (d7, m7)):
        if codefiles.looks_compressed(d) or not codefiles.usable(d, mm):
            return
    rom = ndspy.rom.NintendoDSRom()
    rom.arm9, rom.arm9RamAddress, rom.arm9CodeSettingsPointerAddress = d9, m9['ram'], p9 or 0
    rom.arm7, rom.arm7RamAddress, rom.arm7CodeSettingsPointerAddress = d7, m7['ram'], p7 or 0
    rom.files = [expand(f) for f in files]
    rom.arm9OverlayTable = struct.pack('<8I', 3, 1, 2, 3, 4, 5, 1, 0) + struct.pack('<8I', 5, 1, 2, 3, 4, 5, 0, 0)
    rom.arm7OverlayTable = struct.pack('<8I', 5, 1, 2, 3, 4, 5, 1, 0)
    with T.sut('loading code from a ROM'):
        rom = ndspy.rom.NintendoDSRom(rom.save())
        f9 = rom.loadArm9()
        f7 = rom.loadArm7()
    codefiles.judge_loaded(f9, m9, d9[:len(m9['implicit'])], m9['sections'], T, 'ARM9')
    codefiles.judge_loaded(f7, m7, d7[:len(m7['implicit'])], m7['sections'], T, 'ARM7')
    with T.sut('loading overlays from a ROM'):
        if subset:
            o9, o7 = rom.loadArm9Overlays([5]), rom.loadArm7Overlays({3})
            w9, w7 = {5: 0}, {}
        else:
            o9, o7 = rom.loadArm9Overlays(), rom.loadArm7Overlays()
            w9, w7 = {3: 1, 5: 0}, {5: 1}
    for o, w, n in ((o9, w9, 'ARM9'), (o7, w7, 'ARM7')):
        T.eq({k: v.fileID for k, v in o.items()}, w, f'{n} overlays')
        for k, v in o.items():
            T.same_bytes(v.data, expand(files[w[k]]), f'{n} overlay {k}')
    T.nontrivial(m9['sections'] or m7['sections'])


# C11 -----------------------------------------------------------------------


def c11_eval(case, T):
    spec, mode, edits, capacity = case
    m = build(spec)
    if ambiguous(m):
        return
    if mode == 'scratch':
        rom = to_rom(m, order=bool(spec['perm'] & 1))
    else:
        with T.sut('loading a ROM'):
            rom = ndspy.rom.NintendoDSRom(ref_write(m))
    rom, m = apply_edits(rom, m, edits, T)
    with T.sut('saving'):
        data = rom.save(updateDeviceCapacity=True) if capacity else rom.save()
    if capacity:
        m['deviceCapacity'] = next(c for c in range(40) if len(data) <= 1 << (17 + c))
        T.eq(rom.deviceCapacity, m['deviceCapacity'], 'deviceCapacity of the ROM object')
    try:
        ref_validate(data, m)
    except (ValueError, struct.error) as e:
        raise Violation(f'saved ROM is invalid: {e}')
    T.nontrivial(m['files'])
    labels(m, T)
    T.label('edited', edits)
    T.label('capacity updated', capacity)


def c11_capacity_eval(case, T):
    """Cartridge capacity around powers of two."""
    k, delta, sig = case
    size = (1 << k) + delta * 0x400
    rom = ndspy.rom.NintendoDSRom()
    rom.rsaSignature = b'\x01' * 0x88 if sig else b''
    base = len(rom.save())
    rom.files = [b'']
    n = max(0, size - base - 0x400)
    with T.sut('saving'):
        while True:
            rom.files = [bytes(n)]
            plain = rom.save()
            if len(plain) >= size or n >= size:
                break
            n += size - len(plain)
        data = rom.save(updateDeviceCapacity=True)
    cap = next(c for c in range(40) if len(data) <= 1 << (17 + c))
    T.eq(data[0x14], cap, f'capacity for {len(data):#x} bytes')
    T.eq(rom.deviceCapacity, cap, 'deviceCapacity of the ROM object')
    T.eq(struct.unpack_from('<H', data, 0x15E)[0], crc16(data[:0x15E]), 'header checksum')
    T.nontrivial()
    T.label('exactly a power of two', len(data) & (len(data) - 1) == 0)
    T.label('smaller than the smallest cartridge', len(data) < 1 << 17)


# C12 -----------------------------------------------------------------------


def c12_strategy():
    return st.tuples(rom_specs(14), st.sampled_from([True, True, False, 'only']))


def c12_large_strategy():
    return st.tuples(large_specs(), st.sampled_from([True, True, False, 'only']))


def c12_eval(case, T):
    spec, sigptr = case
    m = build(spec)
    if ambiguous(m):
        return
    if not sigptr and len(m['pad200']) > 0xE00:
        # the pointer is in the padding; zero means that the header tells
        m['pad200'] = m['pad200'][:0xE00] + bytes(4) + m['pad200'][0xE04:]
    # 'only': the pointer at 0x1000 leads to the signature, the header tells something else
    image = ref_write(m, bool(sigptr), sigptr != 'only')
    want = ref_write(m)
    with T.sut('loading and resaving a canonical ROM'):
        rom = ndspy.rom.NintendoDSRom(image)
        out = rom.save()
    judge_rom(rom, m, T, 'canonical ROM')
    T.same_bytes(out, want, 'canonical ROM after load and save')
    with T.sut('loading and resaving it again'):
        out2 = ndspy.rom.NintendoDSRom(out).save()
    T.same_bytes(out2, out, 'second round of load and save')
    T.label('signature found through the pointer only', sigptr == 'only' and m['rsaSignature'])
    T.nontrivial(len(m['files']) > 1)
    labels(m, T)


def c12_own_strategy():
    return st.tuples(rom_specs(10), EDITS)


def c12_own_eval(case, T):
    """What ndspy saves is a fixed point of load and save."""
    spec, edits = case
    m = build(spec)
    if ambiguous(m):
        return
    rom = to_rom(m, order=bool(spec['perm'] & 1))
    rom, m = apply_edits(rom, m, edits, T)
    if ambiguous(m):
        return
    with T.sut('saving, loading and saving'):
        one = rom.save()
        two = ndspy.rom.NintendoDSRom(one).save()
    T.same_bytes(two, one, 'saved ROM after load and save')
    T.nontrivial(len(m['files']) > 1)
    labels(m, T)


# C13 -----------------------------------------------------------------------


@st.composite
def history_specs(draw, kind):
    tree = draw(trees.tree_specs(5, 4, ids='gaps'))
    extra = draw(st.integers(0, 3))
    op = st.one_of(
        st.tuples(st.just('set'), st.integers(0, 50), blobs(300)),
        st.tuples(st.just('set'), st.integers(0, 50), blobs(300)),
        st.tuples(st.just('setid'), st.integers(0, 50), blobs(300)),
        st.tuples(st.just('get'), st.integers(0, 50), st.just(0)),
        st.tuples(st.just('bad'), st.integers(0, 50), st.integers(0, 7)),
        st.tuples(st.just('add'), st.just(0), blobs(300)),
        st.tuples(st.just('reload'), st.just(0), st.just(0)),
        st.tuples(st.just('names'), st.integers(0, 50), st.tuples(
            st.sampled_from(['file', 'folder', 'reverse', 'first', 'drop', 'prune', 'move']), st.integers(0, 50), trees.names())),
    )
    return kind, tree, extra, draw(st.integers(0, 999)), draw(st.lists(op, min_size=1, max_size=14)), draw(trees.names())


def edit_names(root, model, a, edit, n):
    """Edit the folders of an object and the model (nested lists) of its tree in the same way."""
    what, b, name = edit
    pairs = []

    def walk(folder, t):
        pairs.append((folder, t))
        for (_, f), (_, u) in zip(folder.folders, t[2]):
            walk(f, u)
    walk(root, model)
    folder, t = pairs[a % len(pairs)]
    taken = set(t[1]) | {x for x, _ in t[2]}
    if what == 'file' and t[1] and name not in taken:
        folder.files[b % len(t[1])] = t[1][b % len(t[1])] = name
    elif what == 'folder' and t[2] and name not in taken:
        k = b % len(t[2])
        folder.folders[k] = (name, folder.folders[k][1])
        t[2][k] = (name, t[2][k][1])
    elif what == 'reverse':
        folder.files.reverse()
        t[1].reverse()
    elif what == 'first' and b % (n + 1) + len(t[1]) <= n:
        folder.firstID = t[0] = b % (n + 1)
    elif what == 'add' and name not in taken and t[0] + len(t[1]) < n:
        folder.files.insert(b % (len(t[1]) + 1), name)
        t[1].insert(b % (len(t[1]) + 1), name)
    elif what == 'add folder' and name not in taken:
        k = b % (len(t[2]) + 1)
        folder.folders.insert(k, (name, trees.to_folder((b, [], []))))
        t[2].insert(k, (name, [b, [], []]))
    elif what == 'drop' and t[1]:
        folder.files.pop()
        t[1].pop()
    elif what == 'prune' and t[2]:
        del folder.folders[b % len(t[2])]
        del t[2][b % len(t[2])]
    elif what == 'move' and t[2]:
        # to another place in the same list
        folder.folders.insert(0, folder.folders.pop())
        t[2].insert(0, t[2].pop())
    else:
        return False
    return True


def nested(t):
    return [t[0], list(t[1]), [(x, nested(u)) for x, u in t[2]]]


def c13_eval(case, T):
    from . import fntnarc
    kind, tspec, extra, seed, ops, other = case
    tree = nested(trees.resolve(tspec))
    named = trees.all_files(tree)
    paths = dict(named)
    n = max([i for _, i in named], default=-1) + 1 + extra
    r = random.Random(seed)
    files = [r.randbytes(r.choice([0, 1, 5, 40, 600])) for _ in range(n)]
    if kind == 'narc':
        obj = ndspy.narc.NARC.fromFilesAndNames(list(files), trees.to_folder(tree))
        cls = ndspy.narc.NARC
    else:
        obj = ndspy.rom.NintendoDSRom()
        obj.files = list(files)
        obj.filenames = trees.to_folder(tree)
        obj.arm9, obj.arm7 = b'arm9' * 9, b'arm7' * 5
        cls = ndspy.rom.NintendoDSRom
        obj.sortedFileIds = r.sample(range(n), r.randint(0, n))
        order = list(obj.sortedFileIds)
    folderpaths = {p for p, _ in trees.all_folders(tree)}
    writes = 0
    buffers, last = {}, b'\xAA'
    for op, a, b in ops:
        if op in ('set', 'get', 'bad') and not named:
            continue
        if op == 'set':
            path, i = named[a % len(named)]
            data = expand(b)
            if a % 3:
                # one bytearray for several files
                data = buffers.setdefault(data, bytearray(data))
                if writes and a % 2:
                    # of the same length as the last one
                    data = buffers.setdefault(last, bytearray(last))
            with T.sut(f'setting {"/".join(path)!r}'):
                obj.setFileByName('/'.join(path), data)
            files[i] = bytes(data)
            last = bytes(x ^ 0x55 for x in data)
            writes += 1
        elif op == 'setid':
            if n:
                obj.files[a % n] = expand(b)
                files[a % n] = expand(b)
                writes += 1
        elif op == 'add':
            obj.files.append(expand(b))
            files.append(expand(b))
            n += 1
        elif op == 'get':
            path, i = named[a % len(named)]
            with T.sut(f'getting {"/".join(path)!r}'):
                got = obj.getFileByName('/'.join(path))
            T.same_bytes(got, files[i], f'data of {"/".join(path)!r}')
        elif op == 'bad':
            path, i = named[a % len(named)]
            p = fntnarc.mutate_path(path, b, other)
            if p in paths or any(not x for x in p):
                continue
            s = '/'.join(p)
            with T.raises(f'getting {s!r}, which does not exist'):
                obj.getFileByName(s)
            with T.raises(f'setting {s!r}, which does not exist'):
                obj.setFileByName(s, b'unexpected')
            T.label('unknown name')
            T.label('name of a folder', p in folderpaths)
        elif op == 'names':
            with T.sut('editing names'):
                done = edit_names(obj.filenames, tree, a, b, n)
            if done:
                named = trees.all_files(tree)
                paths = dict(named)
                folderpaths = {p for p, _ in trees.all_folders(tree)}
                T.label('names edited')
        else:
            with T.sut('saving and reloading'):
                obj = cls(obj.save())
            T.label('reloaded')
            if kind == 'rom':
                order = list(obj.sortedFileIds)
        T.eq([bytes(f) for f in obj.files], files, f'all files after {op}')
        T.check(all(x == y for x, y in buffers.items()), f'data given to setFileByName() was changed by {op}')
        T.eq(trees.from_folder(obj.filenames), tree, f'file names after {op}')
        if kind == 'rom':
            T.eq(list(obj.sortedFileIds), order, f'storage order after {op}')
    for path, i in named:
        with T.sut('reading by name'):
            T.same_bytes(obj.getFileByName('/'.join(path)), files[i], f'final data of {"/".join(path)!r}')
    if kind == 'rom':
        T.same_bytes(obj.arm9, b'arm9' * 9, 'ARM9 code')
        T.same_bytes(obj.arm7, b'arm7' * 5, 'ARM7 code')
    T.nontrivial(named and writes)
    T.label('several writes', writes > 2)


CHECKS = {
    'C10': Check('C10', [
        Facet('contents', c10_strategy, c10_eval, 5000, 60000, 'ROMs from scratch or loaded from a reference image, edited, saved, reloaded; non-trivial: has files'),
        Facet('large', c10_large_strategy, c10_eval, 120, 1200, 'up to 600 files and 257 overlays, parts of up to 200000 bytes'),
        Facet('huge', c10_huge_strategy, c10_eval, 16, 200, 'a part or file of up to 17 MiB'),
        Facet('short', c10_short_strategy, c10_short_eval, 800, 8000, 'files that end within or shortly after the header'),
        Facet('code', c10_code_strategy, c10_code_eval, 1500, 20000, 'code files and overlays loaded through the ROM; non-trivial: has explicit sections'),
        reuse.facet('ROM'),
    ], 'Generated ROMs (from scratch or reference images) plus edits, compared with the model after save and load; non-trivial: has files.',
       ['pad200 and the signature are compared up to zero padding, and without the signature pointer that every save puts at 0x1000.']),
    'C11': Check('C11', [
        Facet('structure', c10_strategy, c11_eval, 6000, 80000, 'as C10, judged by a strict reader; non-trivial: has files'),
        Facet('large', c10_large_strategy, c11_eval, 120, 1200, 'up to 600 files and 257 overlays, parts of up to 200000 bytes'),
        Facet('huge', c10_huge_strategy, c11_eval, 16, 200, 'a part or file of up to 17 MiB'),
        Facet('capacity', lambda: st.tuples(st.integers(15, 24), st.integers(-2, 2), st.booleans()), c11_capacity_eval, 60, 200,
              'total sizes around powers of two'),
        reuse.facet('ROM'),
    ], 'Saved ROMs against a strict structural reader (offsets, sizes, overlap, alignment, checksums, capacity); non-trivial: has files.'),
    'C12': Check('C12', [
        Facet('canonical', c12_strategy, c12_eval, 6000, 80000, 'reference images; non-trivial: at least two files'),
        Facet('large', c12_large_strategy, c12_eval, 120, 1200, 'up to 600 files and 257 overlays, parts of up to 200000 bytes'),
        Facet('huge', lambda: st.tuples(huge_specs(), st.just(True)), c12_eval, 16, 200, 'a part or file of up to 17 MiB'),
        Facet('fixed point', c12_own_strategy, c12_own_eval, 3000, 40000, 'images saved by ndspy after edits'),
        reuse.facet('ROM'),
    ], 'Canonical ROM images by a reference writer, loaded and saved; non-trivial: at least two files.'),
    'C13': Check('C13', [
        Facet('narc', lambda: history_specs('narc'), c13_eval, 4000, 60000, 'non-trivial: named files and at least one write'),
        Facet('rom', lambda: history_specs('rom'), c13_eval, 4000, 60000, 'non-trivial: named files and at least one write'),
    ], 'Histories of reads, writes, wrong names and reloads against a dictionary model; non-trivial: named files and at least one write.'),
}
