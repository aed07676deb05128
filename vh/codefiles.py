"""C05-C06: main code files and overlays."""
import random
import struct

from hypothesis import strategies as st

from . import lz, reuse
from .core import Check, Facet, HarnessError, Violation, blobs, expand, ints, u8, u32

import ndspy.code

MAGIC = bytes.fromhex('2106C0DEDEC00621')


# ---------------------------------------------------------------------------
# A simple backwards-LZ compressor (greedy, hash of 3 bytes), for test files


def ref_compress(data, keep):
    """Compress data[keep:]; returns None if that does not make it smaller."""
    src = data[keep:][::-1]
    tokens = []
    where = {}
    i = 0
    while i < len(src):
        best = (0, 0)
        key = src[i:i + 3]
        for p in reversed(where.get(key, ())[-8:]):
            d = i - p
            if 3 <= d <= 0x1002:
                n = 3
                while n < 18 and i + n < len(src) and src[p + n] == src[i + n]:
                    n += 1
                if n > best[0]:
                    best = (n, d)
        if len(key) == 3 and best[0] >= 3:
            tokens.append((best[1], best[0]))
            step = best[0]
        else:
            tokens.append(src[i])
            step = 1
        for j in range(i, i + step):
            where.setdefault(src[j:j + 3], []).append(j)
        i += step
    made = lz.ref_blz_encode(data[:keep], tokens, 0, 0)
    if made is None:
        return None
    if made[1] != data:
        raise HarnessError('reference compressor is wrong')
    return made[0]


# ---------------------------------------------------------------------------
# Reference code file


def align4(n):
    return (n + 3) & ~3


def ref_write(m, table_at=None):
    """
    m: dict(ram, settings (offset or None), magic, implicit, sections
    [(ram, data, bss)], ptr (offset of a pointer to the settings, or None)).
    The section table is at the end, or at table_at in the implicit part.
    """
    implicit = bytearray(m['implicit'])
    body = bytearray()
    for ram, data, bss in m['sections']:
        body += data
        body += bytes(-len(body) % 4)
    table = b''.join(struct.pack('<3I', ram, len(data), bss) for ram, data, bss in m['sections'])
    if table_at is None:
        tstart = len(implicit) + len(body)
    else:
        tstart = table_at
        implicit[table_at:table_at + len(table)] = table
    if m['settings'] is not None:
        s = m['settings']
        struct.pack_into('<3I', implicit, s, m['ram'] + tstart, m['ram'] + tstart + len(table), m['ram'] + len(implicit))
        struct.pack_into('<I', implicit, s + 0x14, m['end'])
        if m['magic']:
            implicit[s + 0x1C:s + 0x24] = MAGIC
        if m['ptr'] is not None:
            struct.pack_into('<I', implicit, m['ptr'], m['ram'] + s)
    return bytes(implicit) + bytes(body) + (table if table_at is None else b'')


def ref_read(data, ram, settings):
    """(implicit data, [(ram, data, bss)]) the way the startup code sees it."""
    a, b, c = (v - ram for v in struct.unpack_from('<3I', data, settings))
    if not 0 <= a <= b <= len(data) or (b - a) % 12:
        raise ValueError(f'section table at {a:#x}-{b:#x} in a file of {len(data):#x} bytes')
    if not 0 <= c <= len(data) or c % 4:
        raise ValueError(f'section data at {c:#x}')
    out = []
    pos = c
    for i in range(a, b, 12):
        sram, size, bss = struct.unpack_from('<3I', data, i)
        if pos + size > len(data):
            raise ValueError('section runs past the end of the file')
        out.append((sram, data[pos:pos + size], bss))
        pos += align4(size)   # copied word by word
    if pos > a and a >= c:
        raise ValueError('section data overlaps the section table')
    return data[:c], out


RAMS = [0x02000000, 0x02004000, 0x02380000, 0x037F8000, 0x02000800]


@st.composite
def code_models(draw, max_sections=6, locate=None, big=False, unaligned=False, far=False):
    """Plain-data spec of a main code file; see build()."""
    locate = locate or draw(st.sampled_from(['magic', 'pointer', 'both', 'badpointer']))
    ram = draw(st.sampled_from(RAMS))
    settings = draw(st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(0, 0x3F0),
                              st.one_of(st.integers(0xF00, 0x1FF8), st.sampled_from([0x1FF7, 0x1FF8])) if far else st.integers(0, 0x3F0))) * 4
    size = settings + 0x24 + draw(st.integers(0, 40)) * 4
    if big:
        size = max(size, 0x4000 + draw(st.integers(-8, 200)) * 4)
    kind = draw(st.sampled_from(['rand', 'mixed', 'few', 'zero']))
    implicit = (kind, draw(st.integers(0, 999)), size)
    data = blobs(400, kinds=['mixed', 'rand', 'few', 'zero']) if unaligned else \
        blobs(400, multiple=4, kinds=['mixed', 'rand', 'few', 'zero'])
    sections = draw(st.lists(st.tuples(u32(), data, u32()), max_size=max_sections))
    return locate, ram, settings, implicit, sections, draw(st.integers(0, 30))


def build(spec):
    locate, ram, settings, implicit, sections, p = spec
    implicit = bytearray(expand(implicit))
    # keep accidental magics out
    secs = [(r, expand(d), b) for r, d, b in sections]
    ptr = None
    ptraddr = None
    if locate in ('pointer', 'both'):
        ptr = settings + 0x24 + p * 4
        if ptr + 4 > len(implicit):
            ptr = None
        if ptr is None or ptr < 0:
            ptr = settings + 0x24
            implicit += bytes(4 + ptr - len(implicit)) if ptr + 4 > len(implicit) else b''
        ptraddr = ram + ptr + 4
    elif locate == 'badpointer':
        ptraddr = [0, 4, ram - 0x1000000, ram + 0x1000000, 0xFFFFFFFC, None][p % 6]
        if ptraddr is None:   # to a word of the file, but one that is no address in the file
            ptr = settings + 0x24
            implicit[ptr:ptr + 4] = struct.pack('<I', [0xFFFFFFFF, 0, ram - 4, ram + 0x400000, 1][p // 6 % 5])
            ptraddr, ptr = ram + ptr + 4, None
    implicit += bytes(-len(implicit) % 4)
    return dict(ram=ram, settings=settings, magic=locate != 'pointer', implicit=bytes(implicit), sections=secs,
                ptr=ptr, end=0), ptraddr


def usable(data, m):
    """The settings can be found unambiguously."""
    if m['magic']:
        first = next((i for i in range(0, min(len(data), 0x8000), 4) if data[i:i + 8] == MAGIC), None)
        return first == m['settings'] + 0x1C
    return True


def looks_compressed(data):
    return any(lz.ref_blz_plausible(data, a) for a in range(0, 0x20, 4))


def stored(sections):
    """Table order: sections with data first, then those without."""
    return [s for s in sections if len(s[1])] + [s for s in sections if not len(s[1])]


def got_sections(f):
    return [(s.ramAddress, bytes(s.data), s.bssSize) for s in f.sections[1:]]


def judge_loaded(f, m, implicit, sections, T, what):
    T.eq(f.codeSettingsOffs, m['settings'], f'{what}: offset of the code settings')
    T.check(f.sections, f'{what}: no sections')
    T.check(f.sections[0].implicit and not any(s.implicit for s in f.sections[1:]), f'{what}: implicit flags')
    T.eq(f.sections[0].ramAddress, m['ram'], f'{what}: address of the first section')
    T.same_bytes(f.sections[0].data, implicit, f'{what}: first section')
    T.eq(got_sections(f), sections, f'{what}: sections')
    T.eq(f.ramAddress, m['ram'], f'{what}: RAM address')


def expected_implicit(m, implicit, total_section_bytes, nsections, end):
    """The first section as it must be in the saved file."""
    out = bytearray(implicit)
    out += bytes(-len(out) % 4)
    t = m['ram'] + len(out) + total_section_bytes
    struct.pack_into('<3I', out, m['settings'], t, t + 12 * nsections, m['ram'] + len(out))
    struct.pack_into('<I', out, m['settings'] + 0x14, end)
    return bytes(out)


def judge_saved(f, m, implicit, sections, T, what, ptraddr):
    """Save f (uncompressed) and compare with the sections it should have."""
    with T.sut(f'{what}: saving'):
        data = bytes(f.save())
    total = sum(align4(len(d)) for _, d, _ in sections)
    want_imp = expected_implicit(m, implicit, total, len(sections), 0)
    try:
        imp, secs = ref_read(data, m['ram'], m['settings'])
    except (ValueError, struct.error) as e:
        raise Violation(f'{what}: saved file is inconsistent: {e}')
    T.same_bytes(imp, want_imp, f'{what}: first section in the saved file')
    T.eq(secs, stored(sections), f'{what}: sections in the saved file')
    T.eq(len(data), len(want_imp) + total + 12 * len(sections), f'{what}: length of the saved file')
    if looks_compressed(data) or not usable(data, m):
        T.label('saved file is ambiguous (reload not judged)')
        return data
    with T.sut(f'{what}: reloading'):
        g = ndspy.code.MainCodeFile(data, m['ram'], ptraddr)
    judge_loaded(g, m, want_imp, stored(sections), T, f'{what}, reloaded')
    with T.sut(f'{what}: resaving'):
        T.same_bytes(g.save(), data, f'{what}: saved, loaded and saved again')
    return data


def table_inside(m):
    """Make room for the section table in the first part."""
    at = len(m['implicit'])
    m['implicit'] += bytes(12 * len(m['sections'])) + b'\x11' * 8
    return at


def c05_load_eval(case, T):
    spec, comp, keep, tablein = case
    m, ptraddr = build(spec)
    table_at = None
    if tablein:  # table inside the first part
        table_at = table_inside(m)
    data = ref_write(m, table_at)
    if looks_compressed(data) or not usable(data, m):
        return
    src = data
    if comp:
        # (the reference compressor is slow)
        c = ref_compress(data, min(len(data), keep if len(data) < 0x2000 else 0x4000))
        if c is not None:
            src = c
            T.label('compressed file')
    with T.sut('loading'):
        f = ndspy.code.MainCodeFile(src, m['ram'], ptraddr) if ptraddr is not None else ndspy.code.MainCodeFile(src, m['ram'])
    n0 = len(m['implicit'])
    judge_loaded(f, m, data[:n0], m['sections'], T, 'loaded file')
    with T.sut('loading with fromCompressed'):
        g = ndspy.code.MainCodeFile.fromCompressed(src, m['ram'], ptraddr)
    judge_loaded(g, m, data[:n0], m['sections'], T, 'file loaded with fromCompressed')
    with T.sut('saving an unedited file'):
        again = f.save()
    if table_at is None and m['sections'] == stored(m['sections']):
        T.same_bytes(again, data, 'canonical file after load and save')
        T.label('canonical')
    judge_saved(f, m, data[:n0], m['sections'], T, 'unedited', ptraddr)
    T.nontrivial(m['sections'])
    T.label('located by ' + spec[0])
    T.label('settings after the first 0x4000 bytes', m['settings'] > 0x4000)
    T.label('table inside the first part', tablein)
    T.label('section without data', any(not d for _, d, _ in m['sections']))


def c05_load_strategy():
    return st.tuples(code_models(far=True), st.booleans(), st.sampled_from([0, 0x4000, 0x100]), st.booleans())


@st.composite
def c05_large_strategy(draw):
    locate, ram, settings, implicit, _, p = draw(code_models(1))
    seed, n, size = draw(st.integers(0, 999)), draw(st.sampled_from([1, 2, 65, 130, 300])), draw(st.sampled_from([4, 60, 400]))
    secs = [(ram + 16 * i, ('rand', seed + i, size), seed + i) for i in range(n)]
    if draw(st.booleans()):
        secs[draw(st.integers(0, n - 1))] = (ram, ('rand', seed, draw(st.integers(15000, 30000)) * 4), draw(u32()))
    else:
        implicit = ('rand', seed, draw(st.integers(15000, 30000)) * 4)
    return (locate, ram, settings, implicit, secs, p), False, 0, draw(st.booleans())


@st.composite
def c05_edit_strategy(draw):
    spec = draw(code_models())
    data = blobs(120, kinds=['mixed', 'rand', 'few', 'zero'])
    edit = st.one_of(
        st.tuples(st.just('set'), st.integers(0, 7), data),
        st.tuples(st.just('append'), st.integers(0, 7), data),
        st.tuples(st.just('trim'), st.integers(0, 7), st.integers(0, 30)),
        st.tuples(st.just('poke'), st.integers(0, 7), u8()),
        st.tuples(st.just('bss'), st.integers(0, 7), u32()),
        st.tuples(st.just('ram'), st.integers(0, 7), u32()),
        st.tuples(st.just('add'), st.integers(0, 7), st.tuples(u32(), data, u32())),
        st.tuples(st.just('remove'), st.integers(0, 7), st.just(0)),
        st.tuples(st.just('swap'), st.integers(0, 7), st.integers(0, 7)),
        st.tuples(st.just('grow first'), st.just(0), st.binary(min_size=1, max_size=9)),
        st.tuples(st.just('save'), st.just(0), st.just(0)),
    )
    return spec, draw(st.lists(edit, min_size=1, max_size=8))


def c05_edit_eval(case, T):
    spec, edits = case
    m, ptraddr = build(spec)
    data = ref_write(m)
    if looks_compressed(data) or not usable(data, m):
        return
    with T.sut('loading'):
        f = ndspy.code.MainCodeFile(data, m['ram'], ptraddr)
    implicit = data[:len(m['implicit'])]
    secs = [list(s) for s in m['sections']]
    S = ndspy.code.MainCodeFile.Section
    for op, i, v in edits:
        n = len(secs)
        if op in ('set', 'append', 'trim', 'poke', 'bss', 'ram', 'remove') and not n:
            continue
        k = i % n if n else 0
        if op == 'set':
            secs[k][1] = expand(v)
            f.sections[k + 1].data = bytearray(expand(v))
        elif op == 'append':
            secs[k][1] += expand(v)
            f.sections[k + 1].data += expand(v)
        elif op == 'trim':
            secs[k][1] = secs[k][1][:max(0, len(secs[k][1]) - v)]
            d = f.sections[k + 1].data
            del d[max(0, len(d) - v):]
        elif op == 'poke':
            if secs[k][1]:
                b = bytearray(secs[k][1])
                b[v % len(b)] ^= 0x5A
                secs[k][1] = bytes(b)
                f.sections[k + 1].data[v % len(b)] ^= 0x5A
        elif op == 'bss':
            secs[k][2] = v
            f.sections[k + 1].bssSize = v
        elif op == 'ram':
            secs[k][0] = v
            f.sections[k + 1].ramAddress = v
        elif op == 'add':
            at = i % (n + 1)
            secs.insert(at, [v[0], expand(v[1]), v[2]])
            f.sections.insert(at + 1, S(expand(v[1]), v[0], v[2]))
        elif op == 'remove':
            del secs[k]
            del f.sections[k + 1]
        elif op == 'swap' and n:
            j = v % n
            secs[k], secs[j] = secs[j], secs[k]
            f.sections[k + 1], f.sections[j + 1] = f.sections[j + 1], f.sections[k + 1]
        elif op == 'grow first':
            implicit += v
            f.sections[0].data += v
        elif op == 'save':
            with T.sut('saving in between'):
                f.save()
    secs = [tuple(s) for s in secs]
    judge_saved(f, m, implicit, secs, T, 'after edits', ptraddr)
    T.nontrivial(secs != m['sections'])
    T.label('first section grew', len(implicit) > len(m['implicit']))
    T.label('length not a multiple of 4', any(len(d) % 4 for _, d, _ in secs))
    T.label('section without data', any(not d for _, d, _ in secs))


def c05_compress_strategy():
    return st.tuples(code_models(locate=None, big=True), st.booleans())


def c05_compress_eval(case, T):
    spec, twice = case
    m, ptraddr = build(spec)
    if m['settings'] + 0x24 > 0x3F00:
        return
    data = ref_write(m)
    if looks_compressed(data) or not usable(data, m):
        return
    with T.sut('loading'):
        f = ndspy.code.MainCodeFile(data, m['ram'], ptraddr)
        saved = bytes(f.save(compress=True))
        if twice:
            T.same_bytes(f.save(compress=True), saved, 'second compressed save')
    n0 = len(m['implicit'])
    secs = stored(m['sections'])
    total = sum(align4(len(d)) for _, d, _ in secs)
    plainlen = n0 + total + 12 * len(secs)
    if len(saved) > plainlen or lz.blz_is_raw(saved):
        T.label('stored raw')
        return
    try:
        plain, matches, stop = lz.ref_blz_inplace(saved)
    except ValueError as e:
        raise Violation(f'compressed main code file is invalid: {e}')
    T.check(stop >= 0x4000, f'main code file is compressed from {stop:#x} on')
    want = expected_implicit(m, data[:n0], total, len(secs), m['ram'] + len(saved))
    try:
        imp, got = ref_read(plain, m['ram'], m['settings'])
    except (ValueError, struct.error) as e:
        raise Violation(f'saved file is inconsistent: {e}')
    T.same_bytes(imp, want, 'first section in the compressed file')
    T.eq(got, secs, 'sections in the compressed file')
    with T.sut('loading a compressed file'):
        g = ndspy.code.MainCodeFile(saved, m['ram'], ptraddr)
    judge_loaded(g, m, want, secs, T, 'compressed file, reloaded')
    # and saved uncompressed again
    judge_saved(g, m, want, secs, T, 'compressed file, reloaded and saved uncompressed', ptraddr)
    T.nontrivial(m['sections'])
    T.label('compressed')


def c05_plain_strategy():
    """Files without code settings, and ones made from sections."""
    return st.tuples(st.sampled_from(RAMS), blobs(3000, multiple=4), st.integers(0, 3), st.booleans(),
                     st.sampled_from([None, 0]))


def c05_plain_eval(case, T):
    ram, blob, extra, fromsec, ptr = case
    data = expand(blob) + b'\x01' * extra
    S = ndspy.code.MainCodeFile.Section
    if looks_compressed(data) or MAGIC in data or struct.pack('<I', ram + len(data)) in data:
        return
    with T.sut('loading a file without code settings'):
        if fromsec:
            f = ndspy.code.MainCodeFile.fromSections([S(data, ram, 0, implicit=True)], ram)
        else:
            f = ndspy.code.MainCodeFile(data, ram, ptr)
    T.eq(len(f.sections), 1, 'number of sections')
    T.same_bytes(f.sections[0].data, data, 'the only section')
    T.check(f.sections[0].implicit, 'the only section is implicit')
    T.check(f.codeSettingsOffs is None, f'code settings at {f.codeSettingsOffs}')
    T.eq(f.ramAddress, ram, 'RAM address')
    T.eq(f.sections[0].ramAddress, ram, 'section RAM address')
    with T.sut('saving a file without code settings'):
        saved = bytes(f.save())
    T.same_bytes(saved, data + bytes(-len(data) % 4), 'file without code settings after load and save')
    T.nontrivial(len(data) > 8)
    T.label('from sections', fromsec)


def c05_odd_strategy():
    return st.tuples(st.sampled_from(RAMS), st.integers(8, 60), st.integers(0, 999), st.lists(st.one_of(
        st.tuples(st.just('magic'), st.integers(0, 6)),       # where the settings would begin before the file
        st.tuples(st.just('first'), st.just(0)),              # the address of the end as the first word
        st.tuples(st.just('last'), st.integers(0, 20)),       # where the settings would not fit
        st.tuples(st.just('reversed'), st.integers(1, 50)),   # a table that ends before it begins
        st.tuples(st.just('pointer'), st.integers(1, 0x17)),  # a pointer to the last bytes
    ), min_size=1, max_size=3))


def c05_odd_eval(case, T):
    """Files without code settings, with things that resemble some."""
    ram, words, seed, odd = case
    data = bytearray(random.Random(seed).randbytes(4 * words))
    end = ram + len(data)
    ptr = None
    for what, n in odd:
        if what == 'magic':
            data[4 * n:4 * n + 8] = MAGIC
        elif what == 'first':
            data[:4] = struct.pack('<I', end)
        elif what == 'last':
            at = len(data) - 4 * (n % 6) - 4
            data[at - 4:at + 4] = struct.pack('<2I', end - 12 * (n // 6), end)[:len(data) - at + 4]
        elif what == 'reversed':
            data[12:20] = struct.pack('<2I', end + 12 * n, end)
        elif what == 'pointer':
            data[16:20] = struct.pack('<I', end - n)
            ptr = ram + 20
    data = bytes(data)
    if looks_compressed(data) or any(data[i:i + 8] == MAGIC for i in range(0x1C, len(data))):
        return
    # nothing may be left that could be taken for settings
    for i in range(4, len(data) - 0x13):
        if data[i:i + 4] == struct.pack('<I', end):
            start, = struct.unpack_from('<I', data, i - 4)
            if 0 <= end - start < 0x100 and start % 4 == 0 and (end - start) % 12 == 0:
                return
    if ptr and struct.unpack_from('<I', data, 16)[0] - ram in range(0, len(data) - 0x17):
        return
    with T.sut('loading a file without code settings'):
        f = ndspy.code.MainCodeFile(data, ram, ptr)
    T.check(f.codeSettingsOffs is None, f'code settings at {f.codeSettingsOffs}')
    T.eq([(s.implicit, s.ramAddress, bytes(s.data)) for s in f.sections], [(True, ram, data)], 'sections')
    with T.sut('saving a file without code settings'):
        T.same_bytes(f.save(), data, 'file without code settings after load and save')
    T.nontrivial()
    for what, _ in odd:
        T.label(what)


def c05_arm7_strategy():
    # (and numbers of bytes for things that look like the settings of a table of that size at the end of the file)
    return st.tuples(code_models(locate='none'), st.lists(st.integers(0, 0xFC).filter(lambda n: n % 12), max_size=3))


def c05_arm7_eval(case, T):
    """No magic, no pointer: the settings are found by the table at the very end."""
    case, decoys = case if len(case) == 2 else (case, [])
    m, _ = build(case)
    m['magic'] = False
    if not m['sections'] or len(m['sections']) > 20:
        return
    data = ref_write(m)
    end = struct.pack('<I', m['ram'] + len(data))
    if decoys and m['settings'] >= 8 * len(decoys):
        implicit = bytearray(m['implicit'])
        for i, n in enumerate(decoys):
            struct.pack_into('<2I', implicit, 8 * i, m['ram'] + len(data) - n, m['ram'] + len(data))
        m['implicit'] = bytes(implicit)
        data = ref_write(m)
        T.label('looks like several settings')
    else:
        decoys = []
    if looks_compressed(data) or MAGIC in data or data.count(end) != 1 + len(decoys):
        return
    with T.sut('loading'):
        f = ndspy.code.MainCodeFile(data, m['ram'])
    judge_loaded(f, m, data[:len(m['implicit'])], m['sections'], T, 'file without magic')
    if m['sections'] == stored(m['sections']):
        with T.sut('saving'):
            T.same_bytes(f.save(), data, 'file without magic after load and save')
    T.nontrivial()


def c05_tail_strategy():
    return st.tuples(st.sampled_from(RAMS), st.integers(1, 40), st.integers(0, 39), st.integers(0, 5), st.integers(0, 999),
                     st.lists(st.tuples(u32(), st.binary(max_size=8), u32()), max_size=1))


def c05_tail_eval(case, T):
    """Nothing of the first part follows the settings; a pointer leads to them."""
    ram, settings, ptr, rest, seed, secs = case
    ptr = ptr % settings * 4
    settings *= 4
    implicit = random.Random(seed).randbytes(settings + 0x18 + 4 * rest)
    m = dict(ram=ram, settings=settings, magic=False, implicit=implicit, ptr=ptr, end=0,
             sections=[(r, d + bytes(-len(d) % 4), b) for r, d, b in secs])
    data = ref_write(m)
    if looks_compressed(data):
        return
    with T.sut('loading'):
        f = ndspy.code.MainCodeFile(data, ram, ram + ptr + 4)
    judge_loaded(f, m, data[:len(implicit)], m['sections'], T, 'loaded file')
    judge_saved(f, m, data[:len(implicit)], m['sections'], T, 'unedited', ram + ptr + 4)
    T.nontrivial()
    T.label('settings are the end of the file', not secs and not rest)


def c05_sections_strategy():
    return code_models(unaligned=True)


def c05_sections_eval(case, T):
    """fromSections with a settings structure placed by the caller."""
    m, ptraddr = build(case)
    S = ndspy.code.MainCodeFile.Section
    base = bytearray(m['implicit'])
    if m['magic']:
        base[m['settings'] + 0x1C:m['settings'] + 0x24] = MAGIC
    if m['ptr'] is not None:
        struct.pack_into('<I', base, m['ptr'], m['ram'] + m['settings'])
    given = [bytearray(d) for _, d, _ in m['sections']]
    with T.sut('building'):
        f = ndspy.code.MainCodeFile.fromSections(
            [S(bytes(base), m['ram'], 0, implicit=True)] + [S(g, r, b) for g, (r, d, b) in zip(given, m['sections'])], m['ram'])
        f.codeSettingsOffs = m['settings']
    for g in given:   # the sections have their own data
        g += b'changed'
    judge_saved(f, m, bytes(base), m['sections'], T, 'built from sections', ptraddr)
    T.nontrivial(m['sections'])


# ---------------------------------------------------------------------------
# C06


def overlay_models(max_n=10):
    entry = st.tuples(
        st.one_of(st.integers(0, 12), u32()),   # overlay ID
        u32(), u32(), u32(), u32(), u32(),
        u32(),                                  # file ID
        ints(0, 0xFFFFFF),
        u8(),
        blobs(500, multiple=4, kinds=['mixed', 'rand', 'few', 'zero', 'period']),
    )
    return st.lists(entry, max_size=max_n, unique_by=lambda e: e[0])


FIELDS = ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize', 'flags')


def c06_table_eval(case, T):
    entries, want_ids, container = case
    table = b''
    filedata = {}
    plain = {}
    for (oid, ra, rs, bs, s0, s1, fid, cs, fl, blob) in entries:
        table += struct.pack('<8I', oid, ra, rs, bs, s0, s1, fid, cs | fl << 24)
        data = expand(blob)
        f = data
        if fl & 1:
            f = ref_compress(data, 0)
            if f is None:
                f = data
                if looks_compressed(data):
                    return
        filedata[oid] = f
        plain[oid] = data
    calls = []

    def callback(ovID, fileID):
        calls.append((ovID, fileID))
        return filedata[ovID]

    ids = None
    if want_ids is not None:
        ids = {e[0] for i, e in enumerate(entries) if want_ids >> i & 1} | ({99999} if want_ids & 1 else set())
        ids = [set, list, tuple, frozenset][container](ids)
    with T.sut('loading an overlay table'):
        ovs = ndspy.code.loadOverlayTable(table, callback, ids) if ids is not None else \
            ndspy.code.loadOverlayTable(table, callback)
    chosen = [e for e in entries if ids is None or e[0] in ids]
    T.eq(sorted(ovs), sorted(e[0] for e in chosen), 'overlay IDs')
    T.eq(calls, [(e[0], e[6]) for e in chosen], 'files asked for')
    for e in chosen:
        ov = ovs[e[0]]
        T.eq([getattr(ov, f) for f in FIELDS], list(e[1:9]), f'fields of overlay {e[0]}')
        T.eq(ov.compressed, bool(e[8] & 1), 'compressed')
        T.eq(ov.verifyHash, bool(e[8] & 2), 'verifyHash')
        T.same_bytes(ov.data, plain[e[0]], f'data of overlay {e[0]}')
    with T.sut('saving an overlay table'):
        out = ndspy.code.saveOverlayTable(ovs)
    want = b''.join(struct.pack('<8I', *e[:7], e[7] | e[8] << 24) for e in sorted(chosen, key=lambda e: e[0]))
    T.same_bytes(out, want, 'saved overlay table')
    T.nontrivial(len(chosen) > 1)
    T.label('not sorted by ID', [e[0] for e in entries] != sorted(e[0] for e in entries))
    T.label('subset', ids is not None)
    T.label('compressed overlay', any(e[8] & 1 for e in chosen))
    T.label('no overlays', not entries)


def c06_table_strategy():
    return st.tuples(overlay_models(), st.one_of(st.none(), st.integers(0, 1023)), st.integers(0, 3))


def c06_many_strategy():
    def many(case):
        n, seed, ids, container, large = case
        r = random.Random(seed)
        entries = [(i, *(r.getrandbits(32) for _ in range(6)), r.getrandbits(24), r.getrandbits(8) & ~1, ('rand', i, r.choice([0, 4, 40]))) for i in range(n)]
        r.shuffle(entries)
        if large:
            entries[0] = (*entries[0][:9], ('rand', seed, 70000))
        return entries, ids, container
    return st.tuples(st.one_of(st.sampled_from([255, 256, 257]), st.integers(1, 600)), st.integers(0, 10 ** 6), st.one_of(st.none(), st.integers(0, 2 ** 500)),
                     st.integers(0, 3), st.booleans()).map(many)


@st.composite
def c06_save_strategy(draw):
    data = st.one_of(blobs(600, kinds=['mixed', 'rand', 'few', 'zero', 'period']),
                     blobs(600, multiple=4, kinds=['mixed', 'few', 'zero', 'period']))
    return (draw(data), [draw(u32()) for _ in range(6)], draw(ints(0, 0xFFFFFF)), draw(u8()),
            draw(st.lists(st.tuples(st.booleans(), st.one_of(st.none(), data), st.one_of(st.none(), st.booleans()), st.one_of(st.none(), st.none(), st.booleans())),
                          min_size=1, max_size=4)))


def c06_save_eval(case, T):
    """Save an overlay several times, with edits and changed flags in between."""
    blob, nums, csize, flags, steps = case
    data = expand(blob)
    ra, rs, bs, s0, s1, fid = nums
    flags &= ~1
    with T.sut('creating an overlay'):
        ov = ndspy.code.Overlay(data, ra, rs, bs, s0, s1, fid, csize, flags)
    for compress, newdata, verify, *mark in steps:
        mark = mark[0] if mark else None
        if newdata is not None:
            data = expand(newdata)
            ov.data = bytearray(data)
        if verify is not None:
            ov.verifyHash = verify
            flags = flags | 2 if verify else flags & ~2
            T.eq(ov.flags, flags, 'flags after setting verifyHash')
        if mark is not None:
            ov.compressed = mark
            flags = flags | 1 if mark else flags & ~1
            T.eq(ov.flags, flags, 'flags after setting compressed')
            T.eq([ov.compressed, ov.verifyHash], [mark, bool(flags & 2)], 'flag attributes after setting compressed')
        with T.sut('saving an overlay'):
            f = bytes(ov.save(compress=compress) if compress else ov.save())
        flags = (flags & ~1) | (1 if compress else 0)
        T.same_bytes(ov.data, data, 'overlay data after saving')
        T.eq([ov.ramAddress, ov.ramSize, ov.bssSize, ov.staticInitStart, ov.staticInitEnd, ov.fileID],
             [ra, len(data), bs, s0, s1, fid], 'fields after saving')
        T.eq(ov.compressedSize, len(f), 'compressed size after saving')
        T.eq(ov.flags, flags, 'flags after saving')
        T.eq(ov.compressed, compress, 'compressed flag after saving')
        T.eq(ov.verifyHash, bool(flags & 2), 'hash flag after saving')
        if not compress:
            T.same_bytes(f, data, 'uncompressed overlay file')
        else:
            raw = lz.blz_is_raw(f)
            T.label('stored raw', raw)
            T.label('compressed', not raw)
            if not raw:
                try:
                    plain, _, _ = lz.ref_blz_inplace(f)
                except ValueError as e:
                    raise Violation(f'compressed overlay is invalid: {e}')
                T.same_bytes(plain, data, 'compressed overlay file')
        with T.sut('saving the overlay table'):
            table = ndspy.code.saveOverlayTable({7: ov})
        T.same_bytes(table, struct.pack('<8I', 7, ra, len(data), bs, s0, s1, fid, (len(f) & 0xFFFFFF) | flags << 24),
                     'overlay table after saving')
        if compress and lz.blz_is_raw(f) and looks_compressed(f):
            continue
        with T.sut('reloading the overlay'):
            ov2 = ndspy.code.loadOverlayTable(table, lambda o, i: f)[7]
        if compress and lz.blz_is_raw(f):
            T.same_bytes(ov2.data, data + bytes(-len(data) % 4 + 4), 'reloaded data of an overlay that could not be compressed')
        else:
            T.same_bytes(ov2.data, data, 'overlay data after save and load')
        T.eq([getattr(ov2, x) for x in FIELDS], [getattr(ov, x) for x in FIELDS], 'fields after save and load')
    T.nontrivial(len(data) > 8)
    T.label('saved more than once', len(steps) > 1)


def rom_strategy():
    from . import roms
    return roms.c10_code_strategy()


def rom_eval(case, T):
    """Code files and overlays loaded through a ROM."""
    from . import roms
    roms.c10_code_eval(case, T)


CHECKS = {
    'C05': Check('C05', [
        Facet('load', c05_load_strategy, c05_load_eval, 5000, 80000, 'files by a reference writer, compressed or not; non-trivial: has explicit sections'),
        Facet('large', c05_large_strategy, c05_load_eval, 100, 1000, 'up to 300 sections, or parts of up to 120000 bytes'),
        Facet('edit', c05_edit_strategy, c05_edit_eval, 5000, 80000, 'edit histories; non-trivial: the sections really changed'),
        Facet('compress', c05_compress_strategy, c05_compress_eval, 700, 12000, 'saving compressed, files of more than 0x4000 bytes'),
        Facet('sections', c05_sections_strategy, c05_sections_eval, 2500, 40000, 'built from a list of sections'),
        Facet('plain', c05_plain_strategy, c05_plain_eval, 2000, 20000, 'files without code settings; non-trivial: more than 8 bytes'),
        Facet('in a ROM', rom_strategy, rom_eval, 800, 10000, 'code files of both processors, loaded through a ROM'),
        Facet('resembling', c05_odd_strategy, c05_odd_eval, 2000, 20000, 'files without code settings, with words that resemble some'),
        Facet('settings last', c05_tail_strategy, c05_tail_eval, 1000, 10000, 'settings at the end of the first section, found through the pointer'),
        Facet('no magic', c05_arm7_strategy, c05_arm7_eval, 1500, 20000, 'settings found through the table at the end of the file'),
        reuse.facet('main code file'),
    ], 'Main code files with generated settings, sections and edits against a reference reader and writer; non-trivial: has explicit sections (or more than 8 bytes without code settings).',
       ['Files in which the settings magic or a compression trailer occurs by chance a second time are not judged.',
        'The code settings lie in the first 0x4000 bytes when a file is saved compressed, as in all known games.']),
    'C06': Check('C06', [
        Facet('tables', c06_table_strategy, c06_table_eval, 6000, 100000, 'non-trivial: at least two overlays loaded'),
        Facet('in a ROM', rom_strategy, rom_eval, 800, 10000, 'overlays of both processors, loaded through a ROM; non-trivial: the code has sections'),
        Facet('many', c06_many_strategy, c06_table_eval, 100, 1000, 'up to 600 overlays'),
        Facet('saving', c06_save_strategy, c06_save_eval, 5000, 80000, 'save an overlay repeatedly, with edits between; non-trivial: more than 8 bytes'),
        reuse.facet('overlays'),
    ], 'Overlay tables by a reference writer, and overlays saved after edits; non-trivial: at least two overlays, or more than 8 bytes of data.'),
}
