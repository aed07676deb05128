"""
C01-C04: LZ10 and code compression.

The oracles are decoders and encoders written here from the format
descriptions (GBATEK for LZ10; the SDK's backwards decompressor for code),
which share nothing with ndspy.
"""
import random
import struct

from hypothesis import strategies as st

from .core import Check, Facet, blobs, expand, ints, sizes, Violation

import ndspy.lz10
import ndspy.codeCompression


# ---------------------------------------------------------------------------
# Reference LZ10


def ref_lz10_decode(data):
    """
    Strict LZ10 decoder. Returns (bytes, longest distance used, matches,
    input bytes consumed); raises ValueError if the stream is malformed.
    """
    if len(data) < 4 or data[0] != 0x10:
        raise ValueError('no LZ10 header')
    size = data[1] | data[2] << 8 | data[3] << 16
    out = bytearray()
    pos = 4
    maxdist = 0
    matches = 0
    while len(out) < size:
        if pos >= len(data):
            raise ValueError('stream ends before the announced length is reached')
        flags = data[pos]
        pos += 1
        for bit in range(7, -1, -1):
            if len(out) >= size:
                break
            if flags >> bit & 1:
                if pos + 2 > len(data):
                    raise ValueError('stream ends inside a back-reference')
                a, b = data[pos], data[pos + 1]
                pos += 2
                length = (a >> 4) + 3
                dist = ((a & 15) << 8 | b) + 1
                if dist > len(out):
                    raise ValueError(f'back-reference by {dist} when only {len(out)} bytes were written')
                maxdist = max(maxdist, dist)
                matches += 1
                for _ in range(length):
                    out.append(out[-dist])
            else:
                if pos >= len(data):
                    raise ValueError('stream ends before the announced length is reached')
                out.append(data[pos])
                pos += 1
    if len(out) > size:
        raise ValueError('last back-reference runs past the announced length')
    return bytes(out), maxdist, matches, pos


def ref_lz10_encode(tokens, junkflags, cut):
    """Write tokens (ints are literals, pairs are (distance, length))."""
    out = bytearray()
    body = bytearray()
    for i in range(0, len(tokens), 8):
        group = tokens[i:i + 8]
        flags = 0
        chunk = bytearray()
        for j, t in enumerate(group):
            if isinstance(t, int):
                chunk.append(t)
                out.append(t)
            else:
                dist, length = t
                flags |= 0x80 >> j
                v = (length - 3) << 12 | (dist - 1)
                chunk += bytes([v >> 8, v & 0xFF])
                for _ in range(length):
                    out.append(out[-dist])
        if junkflags:
            for j in range(len(group), 8):
                flags |= (junkflags & (0x80 >> j))
        body.append(flags)
        body += chunk
    size = len(out) - cut
    return struct.pack('<I', size << 8 | 0x10) + bytes(body), bytes(out[:size])


# ---------------------------------------------------------------------------
# Generated plain data: a list of operations, so that matches, runs and
# distances near the limits are produced by construction


def build_ops(ops):
    out = bytearray()
    for op in ops:
        k = op[0]
        if k == 'lit':
            out += op[1]
        elif k == 'blob':
            out += expand(op[1])
        elif k == 'run':
            out += bytes([op[1]]) * op[2]
        elif k == 'copy':    # ('copy', distance, length): self-overlap allowed
            d = min(op[1], len(out))
            if d:
                for _ in range(op[2]):
                    out.append(out[-d])
        elif k == 'again':   # repeat a block of the beginning
            out += out[:op[1]]
    return bytes(out)


LENS = st.one_of(st.integers(1, 40), st.sampled_from([2, 3, 4, 15, 16, 17, 18, 19, 20, 35, 36, 37]))
DISTS = st.one_of(st.integers(1, 64), st.sampled_from([1, 2, 3, 4, 18, 255, 256, 257, 0xFFE, 0xFFF, 0x1000, 0x1001,
                                                       0x1002, 0x1003, 0x1004, 0x800, 0x801]))


def ops(max_ops=12, big=True):
    lit = st.tuples(st.just('lit'), st.binary(min_size=1, max_size=20))
    run = st.tuples(st.just('run'), st.sampled_from([0, 0xFF, 0x41, 0x10, 1, 0x80]), LENS)
    copy = st.tuples(st.just('copy'), DISTS, LENS)
    again = st.tuples(st.just('again'), st.integers(1, 64))
    blob = st.tuples(st.just('blob'), blobs(600, small=16))
    parts = st.lists(st.one_of(lit, run, copy, copy, again, blob), max_size=max_ops)
    if not big:
        return parts
    head = st.tuples(st.just('blob'), st.tuples(st.sampled_from(['rand', 'mixed']), st.integers(0, 999),
                                                st.one_of(st.integers(4080, 4120), st.integers(4000, 4400))))
    return st.tuples(head, parts).map(lambda t: [t[0]] + t[1])


def c01_eval(case, T):
    data = build_ops(case)
    with T.sut('compressing'):
        comp = ndspy.lz10.compress(data)
    T.check(isinstance(comp, bytes), f'compress() returned {type(comp).__name__}')
    try:
        out, maxdist, matches, _ = ref_lz10_decode(comp)
    except ValueError as e:
        raise Violation(f'compressed data is not a valid LZ10 stream: {e}')
    T.same_bytes(out, data, 'independent decoder')
    groups = -(-len(data) // 8)
    # the last group may be padded with up to 7 unused bytes
    T.check(len(comp) <= 4 + len(data) + groups + 7,
            f'{len(data)} bytes grew to {len(comp)}, more than literals would take')
    T.check(comp[0] == 0x10 and int.from_bytes(comp[1:4], 'little') == len(data), 'wrong header')
    with T.sut('decompressing own output'):
        back = ndspy.lz10.decompress(comp)
    T.same_bytes(back, data, 'decompress(compress(data))')
    T.check(isinstance(back, bytes), f'decompress() returned {type(back).__name__}')
    T.nontrivial(matches > 0 or len(data) % 8)
    T.label('has matches', matches > 0)
    T.label('distance >= 4094', maxdist >= 4094)
    T.label('distance = 4096', maxdist == 4096)
    T.label('empty', not data)
    T.label('longer than 4096', len(data) > 4096)


def c01_repeats_eval(case, T):
    """Long repeats inside the window must really be used."""
    unit, times, tail = expand(case[0]), case[1], expand(case[2])
    data = unit * times + tail
    with T.sut('compressing'):
        comp = ndspy.lz10.compress(data)
    try:
        out, _, matches, _ = ref_lz10_decode(comp)
    except ValueError as e:
        raise Violation(f'compressed data is not a valid LZ10 stream: {e}')
    T.same_bytes(out, data, 'independent decoder')
    # first unit and tail as literals, everything else in (generously) 9-byte matches
    rest = len(data) - len(unit) - len(tail)
    bound = 4 + (len(unit) + len(tail) + 40) * 9 / 8 + rest / 9 * 2.125 + 40
    T.check(len(comp) <= bound, f'{len(unit)}-byte block repeated {times} times only compressed'
            f' from {len(data)} to {len(comp)} bytes')
    T.nontrivial(rest > 200)
    T.label('unit > 2048', len(unit) > 2048)
    with T.sut('decompressing own output'):
        T.same_bytes(ndspy.lz10.decompress(comp), data, 'decompress(compress(data))')


def repeats():
    return st.one_of(
        st.tuples(blobs(700, min_size=1), st.integers(2, 12), blobs(20)),
        st.tuples(st.tuples(st.just('rand'), st.integers(0, 999), st.sampled_from([4095, 4096, 4090, 3000])),
                  st.integers(2, 3), blobs(20)))


# C02 -----------------------------------------------------------------------


@st.composite
def token_streams(draw, mindist=1, maxdist=0x1000, minlead=1, overlong=True):
    """
    (lead, steps): lead literals, then steps of ('l', byte) or ('m', distance
    selector, length). Distances are taken relative to what is available, so
    that every stream is valid by construction.
    """
    lead = draw(st.one_of(st.binary(min_size=minlead, max_size=12),
                          st.tuples(st.just('rand'), st.integers(0, 999),
                                    st.one_of(st.integers(13, 300), st.integers(maxdist - 20, maxdist + 30)))))
    step = st.one_of(
        st.tuples(st.just('l'), st.integers(0, 255)),
        st.tuples(st.just('m'),
                  st.one_of(st.tuples(st.just('near'), st.integers(0, 12)),
                            st.tuples(st.just('far'), st.integers(0, 6)),
                            st.tuples(st.just('any'), st.integers(0, 0xFFFF))),
                  st.one_of(st.integers(3, 18), st.sampled_from([3, 18]))))
    steps = draw(st.lists(step, max_size=40))
    return lead, steps


def resolve_tokens(case, mindist=1, maxdist=0x1000):
    lead, steps = case
    tokens = list(expand(lead))
    n = len(tokens)
    for s in steps:
        if s[0] == 'l':
            tokens.append(s[1])
            n += 1
            continue
        (_, (kind, v), length) = s
        hi = min(n, maxdist)
        if hi < mindist:
            tokens.append(v & 0xFF)
            n += 1
            continue
        if kind == 'near':
            d = min(hi, mindist + v)
        elif kind == 'far':
            d = max(mindist, hi - v)
        else:
            d = mindist + v % (hi - mindist + 1)
        tokens.append((d, length))
        n += length
    return tokens


def c02_strategy():
    return st.tuples(token_streams(minlead=0), st.integers(0, 255), st.integers(0, 17), blobs(9))


def c02_eval(case, T):
    stream, junk, cut, trailing = case
    tokens = resolve_tokens(stream)
    if not tokens or isinstance(tokens[-1], int):
        cut = 0
    else:
        cut = min(cut, tokens[-1][1] - 1)
    comp, want = ref_lz10_encode(tokens, junk, cut)
    comp += expand(trailing)
    with T.sut('decompressing'):
        got = ndspy.lz10.decompress(comp)
    T.same_bytes(got, want, 'decompressed data')
    given = bytearray(comp)
    with T.sut('decompressing a bytearray'):
        got = ndspy.lz10.decompress(given)
    T.same_bytes(got, want, 'decompressed data (from bytearray)')
    T.same_bytes(given, comp, 'the bytearray that was decompressed')
    ms = [t for t in tokens if not isinstance(t, int)]
    T.nontrivial(ms)
    T.label('overlapping match', any(d < l for d, l in ms))
    T.label('distance 4096', any(d == 4096 for d, l in ms))
    T.label('distance 1', any(d == 1 for d, l in ms))
    T.label('length 18', any(l == 18 for d, l in ms))
    T.label('partial last group', len(tokens) % 8)
    T.label('cut last match', cut)
    T.label('trailing data', trailing)


def c02_marker_eval(case, T):
    first, rest = case
    data = bytes([first]) + expand(rest)
    with T.raises('decompressing data without the LZ10 marker'):
        ndspy.lz10.decompress(data)
    T.nontrivial(len(data) > 4)
    T.label('another compression marker', first in (0x11, 0x20, 0x24, 0x28, 0x30, 0x40))


def c02_marker_strategy():
    first = st.one_of(st.integers(0, 255), st.sampled_from([0x11, 0x20, 0x24, 0x28, 0x30, 0x40, 0x00, 0x12, 0x50, 0x90]))
    body = st.one_of(blobs(60), c02_strategy().map(
        lambda c: ref_lz10_encode(resolve_tokens(c[0]), 0, 0)[0][1:]))
    return st.tuples(first.filter(lambda b: b != 0x10), body)


# ---------------------------------------------------------------------------
# Reference backwards LZ


def ref_blz_trailer(data, amt=0):
    """(compressedLen, headerLen, extra) of the trailer that ends amt bytes before the end."""
    end = len(data) - amt
    comp, extra = struct.unpack_from('<II', data, end - 8)
    return comp & 0xFFFFFF, comp >> 24, extra


def ref_blz_plausible(data, amt):
    if len(data) - amt < 8:
        return False
    comp, header, extra = ref_blz_trailer(data, amt)
    end = len(data) - amt
    if header < 8 or comp < header or comp > end:
        return False
    return all(b == 0xFF for b in data[end - header:end - 8])


def ref_blz_inplace(data):
    """
    Decompress in place the way the console does. Raises ValueError when
    the file is malformed or unread input would be overwritten.
    """
    comp, header, extra = ref_blz_trailer(data)
    end = len(data)
    if not 8 <= header <= 11:
        raise ValueError(f'trailer length {header}')
    if not header <= comp <= end:
        raise ValueError(f'compressed length {comp} in a file of {end} bytes')
    if any(b != 0xFF for b in data[end - header:end - 8]):
        raise ValueError('trailer padding is not 0xFF')
    if extra > 1 << 26:
        raise ValueError(f'extra size {extra:#x}')
    buf = bytearray(data) + bytearray(extra)
    rd = end - header
    stop = end - comp
    wr = end + extra
    top = wr
    matches = 0

    def put(v):
        nonlocal wr
        wr -= 1
        if wr < rd:
            raise ValueError(f'in-place decompression overwrites unread input at {wr:#x} (read position {rd:#x})')
        if wr < stop:
            raise ValueError('more data than announced')
        buf[wr] = v

    while rd > stop:
        rd -= 1
        flags = buf[rd]
        for bit in range(7, -1, -1):
            if rd <= stop:
                break
            if flags >> bit & 1:
                if rd - 2 < stop:
                    raise ValueError('input ends inside a back-reference')
                a, b = buf[rd - 1], buf[rd - 2]
                rd -= 2
                length = (a >> 4) + 3
                disp = ((a & 15) << 8 | b) + 3
                if wr - 1 + disp >= top:
                    raise ValueError('back-reference past the end')
                matches += 1
                for _ in range(length):
                    put(buf[wr - 1 + disp])
            else:
                rd -= 1
                put(buf[rd])
    if wr != stop:
        raise ValueError(f'output ends at {wr:#x}, expected {stop:#x}')
    return bytes(buf), matches, stop


def ref_blz_encode(prefix, tokens, junkflags, extrapad):
    """
    Build a file from a raw prefix and tokens (in decoding order: from the
    end of the data to its beginning). Returns (file, decompressed data).
    """
    body = bytearray()  # in reading order (reversed in the file)
    out = bytearray()   # in decoding order (reversed)
    for i in range(0, len(tokens), 8):
        group = tokens[i:i + 8]
        flags = 0
        chunk = bytearray()
        for j, t in enumerate(group):
            if isinstance(t, int):
                chunk.append(t)
                out.append(t)
            else:
                dist, length = t
                flags |= 0x80 >> j
                v = (length - 3) << 12 | (dist - 3)
                chunk += bytes([v >> 8, v & 0xFF])
                for _ in range(length):
                    out.append(out[-dist])
        for j in range(len(group), 8):
            flags |= junkflags & (0x80 >> j)
        body.append(flags)
        body += chunk
    comp = bytes(reversed(body))
    pad = -(len(prefix) + len(comp)) % 4
    header = 8 + pad
    complen = len(comp) + header
    total = len(prefix) + complen
    plain = prefix + bytes(reversed(out))
    extra = len(plain) - total
    if extra <= 0:
        return None
    return (prefix + comp + b'\xff' * pad + struct.pack('<II', complen | header << 24, extra)), plain


def blz_is_raw(comp):
    return comp[-4:] == b'\0\0\0\0'


def c03_eval(case, T):
    oplist, arm9, prefix = case
    data = build_ops(oplist)
    if arm9:
        data = expand(prefix) + data
    with T.sut('compressing'):
        comp = ndspy.codeCompression.compress(data, isArm9=arm9) if arm9 else ndspy.codeCompression.compress(data)
    T.check(isinstance(comp, bytes), f'compress() returned {type(comp).__name__}')
    if arm9:
        T.same_bytes(comp[:min(0x4000, len(data))], data[:0x4000], 'first 0x4000 bytes of an ARM9 file')
    T.check(len(comp) % 4 == 0 or arm9 and len(data) < 0x4000, f'length {len(comp)} is not a multiple of 4')
    T.check(len(comp) <= ((len(data) + 3) & ~3) + 4, f'{len(data)} bytes grew to {len(comp)}')
    raw = blz_is_raw(comp)
    look = [a for a in range(0, 0x20, 4) if ref_blz_plausible(comp, a)]
    ambiguous = raw and look and ref_blz_trailer(comp, look[0])[2] != 0
    T.label('raw data with something like a trailer (decompression not judged)', ambiguous)
    if not ambiguous:
        with T.sut('decompressing own output'):
            back = ndspy.codeCompression.decompress(comp)
        T.check(isinstance(back, (bytes, bytearray)), f'decompress() returned {type(back).__name__}')
    if raw:
        T.same_bytes(comp[:len(data)], data, 'raw data of a file that cannot be compressed')
        T.check(not any(comp[len(data):]), 'padding after raw data is not zero')
        if not ambiguous:
            T.same_bytes(back, comp, 'a file stored raw, decompressed')
    else:
        try:
            out, matches, stop = ref_blz_inplace(comp)
        except ValueError as e:
            raise Violation(f'compressed file is invalid: {e}')
        T.same_bytes(out, data, 'in-place decompressor')
        T.same_bytes(back, data, 'decompress(compress(data))')
        T.check(len(comp) <= len(data), f'{len(data)} bytes grew to {len(comp)}')
        if arm9:
            T.check(stop >= 0x4000, f'ARM9 data is compressed from {stop:#x} on')
        T.label('raw leading part', stop > (0x4000 if arm9 else 0))
        T.label('arm9 compressed', arm9)
        T.label('trailer 8', ref_blz_trailer(comp)[1] == 8)
        T.label('trailer 11', ref_blz_trailer(comp)[1] == 11)
        T.label('saves at most 16 bytes', len(data) - len(comp) <= 16)
    T.label('stored raw', raw)
    T.label('arm9', arm9)
    T.label('arm9 shorter than 0x4000', arm9 and len(data) < 0x4000)
    T.nontrivial(not raw or len(data) > 8)


def c03_strategy():
    prefix = st.one_of(
        st.tuples(st.sampled_from(['rand', 'mixed', 'zero']), st.integers(0, 99), st.integers(0x3FF0, 0x4010)),
        st.tuples(st.sampled_from(['rand', 'mixed', 'zero']), st.integers(0, 99), st.integers(0x4000, 0x4400)),
        blobs(0x200))
    small = st.tuples(ops(10, big=False), st.just(False), st.just(b''))
    arm9 = st.tuples(ops(6, big=False), st.just(True), prefix)
    return st.one_of(small, small, small, arm9)


def c03_big_strategy():
    return st.tuples(ops(10, big=True), st.just(False), st.just(b''))


@st.composite
def near_threshold(draw):
    """Mostly literals with just enough redundancy that the savings are around zero."""
    parts = []
    for _ in range(draw(st.integers(1, 5))):
        parts.append(('blob', ('rand', draw(st.integers(0, 9999)), draw(st.integers(1, 40)))))
        parts.append(('run', draw(st.sampled_from([0, 0x55])), draw(st.integers(3, 26))))
    if draw(st.booleans()):
        parts.append(('blob', ('rand', draw(st.integers(0, 9999)), draw(st.integers(1, 30)))))
    if draw(st.booleans()):
        parts.insert(0, ('blob', ('rand', draw(st.integers(0, 9999)), draw(st.integers(1, 30)))))
    return parts, False, b''


# C04 -----------------------------------------------------------------------


def c04_strategy():
    return st.tuples(token_streams(mindist=3, maxdist=0x1002), blobs(300), st.integers(0, 255),
                     st.integers(0, 7), blobs(0x1C, multiple=4, kinds=['rand', 'zero', 'ff', 'count']))


def c04_eval(case, T):
    stream, prefix, junk, _, appended = case
    tokens = resolve_tokens(stream, 3, 0x1002)
    prefix, appended = expand(prefix), expand(appended)
    made = ref_blz_encode(prefix, tokens, junk, 0)
    if made is None:  # would not be smaller; make it compressible
        tokens = tokens + [0, 0, 0] + [(3, 18)] * 24
        made = ref_blz_encode(prefix, tokens, junk, 0)
        if made is None:
            tokens = tokens + [(3, 18)] * (len(tokens) // 8 + 8)
            made = ref_blz_encode(prefix, tokens, junk, 0)
    comp, want = made
    data = comp + appended
    # Only the real trailer may look like one (the format cannot tell otherwise)
    if any(ref_blz_plausible(data, amt) for amt in range(0, len(appended), 4)):
        T.label('appended data looks like a trailer (not judged)')
        return
    with T.sut('decompressing'):
        got = ndspy.codeCompression.decompress(data)
    T.same_bytes(got, want + appended, 'decompressed data')
    given = bytearray(data)
    with T.sut('decompressing a bytearray'):
        got = ndspy.codeCompression.decompress(given)
    T.same_bytes(got, want + appended, 'decompressed data (from bytearray)')
    T.same_bytes(given, data, 'the bytearray that was decompressed')
    ms = [t for t in tokens if not isinstance(t, int)]
    T.nontrivial(ms)
    T.label('overlapping match', any(d < l for d, l in ms))
    T.label('distance 0x1002', any(d == 0x1002 for d, l in ms))
    T.label('distance 3', any(d == 3 for d, l in ms))
    T.label('appended data', appended)
    T.label('appended data ends in zeros', appended and appended.endswith(b'\0\0\0\0'))
    T.label('raw prefix', prefix)
    T.label('trailer of %d bytes' % ref_blz_trailer(comp)[1])


def c04_plain_strategy():
    word = st.one_of(st.just(b'\0\0\0\0'), st.just(b'\xff\xff\xff\xff'), st.binary(min_size=4, max_size=4),
                     st.tuples(st.integers(0, 600), st.integers(0, 20)).map(
                         lambda t: struct.pack('<I', t[0] | t[1] << 24)),
                     st.integers(0, 300).map(lambda v: struct.pack('<I', v)))
    loose = st.tuples(blobs(3000), st.lists(word, max_size=10).map(b''.join), st.binary(max_size=3))
    return st.one_of(loose, loose, announced_raw(word))


@st.composite
def announced_raw(draw, word):
    """A consistent trailer which says that nothing is compressed, with words appended."""
    body = draw(blobs(200))
    pad = draw(st.integers(0, 3))
    n = len(expand(body)) + pad + 8
    complen = draw(st.integers(8 + pad, n))
    trailer = b'\xff' * pad + struct.pack('<II', complen | (8 + pad) << 24, 0)
    return body, trailer, draw(st.lists(word, max_size=7).map(b''.join))


def c04_plain_eval(case, T):
    data = b''.join(expand(c) for c in case)
    plausible = [amt for amt in range(0, 0x20, 4) if ref_blz_plausible(data, amt)]
    if plausible:
        # An extra size of zero announces that nothing is compressed
        if ref_blz_trailer(data, plausible[0])[2] != 0:
            T.label('looks compressed (not judged)')
            return
        T.label('trailer announces no compression')
    with T.sut('decompressing data that is not compressed'):
        got = ndspy.codeCompression.decompress(data)
    T.same_bytes(got, data, 'data without a compression trailer')
    T.nontrivial(len(data) > 8)
    T.label('ends in zeros', data.endswith(b'\0\0\0\0'))
    # something that resembles a trailer but contradicts itself
    T.label('nearly a trailer', any(
        len(data) - a >= 8 and ref_blz_trailer(data, a)[1] >= 8 and ref_blz_trailer(data, a)[0] <= len(data)
        for a in range(0, 0x20, 4)))


def large_blobs(limit):
    """Blobs whose size is spread up to limit, some beyond 16-bit sizes."""
    kinds = ['rand', 'zero', 'ff', 'count', 'few', 'period', 'mixed']
    return st.one_of(
        st.tuples(st.sampled_from(kinds), st.integers(0, 0xFFFF), st.integers(500, limit)),
        st.tuples(st.sampled_from(['few', 'period', 'zero', 'mixed']), st.integers(0, 0xFFFF),
                  st.one_of(st.sampled_from([0xFFFF, 0x10000, 0x10001]), st.integers(0x10000, 0x14000))))


def huge_blobs():
    """Sizes for which compressed sizes need more than 16 bits, and decompressed ones more than 20."""
    return st.one_of(
        st.tuples(st.just('mixed'), st.integers(0, 0xFFFF), st.integers(0x1C000, 0x30000)),
        st.tuples(st.sampled_from(['period', 'zero']), st.integers(0, 0xFFFF),
                  st.one_of(st.integers(0x80000, 0x110000), st.integers(0xFFFFE, 0x100002))))


def far_streams():
    """(seed, literals before, times): long streams of tokens."""
    return st.tuples(st.integers(0, 0xFFFF), st.integers(0, 40), st.integers(1, 12000))


def far_tokens(case, mindist, maxdist):
    seed, before, times = case
    r = random.Random(seed)
    tokens = [r.randrange(256) for _ in range(max(before, mindist))]
    n = len(tokens)
    for _ in range(times):
        if r.random() < 0.4:
            tokens.append(r.randrange(256))
            n += 1
        else:
            d = r.choice([mindist, min(n, maxdist), r.randint(mindist, min(n, maxdist))])
            length = r.randint(3, 18)
            tokens.append((d, length))
            n += length
    return tokens


def c02_far_eval(case, T):
    comp, want = ref_lz10_encode(far_tokens(case, 1, 0x1000), 0, 0)
    with T.sut('decompressing'):
        got = ndspy.lz10.decompress(comp)
    T.same_bytes(got, want, 'decompressed data')
    T.nontrivial(len(want) > 0x1000)
    T.label('more than 64 KiB', len(want) > 0x10000)


def c04_far_eval(case, T):
    stream, appended = case
    tokens = far_tokens(stream, 3, 0x1002)
    made = ref_blz_encode(b'', tokens, 0, 0)
    if made is None:
        return
    comp, want = made
    data = comp + bytes(range(1, 4 * appended + 1))
    if any(ref_blz_plausible(data, amt) for amt in range(0, 4 * appended, 4)):
        return
    with T.sut('decompressing'):
        got = ndspy.codeCompression.decompress(data)
    T.same_bytes(got, want + data[len(comp):], 'decompressed data')
    T.nontrivial(len(want) > 0x1000)
    T.label('more than 64 KiB', len(want) > 0x10000)


CHECKS = {
    'C01': Check('C01', [
        Facet('small', lambda: ops(12, big=False), c01_eval, 16000, 200000, 'lists of literal, run, copy, repeat and blob operations; non-trivial: the output has a back-reference or a partly filled last group'),
        Facet('window', lambda: ops(8, big=True), c01_eval, 1600, 20000, 'as small, after 4000-4400 mostly incompressible bytes so that distances reach the window limit'),
        Facet('large', lambda: large_blobs(20000).map(lambda b: [('blob', b)]), c01_eval, 160, 4000, 'blobs up to 81920 bytes'),
        Facet('huge', lambda: huge_blobs().map(lambda b: [('blob', b)]), c01_eval, 16, 200, 'blobs up to 1114112 bytes'),
        Facet('repeats', repeats, c01_repeats_eval, 1200, 20000, 'a block repeated several times; non-trivial: more than 200 repeated bytes'),
    ], 'Data is built from generated operations (literals, runs, copies at chosen distances, repeated blocks) and decoded by an independent strict LZ10 decoder; non-trivial: at least one back-reference or a partly used last flag group.'),
    'C02': Check('C02', [
        Facet('streams', c02_strategy, c02_eval, 16000, 250000, 'valid token streams encoded by a reference encoder; non-trivial: has a back-reference'),
        Facet('far', far_streams, c02_far_eval, 160, 2000, 'up to 12000 tokens; non-trivial: more than 4096 bytes'),
        Facet('marker', c02_marker_strategy, c02_marker_eval, 3000, 20000, 'other first bytes; non-trivial: longer than a header'),
    ], 'Valid LZ10 streams are written by a reference encoder from generated tokens; non-trivial: at least one back-reference (or, for the marker facet, more than a header).'),
    'C03': Check('C03', [
        Facet('images', c03_strategy, c03_eval, 10000, 150000, 'operation lists, 1 in 4 as ARM9 file; non-trivial: compressed, or raw with more than 8 bytes'),
        Facet('threshold', near_threshold, c03_eval, 16000, 250000, 'literals with just enough redundancy that compression gains about nothing'),
        Facet('window', c03_big_strategy, c03_eval, 800, 12000, 'after 4000-4400 incompressible bytes'),
        Facet('large', lambda: large_blobs(20000).map(lambda b: ([('blob', b)], False, b'')), c03_eval, 160, 4000, 'blobs up to 81920 bytes'),
        Facet('huge', lambda: huge_blobs().map(lambda b: ([('blob', b)], False, b'')), c03_eval, 16, 200, 'blobs up to 1114112 bytes'),
    ], 'Generated code images are compressed, checked by an independent in-place backwards decompressor and decompressed again; non-trivial: compressed, or stored raw with more than 8 bytes.'),
    'C04': Check('C04', [
        Facet('streams', c04_strategy, c04_eval, 10000, 150000, 'files by a reference encoder; non-trivial: has a back-reference'),
        Facet('far', lambda: st.tuples(far_streams(), st.integers(0, 7)), c04_far_eval, 160, 2000, 'up to 12000 tokens; non-trivial: more than 4096 bytes'),
        Facet('plain', c04_plain_strategy, c04_plain_eval, 12000, 150000, 'data without a consistent trailer, often nearly one; non-trivial: longer than a trailer'),
    ], 'Backwards-LZ files written by a reference encoder from generated tokens, and data without a consistent trailer; non-trivial: a back-reference, or data longer than a trailer.',
       ['Data whose last 0x20 bytes contain a self-consistent trailer by chance is not judged: the format cannot distinguish it.']),
}
