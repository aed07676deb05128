"""C28-C30, C33: 2D graphics, textures, layouts, colours."""
import importlib.util
import random
import struct

from hypothesis import strategies as st

from . import reuse
from .core import Check, Facet, blobs, expand, u8, u16, u32

import ndspy
import ndspy.bnbl as bnbl
import ndspy.bncl as bncl
import ndspy.color as color
import ndspy.graphics2D as g2
import ndspy.model as model
import ndspy.texture as tx

IF, TF = g2.ImageFormat, g2.TilemapFormat
HAVE_PIL = importlib.util.find_spec('PIL') is not None


def tup(c):
    return tuple(c)


def unpack16(v):
    return (v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15 & 1)


def to8(v):
    return v << 3 | v >> 2


def random_colors(r, n):
    return [(r.randrange(32), r.randrange(32), r.randrange(32), r.randrange(2)) for _ in range(n)]


def same_pixels(T, got, want, what):
    """Pixels agree; transparent pixels may have any colour."""
    T.eq(len(got), len(want), f'{what}: number of pixels')
    for i, (g, w) in enumerate(zip(got, want)):
        if tuple(g) != tuple(w) and (g[3] or w[3]):
            T.fail(f'{what}: pixel {i} is {tuple(g)}, want {tuple(w)}')


def same_image(T, make, want, w, h, abits, what):
    if not HAVE_PIL:
        return
    with T.sut(what):
        im = make()
    T.eq(tuple(im.size), (w, h), f'{what}: size')
    data = im.convert('RGBA').tobytes()
    pixels = [tuple(data[i:i + 4]) for i in range(0, len(data), 4)]
    same_pixels(T, pixels, [(to8(r), to8(g), to8(b), (255 if a else 0) if abits == 1 else to8(a)) for r, g, b, a in want], what)


# C28 -----------------------------------------------------------------------


def c28_palette_eval(case, T):
    data = expand(case)
    n = len(data) // 2
    with T.sut('loading a palette'):
        pal = color.loadPalette(data)
    want = [unpack16(v) for v in struct.unpack(f'<{n}H', data)]
    T.eq([tup(c) for c in pal], want, 'palette')
    with T.sut('saving a palette'):
        T.same_bytes(color.savePalette(pal), data, 'saved palette')
        T.same_bytes(color.savePalette(want), data, 'palette saved from plain tuples')
        T.same_bytes(color.savePalette([c[:3] for c in want]), bytes(b | 0x80 if i % 2 else b for i, b in enumerate(data)),
                     'palette saved without alpha values')
    T.nontrivial(n > 1)


def ref_pixels(data, four):
    return [x for b in data for x in (b & 15, b >> 4)] if four else list(data)


def c28_tiles_eval(case, T):
    four, spec = case
    fmt, size = (IF.I4, 32) if four else (IF.I8, 64)
    data = expand(spec)
    data = data[:len(data) // size * size]
    with T.sut('loading tiles'):
        tiles = g2.loadImageTiles(data, fmt)
    T.eq(len(tiles), len(data) // size, 'number of tiles')
    for i, t in enumerate(tiles):
        part = data[i * size:(i + 1) * size]
        want = ref_pixels(part, four)
        T.eq(list(t.pixels), want, f'pixels of tile {i}')
        T.check(t.format is fmt, 'format')
        with T.sut('saving a tile'):
            T.same_bytes(t.save(), part, f'tile {i}')
            T.same_bytes(g2.ImageTile(part, fmt).save(), part, f'tile {i} by itself')
            T.same_bytes(g2.ImageTile.fromPixels(want, fmt).save(), part, f'tile {i} from pixels')
    with T.sut('saving tiles'):
        T.same_bytes(g2.saveImageTiles(tiles), data, 'saved tiles')
    with T.sut('new tile'):
        T.same_bytes(g2.ImageTile(None, fmt).save(), bytes(size), 'new tile')
    if not four and tiles:
        with T.sut('loading tiles in the default format'):
            T.eq([list(t.pixels) for t in g2.loadImageTiles(data)], [list(t.pixels) for t in tiles], 'tiles in the default format')
    if tiles:
        with T.raises('tile data one byte too long', ValueError):
            g2.ImageTile(data[:size] + b'\0', fmt)
        with T.raises('tile data one byte too short', ValueError):
            g2.ImageTile(data[:size - 1], fmt)
        with T.raises('tiles in different formats', ValueError):
            g2.saveImageTiles(tiles + [g2.ImageTile(None, IF.I8 if four else IF.I4)])
        with T.raises('a tile in another format between others', ValueError):
            g2.saveImageTiles(tiles + [g2.ImageTile(None, IF.I8 if four else IF.I4)] + tiles)
    # edit one pixel
    if tiles:
        k = len(data) % len(tiles)
        p = (len(data) * 7 + k) % 64
        tiles[k].pixels[p] ^= 5
        px = ref_pixels(data, four)
        px[64 * k + p] ^= 5
        want = bytes(a | b << 4 for a, b in zip(px[::2], px[1::2])) if four else bytes(px)
        with T.sut('saving edited tiles'):
            T.same_bytes(g2.saveImageTiles(tiles), want, 'edited tiles')
    T.nontrivial(len(tiles) > 1)
    T.label('4 bits', four)


def ref_fields(v, eight):
    if eight:
        return (v & 255, False, False, 0)
    return (v & 0x3FF, bool(v >> 10 & 1), bool(v >> 11 & 1), v >> 12)


def fields(t):
    return (t.tileNum, bool(t.hFlip), bool(t.vFlip), t.paletteNum)


def c28_map_eval(case, T):
    eight, spec = case
    fmt = TF.I8 if eight else TF.I10H1V1P4
    data = expand(spec)
    if not eight:
        data = data[:len(data) // 2 * 2]
    values = list(data) if eight else list(struct.unpack(f'<{len(data) // 2}H', data))
    with T.sut('loading a tilemap'):
        tiles = g2.loadTilemapTiles(data, fmt)
    T.eq(len(tiles), len(values), 'number of tiles')
    for i, (t, v) in enumerate(zip(tiles, values)):
        f = ref_fields(v, eight)
        T.eq(fields(t), f, f'tile {i} ({v:#x})')
        T.eq(t.value, v, f'value of tile {i}')
        T.check(t.format is fmt, 'format')
        with T.sut('making a tile'):
            n = g2.TilemapTile.fromParameters(f[0], fmt, *f[1:])
        T.eq((fields(n), n.value), (f, v), f'tile made from parameters {f}')
        with T.sut('setting the value'):
            n = g2.TilemapTile.fromParameters(0x155, fmt, bool(i & 1), bool(i & 2), 0xA)
            n.value = v
        T.eq(n.value, v, 'value set afterwards')
        if not eight:
            T.eq(fields(n), f, 'fields with value set afterwards')
        if i > 40:
            break
    with T.sut('saving a tilemap'):
        T.same_bytes(g2.saveTilemapTiles(tiles), data, 'saved tilemap')
    if not eight:
        with T.sut('loading in the default format'):
            T.eq([fields(t) for t in g2.loadTilemapTiles(data)], [ref_fields(v, False) for v in values], 'tilemap in the default format')
    if tiles:
        with T.raises('tiles in different formats', ValueError):
            g2.saveTilemapTiles(tiles + [g2.TilemapTile(0, TF.I10H1V1P4 if eight else TF.I8)])
        with T.raises('a tile in another format between others', ValueError):
            g2.saveTilemapTiles(tiles + [g2.TilemapTile(0, TF.I10H1V1P4 if eight else TF.I8)] + tiles)
        # change the fields of one tile
        k = len(data) % len(tiles)
        tiles[k].tileNum = 0x2B if eight else 0x22B
        v = 0x2B
        if not eight:
            tiles[k].hFlip = not tiles[k].hFlip
            tiles[k].paletteNum = 15 - tiles[k].paletteNum
            v = 0x22B | ((values[k] ^ 0xF400) & 0xFC00)
        values[k] = v
        with T.sut('saving an edited tilemap'):
            T.same_bytes(g2.saveTilemapTiles(tiles), bytes(values) if eight else struct.pack(f'<{len(values)}H', *values), 'edited tilemap')
    T.nontrivial(len(tiles) > 1)
    T.label('8 bits', eight)


def ref_tile(pixels, colors, base, hf=False, vf=False):
    out = []
    for y in range(8):
        for x in range(8):
            p = pixels[(7 - y if vf else y) * 8 + (7 - x if hf else x)]
            out.append(colors[base + p][:3] + (1,) if p else (0, 0, 0, 0))
    return out


def ref_grid(tiles, width):
    height = -(-len(tiles) // width)
    out = [(0, 0, 0, 0)] * (width * height * 64)
    for i, t in enumerate(tiles):
        ty, tx_ = divmod(i, width)
        for j, c in enumerate(t):
            y, x = divmod(j, 8)
            out[(ty * 8 + y) * width * 8 + tx_ * 8 + x] = c
    return out, width * 8, height * 8


def c28_render_eval(case, T):
    seed, four, eight, ntiles, nmap, width, palnum, offset, extra = case
    r = random.Random(seed)
    size = 16 if four else 256
    ncol = size * (palnum + 1)
    if not eight:
        maxpal = r.choice([0, 1, 3, 15] if four else [0, 1, 2])
        ncol = max(ncol, size * (maxpal + 1))
    if extra == 1:
        ncol -= size // 2
        limit = size // 2
    else:
        limit = size
    colors = random_colors(r, ncol)
    fmt = IF.I4 if four else IF.I8
    zero = r.choice([0, .1, .5])
    px = [[0 if r.random() < zero else r.randrange(limit) for _ in range(64)] for _ in range(ntiles)]
    with T.sut('making tiles'):
        tiles = [g2.ImageTile.fromPixels(list(p), fmt) for p in px]
    want = [ref_tile(p, colors, palnum * size) for p in px]
    for i, t in enumerate(tiles[:4]):
        with T.sut('rendering a tile'):
            same_pixels(T, t.render(colors, palnum), want[i], f'tile {i}')
        same_image(T, lambda: t.renderAsImage(colors, palnum), want[i], 8, 8, 1, f'image of tile {i}')
    grid, w, h = ref_grid(want, width)
    with T.sut('rendering tiles'):
        same_pixels(T, g2.renderImageTiles(tiles, colors, palnum, width), grid, 'tiles')
    if tiles:
        same_image(T, lambda: g2.renderImageTilesAsImage(tiles, colors, palnum, width), grid, w, h, 1, 'image of tiles')
    if palnum == 0:
        with T.sut('rendering tiles with defaults'):
            same_pixels(T, g2.renderImageTiles(tiles, colors), ref_grid(want, 32)[0], 'tiles with defaults')
    T.eq([list(t.pixels) for t in tiles], px, 'pixels after rendering')
    # tilemap
    if tiles:
        mf = TF.I8 if eight else TF.I10H1V1P4
        top = min(ntiles, 256 - offset if eight else 1024 - offset)
        cells = [(r.randrange(top), r.random() < .5, r.random() < .5, r.choice([0, 0, 1, 15]) if eight else r.randrange(maxpal + 1)) for _ in range(nmap)]
        with T.sut('making a tilemap'):
            m = [g2.TilemapTile.fromParameters(n + offset, mf, hf, vf, p) for n, hf, vf, p in cells]
        # (8-bit maps have neither flips nor palette numbers)
        wantm = [ref_tile(px[n], colors, 0 if eight else p * size, hf and not eight, vf and not eight) for n, hf, vf, p in cells]
        for i, t in enumerate(m[:4]):
            with T.sut('rendering a tilemap tile'):
                same_pixels(T, t.render(tiles, colors, offset), wantm[i], f'tilemap tile {i}')
                same_pixels(T, t.renderSingle(tiles[cells[i][0]], colors), wantm[i], f'tilemap tile {i} by itself')
            same_image(T, lambda: t.renderAsImage(tiles, colors, offset), wantm[i], 8, 8, 1, f'image of tilemap tile {i}')
            same_image(T, lambda: t.renderSingleAsImage(tiles[cells[i][0]], colors), wantm[i], 8, 8, 1, f'image of tilemap tile {i} by itself')
        grid, w, h = ref_grid(wantm, width)
        with T.sut('rendering a tilemap'):
            same_pixels(T, g2.renderTilemapTiles(m, tiles, colors, width, offset), grid, 'tilemap')
        if m:
            same_image(T, lambda: g2.renderTilemapTilesAsImage(m, tiles, colors, width, offset), grid, w, h, 1, 'image of tilemap')
            if offset:
                with T.raises('tile number below the offset', ValueError):
                    g2.TilemapTile.fromParameters(offset - 1, mf).render(tiles, colors, offset)
                if HAVE_PIL:
                    with T.raises('image of a tile number below the offset', ValueError):
                        g2.TilemapTile.fromParameters(offset - 1, mf).renderAsImage(tiles, colors, offset)
            elif True:
                with T.sut('rendering a tilemap without offset'):
                    same_pixels(T, g2.renderTilemapTiles(m, tiles, colors, width), grid, 'tilemap')
        T.label('flipped', any(c[1] or c[2] for c in cells) and not eight)
        T.label('incomplete row', nmap % width)
        T.nontrivial(nmap > 1)
    T.label('4-bit tiles', four)
    T.label('palette number', palnum)
    T.label('tile number offset', offset)


def c28_render_strategy():
    return st.tuples(st.integers(0, 10**6), st.booleans(), st.booleans(), st.one_of(st.integers(0, 6), st.integers(1, 20)), st.integers(0, 12),
                     st.one_of(st.integers(1, 4), st.sampled_from([5, 8, 32, 33])), st.sampled_from([0, 0, 0, 1, 2, 5]),
                     st.sampled_from([0, 0, 1, 3, 200]), st.integers(0, 2))


def c28_large_strategy():
    return st.tuples(st.integers(0, 10**6), st.booleans(), st.booleans(), st.sampled_from([1, 130, 300, 600, 1000]), st.integers(60, 1100),
                     st.sampled_from([1, 16, 32, 64, 300]), st.sampled_from([0, 0, 5]), st.sampled_from([0, 0, 20]), st.integers(0, 2))


def c28_at_eval(case, T):
    n, width, ops = case
    l = list(range(n))
    mod = list(l)
    for i, (x, y, put) in enumerate(ops):
        inside = 0 <= x < width and y >= 0 and y * width + x < n
        kw = {} if width == 32 else {'width': width}
        with T.sut('tileAt'):
            got = g2.tileAt(l, x, y, **kw)
        T.eq(got, mod[y * width + x] if inside else None, f'tileAt({x}, {y}) in {n} tiles of width {width}')
        if put:
            with T.sut('putTile'):
                res = g2.putTile(l, x, y, -i - 1, **kw)
            T.eq(res, inside, f'result of putTile({x}, {y}) in {n} tiles of width {width}')
            if inside:
                mod[y * width + x] = -i - 1
        T.eq(l, mod, 'list')
        T.label('inside', inside)
        T.nontrivial(inside)


def c28_at_strategy():
    def ops(nw):
        n, w = nw
        co = st.tuples(st.one_of(st.integers(-2, w + 1), st.integers(0, w - 1)), st.integers(-2, n // w + 2), st.booleans())
        return st.tuples(st.just(n), st.just(w), st.lists(co, min_size=1, max_size=6))
    return st.tuples(st.integers(0, 300), st.one_of(st.integers(1, 9), st.sampled_from([16, 32, 32, 40]))).flatmap(ops)


# C29 -----------------------------------------------------------------------
# A texture is (name, unk00, unk02, flags, width exponent, height exponent, format, color 0, mode, unk04, seed); a palette is
# (name, unk00, unk02, unkHeader02, 4-colour groups, seed). A texture file is ([six unknown values], textures, palettes).

BPP = [0, 8, 2, 4, 8, 2, 8, 16]


def noise(seed, n):
    return random.Random(seed).randbytes(n)


def tex_data(t):
    n = (8 << t[4]) * (8 << t[5]) * BPP[t[6]] // 8
    d = noise(t[10], n + n // 2)
    return d[:n], (d[n:] if t[6] == 5 else b'')


def pal_data(p):
    return noise(p[5], 8 * p[4])


def tex_params(t):
    return t[3] | t[4] << 4 | t[5] << 7 | t[6] << 10 | t[7] << 13 | t[8] << 14


def names16():
    return st.one_of(st.sampled_from(['a', 'a', 'texture', 'sixteen_bytes_16', '']),
                     st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=16))


def textures(top=2):
    e = st.integers(0, top)
    return st.tuples(names16(), u16(), u16(), st.integers(0, 15), e, e, st.integers(0, 7), st.integers(0, 1), st.integers(0, 3), u32(), st.integers(0, 99))


def palettes():
    return st.tuples(names16(), u16(), u16(), u16(), st.one_of(st.integers(1, 4), st.sampled_from([8, 64])), st.integers(0, 99))


def unks():
    return st.tuples(u32(), u32(), u32(), u32(), u32(), u16())


def texfiles(top=2):
    return st.tuples(unks(), st.lists(textures(top), max_size=4), st.lists(palettes(), max_size=4))


def name_bytes(n):
    return n.encode('latin-1').ljust(16, b'\0')


def info_block(entries, size):
    n = len(entries)
    d = struct.pack('<HHI', 8, 12 + 4 * n, 0x17F) + b''.join(struct.pack('<HH', a, b) for _, a, b, _ in entries)
    d += struct.pack('<HH', size, 4 + n * size) + b''.join(e for *_, e in entries) + b''.join(name_bytes(x) for x, *_ in entries)
    return struct.pack('<BBH', 0, n, len(d) + 4) + d


def ref_tex0(f, layout=0):
    """layout 0 is the canonical one; others reorder, share or spread data."""
    (u08, u10, u18, u20, u2c, u32_), texs, pals = f
    r = random.Random(layout)
    tdata, c1, c2, pdata = bytearray(), bytearray(), bytearray(), bytearray()
    toffs, poffs = {}, {}
    order = list(range(len(texs)))
    porder = list(range(len(pals)))
    if layout:
        r.shuffle(order)
        r.shuffle(porder)
    for i in order:
        d1, d2 = tex_data(texs[i])
        if layout and r.random() < .3:
            tdata += noise(layout, 8)
            c1 += noise(layout, 16)
            c2 += noise(layout, 8)
        if texs[i][6] == 5:
            toffs[i] = len(c1)
            c1 += d1
            c2 += d2
        else:
            at = tdata.find(d1) if layout % 2 else -1
            if at < 0 or at % 8:
                at = len(tdata)
                tdata += d1
            toffs[i] = at
    seen = {}
    for i in porder:
        d = pal_data(pals[i])
        if layout % 2 and d in seen:
            poffs[i] = seen[d]
            continue
        poffs[i] = seen[d] = len(pdata)
        pdata += d
    tinfo = info_block([(t[0], t[1], t[2], struct.pack('<HHI', toffs[i] >> 3, tex_params(t), t[9])) for i, t in enumerate(texs)], 8)
    pinfo = info_block([(p[0], p[1], p[2], struct.pack('<HH', poffs[i] >> 3, p[3])) for i, p in enumerate(pals)], 4)
    base = 0x3C + len(tinfo) + len(pinfo)
    parts = [bytes(tdata), bytes(c1), bytes(c2), bytes(pdata)]
    offs = [base]
    for p in parts[:3]:
        offs.append(offs[-1] + len(p))
    body = tinfo + pinfo + b''.join(parts)
    return struct.pack('<4sIIHH3IHH4IHH2I', b'TEX0', 0x3C + len(body), u08, len(tdata) >> 3, 0x3C, u10, offs[0], u18, len(c1) >> 3, 0x3C,
                       u20, offs[1], offs[2], u2c, len(pdata) >> 3, u32_, 0x3C + len(tinfo), offs[3]) + body


def ref_nsbtx(f, layout=0):
    t = ref_tex0(f, layout)
    return struct.pack('<4sHHIHHI', b'BTX0', 0xFEFF, 1, 0x14 + len(t), 0x10, 1, 0x14) + t


def read_info(d, o, size, T):
    z, n, total = struct.unpack_from('<BBH', d, o)
    T.eq(struct.unpack_from('<HHI', d, o + 4), (8, 12 + 4 * n, 0x17F), 'info block header')
    e = o + 12 + 4 * n
    T.eq(struct.unpack_from('<HH', d, e), (size, 4 + n * size), 'info block entry sizes')
    out = []
    for i in range(n):
        a, b = struct.unpack_from('<HH', d, o + 12 + 4 * i)
        name = d[e + 4 + n * size + 16 * i:][:16]
        out.append((name.rstrip(b'\0').decode('latin-1'), a, b, d[e + 4 + size * i:][:size]))
    T.eq(total, 4 + 8 + 4 * n + 4 + (size + 16) * n, 'info block size')
    return out


def judge_tex0(d, f, T):
    (magic, size, u08, tlen, toff, u10, tdoff, u18, clen, cinfo, u20, c1off, c2off, u2c, plen, u32_, poff, pdoff) = \
        struct.unpack_from('<4sIIHH3IHH4IHH2I', d)
    T.eq((magic, size), (b'TEX0', len(d)), 'TEX0 header')
    T.eq((u08, u10, u18, u20, u2c, u32_), f[0], 'values in the TEX0 header')
    used = [0, 0, 0]
    for i, ((name, a, b, e), t) in enumerate(zip(read_info(d, toff, 8, T), f[1], strict=False)):
        o, params, u04 = struct.unpack('<HHI', e)
        T.eq((name, a, b, params, u04), (*t[:3], tex_params(t), t[9]), f'file: texture {i}')
        o <<= 3
        d1, d2 = tex_data(t)
        p = (c1off if t[6] == 5 else tdoff) + o
        T.check(d[p:p + len(d1)] == d1, f'file: data of texture {i}')
        if t[6] == 5:
            p = c2off + o // 2
            T.check(d[p:p + len(d2)] == d2, f'file: second data of texture {i}')
            used[1] = max(used[1], o + len(d1))
        else:
            used[0] = max(used[0], o + len(d1))
    T.eq(len(read_info(d, toff, 8, T)), len(f[1]), 'file: number of textures')
    pals = read_info(d, poff, 4, T)
    T.eq(len(pals), len(f[2]), 'file: number of palettes')
    for i, ((name, a, b, e), p) in enumerate(zip(pals, f[2])):
        o, h = struct.unpack('<HH', e)
        T.eq((name, a, b, h), p[:4], f'file: palette {i}')
        c = pal_data(p)
        at = pdoff + (o << 3)
        T.check(d[at:at + len(c)] == c, f'file: data of palette {i}')
        used[2] = max(used[2], (o << 3) + len(c))
    T.check(used[0] <= tlen << 3 and used[1] <= clen << 3 and used[2] <= plen << 3, 'file: data sizes')
    T.check(tdoff + (tlen << 3) <= len(d) and pdoff + (plen << 3) <= len(d), 'file: data ends')


def make_tex(t, flags):
    d1, d2 = tex_data(t)
    if not flags:
        return tx.Texture(t[1], t[2], tex_params(t), t[9], d1, d2)
    return tx.Texture.fromFlags(t[1], t[2], bool(t[3] & 1), bool(t[3] & 2), bool(t[3] & 4), bool(t[3] & 8), 8 << t[4], 8 << t[5], tx.TextureFormat(t[6]),
                                bool(t[7]), tx.TextureCoordinatesTransformationMode(t[8]), t[9], d1, d2)


def make_pal(p, flags):
    if not flags:
        return tx.Palette(p[1], p[2], p[3], pal_data(p))
    return tx.Palette.fromColors(p[1], p[2], p[3], [unpack16(v) for v in struct.unpack(f'<{4 * p[4]}H', pal_data(p))])


def judge_tex(o, t, T, what):
    T.eq((o.unk00, o.unk02, o.unk04), (t[1], t[2], t[9]), f'{what}: values')
    T.eq(tuple(map(bool, (o.repeatS, o.repeatT, o.mirrorS, o.mirrorT, o.isColor0Transparent))),
         (bool(t[3] & 1), bool(t[3] & 2), bool(t[3] & 4), bool(t[3] & 8), bool(t[7])), f'{what}: flags')
    T.eq((o.width, o.height, tuple(o.size), int(o.format), int(o.coordsTransformationMode)),
         (8 << t[4], 8 << t[5], (8 << t[4], 8 << t[5]), t[6], t[8]), f'{what}: parameters')
    d1, d2 = tex_data(t)
    T.same_bytes(o.data1, d1, f'{what}: data')
    T.same_bytes(o.data2, d2, f'{what}: second data')
    T.eq(o.format.bitsPerPixel1() * o.width * o.height // 8, len(d1), f'{what}: data size by the format')
    T.eq(o.format.bitsPerPixel2() * o.width * o.height // 8, len(d2), f'{what}: second data size by the format')


def judge_texfile(o, f, T, what, prefix='unk'):
    T.eq(tuple(getattr(o, prefix + x) for x in ('08', '10', '18', '20', '2C', '32')), f[0], f'{what}: values')
    T.eq([n for n, _ in o.textures], [t[0] for t in f[1]], f'{what}: texture names')
    T.eq([n for n, _ in o.palettes], [p[0] for p in f[2]], f'{what}: palette names')
    for i, ((_, x), t) in enumerate(zip(o.textures, f[1])):
        judge_tex(x, t, T, f'{what}: texture {i}')
    for i, ((_, x), p) in enumerate(zip(o.palettes, f[2])):
        T.eq((x.unk00, x.unk02, x.unkHeader02), p[1:4], f'{what}: values of palette {i}')
        T.eq([tup(c) for c in x.colors], [unpack16(v) for v in struct.unpack(f'<{4 * p[4]}H', pal_data(p))], f'{what}: colours of palette {i}')


def make_texfile(f, flags):
    return tx.NSBTX.fromTexturesAndPalettes(*f[0], [(t[0], make_tex(t, flags)) for t in f[1]], [(p[0], make_pal(p, flags)) for p in f[2]])


def c29_files_eval(case, T):
    f, flags, layout, edits = case
    ref = ref_nsbtx(f)
    with T.sut('saving'):
        o = make_texfile(f, flags)
        out = o.save()
    judge_texfile(o, f, T, 'after saving')
    T.eq(out[:0x14], ref[:0x14], 'file header')
    judge_tex0(out[0x14:], f, T)
    with T.sut('loading'):
        judge_texfile(tx.NSBTX(out), f, T, 'loaded')
    # canonical file
    with T.sut('loading a canonical file'):
        o = tx.NSBTX(ref)
    judge_texfile(o, f, T, 'loaded canonical file')
    with T.sut('saving a canonical file'):
        T.same_bytes(o.save(), ref, 'canonical file')
    # other layout
    other = ref_nsbtx(f, layout)
    with T.sut('loading a file with other data layout'):
        o = tx.NSBTX(other)
    judge_texfile(o, f, T, 'loaded file with other layout')
    # edits
    texs, pals = list(f[1]), list(f[2])
    for op, i, new in edits:
        if op == 'tex':
            i %= len(texs) + 1
            o.textures.insert(i, (new[0][0], make_tex(new[0], flags)))
            texs.insert(i, new[0])
        elif op == 'pal':
            i %= len(pals) + 1
            o.palettes.insert(i, (new[1][0], make_pal(new[1], flags)))
            pals.insert(i, new[1])
        elif op == 'deltex' and texs:
            i %= len(texs)
            del texs[i], o.textures[i]
        elif op == 'delpal' and pals:
            i %= len(pals)
            del pals[i], o.palettes[i]
        elif op == 'resize' and texs:
            i %= len(texs)
            t = texs[i]
            t = (*t[:4], *new[0][4:7], *t[7:10], new[0][10])
            x = o.textures[i][1]
            x.size = 8 << t[4], 8 << t[5]
            x.format = tx.TextureFormat(t[6])
            x.data1, x.data2 = tex_data(t)
            texs[i] = t
        elif op == 'colors' and pals:
            i %= len(pals)
            p = (*pals[i][:4], *new[1][4:])
            o.palettes[i][1].colors = make_pal(p, flags).colors
            pals[i] = p
    f2 = (f[0], texs, pals)
    with T.sut('saving edited'):
        out = o.save()
    judge_tex0(out[0x14:], f2, T)
    with T.sut('loading edited'):
        judge_texfile(tx.NSBTX(out), f2, T, 'edited')
    T.nontrivial(f[1] and f[2])
    T.label('same palette values twice', len({p[:4] for p in f[2]}) < len(f[2]))
    T.label('edited', edits)
    T.label('compressed texture', any(t[6] == 5 for t in f[1]))


def c29_files_strategy():
    new = st.tuples(textures(), palettes())
    ed = st.tuples(st.sampled_from(['tex', 'pal', 'deltex', 'delpal', 'resize', 'colors']), st.integers(0, 5), new)
    return st.tuples(texfiles(), st.booleans(), st.integers(1, 1000), st.lists(ed, max_size=3))


def c29_large_eval(case, T):
    f = case
    with T.sut('saving'):
        out = make_texfile(f, False).save()
    judge_tex0(out[0x14:], f, T)
    with T.sut('loading'):
        o = tx.NSBTX(out)
    judge_texfile(o, f, T, 'loaded')
    with T.sut('saving again'):
        T.same_bytes(o.save(), ref_nsbtx(f), 'saved again')
    # entries without names
    with T.sut('saving without names'):
        o.textures = [(None if i % 2 else n, x) for i, (n, x) in enumerate(o.textures)]
        o.palettes = [(n if i % 2 else None, x) for i, (n, x) in enumerate(o.palettes)]
        out = o.save()
    unnamed = ref_nsbtx((f[0], [('' if i % 2 else t[0], *t[1:]) for i, t in enumerate(f[1])], [(p[0] if i % 2 else '', *p[1:]) for i, p in enumerate(f[2])]))
    T.same_bytes(out, unnamed, 'saved without names')
    n = sum(len(tex_data(t)[0]) for t in f[1])
    T.nontrivial(n > 0x10000 or len(f[1]) > 100)
    T.label('more than 64 KB', n > 0x10000)
    T.label('more than 100 textures', len(f[1]) > 100)


@st.composite
def c29_large_strategy(draw):
    r = random.Random(draw(st.integers(0, 10**6)))
    many = draw(st.booleans())

    def name():
        return ''.join(chr(r.randrange(1, 256)) for _ in range(r.randrange(17)))

    texs = []
    total = [0, 0]
    want = r.randrange(100, 256) if many else r.randrange(2, 9)
    while len(texs) < want:
        e = (0, 0) if many else (r.randrange(8), r.randrange(8))
        t = (name(), r.getrandbits(16), r.getrandbits(16), r.randrange(16), *e, r.randrange(8), r.randrange(2), r.randrange(4), r.getrandbits(32), len(texs))
        size = (8 << t[4]) * (8 << t[5]) * BPP[t[6]] // 8
        k = t[6] == 5
        if total[k] + size >= 0x80000:
            want -= 1
            continue
        total[k] += size
        texs.append(t)
    pals = [(name(), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.randrange(1, 65), i) for i in range(r.randrange(200 if many else 9))]
    return ((*(r.getrandbits(32) for _ in range(5)), r.getrandbits(16)), texs, pals)


# Models: an MDL0 block with all the tables that are parsed.


def dict_block(r, entries):
    """A name table with 4-byte entries."""
    n = len(entries)
    d = struct.pack('<HHI', 8, 12 + 4 * n, 0x17F) + r.randbytes(4 * n) + struct.pack('<HH', 4, 4 + 4 * n) + b''.join(entries)
    d += b''.join(name_bytes('n%d' % r.randrange(99)) for _ in entries)
    return struct.pack('<BBH', 0, n, len(d) + 4) + d


PARAMS = {0x00: 0, 0x10: 1, 0x11: 0, 0x12: 1, 0x13: 1, 0x14: 1, 0x15: 0, 0x16: 16, 0x17: 12, 0x18: 16, 0x19: 12, 0x1A: 9, 0x1B: 3, 0x1C: 3, 0x20: 1,
          0x21: 1, 0x22: 1, 0x23: 2, 0x24: 1, 0x25: 1, 0x26: 1, 0x27: 1, 0x28: 1, 0x29: 1, 0x2A: 1, 0x2B: 1, 0x30: 1, 0x31: 1, 0x32: 1, 0x33: 1, 0x34: 32,
          0x40: 1, 0x41: 0, 0x50: 1, 0x60: 1, 0x70: 3, 0x71: 2, 0x72: 1}


def display_list(r):
    out = b''
    ids = [i for i in PARAMS if i != 0x72]
    for _ in range(r.randrange(4)):
        c = [r.choice(ids) for _ in range(4)]
        out += bytes(c) + r.randbytes(4 * sum(PARAMS[x] for x in c))
    return out


def ref_mdl0(names, seed):
    r = random.Random(seed)
    n = len(names)
    bodies = []
    for _ in names:
        mats = dict_block(r, [r.randbytes(4) for _ in range(r.randrange(3))]) + dict_block(r, [r.randbytes(4) for _ in range(r.randrange(3))]) \
            + dict_block(r, [r.randbytes(4) for _ in range(r.randrange(3))]) + r.randbytes(4 * r.randrange(9))
        bones = r.randbytes(4 * r.randrange(5))
        np = r.randrange(3)
        head = len(dict_block(random.Random(0), [bytes(4)] * np))
        lists = [display_list(r) for _ in range(np)]
        offs, at = [], head
        defs = b''
        for l in lists:
            offs.append(struct.pack('<I', at))
            defs += struct.pack('<4I', r.getrandbits(32), r.getrandbits(32), 16, len(l)) + l
            at += 16 + len(l)
        poly = dict_block(r, offs) + defs
        mo = 0x40 + len(bones)
        po = mo + 4 + len(mats)
        size = po + len(poly)
        bodies.append(struct.pack('<5I', size, 0x40, mo, po, size) + r.randbytes(0x2C) + bones + r.randbytes(4) + mats + poly)
    head = 12 + 8 + 4 * n + 4 + 20 * n
    d = struct.pack('<HHI', 8, 12 + 4 * n, 0x17F) + r.randbytes(4 * n) + struct.pack('<HH', 4, 4 + 4 * n)
    at = head
    for b in bodies:
        d += struct.pack('<I', at)
        at += len(b)
    d += b''.join(name_bytes(x) for x in names) + b''.join(bodies)
    d = struct.pack('<BBH', 0, n, head - 8) + d
    return b'MDL0' + struct.pack('<I', len(d) + 8) + d


def ref_nsbmd(blocks):
    at = 0x10 + 4 * len(blocks)
    offs = []
    for b in blocks:
        offs.append(at)
        at += len(b)
    return struct.pack('<4sHHIHH', b'BMD0', 0xFEFF, 2, at, 0x10, len(blocks)) + struct.pack(f'<{len(offs)}I', *offs) + b''.join(blocks)


def c29_models_eval(case, T):
    names, seed, f, g, swap, layout = case
    mdl = ref_mdl0(names, seed)
    blocks = [mdl, ref_tex0(f, layout)]
    data = ref_nsbmd(blocks[::-1] if swap else blocks)
    canonical = ref_nsbmd([mdl, ref_tex0(f)])
    with T.sut('loading a model'):
        m = model.NSBMD(data)
    judge_texfile(m, f, T, 'model', 'texUnk')
    T.eq([n for n, _ in m.models], list(names), 'names of models')
    with T.sut('exporting textures'):
        e = m.exportNSBTX()
        out = e.save()
    judge_texfile(e, f, T, 'exported')
    judge_tex0(out[0x14:], f, T)
    with T.sut('saving a model'):
        out = m.save()
    if not layout:
        T.same_bytes(out, canonical, 'saved model')
    T.eq(struct.unpack_from('<4sHHIHH', out), (b'BMD0', 0xFEFF, 2, len(out), 0x10, 2), 'model header')
    offs = struct.unpack_from('<2I', out, 0x10)
    T.same_bytes(out[offs[0]:offs[1]], mdl, 'model data')
    judge_tex0(out[offs[1]:], f, T)
    # import
    with T.sut('importing textures'):
        m.importNSBTX(tx.NSBTX(ref_nsbtx(g)))
        out = m.save()
    judge_texfile(m, g, T, 'model with imported textures', 'texUnk')
    T.same_bytes(out, ref_nsbmd([mdl, ref_tex0(g)]), 'saved model with imported textures')
    with T.sut('loading a model again'):
        m2 = model.NSBMD(out)
    judge_texfile(m2, g, T, 'loaded again', 'texUnk')
    T.eq([n for n, _ in m2.models], list(names), 'names of models loaded again')
    # model without textures
    with T.sut('loading a model without textures'):
        m = model.NSBMD(ref_nsbmd([mdl]))
        m.importNSBTX(tx.NSBTX(ref_nsbtx(g)))
        T.same_bytes(m.save(), ref_nsbmd([mdl, ref_tex0(g)]), 'model without textures after import')
    T.nontrivial(names and (f[1] or g[1]))


def c29_models_strategy():
    return st.tuples(st.lists(names16(), max_size=3), st.integers(0, 10**6), texfiles(1), texfiles(1), st.booleans(), st.one_of(st.just(0), st.integers(1, 1000)))


def ref_render(t, d1, d2, colors):
    w, h, fmt = 8 << t[4], 8 << t[5], t[6]
    out = []
    for y in range(h):
        for x in range(w):
            i = y * w + x
            if fmt == 1:
                v = d1[i]
                out.append(colors[v & 31][:3] + ((v >> 5) * 4 + (v >> 5) // 2,))
            elif fmt in (2, 3, 4):
                b = BPP[fmt]
                v = d1[i * b // 8] >> (i * b % 8) & ((1 << b) - 1)
                out.append(colors[v][:3] + (0 if v == 0 and t[7] else 31,))
            elif fmt == 6:
                v = d1[i]
                out.append(colors[v & 7][:3] + (v >> 3,))
            elif fmt == 7:
                v = d1[2 * i] | d1[2 * i + 1] << 8
                out.append(unpack16(v)[:3] + (31 * (v >> 15),))
            else:
                blk = y // 4 * (w // 4) + x // 4
                e = d2[2 * blk] | d2[2 * blk + 1] << 8
                v = d1[4 * blk + y % 4] >> 2 * (x % 4) & 3
                base, mode = (e & 0x3FFF) * 2, e >> 14
                c = [colors[base + k][:3] if base + k < len(colors) else None for k in range(4)]

                def mix(a, b):
                    return tuple((p * a + q * b) // (a + b) for p, q in zip(c[0], c[1]))
                if v < 2:
                    out.append(c[v] + (31,))
                elif v == 2:
                    out.append(((c[2], mix(1, 1), c[2], mix(5, 3))[mode]) + (31,))
                elif mode < 2:
                    out.append((0, 0, 0, 0))
                else:
                    out.append((c[3] if mode == 2 else mix(3, 5)) + (31,))
    return out


def c29_render_eval(case, T):
    t, ints, seed = case
    r = random.Random(seed)
    d1, d2 = tex_data(t)
    # (the hardware has room for palettes of any size that the offsets can reach)
    ncol = {1: 32, 2: 4, 3: 16, 4: 256, 5: 32768 if seed % 32 == 5 else 8 + 2 * r.randrange(60), 6: 8, 7: 0}[t[6]]
    colors = random_colors(r, ncol)
    if t[6] == 5:
        # palette offsets inside of the palette
        top = (ncol - 4) // 2 + 1
        d2 = b''.join(struct.pack('<H', (v & 0xC000) | (v & 0x3FFF) % top) for v in struct.unpack(f'<{len(d2) // 2}H', d2))
    with T.sut('making a texture'):
        x = make_tex(t, False)
        x.data2 = d2
    pal = None if t[6] == 7 else tx.Palette.fromColors(0, 0, 0, colors)
    want = ref_render(t, d1, d2, colors)
    with T.sut('rendering a texture'):
        same_pixels(T, x.render(pal), want, f'texture in format {t[6]}')
        cols = None if pal is None else [c[0] | c[1] << 5 | c[2] << 10 | c[3] << 15 for c in colors] if ints else colors
        same_pixels(T, tx.renderTextureData(d1, d2, x.format, x.width, x.height, cols, bool(t[7])), want, f'texture data in format {t[6]}')
    same_image(T, lambda: x.renderAsImage(pal), want, x.width, x.height, 5, f'image of texture in format {t[6]}')
    T.same_bytes(x.data1, d1, 'data after rendering')
    if pal is not None:
        T.eq([tup(c) for c in pal.colors], colors, 'palette after rendering')
    T.nontrivial()
    T.label(f'format {t[6]}')
    T.label('not square', t[4] != t[5])
    T.label('large palette', ncol == 32768)


def c29_render_strategy():
    e = st.sampled_from([0, 0, 0, 1, 1, 2])
    t = st.tuples(st.just('t'), st.just(0), st.just(0), st.integers(0, 15), e, e, st.sampled_from([1, 2, 3, 4, 5, 5, 5, 6, 7]), st.integers(0, 1), st.just(0),
                  st.just(0), st.integers(0, 10**6))
    return st.tuples(t, st.booleans(), st.integers(0, 10**6))


def c29_large_render_strategy():
    e = st.sampled_from([(7, 0), (0, 7), (6, 1), (1, 6), (5, 2), (2, 5), (4, 4), (3, 6)])
    t = st.builds(lambda a, e, f, z, s: ('t', 0, 0, a, *e, f, z, 0, 0, s), st.integers(0, 15), e, st.sampled_from([1, 2, 3, 4, 5, 5, 5, 6, 7]), st.integers(0, 1), st.integers(0, 10**6))
    return st.tuples(t, st.booleans(), st.integers(0, 10**6))


def c29_many_models_eval(case, T):
    n, seed, *rest = case
    r = random.Random(seed)
    c29_models_eval(([''.join(chr(r.randrange(1, 256)) for _ in range(r.randrange(17))) for _ in range(n)], seed, *rest), T)


# C30 -----------------------------------------------------------------------

AL = ndspy.Alignment
HAL = [AL.LEFT, AL.H_CENTER, AL.RIGHT]
VAL = [AL.TOP, AL.V_CENTER, AL.BOTTOM]


def topleft(x, y, w, h, ha, va):
    return (x - [0, (w + 1) // 2, w][ha], y - [0, (h + 1) // 2, h][va])


class Layout:
    def __init__(self, touch):
        self.touch = touch
        self.size = 6 if touch else 8
        self.magic = b'JNBL' if touch else b'JNCL'

    def record(self, e):
        x, y, ha, va = e[:4]
        return struct.pack('<HH', x | ha << 12, y | va << 12) + (struct.pack('<BB', *e[4:6]) if self.touch else struct.pack('<I', e[4]))

    def file(self, unk, es):
        return self.magic + struct.pack('<HH', unk, len(es)) + b''.join(map(self.record, es))

    def make(self, e):
        al = HAL[e[2]] | VAL[e[3]]
        return bnbl.BNBLTouchArea(e[0], e[1], e[4], e[5], al) if self.touch else bncl.BNCLImagePosition(e[0], e[1], al, e[4])

    def load(self, d):
        return (bnbl.BNBL if self.touch else bncl.BNCL)(d)

    def new(self, es, unk):
        l = [self.make(e) for e in es]
        if self.touch:
            return bnbl.BNBL.fromTouchAreas(l, unk)
        return bncl.BNCL.fromImagePositions(l, unk)

    def entries(self, o):
        return o.touchAreas if self.touch else o.imagePositions

    def judge(self, o, unk, es, T, what):
        T.eq(o.unk04, unk, f'{what}: unk04')
        T.eq([(x.x, x.y, x.alignment) + ((x.width, x.height) if self.touch else (x.imageID,)) for x in self.entries(o)],
             [(e[0], e[1], HAL[e[2]] | VAL[e[3]]) + tuple(e[4:] if self.touch else e[4:5]) for e in es], f'{what}: entries')
        if self.touch:
            for x, e in zip(o.touchAreas, es):
                with T.sut('getTopLeft'):
                    T.eq(tuple(x.getTopLeft()), topleft(e[0], e[1], e[4], e[5], e[2], e[3]), f'{what}: top left of {e}')


def c30_eval(case, T):
    touch, unk, es, edits = case
    L = Layout(touch)
    ref = L.file(unk, es)
    with T.sut('saving'):
        o = L.new(es, unk)
        T.same_bytes(o.save(), ref, 'saved file')
    L.judge(o, unk, es, T, 'after saving')
    with T.sut('loading'):
        o = L.load(ref)
    L.judge(o, unk, es, T, 'loaded')
    with T.sut('saving the loaded file'):
        T.same_bytes(o.save(), ref, 'file loaded and saved')
    es = list(es)
    for i, e, how in edits:
        if how == 'add':
            i %= len(es) + 1
            es.insert(i, e)
            L.entries(o).insert(i, L.make(e))
        elif es and how == 'delete':
            i %= len(es)
            del es[i], L.entries(o)[i]
        elif es:
            i %= len(es)
            x = L.entries(o)[i]
            x.x, x.y, x.alignment = e[0], e[1], HAL[e[2]] | VAL[e[3]]
            if touch:
                x.width, x.height = e[4:]
            else:
                x.imageID = e[4]
            es[i] = e
    with T.sut('saving edited'):
        T.same_bytes(o.save(), L.file(unk, es), 'edited file')
    for e in es[:3]:
        with T.sut('single entry'):
            T.same_bytes(L.make(e).save(), L.record(e), 'single entry')
            n = (bnbl.BNBLTouchArea if touch else bncl.BNCLImagePosition).fromData(L.record(e))
            T.same_bytes(n.save(), L.record(e), 'single entry loaded and saved')
    # an alignment of 3 means the same as 0
    three = bytearray(L.file(unk, es))
    for i, e in enumerate(es):
        if not e[2] and i % 2:
            three[8 + i * L.size + 1] |= 0x30
        if not e[3] and i % 3:
            three[8 + i * L.size + 3] |= 0x30
    with T.sut('loading with alignments of 3'):
        L.judge(L.load(bytes(three)), unk, es, T, 'loaded with alignments of 3')
    T.nontrivial(len(es) > 1)
    T.label('touch areas', touch)
    T.label('centred', any(e[2] == 1 or e[3] == 1 for e in es))
    T.label('opposite corner', any(e[2] == 2 or e[3] == 2 for e in es))


def c30_entry():
    co = st.one_of(st.integers(0, 0xFFF), st.integers(0, 255), st.sampled_from([0xFFF, 0x800, 0x100]))
    return st.tuples(co, co, st.integers(0, 2), st.integers(0, 2), u8(), u8())


def c30_strategy():
    def fix(c):
        touch, unk, es, ed, big = c
        if not touch:
            def conv(e):
                return (*e[:4], e[4] | e[5] << 8 | big << 16)
            es, ed = [conv(e) for e in es], [(i, conv(e), h) for i, e, h in ed]
        return (touch, unk, es, ed)
    ed = st.tuples(st.integers(0, 9), c30_entry(), st.sampled_from(['add', 'delete', 'set', 'set']))
    return st.tuples(st.booleans(), u16(), st.lists(c30_entry(), max_size=8), st.lists(ed, max_size=3), st.one_of(st.just(0), u16())).map(fix)


def c30_many_eval(case, T):
    touch, n, seed = case
    r = random.Random(seed)
    es = [(r.randrange(4096), r.randrange(4096), r.randrange(3), r.randrange(3), r.randrange(256), r.randrange(256)) for _ in range(n)]
    if not touch:
        es = [(*e[:4], r.getrandbits(32)) for e in es]
    L = Layout(touch)
    ref = L.file(seed & 0xFFFF, es)
    with T.sut('loading and saving many entries'):
        o = L.load(ref)
        L.judge(o, seed & 0xFFFF, es, T, 'loaded')
        T.same_bytes(o.save(), ref, 'saved')
    T.nontrivial(n > 255)


# C33 -----------------------------------------------------------------------

CF = color.ColorFormat
FORMATS = [CF.INT_16, CF.BYTES_2, CF.TUPLE_RGB5A1, CF.TUPLE_RGB5A5, CF.TUPLE_RGBA255]
NEAREST = []
for _x in range(256):
    _d = min(abs(to8(v) - _x) for v in range(32))
    NEAREST.append({v for v in range(32) if abs(to8(v) - _x) == _d})


def as_format(v, f):
    r, g, b, a = unpack16(v)
    return [v, bytes([v & 255, v >> 8]), (r, g, b, a), (r, g, b, 31 * a), (to8(r), to8(g), to8(b), 255 * a)][f]


def same_color(T, got, want, what):
    if isinstance(want, tuple):
        T.check((got.r, got.g, got.b, got.a) == tuple(got), f'{what}: {got!r}: names of components')
        got = tuple(got)
    if got != want or isinstance(got, bytes) != isinstance(want, bytes):
        T.fail(f'{what}: {got!r}, want {want!r}')


def c33_int_eval(case, T):
    first = case
    with T.sut('preparing tables'):
        color.prepareLUTs()
    for v in range(first, 0x10000, 16):
        forms = [as_format(v, f) for f in range(5)]
        r, g, b, a = forms[2]
        R, G, B, A = forms[4]
        with T.sut(f'converting {v:#x}'):
            for i in range(5):
                for j in range(5):
                    same_color(T, color.convert(forms[i], FORMATS[i], FORMATS[j]), forms[j], f'{forms[i]!r} from {FORMATS[i]} to {FORMATS[j]}')
            same_color(T, color.unpack(v), forms[2], 'unpack')
            same_color(T, color.pack(r, g, b, a), v, 'pack')
            same_color(T, color.unpack255(v), forms[4], 'unpack255')
            same_color(T, color.pack255(R, G, B, A), v, 'pack255')
            same_color(T, color.expand(r, g, b, a), forms[4], 'expand')
            same_color(T, color.contract(R, G, B, A), forms[2], 'contract')
            same_color(T, color.load(forms[1]), forms[2], 'load')
            same_color(T, bytes(color.save(r, g, b, a)), forms[1], 'save')
            if a:
                same_color(T, color.pack(r, g, b), v, 'pack without alpha')
                same_color(T, color.pack255(R, G, B), v, 'pack255 without alpha')
                same_color(T, color.expand(r, g, b), forms[4], 'expand without alpha')
                same_color(T, color.contract(R, G, B), forms[2], 'contract without alpha')
                same_color(T, bytes(color.save(r, g, b)), forms[1], 'save without alpha')
            same_color(T, color.LUT_UNPACKED[v], forms[2], 'LUT_UNPACKED')
            same_color(T, color.LUT_UNPACKED_255[v], forms[4], 'LUT_UNPACKED_255')
            same_color(T, color.LUT_RGBA_255[v], R << 24 | G << 16 | B << 8 | A, 'LUT_RGBA_255')
            same_color(T, color.LUT_ARGB_255[v], A << 24 | R << 16 | G << 8 | B, 'LUT_ARGB_255')
            same_color(T, color.LUT_BGRA_255[v], B << 24 | G << 16 | R << 8 | A, 'LUT_BGRA_255')
            same_color(T, color.LUT_ABGR_255[v], A << 24 | B << 16 | G << 8 | R, 'LUT_ABGR_255')
    T.nontrivial()


def c33_wide_eval(case, T):
    x, y = tuple(case[0]), tuple(case[1])
    # 8-bit components: nearest value
    with T.sut('converting an 8-bit colour'):
        got = [color.convert(x, CF.TUPLE_RGBA255, f) for f in FORMATS]
    same_color(T, got[4], x, '8-bit colour to itself')
    a1 = int(x[3] >= 128)
    for f in (2, 3):
        for c in range(3):
            T.check(got[f][c] in NEAREST[x[c]], f'component {c} of {x} becomes {got[f][c]} in {FORMATS[f]}, nearest is {NEAREST[x[c]]}')
    T.eq(got[2][3], a1, f'alpha of {x} in 1 bit')
    T.check(got[3][3] in NEAREST[x[3]], f'alpha of {x} becomes {got[3][3]} in 5 bits, nearest is {NEAREST[x[3]]}')
    want = got[2][0] | got[2][1] << 5 | got[2][2] << 10 | got[2][3] << 15
    same_color(T, got[0], want, f'{x} as 16 bits')
    same_color(T, got[1], struct.pack('<H', want), f'{x} as 2 bytes')
    with T.sut('contracting an 8-bit colour'):
        same_color(T, color.contract(*x), tuple(got[2]), f'contract {x}')
        same_color(T, color.pack255(*x), want, f'pack255 {x}')
    # 5-bit alpha
    with T.sut('converting a colour with 5-bit alpha'):
        got = [color.convert(y, CF.TUPLE_RGB5A5, f) for f in FORMATS]
        back = color.convert(got[4], CF.TUPLE_RGBA255, CF.TUPLE_RGB5A5)
    same_color(T, got[3], y, 'colour with 5-bit alpha to itself')
    same_color(T, got[2], y[:3] + (int(y[3] >= 16),), f'{y} with 1-bit alpha')
    same_color(T, got[4], tuple(map(to8, y)), f'{y} with 8-bit components')
    same_color(T, back, y, f'{y} to 8 bits and back')
    want = y[0] | y[1] << 5 | y[2] << 10 | int(y[3] >= 16) << 15
    same_color(T, got[0], want, f'{y} as 16 bits')
    same_color(T, got[1], struct.pack('<H', want), f'{y} as 2 bytes')
    T.nontrivial(len(set(x)) > 1)


def c33_wide_strategy():
    c = st.one_of(st.integers(0, 255), st.sampled_from([0, 127, 128, 255]))
    f = st.integers(0, 31)
    return st.tuples(st.tuples(c, c, c, c), st.tuples(f, f, f, f))


PALNOTE = [] if HAVE_PIL else ['Pillow is not available here, so that the functions which give images are not evaluated.']

CHECKS = {
    'C28': Check('C28', [
        Facet('palettes', lambda: blobs(600, multiple=2), c28_palette_eval, 600, 5000, 'non-trivial: at least two colours'),
        Facet('tiles', lambda: st.tuples(st.booleans(), blobs(64 * 8, multiple=32)), c28_tiles_eval, 1200, 8000, 'non-trivial: at least two tiles'),
        Facet('tilemaps', lambda: st.tuples(st.booleans(), blobs(200)), c28_map_eval, 1500, 10000, 'non-trivial: at least two tiles'),
        Facet('rendering', c28_render_strategy, c28_render_eval, 2500, 8000, 'non-trivial: tilemap of at least two tiles'),
        Facet('many colours', lambda: st.tuples(st.just('rand'), st.integers(0, 99), st.integers(300, 40000).map(lambda n: 2 * n)), c28_palette_eval, 24, 200, 'up to 40000 colours'),
        Facet('many tiles', lambda: st.tuples(st.booleans(), st.tuples(st.just('rand'), st.integers(0, 99), st.integers(65, 2400).map(lambda n: 32 * n))), c28_tiles_eval, 40, 400, 'up to 2400 tiles'),
        Facet('many map tiles', lambda: st.tuples(st.booleans(), st.tuples(st.just('rand'), st.integers(0, 99), st.integers(130, 5000))), c28_map_eval, 40, 400, 'up to 5000 tiles'),
        Facet('large rendering', c28_large_strategy, c28_render_eval, 40, 400, 'up to 1000 tiles and a map of up to 1100'),
        Facet('positions', c28_at_strategy, c28_at_eval, 1500, 15000, 'non-trivial: a position inside of the list'),
    ], 'Generated palettes, tiles and tilemaps against a reference decoder and renderer; non-trivial: at least two elements.',
        ['Transparent pixels may have any colour; only their alpha is compared.'] + PALNOTE),
    'C29': Check('C29', [
        Facet('files', c29_files_strategy, c29_files_eval, 3000, 12000, 'non-trivial: textures and palettes'),
        Facet('large files', c29_large_strategy, c29_large_eval, 60, 300, 'non-trivial: more than 64 KB of texture data, or more than 100 textures'),
        Facet('models', c29_models_strategy, c29_models_eval, 2000, 8000, 'non-trivial: models, and textures'),
        Facet('many models', lambda: st.tuples(st.one_of(st.integers(0, 60), st.integers(60, 255)), c29_models_strategy()).map(lambda x: (x[0], *x[1][1:])), c29_many_models_eval, 40, 400,
              'up to 255 models; non-trivial: models, and textures'),
        Facet('large rendering', c29_large_render_strategy, c29_render_eval, 60, 600, 'textures of up to 1024 pixels in a direction; non-trivial: all'),
        Facet('rendering', c29_render_strategy, c29_render_eval, 2500, 8000, 'non-trivial: all'),
        reuse.facet('NSBTX', 'NSBMD'),
    ], 'Generated texture files and models against a reference writer, reader and renderer; non-trivial: textures and palettes.',
        ['Names have at most 16 Latin-1 characters, palettes at least four colours and a multiple of four; texture data has the size its format requires, '
         'less than 512 KB per file.', 'Transparent pixels may have any colour; only their alpha is compared.'] + PALNOTE),
    'C30': Check('C30', [
        Facet('layouts', c30_strategy, c30_eval, 8000, 30000, 'non-trivial: at least two entries'),
        Facet('many', lambda: st.tuples(st.booleans(), st.one_of(st.integers(0, 2000), st.sampled_from([255, 256, 257, 4097, 40000, 65535])), st.integers(0, 10**6)),
              c30_many_eval, 60, 500, 'non-trivial: more than 255 entries'),
        reuse.facet('BNBL', 'BNCL'),
    ], 'Generated layouts against a reference writer; non-trivial: at least two entries.',
        ['Coordinates have 12 bits, and alignments one horizontal and one vertical part.']),
    'C33': Check('C33', [
        Facet('16-bit colours', lambda: st.integers(0, 15), c33_int_eval, 120, 240, 'non-trivial: all; each case is 4096 colours'),
        Facet('wide colours', c33_wide_strategy, c33_wide_eval, 20000, 100000, 'non-trivial: components differ'),
    ], 'Generated colours converted between all formats against the definitions; non-trivial: components differ.',
        ['"As accurately as possible" is taken as the nearest representable value for each component.']),
}
