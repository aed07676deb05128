"""C35: what a format cannot hold is refused, never saved as something else."""
import random

from hypothesis import strategies as st

from .core import Check, Facet
from . import kinds, seqs
from .kinds import BY_NAME

import ndspy.bmg as bmg
import ndspy.graphics2D as g2
import ndspy.soundArchive as SA
import ndspy.soundBank as B
import ndspy.soundSequence as S
import ndspy.soundStream as STR
import ndspy.soundWaveArchive as WA
import ndspy.texture as tx

VALUES = [-1, -2, -128, -129, -0x8000, -0x8001, -0x80000000, -0x80000001, 0, 1, 127, 128, 255, 256, 0x3FF, 0x400, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000,
          0x7FFFFF, 0x800000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 2**32, 2**40, 2**64 + 1]
# Not numbers of a file: derived from others, or settings of how to save
NOT_SAVED = {'dataLength', 'type', 'dataMergeOptimizationID', 'bankOrderKey', 'codeSettingsOffs', 'fileAlignment', 'firstFileAlignment'}
# Numbers whose other bits are dropped on purpose, or which have a special meaning for some values
EXCEPT = {('BNBLTouchArea', 'x'), ('BNBLTouchArea', 'y'), ('BNBLTouchArea', 'alignment'), ('BNCLImagePosition', 'x'), ('BNCLImagePosition', 'y'),
          ('BNCLImagePosition', 'alignment'), ('SSARSequence', 'firstEventOffset'), ('Overlay', 'compressedSize'), ('Overlay', 'ramSize'), ('Overlay', 'flags'),
          ('Section', 'ramAddress'), ('MainCodeFile', 'ramAddress')}


def places(o):
    """[(object, attribute, path)] of the numbers within an object."""
    seen, out = {}, []

    def walk(v, path):
        if kinds.is_plain(v) or id(v) in seen:
            return
        seen[id(v)] = v
        if isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                walk(x, path + ((0, i),))
        elif isinstance(v, dict):
            for i, x in v.items():
                walk(x, path + ((0, i),))
        elif type(v).__module__.startswith('ndspy'):
            for n, x in kinds.public(v):
                p = getattr(type(v), n, None)
                if isinstance(p, property) and p.fset is None or n in NOT_SAVED or (type(v).__name__, n) in EXCEPT:
                    continue
                if type(v).__name__ == 'Section' and v.implicit:
                    continue
                if type(x) is int:
                    out.append((v, n, path + ((1, n),)))
                walk(x, path + ((1, n),))

    walk(o, ())
    return out


def look(o, path):
    for attr, s in path:
        o = getattr(o, s) if attr else o[s]
    return o


def numbers_eval(case, T):
    (name, spec), seed = case
    k = BY_NAME[name]
    r = random.Random(seed)
    with T.sut(f'making, saving and loading a {name}'):
        o = k.build(spec)
        if o is None:
            return
        first = kinds.snapshot(k.save(o))
        o2 = k.load(k.save(o))
    if name == 'main code file' and not all(s.data for s in o.sections):
        return  # saving moves empty sections to the end
    at = places(o)
    r.shuffle(at)
    for x, n, path in at[:4]:
        old = getattr(x, n)
        try:
            same = look(o2, path) == old
        except Exception:
            same = False  # for example events, which are only there after parse()
        if not same:
            continue
        v = r.choice(VALUES)
        if n == 'lastPitch' and not v:
            continue  # ends the list of regions
        what = f'{name}: {type(x).__name__}.{n} = {v}'
        with T.sut(what):
            setattr(x, n, v)
        try:
            data = k.save(o)
        except Exception:
            T.label('refused')
            T.nontrivial()
        else:
            with T.sut(f'{what}: loading what was saved'):
                got = look(k.load(data), path)
            T.eq(got, v, f'{what} after saving and loading')
            T.label('kept')
        with T.sut(what):
            setattr(x, n, old)
    with T.sut(f'saving a {name} again'):
        T.eq(kinds.snapshot(k.save(o)), first, f'{name} saved again with its first values')
    T.label(name)


def numbers_strategy():
    return st.tuples(kinds.cases(), st.integers(0, 10**6))


EVENT_LIMIT = {'duration': 2**32, 'bankID': 2**20}


def events_eval(case, T):
    spec, which, v = case
    with T.sut('making an event'):
        e = seqs.make(spec)
    at = [x for x in places(e) if x[1] != 'subType' and (type(x[0]), x[1]) != (S.InstrumentSwitchSequenceEvent, 'instrumentID')]
    if not at:
        return
    x, n, path = at[which % len(at)]
    if v > EVENT_LIMIT.get(n, v):
        return
    what = f'{type(e).__name__}: {type(x).__name__}.{n} = {v}'
    with T.sut(what):
        setattr(x, n, v)
    try:
        data = S.SSEQ.fromEvents([e, S.EndTrackSequenceEvent()]).save()[0]
    except Exception:
        T.label('refused')
        T.nontrivial()
        return
    with T.sut(f'{what}: parsing what was saved'):
        s = S.SSEQ(data)
        s.parse()
        T.eq([type(x).__name__ for x in s.events], [type(e).__name__, 'EndTrackSequenceEvent'], f'{what}: events after saving and loading')
        T.eq(look(s.events[0], path), v, f'{what} after saving and loading')
    T.label('kept')


def events_strategy():
    return st.tuples(seqs.plain_events().filter(lambda e: e[0] not in ('tracks', 'endloop')), st.integers(0, 5), st.sampled_from(VALUES))


# ---------------------------------------------------------------------------
# Contents that do not fit: name -> function(random numbers) giving (description, function that has to fail)


def _message(r):
    b = bmg.BMG.fromMessages([bmg.Message(b'ab', ['abc']) for _ in range(r.randrange(1, 4))])
    b.encoding = r.choice(['utf-8', 'utf-16', 'cp1252', 'shift-jis'])
    return b, r.choice(b.messages)


def bmg_text(r):
    b, m = _message(r)
    bad = r.choice(['\0', '\x1a'])
    s = ['x' * r.randrange(3), bad, 'y' * r.randrange(3)]
    m.stringParts = ['more'] * r.randrange(2) + [''.join(s)] + ['less'] * r.randrange(2)
    return f'a message with {bad!r}', b.save


def bmg_unencodable(r):
    b, m = _message(r)
    b.encoding = r.choice(['cp1252', 'shift-jis'])
    m.stringParts = ['a' * r.randrange(3) + '\U0001F600' + 'b' * r.randrange(2)]
    return f'a message that {b.encoding} cannot hold', b.save


def bmg_info(r):
    b, m = _message(r)
    b.messages.append(bmg.Message(bytes(r.choice([0, 1, 3, 4, 9])), ['abc'], r.random() < .3))
    return 'messages with information of different lengths', b.save


def bmg_instruction(r):
    b, _ = _message(r)
    b.instructions = [bytes(8)] * r.randrange(3) + [bytes(r.choice([0, 1, 4, 7, 9, 16]))] + [bytes(8)] * r.randrange(3)
    return 'an instruction that is not 8 bytes long', b.save


def bmg_escape(r):
    b, m = _message(r)
    b.encoding = 'utf-8'
    m.stringParts = ['abc', bmg.Message.Escape(r.choice([0, 255]), bytes(r.choice([253, 254, 255, 256, 300])))]
    return 'an escape sequence of more than 255 bytes', b.save


def bmg_escape_type(r):
    b, m = _message(r)
    m.stringParts = [bmg.Message.Escape(r.choice([-1, 256, 1000]), b'ab')]
    return 'an escape sequence with a type that does not fit', b.save


def bmg_encoding(r):
    b, _ = _message(r)
    b.encoding = r.choice(['utf-32', 'utf-7', 'latin-1', 'abc', '', 'euc-jp', None, 4])
    return f'encoding {b.encoding!r}', b.save


def bmg_endianness(r):
    b, _ = _message(r)
    b.endianness = r.choice(['little', '=', '!', 'x', '><'])
    return f'endianness {b.endianness!r}', b.save


def _rom(attr, length):
    def f(r):
        o = kinds.ndspy.rom.NintendoDSRom()
        n = r.choice([x for x in (0, 1, length - 1, length + 1, length * 2, length + 300) if x != length])
        setattr(o, attr, bytes([65]) * n)
        return f'a ROM whose {attr} is {n} bytes long', o.save
    return f


def rom_banner(r):
    o = kinds.ndspy.rom.NintendoDSRom()
    v, n = r.choice([(1, 0x840), (2, 0x940), (3, 0xA40), (0x103, 0x23C0)])
    n += r.choice([-0x100, -1, 1, 0x100])
    o.iconBanner = v.to_bytes(2, 'little') + bytes(n - 2)
    return f'a version {v} banner of {n:#x} bytes', o.save


def tile_data(r):
    i4 = r.random() < .5
    n = r.choice([0, 1, 16, 31, 33, 63, 65, 128] + [64 if i4 else 32])
    return f'a tile made of {n} bytes', lambda: g2.ImageTile(bytes(n), g2.ImageFormat.I4 if i4 else g2.ImageFormat.I8)


def tile_formats(r):
    a, b = g2.ImageFormat.I4, g2.ImageFormat.I8
    if r.random() < .5:
        a, b = b, a
    tiles = [g2.ImageTile(None, a) for _ in range(r.randrange(1, 6))] + [g2.ImageTile(None, b)] + [g2.ImageTile(None, a) for _ in range(r.randrange(6))]
    return 'image tiles of different formats', lambda: g2.saveImageTiles(tiles)


def map_formats(r):
    a, b = g2.TilemapFormat.I8, g2.TilemapFormat.I10H1V1P4
    if r.random() < .5:
        a, b = b, a
    tiles = [g2.TilemapTile(1, a) for _ in range(r.randrange(1, 6))] + [g2.TilemapTile(1, b)] + [g2.TilemapTile(1, a) for _ in range(r.randrange(6))]
    return 'tilemap tiles of different formats', lambda: g2.saveTilemapTiles(tiles)


def tile_offset(r):
    n = r.randrange(0, 200)
    off = n + r.randrange(1, 5)
    t = g2.TilemapTile(n, g2.TilemapFormat.I10H1V1P4)
    tiles = [g2.ImageTile(None, g2.ImageFormat.I8)] * 300
    colors = [(1, 2, 3, 1)] * 256
    f = r.choice([t.render, t.renderAsImage])
    return f'rendering tile {n} of tiles from {off}', lambda: f(tiles, colors, off)


def regions(r):
    i = B.RegionalInstrument([B.RegionalInstrument.Region(x * 3, B.NoteDefinition()) for x in range(r.randrange(9, 14))])
    b = B.SBNK.fromInstruments([i])
    return f'a regional instrument with {len(i.regions)} regions', r.choice([i.save, b.save])


def note_event(r):
    e = S.NoteSequenceEvent(60, 100, 48)
    n, v = r.choice([('pitch', -1), ('pitch', 128), ('pitch', 255), ('pitch', -128), ('velocity', 128), ('velocity', 255), ('velocity', -1), ('duration', -1), ('duration', -128)])
    setattr(e, n, v)
    return f'a note with {n} {v}', lambda: S.SSEQ.fromEvents([e, S.EndTrackSequenceEvent()]).save()


def rest_event(r):
    e = S.RestSequenceEvent(-r.randrange(1, 300))
    return f'a rest of {e.duration}', lambda: S.SSEQ.fromEvents([e, S.EndTrackSequenceEvent()]).save()


def _texture(fmt=tx.TextureFormat.I8):
    return tx.Texture.fromFlags(0, 0, False, False, False, False, 8, 8, fmt, False, tx.TextureCoordinatesTransformationMode(0), 0, bytes(64), b'')


def texture_size(r):
    t = _texture()
    n = r.choice([0, 1, 4, 7, 9, 12, 15, 17, 24, 100, 1023, 1025, 2048, -8])
    setattr(t, r.choice(['width', 'height']), n)
    return f'a texture with a size of {n}', lambda: tx.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, [('a', t)], []).save()


def texel_data(r):
    t = _texture(tx.TextureFormat.TEXELED)
    t.data1 = bytes(r.choice([16 * r.randrange(1, 9), r.randrange(1, 40)]))
    t.data2 = bytes(r.choice([n for d in (-8, -2, -1, 0, 1, 2, 8) for n in [len(t.data1) // 2 + d] if n >= 0 and n * 2 != len(t.data1)]))
    return f'a texeled texture with {len(t.data1)} and {len(t.data2)} bytes', lambda: tx.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, [('a', t)], []).save()


def palette_size(r):
    p = tx.Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * r.choice([1, 2, 3, 5, 6, 7, 17, 255, 257]))
    more = [('b', tx.Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4))] * r.randrange(2)
    return f'a palette of {len(p.colors)} colours', lambda: tx.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, [], more + [('a', p)]).save()


def texture_name(r):
    name = ''.join(r.choice('abcé') for _ in range(r.choice([17, 18, 20, 32, 33, 200])))
    pals = [('p', tx.Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4))] * r.randrange(3)
    texs = [('t', _texture())] * r.randrange(3)
    if r.random() < .5:
        pals.insert(r.randrange(len(pals) + 1), (name, tx.Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4)))
    else:
        texs.insert(r.randrange(len(texs) + 1), (name, _texture()))
    return f'a texture or palette with a name of {len(name)} characters', lambda: tx.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, texs, pals).save()


def too_many_swars(r):
    b = B.SBNK.fromInstruments([], waveArchiveIDs=[r.randrange(9) for _ in range(r.randrange(5, 9))])
    d = SA.SDAT()
    d.banks.append((None, b))
    return f'a bank with {len(b.waveArchiveIDs)} wave archives', d.save


def stream_blocks(r):
    n, size, last = r.randrange(2, 5), r.choice([4, 8, 20]), r.choice([4, 8, 20])
    ch = [[bytes(size)] * (n - 1) + [bytes(last)] for _ in range(r.randrange(2, 4))]
    kind = r.randrange(3)
    c = r.randrange(1, len(ch))
    if kind == 0:
        ch[c] = ch[c][:-1] if r.random() < .5 else ch[c] + [ch[c][-1]]
    elif kind == 1:
        ch[c][-1] = bytes(last + r.choice([-1, 1, 4]))
    else:
        k = r.randrange(0, n - 1)
        ch[c][k] = bytes(size + r.choice([-1, 1, 4]))
    s = STR.STRM.fromChannels(ch)
    return f'a stream with blocks of {[[len(b) for b in x] for x in ch]} bytes', s.save


def wave_loop(r):
    w = kinds.ndspy.soundWave.SWAV.fromData(bytes(8))
    w.loopOffset, w.totalLength = 3 + r.randrange(5), r.randrange(3)
    a = WA.SWAR.fromWaves([w])
    return f'a wave with a loop from {w.loopOffset} and a length of {w.totalLength}', r.choice([w.save, a.save])


def unparsed_sequence(r):
    A = kinds.A
    seq = A.SSARSequence(None, parsed=True)
    seq2 = A.SSARSequence(0)
    if r.random() < .5:
        a = A.SSAR.fromEventsAndSequences([S.EndTrackSequenceEvent()], [('a', seq), ('b', seq2)])
        return 'a parsed archive with an unparsed sequence', a.save
    a = A.SSAR(seqs.ref_ssar([(0, 0, 0, 0, 0, 0)], b'\xff'))
    a.sequences.append(('a', seq))
    return 'an unparsed archive with a parsed sequence', a.save


REFUSED = {f.__name__: f for f in (
    bmg_text, bmg_unencodable, bmg_info, bmg_instruction, bmg_escape, bmg_escape_type, bmg_encoding, bmg_endianness, rom_banner, tile_data, tile_formats, map_formats,
    tile_offset, regions, note_event, rest_event, texture_size, texel_data, palette_size, texture_name, too_many_swars, stream_blocks, wave_loop, unparsed_sequence)}
for _attr, _len in (('idCode', 4), ('developerCode', 2), ('pad088', 0x38), ('pad16C', 0x94), ('nintendoLogo', 0x9C)):
    REFUSED['rom ' + _attr] = _rom(_attr, _len)
REFUSALS = sorted(REFUSED)


def refused_eval(case, T):
    which, seed = case
    name = REFUSALS[which % len(REFUSALS)]
    with T.sut(f'preparing {name}'):
        what, f = REFUSED[name](random.Random(seed))
    with T.raises(what):
        f()
    T.label(name)
    T.nontrivial()


# ---------------------------------------------------------------------------
# The largest and smallest that fit: functions(random numbers) giving (description, what is saved and loaded, what is wanted)


def fit_escape(r):
    enc = r.choice(['utf-8', 'utf-16', 'cp1252', 'shift-jis'])
    data = r.randbytes(255 - (4 if enc == 'utf-16' else 3) - r.randrange(2))
    b = bmg.BMG.fromMessages([bmg.Message(b'', ['a', bmg.Message.Escape(r.choice([0, 255]), data), 'b'])])
    b.encoding = enc
    m = bmg.BMG(b.save()).messages[0].stringParts
    return f'an escape sequence with {len(data)} bytes in {enc}', [m[0], m[1].data, m[2]], ['a', data, 'b']


def fit_regions(r):
    n = r.randrange(1, 9)
    ends = [r.randrange(30) + 15 * i for i in range(n)]
    ends.sort()
    ends = [e + i for i, e in enumerate(ends)]
    if r.random() < .5:
        ends[-1] = 255
    b = B.SBNK.fromInstruments([B.RegionalInstrument([B.RegionalInstrument.Region(e, B.NoteDefinition(i)) for i, e in enumerate(ends)])])
    i = B.SBNK(*b.save()).instruments[0]
    return f'{n} regions', [(x.lastPitch, x.noteDefinition.waveID) for x in i.regions], [(e, i) for i, e in enumerate(ends)]


def fit_swars(r):
    ids = [r.choice([0, 1, 0x7FFF]) for _ in range(r.randrange(3, 5))]
    d = SA.SDAT()
    d.banks.append(('x', B.SBNK.fromInstruments([], waveArchiveIDs=list(ids))))
    return f'{len(ids)} wave archives', SA.SDAT(d.save()).banks[0][1].waveArchiveIDs, ids


def fit_note(r):
    p, v, l = r.choice([0, 127]), r.choice([0, 127]), r.choice([0, 127, 128, 0x3FFF, 0x4000, 0x1FFFFF, 0x200000, 0xFFFFFFF])
    s = S.SSEQ(S.SSEQ.fromEvents([S.NoteSequenceEvent(p, v, l), S.EndTrackSequenceEvent()]).save()[0])
    s.parse()
    e = s.events[0]
    return f'note {p, v, l}', (e.pitch, e.velocity, e.duration), (p, v, l)


def fit_loop(r):
    n = r.choice([0, 1, 0xFFFF])
    w = kinds.ndspy.soundWave.SWAV.fromData(bytes(4 * min(n, 2)), loopOffset=n, totalLength=n + r.choice([0, 1]))
    o = kinds.ndspy.soundWave.SWAV(w.save())
    return f'a loop from {n}', (o.loopOffset, o.totalLength), (w.loopOffset, w.totalLength)


def fit_texture(r):
    w, h = r.choice([(8, 1024), (1024, 8), (16, 512), (512, 16), (256, 32), (32, 128), (64, 64)])
    d = r.randbytes(w * h // 4)
    t = _texture(tx.TextureFormat.I2)
    t.width, t.height, t.data1 = w, h, d
    o = tx.NSBTX(tx.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, [('a', t)], []).save()).textures[0][1]
    return f'a texture of {w}x{h}', (o.width, o.height, bytes(o.data1)), (w, h, d)


def fit_tile(r):
    n, off = r.choice([(0, 0), (5, 5), (6, 5), (1023, 1023), (255, 0)])
    pixels = [r.randrange(1, 256) for _ in range(64)]
    tiles = [g2.ImageTile(bytes(64), g2.ImageFormat.I8)] * (n - off) + [g2.ImageTile(bytes(pixels), g2.ImageFormat.I8)]
    colors = [(i % 32, i // 32, 3, 1) for i in range(256)]
    return f'tile {n} of tiles from {off}', [tuple(c) for c in g2.TilemapTile(n, g2.TilemapFormat.I10H1V1P4).render(tiles, colors, off)], [tuple(colors[p]) for p in pixels]


FIT = {f.__name__: f for f in (fit_escape, fit_regions, fit_swars, fit_note, fit_loop, fit_texture, fit_tile)}
FITS = sorted(FIT)


def fits_eval(case, T):
    which, seed = case
    name = FITS[which % len(FITS)]
    with T.sut(name):
        what, got, want = FIT[name](random.Random(seed))
    T.eq(got, want, what)
    T.label(name)
    T.nontrivial()


CHECKS = {
    'C35': Check('C35', [
        Facet('numbers', numbers_strategy, numbers_eval, 8000, 60000, 'one number at a time is replaced; non-trivial: at least one was refused'),
        Facet('events', events_strategy, events_eval, 4000, 40000, 'non-trivial: refused'),
        Facet('contents', lambda: st.tuples(st.integers(0, len(REFUSALS) - 1), st.integers(0, 10**6)), refused_eval, 3000, 30000, 'contents that do not fit; all non-trivial'),
        Facet('fits', lambda: st.tuples(st.integers(0, len(FITS) - 1), st.integers(0, 10**6)), fits_eval, 700, 7000, 'the largest contents that fit; all non-trivial'),
    ], 'Numbers replaced one at a time by ones at and beyond the limits of all field sizes, contents beyond the limits and contents just within them; non-trivial: something was refused, or just fits.',
        ['Touch-area and cell positions, and instrument numbers of instrument switches, are stored modulo their range on purpose; sizes and flags that saving an overlay '
         'updates, addresses of implicit code sections, and numbers that no file holds (merge IDs, alignments) are left out.']),
}
