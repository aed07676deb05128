"""The kinds of objects the library handles, for checks about all of them."""
import copy
import enum

from hypothesis import strategies as st

from . import bmgs, codefiles, fntnarc, graphics, roms, sdats, seqs, sounds, trees
from .core import blobs, expand, u8, u16

import ndspy.bmg
import ndspy.bnbl
import ndspy.bncl
import ndspy.code
import ndspy.color
import ndspy.fnt
import ndspy.graphics2D
import ndspy.model
import ndspy.narc
import ndspy.rom
import ndspy.soundArchive
import ndspy.extras.music
import ndspy.soundBank
import ndspy.soundGroup
import ndspy.soundSequencePlayer
import ndspy.soundStreamPlayer
import ndspy.soundSequence
import ndspy.soundSequenceArchive
import ndspy.soundStream
import ndspy.soundWave
import ndspy.soundWaveArchive
import ndspy.texture


class Kind:
    """
    strategy(): cases. build(case): an object, or None if the case does not
    describe one. save(obj): [data, other values]. load([data, others]): an
    object. new: functions that make default objects. cls: the class, if it
    has fromFile() and saveToFile().
    """

    def __init__(self, name, strategy, build, save, load, new=(), cls=None, magic=()):
        self.name = name
        self.strategy = strategy
        self._build = build
        self.save = save
        self.load = load
        self.new = new
        self.cls = cls
        self.magic = magic

    def build(self, case):
        return self._build(copy.deepcopy(case))


def _tuple_kind(name, strategy, build, cls, magic, values, optional):
    """Sound files: save() gives (data, values...); so many values go with the constructor."""
    return Kind(name, strategy, build, lambda o: list(o.save()), lambda v: cls(*v), [cls] + list(optional), cls, magic)


def _main_code(spec):
    m, ptr = codefiles.build(spec)
    data = codefiles.ref_write(m)
    if codefiles.looks_compressed(data) or not codefiles.usable(data, m):
        return None
    o = ndspy.code.MainCodeFile(data, m['ram'], ptr)
    out = o.save()
    if codefiles.looks_compressed(out) or not codefiles.usable(out, m):
        return None
    return o


def _main_code_load(v):
    return ndspy.code.MainCodeFile(v[0], v[1])


def _overlays(spec):
    out = {}
    for (oid, ra, rs, bs, s0, s1, fid, cs, fl, blob) in spec:
        out[oid] = ndspy.code.Overlay(expand(blob), ra, rs, bs, s0, s1, fid, cs, fl & ~1)
        # sizes and flags are updated on saving
        out[oid].save(compress=bool(fid & 1))
    return out


def _overlays_save(ovs):
    # the table is saved last, as saving an overlay updates its sizes
    files = [(i, ovs[i].save(compress=bool(ovs[i].fileID & 1))) for i in sorted(ovs)]
    return [ndspy.code.saveOverlayTable(ovs), files]


def _overlays_load(v):
    files = dict(v[1])
    return ndspy.code.loadOverlayTable(v[0], lambda i, f: files[i])


def _narc(case):
    files, tree, big = case
    n = ndspy.narc.NARC.fromFilesAndNames([expand(f) for f in files], trees.to_folder(trees.resolve(tree)))
    n.endiannessOfBeginning = '>' if big else '<'
    return n


def _sseq(case):
    spec, params, how = case
    prog, _ = seqs.build(spec)
    prog = seqs.merge_raw(prog)
    if how == 0:
        return ndspy.soundSequence.SSEQ.fromEvents(seqs.make_all(prog), *params)
    o = ndspy.soundSequence.SSEQ(seqs.ref_sseq(seqs.encode_all(prog)), *params)
    if how == 2:
        o.parse()
    return o


def _ssar(case):
    spec, how = case
    prog, ss, unk = seqs.ssar_model(spec)
    o = ndspy.soundSequenceArchive.SSAR(seqs.ssar_file(prog, ss), unk, [n for n, _, _ in ss])
    if how:
        o.parse()
    return o


def _sbnk(case):
    insts, ids, unk = case
    return ndspy.soundBank.SBNK.fromInstruments([sounds.make_inst(x) for x in insts], unk, ids)


def _swar(case):
    ws, unk = case
    return ndspy.soundWaveArchive.SWAR.fromWaves([sounds.make_wave(w) for w in ws], unk)


def _nsbmd(case):
    names, seed, f = case
    return ndspy.model.NSBMD(graphics.ref_nsbmd([graphics.ref_mdl0(names, seed), graphics.ref_tex0(f)]))


def _layout(touch):
    L = graphics.Layout(touch)

    def cases():
        def conv(e):
            return e if touch else (*e[:4], e[4] | e[5] << 8)
        return st.tuples(u16(), st.lists(graphics.c30_entry().map(conv), max_size=6))
    cls = ndspy.bnbl.BNBL if touch else ndspy.bncl.BNCL
    part = ndspy.bnbl.BNBLTouchArea if touch else ndspy.bncl.BNCLImagePosition
    return Kind('BNBL' if touch else 'BNCL', cases, lambda c: L.new(c[1], c[0]), lambda o: [o.save()], lambda v: cls(v[0]),
                [cls, part], cls, [(0, 4)])


B, S, A, W, WA, STR, SA = (ndspy.soundBank, ndspy.soundSequence, ndspy.soundSequenceArchive, ndspy.soundWave, ndspy.soundWaveArchive,
                           ndspy.soundStream, ndspy.soundArchive)

SOUND = [(0, 4), (6, 2)]

KINDS = [
    Kind('BMG', bmgs.bmg_models, bmgs.to_bmg, lambda o: [o.save()], lambda v: ndspy.bmg.BMG(v[0]),
         [ndspy.bmg.BMG, ndspy.bmg.Message, lambda: ndspy.bmg.BMG.fromMessages([]), lambda: ndspy.bmg.Message(b'', 'abc')], ndspy.bmg.BMG, [(0, 8)]),
    Kind('NARC', lambda: fntnarc.narc_models(6), _narc, lambda o: [o.save()], lambda v: ndspy.narc.NARC(v[0]),
         [ndspy.narc.NARC, lambda: ndspy.narc.NARC.fromFilesAndNames([])], ndspy.narc.NARC, [(0, 4), (6, 2)]),
    Kind('ROM', lambda: roms.rom_specs(6), lambda s: roms.to_rom(roms.build(s), s['perm'] % 2), lambda o: [o.save()], lambda v: ndspy.rom.NintendoDSRom(v[0]),
         [ndspy.rom.NintendoDSRom], ndspy.rom.NintendoDSRom),
    Kind('filename table', lambda: trees.tree_specs(6, 4), lambda s: trees.to_folder(trees.resolve(s)), lambda o: [ndspy.fnt.save(o)],
         lambda v: ndspy.fnt.load(v[0]), [ndspy.fnt.Folder]),
    Kind('main code file', lambda: codefiles.code_models(4, locate='magic'), _main_code, lambda o: [o.save(compress=bool(len(o.sections) & 1)), o.ramAddress], _main_code_load,
         [], ndspy.code.MainCodeFile),
    Kind('overlays', lambda: codefiles.overlay_models(4), _overlays, _overlays_save, _overlays_load, [dict]),
    Kind('SSEQ', lambda: st.tuples(seqs.program_specs(3), st.tuples(u16(), u16(), u8(), u8(), u8(), u8()), st.integers(0, 2)), _sseq,
         lambda o: list(o.save()), lambda v: S.SSEQ(*v), [S.SSEQ, lambda: S.SSEQ.fromEvents([])], S.SSEQ, SOUND),
    Kind('SSAR', lambda: st.tuples(seqs.ssar_specs(), st.booleans()), _ssar, lambda o: list(o.save()), lambda v: A.SSAR(*v),
         [A.SSAR, lambda: A.SSAR.fromEventsAndSequences([], [])], A.SSAR, SOUND + [(0x10, 4)]),
    Kind('SBNK', sounds.bank_models, _sbnk, lambda o: list(o.save()), lambda v: B.SBNK(*v),
         [B.SBNK, lambda: B.SBNK.fromInstruments([]), B.NoteDefinition], B.SBNK, SOUND + [(0x10, 4)]),
    Kind('SWAR', lambda: st.tuples(st.lists(sounds.waves(), max_size=5), u16()), _swar, lambda o: list(o.save()), lambda v: WA.SWAR(*v),
         [WA.SWAR, lambda: WA.SWAR.fromWaves([])], WA.SWAR, SOUND + [(0x10, 4)]),
    Kind('SWAV', sounds.waves, sounds.make_wave, lambda o: [o.save()], lambda v: W.SWAV(v[0]), [W.SWAV, lambda: W.SWAV.fromData(b'')], W.SWAV, SOUND + [(0x10, 4)]),
    Kind('STRM', sounds.streams, lambda m: sounds.make_stream(m, sounds.stream_channels(m)), lambda o: list(o.save()), lambda v: STR.STRM(*v),
         [STR.STRM, lambda: STR.STRM.fromChannels([])], STR.STRM, SOUND + [(0x10, 4), (0x60, 4)]),
    Kind('SDAT', lambda: st.tuples(sdats.models(2), sdats.options(), st.sampled_from(['load', 'parse'])), lambda c: sdats.build(*c),
         lambda o: [o.save()], lambda v: SA.SDAT(v[0]), [SA.SDAT], SA.SDAT, SOUND),
    Kind('NSBTX', lambda: st.tuples(graphics.texfiles(1), st.booleans()), lambda c: graphics.make_texfile(*c), lambda o: [o.save()],
         lambda v: ndspy.texture.NSBTX(v[0]), [ndspy.texture.NSBTX], ndspy.texture.NSBTX, [(0, 4), (6, 2), (0x14, 4)]),
    Kind('NSBMD', lambda: st.tuples(st.lists(graphics.names16(), max_size=2), st.integers(0, 10**6), graphics.texfiles(1)), _nsbmd,
         lambda o: [o.save()], lambda v: ndspy.model.NSBMD(v[0]), [ndspy.model.NSBMD], ndspy.model.NSBMD, [(0, 4), (6, 2), (0x18, 4)]),
    _layout(True),
    _layout(False),
]

def _escapes():
    return st.tuples(u8(), st.binary(max_size=9))


def _note(seed):
    return sounds.make_note(sounds.seeded_notes(seed, 1)[0])


# Objects that are not saved to a file of their own: name -> (strategy, build)
PARTS = {
    'event': (seqs.plain_events, seqs.make),
    'message': (lambda: st.tuples(st.binary(max_size=5), bmgs.parts('utf-8'), st.booleans()), bmgs.to_message),
    'escape': (_escapes, lambda c: ndspy.bmg.Message.Escape(*c)),
    'code section': (lambda: st.tuples(blobs(100), u16(), u16(), st.booleans()),
                     lambda c: ndspy.code.MainCodeFile.Section(expand(c[0]), c[1], c[2], implicit=c[3])),
    'note': (sounds.seeds, _note),
    'instrument': (lambda: st.tuples(sounds.instruments(), st.just(0), st.just(0)), sounds.make_inst),
    'sequence player': (lambda: st.one_of(st.none(), st.tuples(u16(), st.sets(st.integers(0, 15)).map(sorted), u16())),
                        lambda c: ndspy.soundSequencePlayer.SequencePlayer() if c is None else ndspy.soundSequencePlayer.SequencePlayer(c[0], set(c[1]), c[2])),
    'stream player': (lambda: st.one_of(st.none(), st.lists(st.integers(0, 15), max_size=16)),
                      lambda c: ndspy.soundStreamPlayer.StreamPlayer() if c is None else ndspy.soundStreamPlayer.StreamPlayer(c)),
    'group entry': (lambda: st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(0, 15), u16())),
                    lambda c: ndspy.soundGroup.GroupEntry() if c is None else ndspy.soundGroup.GroupEntry(*c)),
    'sequence of an SSAR': (lambda: st.tuples(st.one_of(st.none(), st.integers(0, 99)), u16(), u8(), u8(), u8(), u8(), st.booleans()),
                            lambda c: A.SSARSequence(None if c[6] else c[0], *c[1:6], parsed=c[6])),
    'texture': (lambda: st.tuples(graphics.textures(1), st.booleans()), lambda c: graphics.make_tex(*c)),
    'palette': (lambda: st.tuples(graphics.palettes(), st.booleans()), lambda c: graphics.make_pal(*c)),
    'touch area': (graphics.c30_entry, graphics.Layout(True).make),
    'image position': (graphics.c30_entry, lambda e: graphics.Layout(False).make(e[:5])),
    'tile': (lambda: st.tuples(blobs(64, kinds=['rand', 'zero']), st.booleans()),
             lambda c: ndspy.graphics2D.ImageTile(None if len(expand(c[0])) < 64 else expand(c[0])[:32 if c[1] else 64],
                                                  ndspy.graphics2D.ImageFormat.I4 if c[1] else ndspy.graphics2D.ImageFormat.I8)),
    'tilemap tile': (lambda: st.tuples(u16(), st.booleans()),
                     lambda c: ndspy.graphics2D.TilemapTile(c[0] & 255 if c[1] else c[0], ndspy.graphics2D.TilemapFormat.I8 if c[1] else ndspy.graphics2D.TilemapFormat.I10H1V1P4)),
    'music': (lambda: st.tuples(st.lists(seqs.plain_events(), max_size=4), st.booleans()),
              lambda c: ndspy.extras.music.SSEQMusic(S.SSEQ.fromEvents([seqs.make(e) for e in c[0] if e[0] != 'tracks'] + [S.EndTrackSequenceEvent()]),
                                                     B.SBNK() if c[1] else None, [] if c[1] else None)),
}

BY_NAME = {k.name: k for k in KINDS}


def parts():
    return st.one_of(*(st.tuples(st.just(n), s()) for n, (s, _) in PARTS.items()))


def cases(kinds=None):
    """(kind name, case) for all kinds."""
    return st.one_of(*(st.tuples(st.just(k.name), k.strategy()) for k in kinds or KINDS))


# ---------------------------------------------------------------------------
# Looking at and changing objects of any kind


def is_plain(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, enum.Enum))


def public(o):
    """[(name, value)] of the public attributes. Those that cannot be read give the type of the error."""
    out = []
    for n in dir(o):
        if n.startswith('_'):
            continue
        try:
            v = getattr(o, n)
        except Exception as e:
            out.append((n, 'error ' + type(e).__name__))
            continue
        if callable(v) or isinstance(v, (type, property)):
            continue
        out.append((n, v))
    return out


def snapshot(o):
    """A value that stands for everything in the object that the public can see."""
    seen = {}
    keep = []

    def walk(v):
        if is_plain(v):
            return v
        if isinstance(v, (bytearray, memoryview)):
            return bytes(v)
        if isinstance(v, (list, tuple)):
            return [walk(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return ('set', sorted(map(repr, v)))
        if isinstance(v, dict):
            return ('dict', [(walk(k), walk(x)) for k, x in v.items()])
        if id(v) in seen:
            return ('object', seen[id(v)])
        seen[id(v)] = len(seen)
        keep.append(v)
        return (type(v).__name__, [(n, walk(x)) for n, x in public(v)])

    return walk(o)


def scramble(o):
    """Change everything in the object that can be changed in place. Returns the number of changes."""
    seen = set()
    keep = []
    count = 0

    def walk(v):
        nonlocal count
        if is_plain(v) or id(v) in seen:
            return
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, bytearray):
            for i in range(len(v)):
                v[i] ^= 0x55
            v.append(1)
            count += 1
        elif isinstance(v, list):
            for x in list(v):
                walk(x)
            v.append('added')
            count += 1
        elif isinstance(v, tuple):
            for x in v:
                walk(x)
        elif isinstance(v, set):
            v.add(99)
            count += 1
        elif isinstance(v, dict):
            for x in list(v.values()):
                walk(x)
            v['added'] = 1
            count += 1
        elif isinstance(v, (memoryview, frozenset)):
            pass
        else:
            for n, x in public(v):
                walk(x)
                if isinstance(x, enum.Enum) or not isinstance(x, (bool, int, bytes, str)):
                    continue
                try:
                    setattr(v, n, (not x) if isinstance(x, bool) else x ^ 1 if isinstance(x, int) else x + x[:1] + (b'x' if isinstance(x, bytes) else 'x'))
                    count += 1
                except Exception:
                    pass

    walk(o)
    return count
