"""
C34: objects made from parts hold these parts, and documented defaults for what is left out.

The table of constructors below comes from the documentation (docs/source/api); parameters are given in any
of the ways Python allows: some by position, some by name, the rest not at all.
"""
from hypothesis import strategies as st

import ndspy
import ndspy.bmg as bmg
import ndspy.bnbl as bnbl
import ndspy.bncl as bncl
import ndspy.code as code
import ndspy.fnt as fnt
import ndspy.graphics2D as g2
import ndspy.narc as narc
import ndspy.rom as rom
import ndspy.soundArchive as soundArchive
import ndspy.soundBank as soundBank
import ndspy.soundGroup as soundGroup
import ndspy.soundSequence as soundSequence
import ndspy.soundSequenceArchive as soundSequenceArchive
import ndspy.soundSequencePlayer as soundSequencePlayer
import ndspy.soundStream as soundStream
import ndspy.soundStreamPlayer as soundStreamPlayer
import ndspy.soundWave as soundWave
import ndspy.soundWaveArchive as soundWaveArchive
import ndspy.texture as texture

from .core import Check, Facet

# Kinds of values: how to make one from a number

A = ndspy.Alignment
ALIGN = [a | b for a in (A.LEFT, A.RIGHT, A.H_CENTER) for b in (A.TOP, A.BOTTOM, A.V_CENTER)]

VALUES = {
    'int': lambda n: n % 251,
    'short': lambda n: n % 65521,
    'word': lambda n: n * 65537 % 2**32,
    'bool': lambda n: bool(n & 1),
    'bytes': lambda n: n.to_bytes(4, 'big') * (n % 5),
    'wavetype': lambda n: ndspy.WaveType(n % 3),
    'notetype': lambda n: soundBank.NoteType(n % 3 + 1),
    'grouptype': lambda n: soundGroup.GroupEntryType(n % 4),
    'method': lambda n: soundGroup.SWARLoadMethod(n % 2),
    'align': lambda n: ALIGN[n % 9],
    'ints': lambda n: [(n + 7 * i) % 251 for i in range(n % 5)],
    'intset': lambda n: {(n + 7 * i) % 16 for i in range(n % 5)},
    'chunks': lambda n: [bytes([n & 255, i]) * 4 for i in range(n % 5)],
    'names': lambda n: [f'name{n}-{i}' for i in range(n % 5)],
    'folders': lambda n: [(f'sub{i}', fnt.Folder([], ['x'], i)) for i in range(n % 4)],
    'folder': lambda n: fnt.Folder([], [f'n{i}' for i in range(n % 5)], n % 9),
    'events': lambda n: [soundSequence.RestSequenceEvent(n + i) for i in range(n % 5)],
    'event': lambda n: None if n % 7 == 0 else soundSequence.RestSequenceEvent(n),
    'ssarseqs': lambda n: [(f's{i}', soundSequenceArchive.SSARSequence(None, i)) for i in range(n % 4)],
    'note': lambda n: soundBank.NoteDefinition(n % 251),
    'notes': lambda n: [soundBank.NoteDefinition(i) for i in range(n % 5)],
    'regions': lambda n: [soundBank.RegionalInstrument.Region(10 * i + 1, soundBank.NoteDefinition(i)) for i in range(n % 5)],
    'instruments': lambda n: [None if (n + i) % 3 == 0 else soundBank.SingleNoteInstrument(soundBank.NoteDefinition(i)) for i in range(n % 5)],
    'waves': lambda n: [soundWave.SWAV.fromData(bytes([i] * 4)) for i in range(n % 5)],
    'channels': lambda n: [[bytes([n & 255, i] * 4) for i in range(n % 4)] for _ in range(n % 3)],
    'messages': lambda n: [bmg.Message(b'', [f'm{i}']) for i in range(n % 5)],
    'pairs': lambda n: [(i, n + i) for i in range(n % 5)],
    'parts': lambda n: [f'text{n}', bmg.Message.Escape(1, b'x'), ''][:n % 4],
    'areas': lambda n: [bnbl.BNBLTouchArea(i, n % 99) for i in range(n % 5)],
    'images': lambda n: [bncl.BNCLImagePosition(i, n % 99) for i in range(n % 5)],
    'sections': lambda n: [code.MainCodeFile.Section(bytes(4), 0x2000000 + i, i) for i in range(n % 4)],
    'pixels': lambda n: [(n + i) % 16 for i in range(64)],
    'tileformat': lambda n: [g2.ImageFormat.I8, g2.ImageFormat.I4][n % 2],
    'mapformat': lambda n: [g2.TilemapFormat.I10H1V1P4, g2.TilemapFormat.I8][n % 2],
    'texformat': lambda n: texture.TextureFormat(n % 7 + 1),
    'size': lambda n: 8 << n % 8,
    'colors': lambda n: [(i, n % 32, 5, 1) for i in range(n % 6)],
    'nothing': lambda n: [],
    'velocity': lambda n: n % 128,
    'mode': lambda n: n % 4,
}

# name: (function, required [(parameter, kind)], optional [(parameter, kind, default)], keyword-only likewise,
#        {further attribute: default}, {parameter: attribute} where the names differ)
SEQ = [('unk02', 'short', 0), ('bankID', 'short', 0), ('volume', 'int', 127), ('channelPressure', 'int', 64),
       ('polyphonicPressure', 'int', 50), ('playerID', 'int', 0)]
STRM = [('unk02', 'short', 0), ('volume', 'int', 127), ('priority', 'int', 64), ('playerID', 'int', 0), ('unk07', 'int', 0)]
STRM_REST = {'waveType': ndspy.WaveType.PCM8, 'isLooped': False, 'loopOffset': 0, 'sampleRate': 8000, 'samplesInLastBlock': 0,
             'samplesPerBlock': 0, 'time': 0, 'unk03': 0, 'unk28': 0, 'unk2C': 0, 'unk30': 0, 'unk34': 0, 'unk38': 0, 'unk3C': 0,
             'unk40': 0, 'unk44': 0, 'dataMergeOptimizationID': 0}
BMG_REST = {'encoding': 'utf-16', 'fullEncoding': 'utf-16le', 'endianness': '<', 'unk14': 0, 'unk18': 0, 'unk1C': 0}
ROM = {'name': b'', 'idCode': b'####', 'developerCode': b'\0\0', 'unitCode': 0, 'encryptionSeedSelect': 0, 'deviceCapacity': 9,
       'pad015': 0, 'pad016': 0, 'pad017': 0, 'pad018': 0, 'pad019': 0, 'pad01A': 0, 'pad01B': 0, 'pad01C': 0, 'region': 0,
       'version': 0, 'autostart': 0, 'arm9EntryAddress': 0x02000800, 'arm9RamAddress': 0x02000000, 'arm7EntryAddress': 0x02380000,
       'arm7RamAddress': 0x02380000, 'normalCardControlRegisterSettings': 0x00416657, 'secureCardControlRegisterSettings': 0x081808f8,
       'secureAreaChecksum': 0, 'secureTransferDelay': 0x0D7E, 'arm9CodeSettingsPointerAddress': 0, 'arm7CodeSettingsPointerAddress': 0,
       'secureAreaDisable': bytes(8), 'pad088': bytes(0x38), 'debugRomAddress': 0, 'pad16C': bytes(0x94), 'pad200': bytes(0x3E00),
       'rsaSignature': b'', 'arm9': b'', 'arm9PostData': b'', 'arm7': b'', 'arm9OverlayTable': b'', 'arm7OverlayTable': b'',
       'iconBanner': b'', 'debugRom': b'', 'files': [], 'sortedFileIds': []}
SDAT = {'banks': [], 'groups': [], 'sequenceArchives': [], 'sequencePlayers': [], 'sequences': [], 'streamPlayers': [], 'streams': [],
        'waveArchives': [], 'fatLengthsIncludePadding': False, 'fileAlignment': 0x20, 'firstFileAlignment': None, 'padAtEnd': True,
        'padSymbSizeTo4InSDATHeader': False}
NOTE = [('waveID_dutyCycle', 'short', 0), ('waveArchiveIDID', 'short', 0), ('pitch', 'int', 60), ('attack', 'int', 127), ('decay', 'int', 127),
        ('sustain', 'int', 127), ('release', 'int', 127), ('pan', 'int', 64), ('type', 'notetype', soundBank.NoteType.PCM)]
INST = {'bankOrderKey': 0, 'dataMergeOptimizationID': 0}
LAYOUT = A.TOP | A.LEFT
SWAV = [('waveType', 'wavetype', ndspy.WaveType.PCM8), ('isLooped', 'bool', False), ('sampleRate', 'short', 8000), ('time', 'short', 0),
        ('loopOffset', 'short', 0), ('totalLength', 'word', 0)]

MAKERS = {
    'BMG': (bmg.BMG, [], [], [('id', 'word', 0)], dict(BMG_REST, messages=[], instructions=[], labels=[], scripts=[]), {}),
    'BMG.fromMessages': (bmg.BMG.fromMessages, [('messages', 'messages')],
                         [('instructions', 'chunks', []), ('labels', 'pairs', []), ('scripts', 'pairs', [])], [('id', 'word', 0)], BMG_REST, {}),
    'Message': (bmg.Message, [], [('info', 'bytes', b''), ('stringParts', 'parts', []), ('isNull', 'bool', False)], [], {}, {}),
    'Message.Escape': (bmg.Message.Escape, [], [('type', 'int', 0), ('data', 'bytes', b'')], [], {}, {}),
    'Section': (code.MainCodeFile.Section, [('data', 'bytes'), ('ramAddress', 'word'), ('bssSize', 'word')], [], [('implicit', 'bool', False)], {}, {}),
    'fromSections': (code.MainCodeFile.fromSections, [('sections', 'sections'), ('ramAddress', 'word')], [], [], {}, {}),
    'Folder': (fnt.Folder, [], [('folders', 'folders', []), ('files', 'names', []), ('firstID', 'short', 0)], [], {}, {}),
    'NARC': (narc.NARC, [], [], [], {'endiannessOfBeginning': '<', 'files': []}, {}),
    'NARC.fromFilesAndNames': (narc.NARC.fromFilesAndNames, [('files', 'chunks')], [('filenames', 'folder', None)], [], {'endiannessOfBeginning': '<'}, {}),
    'ROM': (rom.NintendoDSRom, [], [], [], ROM, {}),
    'SDAT': (soundArchive.SDAT, [], [], [], SDAT, {}),
    'NoteDefinition': (soundBank.NoteDefinition, [], NOTE, [], {}, {'waveID_dutyCycle': 'waveID'}),
    'SingleNoteInstrument': (soundBank.SingleNoteInstrument, [('noteDefinition', 'note')], [], [], dict(INST, type=1), {}),
    'RangeInstrument': (soundBank.RangeInstrument, [('firstPitch', 'int'), ('noteDefinitions', 'notes')], [], [], dict(INST, type=16), {}),
    'RegionalInstrument': (soundBank.RegionalInstrument, [('regions', 'regions')], [], [], dict(INST, type=17), {}),
    'Region': (soundBank.RegionalInstrument.Region, [('lastPitch', 'int'), ('noteDefinition', 'note')], [], [], {}, {}),
    'SBNK': (soundBank.SBNK, [], [], [('unk02', 'short', 0), ('waveArchiveIDs', 'ints', [])],
             {'instruments': [], 'inaccessibleInstruments': {}, 'dataMergeOptimizationID': 0}, {}),
    'SBNK.fromInstruments': (soundBank.SBNK.fromInstruments, [('instruments', 'instruments')], [('unk02', 'short', 0), ('waveArchiveIDs', 'ints', [])], [],
                             {'inaccessibleInstruments': {}, 'dataMergeOptimizationID': 0}, {}),
    'GroupEntry': (soundGroup.GroupEntry, [], [], [('type', 'grouptype', soundGroup.GroupEntryType.SSEQ), ('id', 'short', 0)],
                   {'loadSSEQ': False, 'loadSWAR': False, 'loadSSAR': False, 'loadSBNKSWARsFrom': soundGroup.SWARLoadMethod.SWAR_IDS}, {}),
    'GroupEntry.fromFlags': (soundGroup.GroupEntry.fromFlags, [('type', 'grouptype'), ('id', 'short')],
                             [('loadSSEQ', 'bool', False), ('loadSBNKSWARsFrom', 'method', soundGroup.SWARLoadMethod.SWAR_IDS),
                              ('loadSWAR', 'bool', False), ('loadSSAR', 'bool', False)], [], {}, {}),
    'SSEQ': (soundSequence.SSEQ, [], [], SEQ, {'events': [], 'parsed': True, 'dataMergeOptimizationID': 0}, {}),
    'SSEQ.fromEvents': (soundSequence.SSEQ.fromEvents, [('events', 'events')], SEQ, [], {'parsed': True, 'dataMergeOptimizationID': 0}, {}),
    'SSAR': (soundSequenceArchive.SSAR, [], [], [('unk02', 'short', 0)], {'events': [], 'sequences': [], 'parsed': True, 'dataMergeOptimizationID': 0}, {}),
    'SSAR.fromEventsAndSequences': (soundSequenceArchive.SSAR.fromEventsAndSequences, [('events', 'events'), ('sequences', 'ssarseqs')],
                                    [('unk02', 'short', 0)], [], {'parsed': True, 'dataMergeOptimizationID': 0}, {}),
    'SSARSequence': (soundSequenceArchive.SSARSequence, [('firstEvent_firstEventOffset', 'event')], SEQ[1:], [], {'parsed': True},
                     {'firstEvent_firstEventOffset': 'firstEvent'}),
    'SequencePlayer': (soundSequencePlayer.SequencePlayer, [], [('maxSequences', 'short', 1), ('channels', 'intset', set()), ('heapSize', 'word', 0)], [], {}, {}),
    'StreamPlayer': (soundStreamPlayer.StreamPlayer, [], [('channels', 'ints', [])], [], {}, {}),
    'STRM': (soundStream.STRM, [], [], STRM, dict(STRM_REST, channels=[]), {}),
    'STRM.fromChannels': (soundStream.STRM.fromChannels, [('channels', 'channels')], STRM, [], STRM_REST, {}),
    'SWAV': (soundWave.SWAV, [], [], [], dict({n: d for n, _, d in SWAV}, data=b''), {}),
    'SWAV.fromData': (soundWave.SWAV.fromData, [], [('data', 'bytes', b'')], SWAV, {}, {}),
    'SWAR': (soundWaveArchive.SWAR, [], [], [('unk02', 'short', 0)], {'waves': [], 'dataMergeOptimizationID': 0}, {}),
    'SWAR.fromWaves': (soundWaveArchive.SWAR.fromWaves, [('waves', 'waves')], [('unk02', 'short', 0)], [], {'dataMergeOptimizationID': 0}, {}),
    'BNBLTouchArea': (bnbl.BNBLTouchArea, [], [('x', 'short', 0), ('y', 'short', 0), ('width', 'int', 0), ('height', 'int', 0), ('alignment', 'align', LAYOUT)], [], {}, {}),
    'BNBL': (bnbl.BNBL, [], [], [], {'unk04': 0, 'touchAreas': []}, {}),
    'BNBL.fromTouchAreas': (bnbl.BNBL.fromTouchAreas, [('touchAreas', 'areas')], [('unk04', 'short', 0)], [], {}, {}),
    'BNCLImagePosition': (bncl.BNCLImagePosition, [], [('x', 'short', 0), ('y', 'short', 0), ('alignment', 'align', LAYOUT), ('imageID', 'word', 0)], [], {}, {}),
    'BNCL': (bncl.BNCL, [], [], [], {'unk04': 0, 'imagePositions': []}, {}),
    'BNCL.fromImagePositions': (bncl.BNCL.fromImagePositions, [('imagePositions', 'images')], [('unk04', 'short', 0)], [], {}, {}),
    'ImageTile': (g2.ImageTile, [], [], [('format', 'tileformat', g2.ImageFormat.I8)], {'pixels': [0] * 64}, {}),
    'ImageTile.fromPixels': (g2.ImageTile.fromPixels, [('pixels', 'pixels')], [('format', 'tileformat', g2.ImageFormat.I8)], [], {}, {}),
    'TilemapTile': (g2.TilemapTile, [], [], [('format', 'mapformat', g2.TilemapFormat.I10H1V1P4)],
                    {'tileNum': 0, 'hFlip': False, 'vFlip': False, 'paletteNum': 0, 'value': 0}, {}),
    'TilemapTile.fromParameters': (g2.TilemapTile.fromParameters, [('tileNum', 'int')],
                                   [('format', 'mapformat', g2.TilemapFormat.I10H1V1P4), ('hFlip', 'bool', False), ('vFlip', 'bool', False),
                                    ('paletteNum', 'mode', 0)], [], {}, {}),
    'Texture.fromFlags': (texture.Texture.fromFlags,
                          [('unk00', 'short'), ('unk02', 'short'), ('repeatS', 'bool'), ('repeatT', 'bool'), ('mirrorS', 'bool'), ('mirrorT', 'bool'),
                           ('width', 'size'), ('height', 'size'), ('format', 'texformat'), ('isColor0Transparent', 'bool'),
                           ('coordsTransformationMode', 'mode'), ('unk04', 'word'), ('data1', 'bytes'), ('data2', 'bytes')], [], [], {}, {}),
    'Palette.fromColors': (texture.Palette.fromColors, [('unk00', 'short'), ('unk02', 'short'), ('unkHeader02', 'short'), ('colors', 'colors')], [], [], {}, {}),
    'NSBTX': (texture.NSBTX, [], [], [], {'textures': [], 'palettes': []}, {}),
    'NSBTX.fromTexturesAndPalettes': (texture.NSBTX.fromTexturesAndPalettes,
                                      [('unk08', 'word'), ('unk10', 'word'), ('unk18', 'word'), ('unk20', 'word'), ('unk2C', 'word'), ('unk32', 'short'),
                                       ('textures', 'nothing'), ('palettes', 'nothing')], [], [], {}, {}),
}
NAMES = list(MAKERS)


def same(got, want):
    """Equal, where objects count as equal only to themselves."""
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(map(same, got, want))
    if isinstance(want, fnt.Folder):
        return got is want
    return got is want or (type(got) in (type(want), bytes, bytearray, int, bool, float) and got == want) or (isinstance(want, int) and got == want)


def c34_eval(case, T):
    which, bypos, mask, seed = case
    name = NAMES[which % len(NAMES)]
    func, required, optional, named, rest, attrs = MAKERS[name]
    args, kw, want = [], {}, {}
    given = 0
    if attrs:   # these are known by position only
        bypos = max(bypos, 1)

    def value(kind):
        nonlocal seed
        seed = (seed * 48271 + 11) % 2147483647
        return VALUES[kind](seed >> 3)
    params = [(p, k, None) for p, k in required] + list(optional)
    for i, (p, kind, default) in enumerate(params):
        must = i < len(required)
        if i < bypos:
            v = value(kind)
            args.append(v)
        elif must or mask >> i & 1:
            v = value(kind)
            kw[p] = v
        else:
            want[attrs.get(p, p)] = default
            continue
        given += 1
        want[attrs.get(p, p)] = v
    for i, (p, kind, default) in enumerate(named):
        if mask >> (i + 8) & 1:
            v = kw[p] = value(kind)
            given += 1
        else:
            v = default
        want[attrs.get(p, p)] = v
    want.update(rest)
    if name.startswith('NARC') and want.get('filenames') is None:
        want['filenames'] = 'empty'
    if name == 'ROM':
        want['filenames'] = 'empty'
    if name == 'SingleNoteInstrument':
        want['type'] = int(want['noteDefinition'].type)
    if name == 'NoteDefinition':
        want['dutyCycle'] = want['waveID']
    with T.sut(f'making a {name}'):
        obj = func(*args, **kw)
        got = {a: getattr(obj, a) for a in want}
    how = f'{name} made with {len(args)} values by position and {sorted(kw)} by name'
    for a, w in want.items():
        if isinstance(w, str) and w == 'empty':
            T.eq((got[a].folders, got[a].files, got[a].firstID), ([], [], 0), f'{how}: {a}')
        else:
            T.check(same(got[a], w), f'{how}: {a} is {got[a]!r}, expected {w!r}')
    # what was not given must not be shared with the next object
    with T.sut(f'making another {name}'):
        other = func(*args, **kw)
    for a, w in want.items():
        if isinstance(w, (list, dict, set)) and not any(w is x for x in args + list(kw.values())):
            T.check(getattr(other, a) is not getattr(obj, a), f'{name}: {a} of two objects is the same {type(w).__name__}')
    T.nontrivial(given)
    T.label(name)


def c34_strategy():
    return st.tuples(st.integers(0, len(NAMES) - 1), st.one_of(st.just(0), st.integers(0, 9)), st.integers(0, 2**15 - 1), st.integers(0, 10**6))


def logo_eval(case, T):
    with T.sut('making a ROM'):
        logo = rom.NintendoDSRom().nintendoLogo
    T.eq(len(logo), 0x9C, 'length of the logo')
    crc = 0xFFFF
    for b in logo:
        crc ^= b
        for _ in range(8):
            crc = crc >> 1 ^ (0xA001 if crc & 1 else 0)
    T.eq(crc, 0xCF56, 'checksum of the logo')
    T.nontrivial(True)


CHECKS = {
    'C34': Check('C34', [
        Facet('making', c34_strategy, c34_eval, 8000, 60000, 'non-trivial: at least one value given'),
        Facet('logo', lambda: st.just(0), logo_eval, 1, 1, 'the logo of a new ROM'),
    ], 'Constructors with some parameters by position, some by name and the rest left out; non-trivial: at least one value given.',
        ['Documented constructors and defaults; values are of the documented types.',
         'The logo of a new ROM is judged by the checksum that consoles require.']),
}
