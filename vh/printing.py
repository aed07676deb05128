"""C32: text forms of objects."""
import ast
import copy
import enum
import re

from hypothesis import strategies as st

from .core import Check, Facet, blobs, expand
from . import bmgs, fntnarc, kinds, seqs, trees
from .kinds import BY_NAME, PARTS, snapshot

import ndspy.bmg
import ndspy.code
import ndspy.extras.music
import ndspy.fnt
import ndspy.narc
import ndspy.soundArchive
import ndspy.soundSequence as S
import ndspy.soundSequenceArchive as A
import ndspy.soundStream
import ndspy.soundWave


def texts(o, what, T):
    """Both text forms of an object, which is left alone."""
    before = snapshot(o)
    with T.sut(f'str() of {what}'):
        s = str(o)
    with T.sut(f'repr() of {what}'):
        r = repr(o)
    T.check(type(s) is str and type(r) is str, f'text forms of {what} are not str')
    T.eq(snapshot(o), before, f'{what} after printing it')
    with T.sut(f'printing {what} again'):
        T.eq([str(o), repr(o)], [s, r], f'{what} printed again')
    return s, r


def everything_in(o, out, seen):
    """All objects of the library within an object."""
    if kinds.is_plain(o) or id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, (list, tuple, set)):
        for x in o:
            everything_in(x, out, seen)
    elif isinstance(o, dict):
        for x in o.values():
            everything_in(x, out, seen)
    elif type(o).__module__.startswith('ndspy'):
        out.append(o)
        for _, v in kinds.public(o):
            everything_in(v, out, seen)


def c32_kinds_eval(case, T):
    name, i, spec = case
    k = BY_NAME[name]
    with T.sut(f'making a {name}'):
        if i < len(k.new):
            o = k.new[i]()
        else:
            o = k.build(spec)
            if o is None:
                return
            if i == 7:
                o = k.load(k.save(o))
    texts(o, f'a {name}', T)
    out = []
    everything_in(o, out, {})
    for x in out[:40]:
        texts(x, f'a {type(x).__name__} in a {name}', T)
    T.nontrivial(len(out) > 1)
    T.label(name)


def c32_parts_eval(case, T):
    name, spec = case
    with T.sut(f'making a {name}'):
        o = PARTS[name][1](copy.deepcopy(spec))
    texts(o, f'a {name}', T)
    T.nontrivial()
    T.label(name)


# ---------------------------------------------------------------------------


def ordered(text, pieces, what, T):
    """The pieces (regular expressions) must be in the text in this order."""
    pos = 0
    for p, name in pieces:
        m = re.compile(p).search(text, pos)
        T.check(m, lambda: f'{what} does not show {name} (in its place): {text!r}')
        pos = m.end()


def c32_many_names_eval(case, T):
    spec, nfiles, big = case
    c32_names_eval(([('rand', i, i % 20) for i in range(nfiles)], spec, big), T, trees.wide_tree)


def c32_names_eval(case, T, make=trees.resolve):
    files, tree, big = case
    model = make(tree)
    n = ndspy.narc.NARC.fromFilesAndNames([expand(f) for f in files], trees.to_folder(model))
    n.endiannessOfBeginning = '>' if big else '<'
    want = []

    def walk(t):
        first, names, folders = t
        for i, x in enumerate(names):
            want.append((rf'(?<!\d)0*{first + i}\s+{re.escape(x)}', f'file {first + i} {x!r}'))
        for x, sub in folders:
            want.append((re.escape(x), f'folder {x!r}'))
            walk(sub)
    walk(model)
    for what, o in ('the filename table', n.filenames), ('the NARC', n):
        s, r = texts(o, what, T)
        ordered(s, want, what, T)
        ordered(r, [(re.escape(repr(x)), f'name {x!r}') for x in in_repr_order(model)] if o is n.filenames else [], 'repr() of ' + what, T)
    T.nontrivial(len(want) > 1)
    T.label('files without data', any(fid >= len(files) for fid in file_ids(model)))


def in_repr_order(t):
    first, names, folders = t
    out = []
    for x, sub in folders:
        out.append(x)
        out += in_repr_order(sub)
    return out + list(names)


def file_ids(t):
    first, names, folders = t
    return [first + i for i in range(len(names))] + [i for _, sub in folders for i in file_ids(sub)]


def event_pieces(events):
    index = {id(e): i for i, e in reversed(list(enumerate(events)))}
    out = []
    for i, e in enumerate(events):
        name = f'event {i} ({type(e).__name__})'
        if isinstance(e, (S.JumpSequenceEvent, S.CallSequenceEvent, S.BeginTrackSequenceEvent)):
            begin = isinstance(e, S.BeginTrackSequenceEvent)
            to = e.firstEvent if begin else e.destination
            word = {'J': 'jump', 'C': 'call', 'B': rf'begin track {e.trackNumber}' if begin else ''}[type(e).__name__[0]]
            where = rf'@{index[id(to)]}\b' if id(to) in index else 'NOWHERE'
            out.append((rf'\[ *{i}\] <{word} @?{where}>' if where == 'NOWHERE' else rf'\[ *{i}\] <{word} {where}>', name))
        else:
            out.append((rf'\[ *{i}\] {re.escape(str(e))}', name))
    return out


def c32_sequence_eval(case, T):
    which, spec, names, lost, *many = case
    prog, starts = seqs.build(spec)
    with T.sut('making events'):
        events = seqs.make_all(seqs.merge_raw(prog))
        events += [S.RestSequenceEvent(i) for i in range(many[0] if many else 0)]
    if lost and len(events) > 1:
        # events that others may refer to, but which are not in the list
        del events[lost % len(events)]
    if which == 'sseq':
        with T.sut('making an SSEQ'):
            o = S.SSEQ.fromEvents(events)
    elif which == 'list':
        with T.sut('printing a list of events'):
            s = S.printSequenceEventList(events, None if lost & 1 else {}, '>>')
        ordered(s, event_pieces(events), 'printSequenceEventList()', T)
        T.check(all(l.startswith('>>') for l in s.split('\n') if l), f'printSequenceEventList(): a line without the prefix: {s!r}')
        T.nontrivial(len(events) > 1)
        return
    else:
        with T.sut('making an SSAR'):
            o = A.SSAR.fromEventsAndSequences(events, [(n, A.SSARSequence(events[k % len(events)] if k is not None and events else None)) for n, k in names])
    s, _ = texts(o, f'the {which}', T)
    ordered(s, event_pieces(events), f'the {which}', T)
    if which == 'ssar':
        shown = {n for n, k in names if n}
        flat = re.sub(r'\s+', '', s)
        for n in shown:
            if sum(m == n for m, _ in names) == 1 and len(n) < 8:
                T.check(n in flat, f'the ssar does not show the sequence {n!r}: {s!r}')
    T.nontrivial(len(events) > 1)
    T.label('more than 100 events', len(events) > 100)
    T.label('reference to an event which is not in the list', 'NOWHERE' in s)
    T.label(which)


def c32_sequence_strategy():
    return st.tuples(st.sampled_from(['sseq', 'ssar', 'list']), seqs.program_specs(3),
                     st.lists(st.tuples(st.one_of(st.none(), st.sampled_from(['SE_A', 'SE_B', 'SE_LONG_' + 'X' * 60, ''])), st.one_of(st.none(), st.integers(0, 20))), max_size=5),
                     st.one_of(st.just(0), st.integers(0, 30)), st.one_of(st.just(0), st.just(0), st.just(0), st.integers(0, 1200)))


def c32_message_eval(case, T):
    with T.sut('making a BMG'):
        o = bmgs.to_bmg(copy.deepcopy(case))
    s, r = texts(o, 'the BMG', T)
    pieces = []
    for i, m in enumerate(o.messages):
        want = ''.join(p if isinstance(p, str) else f'[{p.type}:{p.data.hex()}]' for p in m.stringParts)
        ms, mr = texts(m, f'message {i}', T)
        T.eq(ms, want, f'str() of message {i}')
        ordered(mr, [(re.escape(repr(p)), f'part {p!r}') for p in m.stringParts], f'repr() of message {i}', T)
        T.check(repr(m.info) in mr, f'repr() of message {i} does not show the information')
        pieces.append((re.escape(mr), f'message {i}'))
    ordered(r, pieces, 'repr() of the BMG', T)
    for i in o.instructions:
        T.check(repr(i) in r, f'repr() of the BMG does not show the instruction {i!r}')
    for x in list(o.labels) + list(o.scripts):
        T.check(repr(x) in r, f'repr() of the BMG does not show {x!r}')
    T.nontrivial(len(o.messages) > 1)


# ---------------------------------------------------------------------------

# Not given to constructors, or other names for values that are
DERIVED = {'dataLength', 'name', 'bankOrderKey', 'dataMergeOptimizationID', 'firstEventOffset'}
SHOWN = ['event', 'message', 'escape', 'code section', 'note', 'instrument', 'sequence player', 'stream player', 'group entry', 'sequence of an SSAR',
         'texture', 'palette', 'touch area', 'image position']


ALIGNMENTS = [h | v for h in (1, 2, 4) for v in (0x10, 0x20, 0x40)]


def changeable(o, seen):
    """[(object, attribute)] of the values within an object which its text form shows."""
    out = []
    if kinds.is_plain(o) or id(o) in seen:
        return out
    seen[id(o)] = o
    if isinstance(o, (list, tuple)):
        for x in o:
            out += changeable(x, seen)
    elif type(o).__module__.startswith('ndspy'):
        for n, v in kinds.public(o):
            p = getattr(type(o), n, None)
            if n in DERIVED or isinstance(p, property) or not hasattr(o, '__dict__') or n not in vars(o):
                continue
            if n == 'type' and isinstance(o, (S.SequenceEvent, kinds.B.Instrument)):
                continue
            if isinstance(v, (bool, int, bytes, bytearray, str, set, list, enum.Enum)) and not isinstance(v, enum.Flag):
                out.append((o, n))
            out += changeable(v, seen)
    return out


def changed(v, by=0):
    if isinstance(v, enum.Enum):
        l = list(type(v))
        return l[(l.index(v) + 1 + by % (len(l) - 1)) % len(l)]
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v ^ 1
    if isinstance(v, (bytes, bytearray)):
        i = by % len(v) if v else 0
        return bytes(v[:i]) + bytes([v[i] ^ 0x41]) + bytes(v[i + 1:]) if v else b'x'
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, set):
        return v ^ {0}
    if not v:
        return None
    if isinstance(v[0], tuple) and len(v[0]) == 4:
        return [(v[0][0] ^ 1, *v[0][1:])] + v[1:]
    return v[1:]


def told_apart(o, name, places, T):
    """Objects that differ from this one in a single value each also differ from one another."""
    seen = {repr(o): 'nothing'}
    for x, n in places[:24]:
        old = getattr(x, n)
        new = changed(old)
        if new is None:
            continue
        setattr(x, n, new)
        with T.sut(f'repr() of a {name}'):
            r = repr(o)
        T.check(r not in seen, lambda: f'repr() of a {name} is the same after a change of {type(x).__name__}.{n} ({old!r} to {new!r}) and of {seen[r]}: {r!r}')
        seen[r] = f'{type(x).__name__}.{n} ({old!r} to {new!r})'
        setattr(x, n, old)
    T.label('all values')
    T.nontrivial(len(seen) > 2)


def c32_contents_eval(case, T):
    (name, spec), which = case
    with T.sut(f'making a {name}'):
        o = S.RawDataSequenceEvent(expand(spec)) if name == 'raw data' else PARTS[name][1](copy.deepcopy(spec))
    if name == 'texture':
        old, seen = o.format, {}
        for f in type(old):
            o.format = f
            with T.sut('str() of a texture'):
                s = str(o)
            T.check(s not in seen, lambda: f'str() of a texture is the same with formats {f!r} and {seen[s]!r}: {s!r}')
            seen[s] = f
        o.format = old
    places = changeable(o, {})
    if not places:
        return
    if which == 30 and name != 'texture':
        return told_apart(o, name, places, T)
    x, n = places[which % len(places)]
    old = getattr(x, n)
    by = len(repr(o))
    if isinstance(old, (bytes, bytearray)):
        if name in ('event', 'message', 'escape', 'raw data') and which % 4 > 1:
            # longer data that differs at its end
            old = bytes(old) + bytes(i * 7 % 256 for i in range(30 + which * 11))
            setattr(x, n, old)
            T.label('long data')
            by = len(old) - 1
        elif name not in ('event', 'message', 'escape', 'raw data'):
            by = 0
    if n == 'alignment':
        new = ALIGNMENTS[(ALIGNMENTS.index(old) + 1 + which % 8) % 9] if old in ALIGNMENTS else ALIGNMENTS[which % 9]
    else:
        new = changed(old, by)
    if new is None:
        return
    before = texts(o, f'a {name}', T)
    setattr(x, n, new)
    after = texts(o, f'a {name}', T)
    what = f'{type(x).__name__}.{n} {old!r} and {new!r}'
    T.check(before[1] != after[1], f'repr() of a {name} is the same with {what}: {after[1]!r}')
    if name in ('event', 'raw data') and not isinstance(o, S.MonoPolySequenceEvent):
        T.check(before[0] != after[0], f'str() of a {name} is the same with {what}: {after[0]!r}')
    if name in ('touch area', 'image position') or name == 'texture' and n in ('format', 'width', 'height'):
        T.check(before[0] != after[0], f'str() of a {name} is the same with {what}: {after[0]!r}')
    T.label(f'{type(x).__name__}.{n}' if name != 'event' else 'event')
    T.nontrivial()


def c32_contents_strategy():
    return st.tuples(st.one_of(*(st.tuples(st.just(n), PARTS[n][0]()) for n in SHOWN + ['event'] * 8), st.tuples(st.just('raw data'), blobs(90))), st.one_of(st.just(30), st.integers(0, 30)))


def c32_kinds_strategy():
    return st.one_of(*(st.tuples(st.just(k.name), st.integers(0, 7), k.strategy()) for k in kinds.KINDS))


ODD = ['stream with channels of different lengths', 'stream of an unknown kind', 'wave of an unknown kind', 'files of other types', 'names without files',
       'sound archive that cannot be saved', 'track', 'plain event', 'switch']


def c32_odd_eval(case, T):
    which, n, m, data = case
    with T.sut(f'making a {which}'):
        if which == ODD[0]:
            o = ndspy.soundStream.STRM()
            o.channels = [[data] * n] * 2 + [[data] * m]
        elif which == ODD[1]:
            o = ndspy.soundStream.STRM()
            o.waveType = 3 + n
        elif which == ODD[2]:
            o = ndspy.soundWave.SWAV.fromData(data)
            o.waveType = 3 + n
        elif which == ODD[3]:
            o = ndspy.narc.NARC()
            o.files = [[data, bytearray(data), memoryview(data), list(data), None][n % 5]] * (m + 1)
        elif which == ODD[4]:
            o = ndspy.narc.NARC.fromFilesAndNames([data] * n, ndspy.fnt.Folder([('f', ndspy.fnt.Folder([], ['x'] * n, n))], ['y'] * m, n))
        elif which == ODD[5]:
            o = ndspy.soundArchive.SDAT()
            o.sequences = [('A', None), (None, None), ('B', data)][:1 + n % 3] * m
        elif which == ODD[6]:
            o = ndspy.extras.music.SSEQMusic.Track([S.RestSequenceEvent(i) for i in range(n)] + [S.RawDataSequenceEvent(data)])
        elif which == ODD[7]:
            o = S.SequenceEvent(n)
        else:
            o = S.TieSequenceEvent(n)
    s, r = texts(o, f'a {which}', T)
    if which == ODD[6]:
        T.check(all(str(e) in s for e in o.events), f'the track does not show its events: {s!r}')
    T.label(which)
    T.nontrivial()


WITH_DATA = {
    'wave': lambda d: ndspy.soundWave.SWAV.fromData(d),
    'code section': lambda d: ndspy.code.MainCodeFile.Section(d, 0x2000000, 0),
    'overlay': lambda d: ndspy.code.Overlay(d, 0x2000000, len(d), 0, 0, 0, 0, 0, 0),
    'archive': lambda d: ndspy.narc.NARC.fromFilesAndNames([d], ndspy.fnt.Folder(files=['f'], firstID=0)),
    'sequence': lambda d: S.SSEQ(seqs.ref_sseq(d)),
}
LITERAL = re.compile(r'''(?<![\w'"\\])(b'(?:[^'\\]|\\.)*'|b"(?:[^"\\]|\\.)*")(\.\.\.)?''', re.S)


def c32_data_eval(case, T):
    """Data that is shown is the data of the object, or with an ellipsis the start of it."""
    which, data = case
    data = bytes(data)
    with T.sut(f'making a {which}'):
        o = WITH_DATA[which](data)
    for form, text in zip(('str', 'repr'), texts(o, f'a {which}', T)):
        m = LITERAL.search(text)
        if not m or m[1] in ("b'...'", 'b"..."'):
            continue
        try:
            shown = ast.literal_eval(m[1])
        except (SyntaxError, ValueError):
            T.fail(f'{form}() of a {which} shows its data as {m[1]!r}')
        T.label(f'{which} {form}')
        T.nontrivial(data)
        if m[2]:
            T.same_bytes(shown, data[:len(shown)], f'start of the data that {form}() of a {which} shows')
        else:
            T.same_bytes(shown, data, f'data that {form}() of a {which} shows')


def c32_data_strategy():
    byte = st.one_of(st.integers(0, 255), st.integers(0, 9), st.sampled_from(list(b'\'"\\019.,()b')))
    return st.tuples(st.sampled_from(list(WITH_DATA)), st.lists(byte, max_size=48))


CHECKS = {
    'C32': Check('C32', [
        Facet('all kinds', c32_kinds_strategy, c32_kinds_eval, 2500, 25000, 'non-trivial: the object contains others'),
        Facet('parts', kinds.parts, c32_parts_eval, 1500, 15000, 'non-trivial: all'),
        Facet('file names', lambda: fntnarc.narc_models(6), c32_names_eval, 1500, 15000, 'non-trivial: at least two names'),
        Facet('many names', lambda: st.tuples(st.tuples(st.integers(0, 9999), st.integers(0, 300), st.integers(0, 300), st.integers(0, 3)), st.integers(0, 700), st.booleans()),
              c32_many_names_eval, 80, 800, 'up to 300 files and folders in one folder'),
        Facet('sequences', c32_sequence_strategy, c32_sequence_eval, 1500, 15000, 'non-trivial: at least two events'),
        Facet('messages', bmgs.bmg_models, c32_message_eval, 1000, 10000, 'non-trivial: at least two messages'),
        Facet('contents', c32_contents_strategy, c32_contents_eval, 3000, 30000, 'non-trivial: a value was changed'),
        Facet('data shown', c32_data_strategy, c32_data_eval, 1500, 15000, 'non-trivial: data is shown'),
        Facet('unusual', lambda: st.tuples(st.sampled_from(ODD), st.integers(0, 12), st.integers(0, 5), st.binary(max_size=40)), c32_odd_eval, 1000, 10000, 'non-trivial: all'),
    ], 'Generated objects of all kinds and their parts.', []),
}
