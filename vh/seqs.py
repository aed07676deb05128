"""C16-C18: sequence events, sequences, and sequence archives."""
import random
import struct

from hypothesis import strategies as st

from . import reuse
from .core import Check, Facet, HarnessError, Violation, expand, s8, s16, u8, u16, u32

import ndspy.soundSequence as S
import ndspy.soundSequenceArchive as A

# ---------------------------------------------------------------------------
# Event specs and their encoding, from the format description
#
# An event spec is a tuple (kind, arguments...). Jumps, calls and track
# starts have the index of their target in the program as last argument.

ARITH = {t: c for t, c in zip(range(0xB0, 0xBE), [
    'VariableAssignment', 'VariableAddition', 'VariableSubtraction', 'VariableMultiplication', 'VariableDivision',
    'VariableShift', 'VariableRand', 'VariableUnknownB7', 'VariableEqual', 'VariableGreaterThanOrEqual',
    'VariableGreaterThan', 'VariableLessThanOrEqual', 'VariableLessThan', 'VariableNotEqual'])}
BYTE = {0xC0: 'Pan', 0xC1: 'TrackVolume', 0xC2: 'GlobalVolume', 0xC3: 'Transpose', 0xC4: 'Portamento', 0xC5: 'PortamentoRange',
        0xC6: 'TrackPriority', 0xC7: 'MonoPoly', 0xC8: 'Tie', 0xC9: 'PortamentoFrom', 0xCA: 'VibratoDepth', 0xCB: 'VibratoSpeed',
        0xCC: 'VibratoType', 0xCD: 'VibratoRange', 0xCE: 'PortamentoOnOff', 0xCF: 'PortamentoDuration', 0xD0: 'AttackRate',
        0xD1: 'DecayRate', 0xD2: 'SustainRate', 0xD3: 'ReleaseRate', 0xD4: 'BeginLoop', 0xD5: 'Expression', 0xD6: 'PrintVariable',
        0xE0: 'VibratoDelay'}
SHORT = {0xE1: 'Tempo', 0xE3: 'SweepPitch'}
NONE = {'if': (0xA2, 'If'), 'endloop': (0xFC, 'EndLoop'), 'ret': (0xFD, 'Return'), 'end': (0xFF, 'EndTrack')}
FLOW = {'track': (0x93, 'BeginTrack'), 'jump': (0x94, 'Jump'), 'call': (0x95, 'Call')}
LIMITED = {0xC7: 1, 0xCC: 2}


def cls(name):
    return getattr(S, name + 'SequenceEvent')


def varint(n):
    out = [n & 0x7F]
    while n > 0x7F:
        n >>= 7
        out.insert(0, 0x80 | n & 0x7F)
    return bytes(out)


def size(e):
    return len(encode(e, 0))


def encode(e, target=None):
    k = e[0]
    if k == 'note':
        return bytes([e[1], e[2] | (0x80 if e[3] else 0)]) + varint(e[4])
    if k == 'rest':
        return b'\x80' + varint(e[1])
    if k == 'inst':
        return b'\x81' + varint(e[1] << 7 | e[2])
    if k == 'rand':
        return bytes([0xA0, e[1], *e[2]]) + struct.pack('<hh', e[3], e[4])
    if k == 'var':
        if e[3] is None:
            return struct.pack('<BBb', 0xA1, e[1], e[2])
        return struct.pack('<BBbb', 0xA1, e[1], e[3], e[2])
    if k == 'arith':
        return struct.pack('<BBh', e[1], e[2], e[3])
    if k == 'byte':
        return bytes([e[1], e[2]])
    if k == 'short':
        return struct.pack('<BH', e[1], e[2])
    if k == 'tracks':
        return b'\xfe' + sum(1 << t for t in e[1]).to_bytes(2, 'little')
    if k in NONE:
        return bytes([NONE[k][0]])
    if k == 'raw':
        return e[1]
    if k == 'track':
        return bytes([0x93, e[1]]) + target.to_bytes(3, 'little')
    if k in ('jump', 'call'):
        return bytes([FLOW[k][0]]) + target.to_bytes(3, 'little')
    raise HarnessError(k)


def offsets(prog):
    out = []
    pos = 0
    for e in prog:
        out.append(pos)
        pos += size(e)
    return out


def encode_all(prog):
    offs = offsets(prog)
    return b''.join(encode(e, offs[e[-1]] if e[0] in FLOW else None) for e in prog)


def make(e):
    """A new event object (flow events without their target)."""
    k = e[0]
    if k == 'note':
        return S.NoteSequenceEvent(e[1], e[2] | (0x80 if e[3] else 0), e[4])
    if k == 'rest':
        return S.RestSequenceEvent(e[1])
    if k == 'inst':
        return S.InstrumentSwitchSequenceEvent(e[1], e[2])
    if k == 'rand':
        return S.RandomSequenceEvent(e[1], list(e[2]), e[3], e[4])
    if k == 'var':
        return S.FromVariableSequenceEvent(e[1], e[2], e[3]) if e[3] is not None else S.FromVariableSequenceEvent(e[1], e[2])
    if k == 'arith':
        return cls(ARITH[e[1]])(e[2], e[3])
    if k == 'byte':
        return cls(BYTE[e[1]])(e[2])
    if k == 'short':
        return cls(SHORT[e[1]])(e[2])
    if k == 'tracks':
        return S.DefineTracksSequenceEvent(set(e[1]))
    if k in NONE:
        return cls(NONE[k][1])()
    if k == 'raw':
        return S.RawDataSequenceEvent(e[1])
    if k == 'track':
        return S.BeginTrackSequenceEvent(e[1], None)
    return cls(FLOW[k][1])(None)


def make_all(prog):
    out = [make(e) for e in prog]
    for e, o in zip(prog, out):
        if e[0] == 'track':
            o.firstEvent = out[e[2]]
        elif e[0] in FLOW:
            o.destination = out[e[1]]
    return out


def describe(o, index=None):
    """Event object -> spec; index maps id(object) to its place in the list."""
    t = type(o)
    name = t.__name__[:-len('SequenceEvent')]

    def where(x):
        if id(x) not in (index or {}):
            raise Violation(f'{name} refers to a {type(x).__name__} which is not one of the events')
        return index[id(x)]

    if t is S.NoteSequenceEvent:
        if o.pitch != o.type:
            raise Violation('pitch and type differ')
        return ('note', o.type, o.velocity, bool(o.unknownFlag), o.duration)
    if t is S.RawDataSequenceEvent:
        return ('raw', bytes(o.data))
    typ = o.type
    if typ == 0x80:
        r = ('rest', o.duration)
        want = 'Rest'
    elif typ == 0x81:
        r, want = ('inst', o.bankID, o.instrumentID), 'InstrumentSwitch'
    elif typ == 0x93:
        r, want = ('track', o.trackNumber, where(o.firstEvent)), 'BeginTrack'
    elif typ == 0x94:
        r, want = ('jump', where(o.destination)), 'Jump'
    elif typ == 0x95:
        r, want = ('call', where(o.destination)), 'Call'
    elif typ == 0xA0:
        r, want = ('rand', o.subType, tuple(o.args), o.randMin, o.randMax), 'Random'
    elif typ == 0xA1:
        r, want = ('var', o.subType, o.variableID, o.unknown), 'FromVariable'
    elif typ in ARITH:
        r, want = ('arith', typ, o.variableID, o.value), ARITH[typ]
    elif typ == 0xD4:
        r, want = ('byte', typ, int(o.loopCount)), 'BeginLoop'
    elif typ in BYTE:
        r, want = ('byte', typ, int(o.value)), BYTE[typ]
    elif typ in SHORT:
        r, want = ('short', typ, o.value), SHORT[typ]
    elif typ == 0xFE:
        r, want = ('tracks', tuple(sorted(o.trackNumbers))), 'DefineTracks'
    else:
        r, want = next(((k, v[1]) for k, v in NONE.items() if v[0] == typ), (None, None))
        r = (r,)
    if t is not cls(want or 'Note') or want is None:
        raise Violation(f'event of type {typ} is a {t.__name__}')
    return r


def describe_all(events):
    index = {}
    for i, o in enumerate(events):
        index.setdefault(id(o), i)
    return [describe(o, index) for o in events]


def merge_raw(prog):
    """Join adjacent raw data (and drop empty raw data), adjusting targets."""
    out, new = [], []
    for i, e in enumerate(prog):
        if e[0] == 'raw' and (not e[1] or (out and out[-1][0] == 'raw')):
            if e[1]:
                out[-1] = ('raw', out[-1][1] + e[1])
            new.append(None)
            continue
        new.append(len(out))
        out.append(e)
    return [e[:-1] + (new[e[-1]],) if e[0] in FLOW else e for e in out]


# ---------------------------------------------------------------------------
# Generators


def durations():
    return st.one_of(st.integers(0, 300), st.sampled_from([0, 127, 128, 16383, 16384, 2097151, 2097152, 0x0FFFFFFF, 0x10000000]),
                     st.integers(0, 0xFFFFFFFF))


def plain_events():
    subs0 = st.sampled_from([0x80, 0x81, *[t for t in BYTE], *SHORT])
    subs1 = st.one_of(st.integers(0, 0x7F), st.sampled_from(list(ARITH)))
    return st.one_of(
        st.builds(lambda p, v, f, d: ('note', p, v, f, d), st.integers(0, 127), st.integers(0, 127), st.booleans(), durations()),
        st.builds(lambda d: ('rest', d), durations()),
        st.builds(lambda b, i: ('inst', b, i), st.one_of(st.integers(0, 3), st.integers(0, 0x1FFFFF)), st.integers(0, 127)),
        st.builds(lambda t, a, b: ('rand', t, (), a, b), subs0, s16(), s16()),
        st.builds(lambda t, x, a, b: ('rand', t, (x,), a, b), subs1, u8(), s16(), s16()),
        st.builds(lambda t, v: ('var', t, v, None), st.one_of(subs0, st.integers(0, 0x7F)), st.integers(0, 127)),
        st.builds(lambda t, v, u: ('var', t, v, u), st.sampled_from(list(ARITH)), st.integers(0, 127), s8()),
        st.builds(lambda t, v, x: ('arith', t, v, x), st.sampled_from(list(ARITH)), u8(), s16()),
        st.builds(lambda t, v: ('byte', t, v % (LIMITED[t] + 1) if t in LIMITED else v), st.sampled_from(list(BYTE)), u8()),
        st.builds(lambda t, v: ('short', t, v), st.sampled_from(list(SHORT)), u16()),
        st.builds(lambda t: ('tracks', tuple(sorted(t))), st.sets(st.integers(0, 15))),
        st.just(('endloop',)),
    )


@st.composite
def program_specs(draw, max_bodies=4, min_bodies=1, tail=False):
    ev = plain_events()
    nb = draw(st.integers(min_bodies, max_bodies))
    ns = draw(st.integers(0, 3))
    small = st.integers(0, 30)
    item = st.one_of(
        st.tuples(st.just('ev'), ev), st.tuples(st.just('ev'), ev),
        st.tuples(st.just('ifev'), ev),
        st.tuples(st.just('call'), small),
        st.tuples(st.just('cjump'), small, small),
        st.tuples(st.just('ifcall'), small),
        st.tuples(st.just('ifleave'), small),
    )
    bodies = [(draw(st.lists(item, max_size=6)), draw(st.one_of(st.none(), st.tuples(small, small)))) for _ in range(nb)]
    subs = [draw(st.lists(item, max_size=4)) for _ in range(ns)]
    more = {'tail': draw(st.lists(st.integers(0, 7), min_size=nb, max_size=nb))} if tail else {}
    return {**more, 'bodies': bodies, 'subs': subs, 'tails': draw(st.lists(small, min_size=ns, max_size=ns)), 'perm': draw(st.integers(0, 99)),
            'junk': draw(st.lists(st.one_of(st.just(b''), st.just(b''), st.binary(max_size=5)), min_size=nb + ns, max_size=nb + ns))}


def build(spec, tracks=True):
    """Spec -> (program, starts of the bodies). All of it can be reached from the bodies."""
    nb, ns = len(spec['bodies']), len(spec['subs'])
    # subroutines only call later ones
    used = set()
    # some subroutines end with a jump to a later one
    tails = spec.get('tails', [0] * ns)
    tails = [s + 1 + t % (ns - s - 1) if t % 2 and s + 1 < ns else None for s, t in enumerate(tails)]

    def use(k):
        if k not in used:
            used.add(k)
            walk(spec['subs'][k], k + 1)
            if tails[k] is not None:
                use(tails[k])

    def walk(items, lowest):
        for it in items:
            if (it[0] == 'call' or it[0] == 'ifcall' and (lowest or it[1] % 2)) and lowest < ns:
                use(lowest + it[1] % (ns - lowest))

    for items, _ in spec['bodies']:
        walk(items, 0)
    blocks = []   # (name, [(event with symbolic target)])
    for b, (items, ender) in enumerate(spec['bodies']):
        out = []
        if b == 0 and tracks and nb > 1:
            out.append(('tracks', tuple(range(nb))))
            out += [('track', k, ('start', ('b', k))) for k in range(1, nb)]
        for it in items:
            if it[0] == 'ev':
                out.append(it[1])
            elif it[0] == 'ifev':
                out += [('if',), it[1]]
            elif it[0] == 'call':
                if ns:
                    out.append(('call', ('start', ('s', it[1] % ns))))
            elif it[0] == 'ifcall':
                # either of a subroutine, or of something that never returns
                if it[1] % 2 == 0:
                    out += [('if',), ('call', ('start', ('b', it[1] // 2 % nb)))]
                elif ns:
                    out += [('if',), ('call', ('start', ('s', it[1] % ns)))]
            elif it[0] == 'ifleave':
                out += [('if',), ('end',)]
            else:
                out += [('if',), ('jump', ('in', ('b', it[1] % nb), it[2]))]
        tail = spec['tail'][b] if 'tail' in spec else 0
        if tail > 3:
            # a call of something that never returns
            out.append(('call', ('start', ('b', tail % nb))))
        elif ender is None:
            out.append(('end',))
        else:
            out.append(('jump', ('in', ('b', ender[0] % nb), ender[1])))
        blocks.append((('b', b), out))
    for s in sorted(used):
        out = []
        for it in spec['subs'][s]:
            if it[0] == 'ev':
                out.append(it[1])
            elif it[0] == 'ifev':
                out += [('if',), it[1]]
            elif it[0] == 'call':
                if s + 1 < ns:
                    out.append(('call', ('start', ('s', s + 1 + it[1] % (ns - s - 1)))))
            elif it[0] == 'ifcall':
                if s + 1 < ns:
                    out += [('if',), ('call', ('start', ('s', s + 1 + it[1] % (ns - s - 1))))]
            elif it[0] == 'ifleave':
                out += [('if',), ('ret',) if it[1] % 2 else ('end',)]
            else:
                out += [('if',), ('jump', ('ahead' if s % 2 else 'back', ('s', s), it[2]))]
        last = ('ret',) if tails[s] is None else ('jump', ('start', ('s', tails[s])))
        if ('ret',) in out and spec.get('tails', [0] * ns)[s] % 4 == 2:
            # returns on a condition only
            last = ('end',) if spec['tails'][s] % 8 == 2 else ('jump', ('start', ('s', s)))
        out.append(last)
        blocks.append((('s', s), out))
    first = blocks[:1] if tracks else []
    rest = blocks[len(first):]
    if spec['perm']:
        random.Random(spec['perm']).shuffle(rest)
    prog = []
    place = {}
    junk = list(spec['junk'])
    for name, evs in first + rest:
        place[name] = range(len(prog), len(prog) + len(evs))
        prog += evs
        j = junk.pop() if junk else b''
        if j:
            prog.append(('raw', j))
    final = []
    for e in prog:
        if e[0] in FLOW:
            t = e[-1]
            r = place[t[1]]
            if t[0] == 'start':
                x = r[0]
            else:
                ok = targets(prog, r)
                if t[0] == 'back':
                    ok = [x for x in ok if x < len(final)]
                elif t[0] == 'ahead':
                    ok = [x for x in ok if x > len(final)]
                x = ok[t[2] % len(ok)]
            e = e[:-1] + (x,)
        final.append(e)
    return final, [place['b', b][0] for b in range(nb)]


def targets(prog, where):
    """Events that something may lead to: not ones that depend on an "if" before them."""
    return [i for i in where if i == where[0] or prog[i - 1][0] != 'if']


def conditional(prog, i):
    return i > 0 and prog[i - 1][0] == 'if'


def blocks_of(prog):
    out = [[]]
    for i, e in enumerate(prog):
        out[-1].append(i)
        if e[0] == 'raw' or e[0] in ('end', 'ret', 'jump') and not conditional(prog, i):
            out.append([])
    return [b for b in out if b]


def bodies_of(prog):
    """The parts that never return."""
    blocks = [b for b in blocks_of(prog) if prog[b[0]][0] != 'raw']
    inside = {i: n for n, b in enumerate(blocks) for i in b}
    returning = {n for n, b in enumerate(blocks) if any(prog[i][0] == 'ret' for i in b)}
    while True:
        more = {n for n, b in enumerate(blocks) if n not in returning and prog[b[-1]][0] == 'jump' and inside.get(prog[b[-1]][1]) in returning}
        if not more:
            return [b for n, b in enumerate(blocks) if n not in returning]
        returning |= more


def labels(prog, T):
    T.label('jump', any(e[0] == 'jump' for e in prog))
    T.label('backward', any(e[0] in FLOW and e[-1] <= i for i, e in enumerate(prog)))
    T.label('forward', any(e[0] in FLOW and e[-1] > i for i, e in enumerate(prog)))
    T.label('call', any(e[0] == 'call' for e in prog))
    T.label('call that never returns', any(e[0] == 'call' and (i + 1 == len(prog) or prog[i + 1][0] == 'raw') for i, e in enumerate(prog)))
    T.label('conditional call', any(e[0] == 'call' and conditional(prog, i) for i, e in enumerate(prog)))
    T.label('conditional return', any(e[0] == 'ret' and conditional(prog, i) for i, e in enumerate(prog)))
    T.label('conditional end', any(e[0] == 'end' and conditional(prog, i) for i, e in enumerate(prog)))
    T.label('repeated call', len({e for e in prog if e[0] == 'call'}) < sum(e[0] == 'call' for e in prog))
    T.label('tracks', any(e[0] == 'track' for e in prog))
    T.label('raw data', any(e[0] == 'raw' for e in prog))


# ---------------------------------------------------------------------------
# Files


def ref_sseq(events):
    n = len(events) + 0x1C
    return b'SSEQ' + struct.pack('<HHIHH', 0xFEFF, 0x100, n, 16, 1) + b'DATA' + struct.pack('<II', n - 16, 0x1C) + events


def ref_ssar(entries, events, gap=b''):
    do = 0x20 + 12 * len(entries) + len(gap)
    n = do + len(events)
    out = b'SSAR' + struct.pack('<HHIHH', 0xFEFF, 0x100, n, 16, 1) + b'DATA' + struct.pack('<3I', n - 16, do, len(entries))
    for off, bank, vol, cp, pp, player in entries:
        out += struct.pack('<iH4BH', -1 if off is None else off, bank, vol, cp, pp, player, 0)
    return out + gap + events


# C16 -----------------------------------------------------------------------


def c16_event_strategy():
    return st.tuples(plain_events(), st.binary(max_size=4), st.binary(max_size=4))


def c16_event_eval(case, T):
    e, before, after = case
    want = encode(e)
    o = make(e)
    with T.sut(f'saving {e}'):
        got = o.save()
        n = o.dataLength
    T.same_bytes(got, want, f'{e} saved')
    T.eq(n, len(want), f'dataLength of {e}')
    T.eq(describe(o), e, 'event after saving')
    with T.sut(f'parsing {e}'):
        p = type(o).fromData(want[0], before + want + after, len(before))
    T.eq(describe(p), e, 'parsed event')
    T.eq(p.dataLength, len(want), f'dataLength of the parsed {e}')
    with T.sut(f'parsing {e} without an offset'):
        p = type(o).fromData(want[0], want + after)
    T.eq(describe(p), e, 'event parsed from the start')
    T.same_bytes(p.save(), want, 'parsed and saved event')
    T.nontrivial()
    T.label(e[0])


def c16_file_strategy():
    ev = st.one_of(plain_events(), plain_events(), st.just(('if',)))
    return st.tuples(st.lists(ev, max_size=14), st.tuples(u16(), u16(), u8(), u8(), u8(), u8()), st.binary(max_size=6))


PARAMS = ['unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID']


def c16_long_eval(case, T):
    evs, n, seed = case
    r = random.Random(seed)
    c16_file_eval(([r.choice(evs) for _ in range(n)], (1, 2, 3, 4, 5, 6), b''), T)
    T.nontrivial(n > 255)


def c16_file_eval(case, T):
    evs, params, trailing = case
    # (a sequence can also have no events at all)
    prog = evs + [('end',)] if evs else []
    want = ref_sseq(encode_all(prog))
    with T.sut('saving an SSEQ'):
        seq = S.SSEQ.fromEvents(make_all(prog), *params)
        saved = seq.save()
    T.same_bytes(saved[0], want, 'saved SSEQ')
    T.eq(tuple(saved[1:]), params, 'parameters returned by save()')
    with T.sut('loading an SSEQ'):
        loaded = S.SSEQ(want + trailing, *params)
        T.check(not loaded.parsed, 'SSEQ is parsed right after loading')
        T.same_bytes(loaded.eventsData, want[0x1C:], 'eventsData')
        unparsed = loaded.save()
    T.same_bytes(unparsed[0], want, 'unparsed SSEQ saved')
    T.eq(tuple(unparsed[1:]), params, 'parameters returned by save()')
    with T.sut('parsing an SSEQ'):
        loaded.parse()
        T.check(loaded.parsed, 'SSEQ is not parsed after parse()')
        got = describe_all(loaded.events)
    T.eq(got, prog, 'parsed events')
    T.eq([getattr(loaded, k) for k in PARAMS], list(params), 'parameters')
    with T.sut('saving a parsed SSEQ'):
        again = loaded.save()
        loaded.parse()
    T.same_bytes(again[0], want, 'parsed SSEQ saved')
    T.nontrivial(len(evs) > 1)
    for e in evs:
        T.label(e[0])


def c16_lengths_eval(case, T):
    """Variable-length numbers: every boundary, each in a file of its own."""
    bits, delta, kind = case
    n = max(0, (1 << bits) + delta)
    e = {'note': ('note', 60, 100, False, n), 'rest': ('rest', n), 'inst': ('inst', n >> 7, n & 0x7F)}[kind]
    c16_event_eval((e, b'\x80', b'\x80\x80\x01'), T)
    c16_file_eval(([e, ('rest', 1)], (0, 0, 127, 64, 50, 0), b''), T)


# C17 -----------------------------------------------------------------------


def c17_parse_eval(case, T):
    prog, _ = build(case)
    data = encode_all(prog)
    with T.sut('parsing'):
        seq = S.SSEQ(ref_sseq(data))
        seq.parse()
        got = describe_all(seq.events)
    T.eq(got, merge_raw(prog), 'parsed events and targets')
    with T.sut('saving'):
        out = seq.save()[0]
    T.same_bytes(out, ref_sseq(data), 'saved sequence')
    with T.sut('saving new objects'):
        raw, offs = S.saveSequenceEvents(make_all(prog), [])
    T.same_bytes(raw, data, 'sequence built from objects')
    T.nontrivial(any(e[0] in FLOW for e in prog))
    labels(prog, T)


def c17_far_eval(case, T):
    """Targets far into the data: unused data of some size between two parts of the program."""
    spec, size, place = case
    prog, _ = build(spec)
    at = [b[0] for b in blocks_of(prog)][1:] or [len(prog)]
    p = at[place % len(at)]
    prog = shift(prog, p, 1)
    prog.insert(p, ('raw', bytes(size)))
    data = encode_all(prog)
    prog = merge_raw(prog)
    with T.sut('parsing'):
        seq = S.SSEQ(ref_sseq(data))
        seq.parse()
        got = describe_all(seq.events)
    T.eq(got, prog, 'parsed events and targets')
    with T.sut('saving'):
        out = seq.save()[0]
    T.same_bytes(out, ref_sseq(data), 'saved sequence')
    offs = offsets(prog)
    far = {e[0] for e in prog if e[0] in FLOW and offs[e[-1]] > 0xFFFF}
    T.nontrivial(far)
    for k in far:
        T.label('far ' + k)


def c17_many_eval(case, T):
    """Many targets: n parts in some order, each called, jumped to, or started as a track."""
    seed, n, notes, at = case
    r = random.Random(seed)
    calls = [('call', i) for i in range(n)]
    bodies = [[('note', r.randrange(128), 100, False, i)] * r.randrange(1, notes) + [('rest', i), ('ret',)] for i in range(n)]
    order = list(range(n))
    r.shuffle(order)
    first = {}
    prog = [None] * n + [('end',)]
    for i in order:
        first[i] = len(prog)
        prog += bodies[i]
    r.shuffle(calls)
    prog[:n] = [('call', first[i]) for _, i in calls]
    for step in range(2):
        data = encode_all(prog)
        with T.sut('parsing'):
            seq = S.SSEQ(ref_sseq(data))
            seq.parse()
            got = describe_all(seq.events)
        T.eq(got, prog, 'parsed events and targets')
        # something more before all targets
        prog = shift(prog, at, 1)
        prog.insert(at, ('inst', 1, 2))
        with T.sut('saving'):
            T.same_bytes(seq.save()[0], ref_sseq(data), 'saved sequence')
            seq.events.insert(at, S.InstrumentSwitchSequenceEvent(1, 2))
            T.same_bytes(seq.save()[0], ref_sseq(encode_all(prog)), 'edited sequence')
    T.nontrivial(n > 64)


def c17_long_eval(case, T):
    """Long parts that are entered at several places."""
    seed, n, size, jumps = case
    r = random.Random(seed)
    bodies = [[('note', r.randrange(128), 100, False, i) if r.random() < .7 else ('rest', i) for _ in range(r.randrange(1, size))] + [('ret',)] for i in range(n)]
    ncalls = 3 * n
    prog = [None] * ncalls + [('end',)]
    places = []
    for b in bodies:
        places += [len(prog), len(prog) + r.randrange(len(b)), len(prog) + r.randrange(len(b)), len(prog) + len(b) - 1]
        prog += b
    prog[:ncalls] = [('call', r.choice(places)) for _ in range(ncalls)]
    # every part is reached
    for i in range(n):
        prog[r.choice([i, ncalls - 1 - i])] = ('call', places[4 * i])
    if jumps:
        # leave by a jump back instead of an end
        prog[ncalls] = ('jump', r.randrange(ncalls))
    reached = {i for e in prog[:ncalls] for i in range(e[1], prog.index(('ret',), e[1]) + 1)}
    if not reached >= set(range(ncalls + 1, len(prog))):
        return
    data = encode_all(prog)
    with T.sut('parsing'):
        seq = S.SSEQ(ref_sseq(data))
        seq.parse()
        got = describe_all(seq.events)
    T.eq(got, prog, 'parsed events and targets')
    with T.sut('saving'):
        T.same_bytes(seq.save()[0], ref_sseq(data), 'saved sequence')
    T.nontrivial(size > 64)


def far_sizes():
    return st.one_of(st.sampled_from([0xF8, 0x7FF8, 0xFFF8, 0x10000, 0x1FFF0]), st.integers(0xFF00, 0x18000))


def edits_strategy():
    i = st.integers(0, 60)
    ev = plain_events()
    return st.lists(st.one_of(
        st.tuples(st.just('insert'), i, ev), st.tuples(st.just('insert'), i, ev),
        st.tuples(st.just('delete'), i, st.just(0)),
        st.tuples(st.just('replace'), i, ev),
        st.tuples(st.just('duration'), i, durations()),
        st.tuples(st.just('retarget'), i, i),
        st.tuples(st.just('order'), st.integers(1, 99), st.just(0)),
        st.tuples(st.just('repeat'), i, i),
        st.tuples(st.just('reparse'), st.just(0), st.just(0)),
    ), min_size=1, max_size=8)


PLAIN = ('note', 'rest', 'inst', 'rand', 'var', 'arith', 'byte', 'short', 'tracks', 'endloop')


def shift(prog, at, by):
    """Targets after inserting (by=1) or removing (by=-1) an event at the given index."""
    return [e[:-1] + (e[-1] + by if e[-1] >= at else e[-1],) if e[0] in FLOW else e for e in prog]


def insertable(prog):
    """Places where a new event takes part in the flow of events."""
    return [p for p in range(len(prog) + 1) if (p == 0 and prog) or (p and p < len(prog) and prog[p - 1][0] not in ('raw', 'if')
            and not (prog[p - 1][0] in ('end', 'ret', 'jump') and not conditional(prog, p - 1)))]


def apply(edits, prog, events, starts=None, pinned_first=True):
    """Edit objects and program alike. starts: indices that something outside refers to (kept up to date)."""
    prog = list(prog)
    starts = [] if starts is None else starts
    done = 0
    for op, a, b in edits:
        aimed = {e[-1] for e in prog if e[0] in FLOW} | {s for s in starts if s is not None}
        plain = [i for i, e in enumerate(prog) if e[0] in PLAIN]
        free = [i for i in plain if i not in aimed and not conditional(prog, i) and sum(o is events[i] for o in events) == 1]
        if op in ('insert', 'repeat'):
            places = insertable(prog)
            if not pinned_first:
                places = [p for p in places if p]
            if op == 'repeat':
                cand = [i for i in plain if i not in aimed]
                if not cand:
                    continue
                src = cand[a % len(cand)]
                e, o = prog[src], events[src]
                a = b
            else:
                e, o = b, make(b)
            if not places:
                continue
            p = places[a % len(places)]
            # targets refer to objects: what was at p moves up
            prog = shift(prog, p, 1)
            starts[:] = [s + 1 if s is not None and s >= p else s for s in starts]
            prog.insert(p, e)
            events.insert(p, o)
        elif op == 'delete':
            if not free:
                continue
            p = free[a % len(free)]
            prog = shift(prog, p + 1, -1)
            starts[:] = [s - 1 if s is not None and s > p else s for s in starts]
            del prog[p], events[p]
        elif op == 'replace':
            if not free:
                continue
            p = free[a % len(free)]
            prog[p] = b
            events[p] = make(b)
        elif op == 'duration':
            c = [i for i, e in enumerate(prog) if e[0] in ('note', 'rest') and sum(o is events[i] for o in events) == 1]
            if not c:
                continue
            p = c[a % len(c)]
            prog[p] = prog[p][:-1] + (b,)
            events[p].duration = b
        elif op == 'retarget':
            inbody = set()
            for blk in bodies_of(prog):
                inbody |= set(targets(prog, range(blk[0], blk[-1] + 1)))
            cand = [i for i, e in enumerate(prog) if e[0] == 'jump' and e[1] in inbody]
            # only jumps of bodies: a jump out of a subroutine would end it
            cand = [i for i in cand if any(i in blk for blk in bodies_of(prog))]
            if not cand:
                continue
            ok = [i for i in sorted(inbody) if sum(o is events[i] for o in events) == 1]
            if not ok:
                continue
            p, t = cand[a % len(cand)], ok[b % len(ok)]
            prog[p] = ('jump', t)
            events[p].destination = events[t]
        elif op == 'order':
            bl = blocks_of(prog)
            head, rest = (bl[:1], bl[1:]) if pinned_first else ([], bl)
            random.Random(a).shuffle(rest)
            new = [i for blk in head + rest for i in blk]
            at = {old: n for n, old in enumerate(new)}
            prog = [prog[i] for i in new]
            prog = [e[:-1] + (at[e[-1]],) if e[0] in FLOW else e for e in prog]
            starts[:] = [None if s is None else at[s] for s in starts]
            events[:] = [events[i] for i in new]
        else:
            yield prog, events, starts, 'reparse'
            continue
        done += 1
    yield prog, events, starts, done


def c17_edit_eval(case, T):
    spec, edits, parsed = case
    prog, _ = build(spec)
    prog = merge_raw(prog)
    if parsed:
        with T.sut('parsing'):
            seq = S.SSEQ(ref_sseq(encode_all(prog)))
            seq.parse()
    else:
        seq = S.SSEQ.fromEvents(make_all(prog))
    T.eq(describe_all(seq.events), prog, 'events before edits')
    todo = list(edits)
    done = 0
    pending = []
    for e in todo + [('reparse', 0, 0)]:
        if e[0] != 'reparse':
            pending.append(e)
            continue
        for prog, events, _, n in apply(pending, prog, seq.events):
            done += n if n != 'reparse' else 0
        pending = []
        T.check(events is seq.events, 'internal')
        with T.sut('parsing what is parsed already'):
            seq.parse()
        T.check(seq.events is events and seq.parsed, 'parsing an edited sequence again replaces its events')
        want = encode_all(prog)
        with T.sut('saving the edited sequence'):
            out = seq.save()[0]
        T.same_bytes(out, ref_sseq(want), 'edited sequence')
        with T.sut('reparsing the edited sequence'):
            seq = S.SSEQ(out)
            seq.parse()
        prog = merge_raw(prog)
        T.eq(describe_all(seq.events), prog, 'events and targets after reparsing')
    T.nontrivial(done and any(e[0] in FLOW for e in prog))
    T.label('repeated object', any(e[0] == 'repeat' for e in edits))
    labels(prog, T)


def c17_edit_strategy():
    return st.tuples(program_specs(), edits_strategy(), st.booleans())


def c17_notable_eval(case, T):
    """readSequenceEvents and saveSequenceEvents with notable offsets."""
    spec, picks = case
    prog, starts = build(spec)
    prog = merge_raw(prog)
    prog_starts = []
    for blk in bodies_of(prog):
        prog_starts += targets(prog, range(blk[0], blk[-1] + 1))
    offs = offsets(prog)
    chosen = [0] + [prog_starts[p % len(prog_starts)] for p in picks]
    data = encode_all(prog)
    with T.sut('readSequenceEvents'):
        events, notable = S.readSequenceEvents(data, [offs[c] for c in chosen])
    T.eq(describe_all(events), prog, 'events')
    T.eq(len(notable), len(chosen), 'number of notable events')
    for n, c in zip(notable, chosen):
        T.check(n is events[c], f'notable event for {offs[c]:#x} is another event ({type(n).__name__})')
    with T.sut('saveSequenceEvents'):
        out, no = S.saveSequenceEvents(events, [events[c] for c in chosen])
    T.same_bytes(out, data, 'saved events')
    T.eq(list(no), [offs[c] for c in chosen], 'notable offsets')
    T.nontrivial(len(chosen) > 1)


UNKNOWN = [0x82, 0x8F, 0x92, 0x96, 0x9F, 0xA3, 0xAF, 0xBE, 0xD7, 0xDF, 0xE2, 0xE4, 0xEF, 0xF0, 0xFB]


def spoil(prog, how, at, n):
    """Events data of the program with something that cannot be parsed."""
    data = bytearray(encode_all(prog))
    offs = offsets(prog)
    if how == 'unknown':
        data[offs[at % len(prog)]] = UNKNOWN[n % len(UNKNOWN)]
    elif how == 'cut':
        del data[max(1, len(data) - 1 - n % 9):]
    else:
        # somewhere far beyond the end
        jumps = [i for i, e in enumerate(prog) if e[0] in ('jump', 'call', 'track')]
        if not jumps:
            data[:1] = b'\x94\xff\xff\xff'
        else:
            data[offs[jumps[at % len(jumps)]] + (2 if prog[jumps[at % len(jumps)]][0] == 'track' else 1) + 2] = 0xFF
    return bytes(data)


def spoilt_strategy():
    return st.tuples(st.sampled_from(['unknown', 'unknown', 'cut', 'target']), st.integers(0, 60), st.integers(0, 60))


def judge_unparsed(o, kind, data, before, T):
    T.check(not o.parsed, f'{kind} counts as parsed although parsing failed')
    T.same_bytes(o.eventsData, data, f'eventsData of the {kind} after parsing failed')
    with T.raises(f'getting the events of the {kind} that could not be parsed', ValueError):
        o.events
    with T.sut(f'saving the {kind} that could not be parsed'):
        out = o.save()
    T.same_bytes(out[0], before, f'{kind} saved after parsing failed')


def c17_fail_eval(case, T):
    spec, (how, at, n) = case
    prog, _ = build(spec)
    prog = merge_raw(prog)
    data = spoil(prog, how, at, n)
    file = ref_sseq(data)
    with T.sut('loading a sequence'):
        o = S.SSEQ(file, 1, 2, 3, 4, 5, 6)
    for _ in range(2):
        try:
            o.parse()
        except Exception:
            judge_unparsed(o, 'sequence', data, file, T)
            T.nontrivial()
        else:
            T.check(o.parsed, 'not parsed after parse()')
            T.check(data[0] not in UNKNOWN, f'the first event {data[0]:#x} is none, but can be parsed')
            break
    # the data can still be replaced and parsed
    if not o.parsed:
        with T.sut('parsing other data after parsing failed'):
            o.eventsData = encode_all(prog)
            o.parse()
        T.eq(describe_all(o.events), prog, 'events')
    T.label(how)


def c18_fail_eval(case, T):
    spec, (how, at, n) = case
    prog, seqs, unk02 = ssar_model(spec)
    offs = offsets(prog)
    data = spoil(prog, how, at, n)
    starts = [(None if s is None else offs[s], *p) for _, s, p in seqs]
    file = ref_ssar(starts, data)
    names = [x for x, _, _ in seqs]
    with T.sut('loading an SSAR'):
        o = A.SSAR(file, unk02, names)
    for _ in range(2):
        try:
            o.parse()
        except Exception:
            judge_unparsed(o, 'SSAR', data, file, T)
            T.eq([(x, s.parsed, s.firstEventOffset) for x, s in o.sequences], [(x, False, y[0]) for x, y in zip(names, starts)], 'sequences after parsing failed')
            T.nontrivial()
        else:
            T.check(o.parsed, 'not parsed after parse()')
            break
    if not o.parsed:
        with T.sut('parsing other data after parsing failed'):
            o.eventsData = encode_all(prog)
            o.parse()
        judge_ssar(o, prog, seqs, unk02, T, 'parsed SSAR')
    T.label(how)


# C18 -----------------------------------------------------------------------


@st.composite
def ssar_specs(draw):
    spec = draw(program_specs(4))
    seqs = draw(st.lists(st.tuples(st.one_of(st.none(), st.text(max_size=6)),
                                   st.one_of(st.none(), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)),
                                   u16(), u8(), u8(), u8(), u8()), max_size=7))
    return spec, seqs, draw(u16()), draw(st.booleans()), draw(st.integers(0, 5))


def ssar_model(case):
    """-> (program, [(name, start index or None, params)], unk02)"""
    spec, seqs, unk02, tracks, rot = case
    prog, bodies = build(spec, tracks)
    prog = merge_raw(prog)
    ok = []
    firsts = []
    for blk in bodies_of(prog):
        firsts.append(blk[0])
        ok += targets(prog, range(blk[0], blk[-1] + 1))
    out = [(n, None if s is None else ok[s % len(ok)], p) for n, s, *p in seqs]
    # every body needs something that starts it
    for i, f in enumerate(firsts):
        out.insert((rot + i) % (len(out) + 1), (f'SEQ{i}', f, [i, 127, 64, 50, i]))
    return prog, out, unk02


SFIELDS = ['bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID']


def judge_ssar(ar, prog, seqs, unk02, T, what):
    T.eq(ar.unk02, unk02, f'{what}: unk02')
    T.eq([n for n, _ in ar.sequences], [n for n, _, _ in seqs], f'{what}: names')
    offs = offsets(prog)
    if ar.parsed:
        T.eq(describe_all(ar.events), prog, f'{what}: events')
    for (_, s), (name, start, params) in zip(ar.sequences, seqs):
        T.eq([getattr(s, f) for f in SFIELDS], list(params), f'{what}: parameters of {name}')
        T.eq(s.parsed, ar.parsed, f'{what}: parsed state of {name}')
        if not ar.parsed:
            T.eq(s.firstEventOffset, None if start is None else offs[start], f'{what}: offset of {name}')
        elif start is None:
            T.check(s.firstEvent is None, f'{what}: {name} starts at a {type(s.firstEvent).__name__}')
        else:
            T.check(s.firstEvent is ar.events[start], f'{what}: {name} starts at another event ({type(s.firstEvent).__name__})')


def ssar_file(prog, seqs):
    offs = offsets(prog)
    return ref_ssar([(None if s is None else offs[s], *p) for _, s, p in seqs], encode_all(prog))


def c18_many_eval(case, T):
    seed, n, size, gap = case
    r = random.Random(seed)
    prog, starts = [], []
    for i in range(n):
        starts.append(len(prog))
        prog += [('note', r.randrange(128), r.randrange(128), False, r.randrange(300)) for _ in range(r.randrange(size if n < 2000 else 1))] + [('rest', i), ('end',)]
    r.shuffle(starts)
    seqs = [(r.choice([None, f'SEQ_{i}', f'SEQ_{i}']), s, [r.getrandbits(16), *r.randbytes(4)]) for i, s in enumerate(starts)]
    c18_judge(prog, seqs, r.getrandbits(16), gap, b'', T)
    T.label('more than 64 KB of events', offsets(prog)[-1] > 0xFFFF)


def c18_eval(case, T):
    spec, gap, trailing = case
    c18_judge(*ssar_model(spec), gap, trailing, T)


def c18_judge(prog, seqs, unk02, gap, trailing, T):
    names = [n for n, _, _ in seqs]
    want = ssar_file(prog, seqs)
    offs = offsets(prog)
    with T.sut('loading an SSAR'):
        ar = A.SSAR(want, unk02, names)
    judge_ssar(ar, prog, seqs, unk02, T, 'loaded SSAR')
    T.same_bytes(ar.eventsData, encode_all(prog), 'eventsData')
    with T.sut('saving it unparsed'):
        out = ar.save()
    T.same_bytes(out[0], want, 'unparsed SSAR saved')
    T.eq((out[1], list(out[2])), (unk02, names), 'other values returned by save()')
    # other layouts: trailing data after the announced end, a gap before the events
    with T.sut('loading another layout'):
        other = A.SSAR(ref_ssar([(None if s is None else offs[s], *p) for _, s, p in seqs], encode_all(prog), gap) + trailing, unk02, names)
        T.same_bytes(other.save()[0], want, 'other layout saved')
    with T.sut('parsing an SSAR'):
        ar.parse()
    T.check(ar.parsed, 'not parsed after parse()')
    judge_ssar(ar, prog, seqs, unk02, T, 'parsed SSAR')
    with T.sut('saving it parsed'):
        out = ar.save()
    T.same_bytes(out[0], want, 'parsed SSAR saved')
    T.eq((out[1], list(out[2])), (unk02, names), 'other values returned by save()')
    # from scratch
    with T.sut('building an SSAR'):
        events = make_all(prog)
        new = A.SSAR.fromEventsAndSequences(
            events, [(n, A.SSARSequence(None if s is None else events[s], *p)) for n, s, p in seqs], unk02)
        out = new.save()
    T.same_bytes(out[0], want, 'built SSAR saved')
    judge_ssar(new, prog, seqs, unk02, T, 'built SSAR')
    T.nontrivial(len(seqs) > 1)
    st_ = [s for _, s, _ in seqs]
    T.label('no start', None in st_)
    T.label('shared start', len(set(st_)) < len(st_))
    labels(prog, T)


def c18_silent_eval(case, T):
    """Archives without events, whose sequences have no start."""
    seqs, unk02, gap, trailing = case
    c18_judge([], [(n, None, p) for n, p in seqs], unk02, gap, trailing, T)


def c18_names_eval(case, T):
    """Missing names are None; archives without sequences or events."""
    n, names, data = case
    want = ref_ssar([(0, i, 1, 2, 3, 4) for i in range(n)], data)
    with T.sut('loading'):
        ar = A.SSAR(want, 3, names)
        got = [x for x, _ in ar.sequences]
        out = ar.save()
    T.eq(got, (list(names or []) + [None] * n)[:n], 'names')
    T.same_bytes(out[0], want, 'saved SSAR')
    T.eq(out[1], 3, 'unk02')
    T.nontrivial(n)


def c18_edit_eval(case, T):
    spec, edits, seqedits, parsed = case
    prog, seqs, unk02 = ssar_model(spec)
    names = [n for n, _, _ in seqs]
    if parsed:
        with T.sut('loading and parsing an SSAR'):
            ar = A.SSAR(ssar_file(prog, seqs), unk02, names)
            ar.parse()
    else:
        events = make_all(prog)
        ar = A.SSAR.fromEventsAndSequences(
            events, [(n, A.SSARSequence(None if s is None else events[s], *p)) for n, s, p in seqs], unk02)
    starts = [s for _, s, _ in seqs]
    done = 0
    for prog, _, starts, n in apply(edits, prog, ar.events, starts, pinned_first=False):
        done += n if n != 'reparse' else 0
    seqs = [(n, s, p) for (n, _, p), s in zip(seqs, starts)]
    for op, a, b in seqedits:
        if op == 'add':
            i = a % (len(seqs) + 1)
            ok = [s for _, s, _ in seqs if s is not None]
            s = ok[b % len(ok)] if b % 5 else None
            seqs.insert(i, (f'new{a}', s, [a, 1, 2, 3, 4]))
            ar.sequences.insert(i, (f'new{a}', A.SSARSequence(None if s is None else ar.events[s], a, 1, 2, 3, 4)))
        elif seqs:
            i = a % len(seqs)
            if op == 'remove':
                if seqs[i][1] is None or [s for _, s, _ in seqs].count(seqs[i][1]) > 1:
                    del seqs[i], ar.sequences[i]
            elif op == 'param':
                seqs[i] = (seqs[i][0], seqs[i][1], [*seqs[i][2][:1], b, *seqs[i][2][2:]])
                ar.sequences[i][1].volume = b
            elif op == 'start':
                ok = [s for _, s, _ in seqs if s is not None]
                if seqs[i][1] is None or ok.count(seqs[i][1]) > 1:
                    t = ok[b % len(ok)]
                    seqs[i] = (seqs[i][0], t, seqs[i][2])
                    ar.sequences[i][1].firstEvent = ar.events[t]
            elif op == 'swap' and i:
                seqs[i - 1], seqs[i] = seqs[i], seqs[i - 1]
                ar.sequences[i - 1], ar.sequences[i] = ar.sequences[i], ar.sequences[i - 1]
    want = ssar_file(prog, seqs)
    events, pairs = ar.events, list(ar.sequences)
    with T.sut('parsing what is parsed already'):
        ar.parse()
    T.check(ar.events is events and ar.sequences == pairs and ar.parsed, 'parsing an edited SSAR again changes it')
    with T.sut('saving an edited SSAR'):
        out = ar.save()
    T.same_bytes(out[0], want, 'edited SSAR')
    with T.sut('reloading and parsing'):
        again = A.SSAR(*out)
        again.parse()
    judge_ssar(again, merge_raw(prog), renumber(prog, seqs), unk02, T, 'edited and reloaded SSAR')
    T.nontrivial(done or seqedits)
    labels(prog, T)


def renumber(prog, seqs):
    """Start indices after merging raw data."""
    at = {}
    n = -1
    last = None
    for i, e in enumerate(prog):
        if not (e[0] == 'raw' and last == 'raw'):
            n += 1
        at[i] = n
        last = e[0]
    return [(a, None if s is None else at[s], p) for a, s, p in seqs]


def c18_edit_strategy():
    i = st.integers(0, 60)
    se = st.tuples(st.sampled_from(['add', 'remove', 'param', 'start', 'swap']), i, i)
    edits = edits_strategy().map(lambda l: [e for e in l if e[0] != 'reparse'])
    return st.tuples(ssar_specs(), edits, st.lists(se, max_size=4), st.booleans())


NOTE = ['The event encodings are the ones the library documents (type numbers, argument order and sizes); the vibrato delay is taken to have one byte.',
        'Mono/poly and vibrato type are restricted to the values of their enumerations; instrument numbers to 0-127.']
FLOWNOTE = ['Programs are the ones a parser can follow without executing them: nothing depends on a condition except an event or a jump, '
            'subroutines do not recurse, are left only by returning and have jumps in one direction only, and nothing leads to an event directly behind an "if".']

CHECKS = {
    'C16': Check('C16', [
        Facet('events', c16_event_strategy, c16_event_eval, 30000, 100000, 'one event each; all non-trivial'),
        Facet('files', c16_file_strategy, c16_file_eval, 12000, 60000, 'non-trivial: at least two events'),
        Facet('long files', lambda: st.tuples(st.lists(plain_events(), min_size=1, max_size=6), st.one_of(st.integers(1, 600), st.sampled_from([3000, 20000])), st.integers(0, 999)),
              c16_long_eval, 60, 600, 'up to 20000 events; non-trivial: more than 255'),
        Facet('variable lengths', lambda: st.tuples(st.integers(0, 34), st.integers(-2, 2), st.sampled_from(['note', 'rest', 'inst'])),
              c16_lengths_eval, 1500, 2000, 'numbers around powers of two'),
        reuse.facet('SSEQ'),
    ], 'Single events and whole sequence files against a reference encoder; non-trivial: at least two events per file.', NOTE),
    'C17': Check('C17', [
        Facet('parse', lambda: program_specs(tail=True), c17_parse_eval, 3000, 60000, 'non-trivial: has jumps, calls or tracks'),
        Facet('far', lambda: st.tuples(program_specs(), far_sizes(), st.integers(0, 5)), c17_far_eval, 400, 4000,
              'non-trivial: a target beyond the first 64 KiB'),
        Facet('many', lambda: st.tuples(st.integers(0, 10 ** 6), st.one_of(st.integers(1, 400), st.sampled_from([255, 256, 257, 1500])), st.integers(2, 12), st.integers(0, 1)),
              c17_many_eval, 80, 800, 'up to 1500 calls of as many parts; non-trivial: more than 64'),
        Facet('long parts', lambda: st.tuples(st.integers(0, 10 ** 6), st.integers(1, 5), st.sampled_from([3, 30, 150, 150, 600]), st.booleans()), c17_long_eval, 300, 3000,
              'parts of up to 600 events called at several places; non-trivial: more than 64 events in a part'),
        Facet('edit', c17_edit_strategy, c17_edit_eval, 4000, 60000, 'non-trivial: edited and has jumps, calls or tracks'),
        Facet('notable', lambda: st.tuples(program_specs(), st.lists(st.integers(0, 60), max_size=5)), c17_notable_eval, 2000, 20000,
              'non-trivial: several notable events'),
        Facet('unsuccessful', lambda: st.tuples(program_specs(), spoilt_strategy()), c17_fail_eval, 1500, 20000, 'non-trivial: cannot be parsed'),
        reuse.facet('SSEQ'),
    ], 'Generated programs of tracks, subroutines and jumps, parsed, edited and saved; non-trivial: has jumps, calls or tracks.', NOTE + FLOWNOTE),
    'C18': Check('C18', [
        Facet('archives', lambda: st.tuples(ssar_specs(), st.binary(max_size=8), st.binary(max_size=8)), c18_eval, 3000, 60000,
              'non-trivial: at least two sequences'),
        Facet('many', lambda: st.tuples(st.integers(0, 10 ** 6), st.one_of(st.integers(1, 400), st.sampled_from([255, 256, 257, 1500, 6000])), st.sampled_from([1, 5, 60]), st.binary(max_size=4)),
              c18_many_eval, 60, 600, 'up to 6000 sequences'),
        Facet('names', lambda: st.tuples(st.integers(0, 5), st.one_of(st.none(), st.lists(st.one_of(st.none(), st.text(max_size=4)), max_size=5)),
                                         st.binary(max_size=9)), c18_names_eval, 500, 5000, 'non-trivial: has sequences'),
        Facet('no events', lambda: st.tuples(st.lists(st.tuples(st.one_of(st.none(), st.text(max_size=4)), st.tuples(u16(), u8(), u8(), u8(), u8()).map(list)), max_size=4),
                                             u16(), st.binary(max_size=8), st.binary(max_size=8)), c18_silent_eval, 200, 2000, 'non-trivial: at least two sequences'),
        Facet('edits', c18_edit_strategy, c18_edit_eval, 3000, 60000, 'non-trivial: edited'),
        Facet('unsuccessful', lambda: st.tuples(ssar_specs(), spoilt_strategy()), c18_fail_eval, 1000, 15000, 'non-trivial: cannot be parsed'),
        reuse.facet('SSAR'),
    ], 'Sequence archives over generated programs, parsed and unparsed, and edited; non-trivial: at least two sequences.', NOTE + FLOWNOTE),
}
