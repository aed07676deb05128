"""C19-C21: instrument banks, waves and wave archives, streams."""
import random
import struct

from hypothesis import strategies as st

from . import reuse
from .core import Check, Facet, HarnessError, blobs, expand, u8, u16, u32

import ndspy
import ndspy.soundBank as B
import ndspy.soundStream as STR
import ndspy.soundWave as W
import ndspy.soundWaveArchive as WA


def std_header(magic, size, blocks=1):
    return magic + struct.pack('<HHIHH', 0xFEFF, 0x100, size, 0x10, blocks)


# ---------------------------------------------------------------------------
# Instrument banks
#
# note: (wave or duty cycle, archive, pitch, attack, decay, sustain, release, pan, type)
# instrument: None, ('single', note), ('range', first, [note]), ('regional', [(last, note)])


def note_bytes(n):
    return struct.pack('<HH6B', *n[:8])


def inst_bytes(i):
    if i[0] == 'single':
        return note_bytes(i[1])
    if i[0] == 'range':
        return bytes([i[1], i[1] + len(i[2]) - 1]) + b''.join(struct.pack('<H', n[8]) + note_bytes(n) for n in i[2])
    ends = bytes(e for e, _ in i[1])
    return ends + bytes(8 - len(ends)) + b''.join(struct.pack('<H', n[8]) + note_bytes(n) for _, n in i[1])


def inst_type(i):
    return {'single': lambda: i[1][8], 'range': lambda: 16, 'regional': lambda: 17}[i[0]]()


GROUPS = ['single', 'range', 'regional']


def bank_file(table, body):
    """table: (type, offset in body) or None per slot."""
    start = 0x3C + 4 * len(table)
    size = start + len(body)
    size += -size % 4
    out = std_header(b'SBNK', size) + b'DATA' + struct.pack('<I', size - 0x10) + bytes(32) + struct.pack('<I', len(table))
    for e in table:
        out += struct.pack('<BHB', e[0], start + e[1], 0) if e else bytes(4)
    return (out + body).ljust(size, b'\0')


def ref_bank(insts):
    """insts: None or (instrument, order key, merge ID). Sorted by kind and key; equal data with equal IDs shared."""
    body = b''
    table = [None] * len(insts)
    seen = {}
    for g in GROUPS:
        todo = [(x[1], i, x) for i, x in enumerate(insts) if x is not None and x[0][0] == g]
        for _, i, (inst, _, merge) in sorted(todo, key=lambda t: t[:2]):
            d = inst_bytes(inst)
            if (d, merge) not in seen:
                seen[d, merge] = len(body)
                body += d
            table[i] = (inst_type(inst), seen[d, merge])
    return bank_file(table, body)


def read_note(b, typ):
    return (*struct.unpack('<HH6B', b), typ)


def read_bank(f, T):
    """Independent reader: file -> instruments (no unreachable ones)."""
    T.eq(bytes(f[:4]), b'SBNK', 'magic')
    T.eq(struct.unpack_from('<HHIHH', f, 4), (0xFEFF, 0x100, len(f), 0x10, 1), 'header')
    T.eq(f[0x10:0x14], b'DATA', 'block magic')
    T.eq(struct.unpack_from('<I', f, 0x14)[0], len(f) - 0x10, 'block size')
    n, = struct.unpack_from('<I', f, 0x38)
    start = 0x3C + 4 * n
    out = []
    for i in range(n):
        typ, off, z = struct.unpack_from('<BHB', f, 0x3C + 4 * i)
        T.eq(z, 0, 'padding')
        if typ == 0:
            out.append(None)
            continue
        T.check(start <= off < len(f), f'instrument {i} at {off:#x} is outside the file')
        if typ < 16:
            inst = ('single', read_note(f[off:off + 10], typ))
        elif typ == 16:
            a, b = f[off:off + 2]
            notes = []
            for k in range(b - a + 1):
                p = off + 2 + 12 * k
                notes.append(read_note(f[p + 2:p + 12], struct.unpack_from('<H', f, p)[0]))
            inst = ('range', a, notes)
        else:
            T.eq(typ, 17, 'instrument type')
            ends = list(f[off:off + 8])
            while len(ends) > 1 and ends[-1] == 0:
                ends.pop()
            regions = []
            for k, e in enumerate(ends):
                p = off + 8 + 12 * k
                regions.append((e, read_note(f[p + 2:p + 12], struct.unpack_from('<H', f, p)[0])))
            inst = ('regional', regions)
        out.append(inst)
    return out


def make_note(n):
    return B.NoteDefinition(*n[:8], n[8])


def make_inst(x):
    if x is None:
        return None
    inst, key, merge = x
    if inst[0] == 'single':
        o = B.SingleNoteInstrument(make_note(inst[1]))
    elif inst[0] == 'range':
        o = B.RangeInstrument(inst[1], [make_note(n) for n in inst[2]])
    else:
        o = B.RegionalInstrument([B.RegionalInstrument.Region(e, make_note(n)) for e, n in inst[1]])
    o.bankOrderKey = key
    o.dataMergeOptimizationID = merge
    return o


NF = ['waveID', 'waveArchiveIDID', 'pitch', 'attack', 'decay', 'sustain', 'release', 'pan']


def view_note(n, T):
    T.eq(n.dutyCycle, n.waveID, 'dutyCycle and waveID')
    if n.type in (1, 2, 3):
        T.check(isinstance(n.type, B.NoteType), f'type {n.type} is not a NoteType')
    return (*(getattr(n, f) for f in NF), int(n.type))


def view_inst(i, T):
    if i is None:
        return None
    if isinstance(i, B.SingleNoteInstrument):
        T.eq(i.type, int(i.noteDefinition.type), 'type of instrument and note')
        return ('single', view_note(i.noteDefinition, T))
    if isinstance(i, B.RangeInstrument):
        T.eq(i.type, 16, 'type of range instrument')
        return ('range', i.firstPitch, [view_note(n, T) for n in i.noteDefinitions])
    T.check(isinstance(i, B.RegionalInstrument), f'unexpected instrument {type(i)}')
    T.eq(i.type, 17, 'type of regional instrument')
    return ('regional', [(r.lastPitch, view_note(r.noteDefinition, T)) for r in i.regions])


def seeded_notes(seed, n, single=False):
    """n notes from a seed; seed 0 gives the simplest ones."""
    if seed == 0:
        return [(0, 0, 0, 0, 0, 0, 0, 0, 1)] * n
    r = random.Random(seed)
    out = []
    for _ in range(n):
        out.append((r.choice([r.randrange(10), r.randrange(0x10000)]), r.choice([r.randrange(4), r.randrange(0x10000)]),
                    r.choice([0, 60, 127, r.randrange(256)]), *(r.choice([0, 127, r.randrange(256)]) for _ in range(5)),
                    r.randint(1, 3) if r.random() < .6 else r.randint(1, 15) if single else r.randrange(0x10000)))
    return out


def seeds():
    return st.one_of(st.just(0), st.integers(0, 99999))


def notes():
    return seeds().map(lambda s: seeded_notes(s, 1)[0])


def instruments(kind=None):
    single = seeds().map(lambda s: ('single', seeded_notes(s, 1, True)[0]))
    rng = st.builds(lambda f, n, s: ('range', min(f, 128 - n), seeded_notes(s, n)), st.integers(0, 127), st.integers(1, 5), seeds())
    # usually the last pitches increase, but the format does not demand it; only the first one can be 0
    last = st.one_of(st.just(127), st.integers(1, 127))
    ends = st.one_of(st.lists(st.one_of(st.just(127), st.integers(0, 127)), min_size=1, max_size=8, unique=True).map(sorted),
                     st.builds(lambda a, b: [a] + b, st.one_of(last, st.integers(0, 255)), st.lists(st.one_of(last, last, st.integers(1, 255)), max_size=7)))
    regional = st.builds(lambda ends, s: ('regional', list(zip(ends, seeded_notes(s, len(ends))))), ends, seeds())
    return {None: st.one_of(single, rng, regional), 'single': single, 'range': rng, 'regional': regional}[kind]


def archive_ids():
    return st.lists(u16(), max_size=4)


def bank_models():
    small = st.integers(0, 3)
    one = st.tuples(instruments(), st.one_of(st.just(0), small), st.one_of(st.just(0), small))

    @st.composite
    def models(draw):
        pool = draw(st.lists(instruments(), min_size=1, max_size=4))
        slot = st.one_of(st.none(), one, st.tuples(st.sampled_from(pool), st.one_of(st.just(0), small), st.one_of(st.just(0), small)))
        return draw(st.lists(slot, max_size=8)), draw(archive_ids()), draw(u16())
    return models()


def c19_new_eval(case, T):
    insts, ids, unk02 = case
    want = ref_bank(insts)
    plain = [None if x is None else x[0] for x in insts]
    same = unk02 & 1   # equal instruments are the same object
    with T.sut('saving a bank'):
        made = [make_inst(x) for x in insts]
        if same:
            made = [made[insts.index(x)] for x in insts]
        bank = B.SBNK.fromInstruments(made, unk02, ids)
        out = bank.save()
    T.eq(read_bank(bytes(out[0]), T), plain, 'instruments in the file')
    T.same_bytes(out[0], want, 'saved bank')
    T.eq((out[1], list(out[2])), (unk02, ids), 'other values returned by save()')
    with T.sut('loading a bank'):
        again = B.SBNK(*out)
    T.eq([view_inst(i, T) for i in again.instruments], plain, 'instruments')
    T.eq((again.unk02, list(again.waveArchiveIDs)), (unk02, ids), 'parameters')
    T.eq(again.inaccessibleInstruments, {}, 'inaccessible instruments')
    with T.sut('saving it again'):
        T.same_bytes(again.save()[0], want, 'bank saved again')
    T.nontrivial(sum(x is not None for x in plain) > 1)
    live = [x for x in insts if x]
    T.label('equal instruments', len({repr(x[0]) for x in live}) < len(live))
    T.label('same instrument twice', same and len({repr(x) for x in live}) < len(live))
    for g in GROUPS:
        T.label(g, any(x[0][0] == g for x in live))
    T.label('empty slot', None in insts)


@st.composite
def c19_layouts(draw):
    """Bank data in order, each part with the slots that use it (unreachable parts have none)."""
    parts = []
    nslots = 0
    order = []
    for g in GROUPS:
        hidden = 0
        for _ in range(draw(st.integers(0, 4))):
            inst = draw(instruments(g))
            if hidden < 3 and draw(st.integers(0, 3)) == 0:
                hidden += 1
                parts.append((clear(inst), []))
                continue
            k = draw(st.sampled_from([1, 1, 1, 2, 3]))
            types = [draw(st.integers(1, 15)) if g == 'single' else 0 for _ in range(k)]
            parts.append((inst, types))
            nslots += k
    empty = draw(st.integers(0, 3))
    order = draw(st.permutations(range(nslots + empty)))
    return parts, list(order), draw(archive_ids()), draw(u16()), draw(st.binary(max_size=5))


def clear(i):
    """A variant of the instrument that can be recognized without a table entry."""
    def low(n, **kw):
        return (n[0] % 60, n[1] % 0x900, *n[2:8], n[8] % 3 + 1)
    if i[0] == 'single':
        n = low(i[1])
        return ('single', (*n[:2], 60, *n[3:8], 1))
    if i[0] == 'range':
        return ('range', min(max(i[1], 10), 128 - len(i[2])), [low(n) for n in i[2]])
    ends = [12, *range(90, 120)][:len(i[1])]
    return ('regional', [(e, low(n)) for e, (_, n) in zip(ends, i[1])])


def c19_layout_eval(case, T):
    parts, order, ids, unk02, trailing = case
    body = b''
    slots = [None] * len(order)
    table = [None] * len(order)
    k = 0
    hidden = 0
    for inst, types in parts:
        hidden += not types
        for t in types:
            x = inst
            if inst[0] == 'single':
                x = ('single', (*inst[1][:8], t))
            slots[order[k]] = x
            table[order[k]] = (inst_type(x), len(body))
            k += 1
        body += inst_bytes(inst)
    f = bank_file(table, body)
    with T.sut('loading a bank'):
        bank = B.SBNK(f + trailing, unk02, ids + [None] * (4 - len(ids)))
        got = [view_inst(i, T) for i in bank.instruments]
    T.eq(got, slots, 'instruments')
    T.eq(list(bank.waveArchiveIDs), ids, 'wave archive IDs')
    with T.sut('saving a bank'):
        out = bank.save()
    T.same_bytes(out[0], f, 'saved bank')
    T.eq((out[1], list(out[2])), (unk02, ids), 'other values returned by save()')
    T.eq(sum(map(len, bank.inaccessibleInstruments.values())), hidden, 'number of inaccessible instruments')
    T.nontrivial(len(parts) > 1)
    T.label('unreachable', hidden)
    T.label('shared', any(len(t) > 1 for _, t in parts))
    T.label('empty slot', None in slots)


def c19_garbage_eval(case, T):
    """Data that is no instrument, between the instruments: these are kept all the same."""
    insts, garbage, ids, unk02, perm = case
    body = bytes(garbage[0])
    slots = [None] * len(insts)
    table = [None] * len(insts)
    order = list(range(len(insts)))
    random.Random(perm).shuffle(order)
    for k, g in zip(order, garbage[1:]):
        if insts[k] is None:
            continue
        slots[k] = insts[k]
        table[k] = (inst_type(insts[k]), len(body))
        body += inst_bytes(insts[k]) + g
    f = bank_file(table, body)
    with T.sut('loading a bank with other data in it'):
        bank = B.SBNK(f, unk02, ids)
        got = [view_inst(i, T) for i in bank.instruments]
    T.eq(got, slots, 'instruments')
    with T.sut('saving a bank with other data in it'):
        out = bank.save()
    T.eq(read_bank(bytes(out[0]), T), slots, 'instruments in the saved file')
    with T.sut('loading the bank again'):
        again = B.SBNK(*out)
    T.eq([view_inst(i, T) for i in again.instruments], slots, 'instruments loaded again')
    T.nontrivial(any(garbage) and any(slots))
    T.label('garbage taken for instruments', bank.inaccessibleInstruments)


def c19_garbage_strategy():
    g = st.one_of(st.just(b''), st.binary(max_size=40), st.lists(st.sampled_from([0, 1, 2, 60, 127]), max_size=60).map(bytes),
                  instruments().map(inst_bytes))
    return st.lists(st.one_of(st.none(), instruments(), instruments()), max_size=5).flatmap(lambda i: st.tuples(
        st.just(i), st.lists(g, min_size=len(i) + 1, max_size=len(i) + 1), archive_ids(), u16(), st.integers(0, 5)))


def c19_edit_eval(case, T):
    """Edit one instrument of a loaded bank (with shared data): only that one changes."""
    parts, order, ids, unk02, trailing = case[0]
    edits = case[1]
    body = b''
    slots = [None] * len(order)
    table = [None] * len(order)
    k = 0
    hidden = 0
    for inst, types in parts:
        hidden += not types
        for t in types:
            x = ('single', (*inst[1][:8], t)) if inst[0] == 'single' else inst
            slots[order[k]] = x
            table[order[k]] = (inst_type(x), len(body))
            k += 1
        body += inst_bytes(inst)
    with T.sut('loading a bank'):
        bank = B.SBNK(bank_file(table, body), unk02, ids)
    done = 0
    for op, i, new in edits:
        if not slots:
            break
        i %= len(slots)
        if op == 'note':
            x, o = slots[i], bank.instruments[i]
            if x is None:
                continue
            if x[0] == 'single':
                n = x[1][:4] + new[4:5] + x[1][5:]
                slots[i] = ('single', n)
                o.noteDefinition.decay = new[4]
            elif x[0] == 'range':
                slots[i] = ('range', x[1], [x[2][0][:4] + new[4:5] + x[2][0][5:]] + x[2][1:])
                o.noteDefinitions[0].decay = new[4]
            else:
                e, n = x[1][-1]
                slots[i] = ('regional', x[1][:-1] + [(e, n[:4] + new[4:5] + n[5:])])
                o.regions[-1].noteDefinition.decay = new[4]
        elif op == 'duty':
            x, o = slots[i], bank.instruments[i]
            if x is None or x[0] != 'single':
                continue
            slots[i] = ('single', (new[0], *x[1][1:8], 2))
            o.type = 2
            o.noteDefinition.dutyCycle = new[0]
        elif op == 'clear':
            slots[i] = None
            bank.instruments[i] = None
        elif op == 'delete':
            del slots[i], bank.instruments[i]
        else:
            slots.insert(i, ('single', (*new[:8], 1)))
            bank.instruments.insert(i, make_inst((slots[i], 0, 0)))
        done += 1
    lost = {k: list(v) for k, v in bank.inaccessibleInstruments.items()}
    T.eq(sum(map(len, lost.values())), hidden, 'number of inaccessible instruments')
    with T.sut('saving an edited bank'):
        out = bank.save()
    T.eq(read_bank(bytes(out[0]), T), slots, 'instruments in the edited bank')
    for k, l in lost.items():
        if k is None or k >= len(slots):
            for o in l:
                T.check(o.save()[1] in bytes(out[0]), f'inaccessible instrument after {k} is not in the saved bank')
            T.label('inaccessible instrument after a deleted one', k is not None)
    with T.sut('loading the edited bank'):
        again = B.SBNK(*out)
    T.eq([view_inst(i, T) for i in again.instruments], slots, 'instruments after reloading')
    T.label('unreachable', hidden)
    T.nontrivial(done)
    T.label('shared', any(len(t) > 1 for _, t in parts))


def c19_edit_strategy():
    return st.tuples(c19_layouts(), st.lists(st.tuples(st.sampled_from(['note', 'note', 'duty', 'clear', 'delete', 'insert']),
                                                       st.integers(0, 20), notes()), min_size=1, max_size=4))


def c19_part_eval(case, T):
    """Instruments and notes on their own."""
    inst, before, after = case
    d = inst_bytes(inst)
    o = make_inst((inst, 0, 0))
    with T.sut('saving an instrument'):
        typ, out = o.save()
    T.eq(typ, inst_type(inst), 'type')
    T.same_bytes(out, d, 'instrument data')
    cls = B.instrumentClass(inst_type(inst))
    T.check(type(o) is cls, f'instrumentClass({inst_type(inst)}) is {cls}')
    with T.sut('loading an instrument'):
        back, n = cls.fromData(inst_type(inst), before + d + after, len(before))
    T.eq(view_inst(back, T), inst, 'instrument')
    T.eq(n, len(d), 'number of bytes read')
    note = inst[1] if inst[0] == 'single' else inst[2][0] if inst[0] == 'range' else inst[1][0][1]
    with T.sut('notes'):
        a = make_note(note)
        T.same_bytes(a.save(), note_bytes(note), 'note')
        T.same_bytes(a.saveWithType(), struct.pack('<H', note[8]) + note_bytes(note), 'note with type')
        T.eq(view_note(B.NoteDefinition.fromData(note_bytes(note) + after, note[8]), T), note, 'note')
        T.eq(view_note(B.NoteDefinition.fromDataWithType(struct.pack('<H', note[8]) + note_bytes(note) + after), T), note, 'note with type')
        T.eq(view_note(B.NoteDefinition.fromData(note_bytes(note)), T), (*note[:8], 1), 'note of the default type')
    T.nontrivial()
    T.label(inst[0])


def c19_limits_eval(case, T):
    """Large ranges, all regions, and more regions than allowed."""
    kind, n, seed = case
    note = lambda i: (i * 7 + seed, i, i % 128, i % 128, 1, 2, 3, 4, i % 3 + 1)
    if kind == 'range':
        insts = [(('range', 0, [note(i) for i in range(n)]), 0, 0)]
        c19_new_eval((insts * 2 + [None], [seed], 0), T)
    elif kind == 'slots':
        c19_new_eval(([(('single', note(i)), 0, 0) if i % 3 else None for i in range(n)], [seed], 0), T)
    elif kind == 'full':
        # as many as the offsets can reach
        k = 1
        while k < 2500 and 0x3C + 4 * (k + 1) + k * (2 + 12 * n) <= 0xFFFF:
            k += 1
        c19_new_eval(([(('range', 0, [note(i + j) for j in range(n)]), 0, 0) for i in range(k)], [seed], 0), T)
    elif kind == 'hidden':
        hidden = [('single', note(i)[:2] + (60,) + note(i)[3:8] + (1,)) for i in range(n + 150)]
        shown = [('single', note(7 * i + 1)[:8] + (2,)) for i in range(3)]
        with T.sut('saving a bank with many inaccessible instruments'):
            bank = B.SBNK.fromInstruments([make_inst((x, 0, 0)) for x in shown])
            bank.inaccessibleInstruments = {None: [make_inst((x, 0, 0)) for x in hidden]}
            out = bank.save()[0]
        T.eq(read_bank(bytes(out), T), shown, 'instruments in the file')
        body = b''.join(map(inst_bytes, hidden))
        T.check(bytes(out).find(body) > 0, 'inaccessible instruments are not in the file')
    else:
        o = B.RegionalInstrument([B.RegionalInstrument.Region(i * 8, make_note(note(i))) for i in range(9 + n % 4)])
        with T.raises('saving an instrument with too many regions', ValueError):
            o.save()
        with T.raises('saving a bank with it', ValueError):
            B.SBNK.fromInstruments([o]).save()
        with T.raises('instrument class of an invalid type', ValueError):
            B.instrumentClass(18 + n)
    T.nontrivial()


# ---------------------------------------------------------------------------
# Waves: (type, looped, rate, time, loop offset, length beyond it, data spec)


def waves():
    return st.tuples(st.integers(0, 2), st.booleans(), u16(), u16(), st.one_of(st.integers(0, 8), u16()),
                     st.one_of(st.integers(0, 64), st.integers(0, 0xFFFFFFFF)), blobs(200, 24))


def wave_info(w):
    return struct.pack('<BBHHHI', w[0], w[1], w[2], w[3], w[4], w[5]) + expand(w[6])


def ref_wave(w):
    d = wave_info(w)
    return std_header(b'SWAV', 0x18 + len(d)) + b'DATA' + struct.pack('<I', 8 + len(d)) + d


def make_wave(w, by_attr=False):
    kw = dict(waveType=ndspy.WaveType(w[0]), isLooped=w[1], sampleRate=w[2], time=w[3], loopOffset=w[4], totalLength=w[4] + w[5])
    if not by_attr:
        return W.SWAV.fromData(expand(w[6]), **kw)
    o = W.SWAV()
    for k, v in kw.items():
        setattr(o, k, v)
    o.data = expand(w[6])
    return o


def judge_wave(o, w, T, what):
    got = (o.waveType, o.isLooped, o.sampleRate, o.time, o.loopOffset, o.totalLength)
    T.eq(got, (w[0], w[1], w[2], w[3], w[4], w[4] + w[5]), f'{what}: settings')
    T.check(isinstance(o.waveType, ndspy.WaveType) and isinstance(o.isLooped, bool), f'{what}: types of settings')
    T.same_bytes(o.data, expand(w[6]), f'{what}: data')


def c20_wave_eval(case, T):
    w, trailing, by_attr = case
    want = ref_wave(w)
    with T.sut('saving a wave'):
        o = make_wave(w, by_attr)
        T.same_bytes(o.save(), want, 'saved wave')
    judge_wave(o, w, T, 'after saving')
    with T.sut('loading a wave'):
        l = W.SWAV(want + trailing)
    judge_wave(l, w, T, 'loaded')
    with T.sut('saving it again'):
        T.same_bytes(l.save(), want, 'loaded and saved wave')
    # recalculated values
    n = len(expand(w[6]))
    if w[2] and 16756991 // w[2] < 0x10000:
        v = (*w[:3], 16756991 // w[2], *w[4:])
        with T.sut('updateTime'):
            T.same_bytes(l.save(updateTime=True), ref_wave(v), 'wave with updated time')
        judge_wave(l, v, T, 'after updateTime')
        # and again with another rate
        rate = 0xFFFF - w[2] // 2
        w = (*w[:2], rate, 16756991 // rate, *w[4:])
        with T.sut('updateTime with another rate'):
            l.sampleRate = rate
            T.same_bytes(l.save(updateTime=True), ref_wave(w), 'wave with another rate and updated time')
        judge_wave(l, w, T, 'after updateTime with another rate')
    if w[4] <= n // 4:
        v = (*w[:5], n // 4 - w[4], w[6])
        with T.sut('updateTotalLength'):
            T.same_bytes(l.save(updateTotalLength=True), ref_wave(v), 'wave with updated length')
        judge_wave(l, v, T, 'after updateTotalLength')
        more = expand(w[6]) + bytes(range(1, 6 + n % 9))
        with T.sut('updateTotalLength with longer data'):
            l.data = more
            got = l.save(updateTotalLength=True)
        T.eq((l.loopOffset, l.totalLength), (w[4], len(more) // 4), 'loop and total length after adding data')
        T.eq(got[0x20:0x24], (len(more) // 4 - w[4]).to_bytes(4, 'little'), 'length saved after adding data')
    else:
        with T.raises('saving with the loop offset beyond the length', ValueError):
            l.save(updateTotalLength=True)
    T.nontrivial(n)
    T.label('looped', w[1])
    T.label(f'type {w[0]}')


def ref_swar(ws):
    body = b''
    offs = []
    for w in ws:
        offs.append(0x3C + 4 * len(ws) + len(body))
        body += wave_info(w)
    n = 0x3C + 4 * len(ws) + len(body)
    return (std_header(b'SWAR', n) + b'DATA' + struct.pack('<I', n - 0x10) + bytes(32) + struct.pack('<I', len(ws))
            + struct.pack(f'<{len(ws)}I', *offs) + body)


def read_swar(f, T):
    """Independent reader: the wave parts, by the offset table."""
    T.eq(struct.unpack_from('<4sHHIHH', f), (b'SWAR', 0xFEFF, 0x100, len(f), 0x10, 1), 'header')
    T.eq(struct.unpack_from('<4sI', f, 0x10), (b'DATA', len(f) - 0x10), 'block header')
    n, = struct.unpack_from('<I', f, 0x38)
    offs = [*struct.unpack_from(f'<{n}I', f, 0x3C), len(f)]
    T.eq(offs[0], 0x3C + 4 * n, 'first offset')
    return [f[a:b] for a, b in zip(offs, offs[1:])]


def c20_archive_eval(case, T):
    ws, unk02, trailing, edits = case
    want = ref_swar(ws)
    with T.sut('saving an archive'):
        ar = WA.SWAR.fromWaves([make_wave(w) for w in ws], unk02)
        out = ar.save()
    T.eq(read_swar(bytes(out[0]), T), [wave_info(w) for w in ws], 'waves in the file')
    T.same_bytes(out[0], want, 'saved archive')
    T.eq(out[1], unk02, 'unk02')
    with T.sut('loading an archive'):
        l = WA.SWAR(want + trailing, unk02)
    T.eq(len(l.waves), len(ws), 'number of waves')
    for i, (o, w) in enumerate(zip(l.waves, ws)):
        judge_wave(o, w, T, f'wave {i}')
        with T.sut('saving a wave of an archive'):
            T.same_bytes(o.save(), ref_wave(w), f'wave {i} on its own')
    T.eq(l.unk02, unk02, 'unk02')
    with T.sut('saving it again'):
        T.same_bytes(l.save()[0], want, 'loaded and saved archive')
    ws = list(ws)
    for op, i, w in edits:
        if op == 'insert':
            i %= len(ws) + 1
            ws.insert(i, w)
            l.waves.insert(i, W.SWAV(ref_wave(w)))
        elif ws:
            i %= len(ws)
            if op == 'delete':
                del ws[i], l.waves[i]
            elif op == 'data':
                for j, o in enumerate(l.waves):
                    if o is l.waves[i]:
                        ws[j] = (*ws[j][:6], w[6])
                l.waves[i].data = expand(w[6])
            else:
                ws.append(ws[i])
                l.waves.append(l.waves[i])
    with T.sut('saving an edited archive'):
        out = l.save()
    T.same_bytes(out[0], ref_swar(ws), 'edited archive')
    T.nontrivial(len(ws) > 1)
    T.label('empty', not ws)
    T.label('empty wave', any(not expand(w[6]) for w in ws))


def c20_archive_strategy():
    return st.tuples(st.lists(waves(), max_size=5), u16(), st.binary(max_size=6),
                     st.lists(st.tuples(st.sampled_from(['insert', 'delete', 'data', 'repeat']), st.integers(0, 9), waves()), max_size=3))


def c20_large_eval(case, T):
    n, size, seed = case
    ws = [(i % 3, i % 2 == 0, 8000 + i, i, i, size // 4, ('rand', seed + i, size + i % 4)) for i in range(n)]
    want = ref_swar(ws)
    with T.sut('a large wave'):
        one = make_wave(ws[-1]).save()
        T.same_bytes(one, ref_wave(ws[-1]), 'saved wave')
        judge_wave(W.SWAV(one), ws[-1], T, 'loaded')
    with T.sut('a large archive'):
        T.same_bytes(WA.SWAR.fromWaves([make_wave(w) for w in ws]).save()[0], want, 'saved archive')
        l = WA.SWAR(want)
        for o, w in zip(l.waves, ws):
            judge_wave(o, w, T, 'loaded')
        T.same_bytes(l.save()[0], want, 'saved again')
    T.nontrivial()


# ---------------------------------------------------------------------------
# Streams

SU = ['unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44']
SP = ['unk02', 'volume', 'priority', 'playerID', 'unk07']


@st.composite
def streams(draw):
    typ = draw(st.integers(0, 2))
    nch = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5]))
    nb = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 4, 9]))
    size = draw(st.one_of(st.integers(4, 12), st.integers(4, 70)))
    last = draw(st.one_of(st.just(size), st.integers(4, size), st.integers(4, size + 9)))
    if nb == 1:
        size = last
    per = draw(st.one_of(st.integers(0, 99), st.integers(0, 0xFFFF), st.integers(0, 0xFFFFFFF)))
    if nb == 0 or nch == 0:
        nb = per = 0
    return {'type': typ, 'looped': draw(st.booleans()), 'channels': nch, 'blocks': nb, 'size': size, 'last': last,
            'seed': draw(st.integers(0, 9999)), 'unk03': draw(u8()), 'rate': draw(u16()), 'time': draw(u16()), 'loop': draw(u32()),
            'per': per, 'inlast': draw(st.one_of(st.integers(0, 0xFFFF), st.integers(0, 0xFFFFFFF))), 'unk': [draw(u32()) for _ in SU],
            'params': (draw(u16()), draw(u8()), draw(u8()), draw(u8()), draw(u8()))}


def stream_channels(m):
    return [[expand(('rand', m['seed'] + c * 100 + b, m['last'] if b == m['blocks'] - 1 else m['size'])) for b in range(m['blocks'])]
            for c in range(m['channels'])]


def ref_stream(m, chans):
    data = b''
    for b in range(m['blocks']):
        data += b''.join(c[b] for c in chans)
        data += bytes(-len(data) % 4)
    size, last = (m['size'], m['last']) if m['blocks'] else (0, 0)
    if m['type'] == 2 and m['blocks'] == 1:
        # the size of a single ADPCM block is given without its header
        size -= 4
        last -= 4
    samples = (m['blocks'] - 1) * m['per'] + m['inlast']
    head = struct.pack('<4BHH16I', m['type'], m['looped'], m['channels'], m['unk03'], m['rate'], m['time'], m['loop'], samples, 0x68,
                       m['blocks'], size, m['per'], last, m['inlast'], *m['unk'])
    return (std_header(b'STRM', 0x68 + len(data), 2) + b'HEAD' + struct.pack('<I', 0x50) + head
            + b'DATA' + struct.pack('<I', 8 + len(data)) + data)


def read_stream(f, T):
    """Independent reader: the blocks of each channel from the header alone."""
    T.eq(struct.unpack_from('<4sHHIHH', f), (b'STRM', 0xFEFF, 0x100, len(f), 0x10, 2), 'header')
    typ, _, nch, _, _, _, _, _, off, nb, size, _, last = struct.unpack_from('<4BHH7I', f, 0x18)
    adj = 4 if typ == 2 and nb == 1 else 0
    pos = off
    out = [[] for _ in range(nch)]
    for b in range(nb):
        n = (last if b == nb - 1 else size) + adj
        for c in range(nch):
            out[c].append(f[pos:pos + n])
            pos += n
        pos += (off - pos) % 4
    T.eq(pos, len(f), 'end of the stream data')
    return out


def make_stream(m, chans):
    o = STR.STRM.fromChannels([list(c) for c in chans], *m['params'])
    o.waveType = ndspy.WaveType(m['type'])
    o.isLooped, o.unk03, o.sampleRate, o.time, o.loopOffset = m['looped'], m['unk03'], m['rate'], m['time'], m['loop']
    o.samplesPerBlock, o.samplesInLastBlock = m['per'], m['inlast']
    for k, v in zip(SU, m['unk']):
        setattr(o, k, v)
    return o


def judge_stream(o, m, chans, T, what):
    T.eq([getattr(o, k) for k in SP], list(m['params']), f'{what}: parameters')
    T.eq((o.waveType, o.isLooped, o.unk03, o.sampleRate, o.time, o.loopOffset, o.samplesPerBlock, o.samplesInLastBlock),
         (m['type'], m['looped'], m['unk03'], m['rate'], m['time'], m['loop'], m['per'], m['inlast']), f'{what}: settings')
    T.eq([getattr(o, k) for k in SU], m['unk'], f'{what}: unknown values')
    T.check(isinstance(o.waveType, ndspy.WaveType), f'{what}: type of waveType')
    T.eq([[bytes(b) for b in c] for c in o.channels], chans, f'{what}: channels')


def c21_eval(case, T):
    m, trailing = case
    chans = stream_channels(m)
    want = ref_stream(m, chans)
    with T.sut('saving a stream'):
        o = make_stream(m, chans)
        out = o.save()
    T.eq(read_stream(bytes(out[0]), T), chans, 'channels in the file')
    T.same_bytes(out[0], want, 'saved stream')
    T.eq(tuple(out[1:]), m['params'], 'parameters returned by save()')
    judge_stream(o, m, chans, T, 'after saving')
    with T.sut('loading a stream'):
        l = STR.STRM(want + trailing, *m['params'])
    judge_stream(l, m, chans, T, 'loaded')
    if m['blocks'] == 1:
        # the size of full blocks says nothing about a single block, which is the last one
        with T.sut('loading a stream that is shorter than a full block'):
            s = STR.STRM(ref_stream({**m, 'size': m['last'] + m['seed'] % 300}, chans), *m['params'])
        judge_stream(s, m, chans, T, 'loaded stream that is shorter than a full block')
        with T.sut('saving it'):
            T.same_bytes(s.save()[0], want, 'saved stream that is shorter than a full block')
    with T.sut('saving it again'):
        T.same_bytes(l.save()[0], want, 'loaded and saved stream')
    if m['rate'] and int(1.0 / m['rate'] * 16756991 / 32) < 0x10000:
        m = {**m, 'time': int(1.0 / m['rate'] * 16756991 / 32)}
        with T.sut('updateTime'):
            T.same_bytes(l.save(updateTime=True)[0], ref_stream(m, chans), 'stream with updated time')
        judge_stream(l, m, chans, T, 'after updateTime')
        rate = 0xFFFF - m['rate'] // 2
        m = {**m, 'rate': rate, 'time': int(1.0 / rate * 16756991 / 32)}
        with T.sut('updateTime with another rate'):
            l.sampleRate = rate
            T.same_bytes(l.save(updateTime=True)[0], ref_stream(m, chans), 'stream with another rate and updated time')
        judge_stream(l, m, chans, T, 'after updateTime with another rate')
    T.nontrivial(m['channels'] and m['blocks'])
    T.label('multi-channel', m['channels'] > 1)
    T.label('blocks > 1', m['blocks'] > 1)
    T.label('short last block', m['blocks'] > 1 and m['last'] < m['size'])
    T.label('odd sizes', m['last'] * m['channels'] % 4)
    T.label('single ADPCM block', m['type'] == 2 and m['blocks'] == 1)


def c21_large_strategy():
    def grow(case):
        m, (nch, nb), size, last = case
        if nb == 1:
            size = last
        return {**m, 'channels': nch, 'blocks': nb, 'size': size, 'last': last, 'per': m['per'] % 0xFFFFF}
    small = st.tuples(st.sampled_from([(1, 300), (2, 257), (1, 700), (16, 70), (129, 3), (200, 2), (255, 1)]), st.integers(4, 40), st.integers(4, 40))
    long = st.tuples(st.tuples(st.integers(1, 3), st.integers(1, 3)), st.integers(30000, 70000), st.integers(30000, 70000))
    return st.tuples(streams(), st.one_of(small, long)).map(lambda x: (grow((x[0], *x[1])), b''))


def c21_edit_eval(case, T):
    """Change the number of blocks, channels or the last block of a loaded stream; refuse inconsistent ones."""
    m, ops = case
    chans = stream_channels(m)
    with T.sut('loading a stream'):
        o = STR.STRM(ref_stream(m, chans), *m['params'])
    m = dict(m)
    for op, a in ops:
        if op == 'channel':
            m['channels'] += 1
            n = [expand(('rand', a + b, len(chans[0][b]))) for b in range(m['blocks'])] if chans else []
            chans.append(n)
            o.channels.append(list(n))
        elif op == 'drop' and chans:
            i = a % len(chans)
            del chans[i], o.channels[i]
            m['channels'] -= 1
            if not chans:
                m['blocks'] = m['per'] = 0
                o.samplesPerBlock = 0
        elif op == 'block' and chans and m['blocks']:
            # append a full block in front of the last one
            for c in (chans, o.channels):
                for i, ch in enumerate(c):
                    ch.insert(0, expand(('rand', a + i, m['size'])))
            m['blocks'] += 1
        elif op == 'last' and chans and m['blocks']:
            n = a % 40 + 4
            for c in (chans, o.channels):
                for i, ch in enumerate(c):
                    ch[-1] = expand(('rand', a + i, n))
            m['last'] = n
            if m['blocks'] == 1:
                m['size'] = n
        elif op == 'type':
            m['type'] = a % 3
            o.waveType = ndspy.WaveType(a % 3)
    with T.sut('saving an edited stream'):
        out = o.save()[0]
    T.eq(read_stream(bytes(out), T), chans, 'channels in the edited file')
    T.same_bytes(out, ref_stream(m, chans), 'edited stream')
    # inconsistent streams
    bad = None
    if m['channels'] > 1 and m['blocks']:
        bad = [list(c) for c in chans]
        bad[1].append(bad[1][0])
        o.channels = bad
        with T.raises('saving channels with different numbers of blocks', ValueError):
            o.save()
        bad = [list(c) for c in chans]
        bad[-1][-1] += b'x'
        o.channels = bad
        with T.raises('saving channels with last blocks of different sizes', ValueError):
            o.save()
    if m['channels'] and m['blocks'] > 2:
        bad = [list(c) for c in chans]
        bad[-1][1] += b'x'
        o.channels = bad
        with T.raises('saving blocks of different sizes', ValueError):
            o.save()
    T.nontrivial(m['channels'] and m['blocks'])
    T.label('refused', bad is not None)


def c21_edit_strategy():
    return st.tuples(streams(), st.lists(st.tuples(st.sampled_from(['channel', 'drop', 'block', 'last', 'type']), st.integers(0, 999)), min_size=1, max_size=4))


CHECKS = {
    'C19': Check('C19', [
        Facet('new banks', bank_models, c19_new_eval, 3000, 40000, 'non-trivial: at least two instruments'),
        Facet('files', c19_layouts, c19_layout_eval, 3000, 40000, 'non-trivial: at least two instruments in the data'),
        Facet('garbage', c19_garbage_strategy, c19_garbage_eval, 3000, 40000, 'non-trivial: instruments with other data between them'),
        Facet('edits', c19_edit_strategy, c19_edit_eval, 1500, 20000, 'non-trivial: something was edited'),
        Facet('parts', lambda: st.tuples(instruments(), st.binary(max_size=5), st.binary(max_size=5)), c19_part_eval, 3000, 40000, 'single instruments'),
        Facet('limits', lambda: st.tuples(st.sampled_from(['range', 'slots', 'regions', 'full', 'hidden']), st.one_of(st.sampled_from([127, 128, 256]), st.integers(1, 256)), st.integers(0, 99)),
              c19_limits_eval, 160, 1000, 'long ranges, many slots, too many regions'),
        reuse.facet('SBNK'),
    ], 'Generated banks against a reference writer and reader; non-trivial: at least two instruments.',
        ['Unreachable instruments are ones that the documented guess can recognize.',
         'Regional instruments have 1-8 regions, of which only the first can end at pitch 0, range instruments at least one note.']),
    'C20': Check('C20', [
        Facet('waves', lambda: st.tuples(waves(), st.binary(max_size=5), st.booleans()), c20_wave_eval, 16000, 60000, 'non-trivial: has sample data'),
        Facet('archives', c20_archive_strategy, c20_archive_eval, 12000, 50000, 'non-trivial: at least two waves'),
        Facet('large', lambda: st.tuples(st.one_of(st.tuples(st.integers(1, 300), st.integers(0, 700)), st.tuples(st.integers(1, 3), st.integers(60000, 140000))),
                                         st.integers(0, 999)).map(lambda x: (*x[0], x[1])), c20_large_eval, 80, 300, 'up to 300 waves or 140000 bytes in a wave'),
        reuse.facet('SWAR', 'SWAV'),
    ], 'Generated waves and wave archives against a reference writer and reader; non-trivial: sample data, or at least two waves.', []),
    'C21': Check('C21', [
        Facet('streams', lambda: st.tuples(streams(), st.binary(max_size=5)), c21_eval, 8000, 80000, 'non-trivial: has sample data'),
        Facet('edits', c21_edit_strategy, c21_edit_eval, 4000, 50000, 'non-trivial: has sample data'),
        Facet('large', c21_large_strategy, c21_eval, 160, 1600, 'up to 700 blocks, 255 channels or 70000 bytes in a block'),
        reuse.facet('STRM'),
    ], 'Generated streams against a reference writer and reader; non-trivial: has sample data.',
        ['Blocks have at least 4 bytes (an ADPCM block starts with a 4-byte header).',
         'The size of a single ADPCM block is given without its header, as the library does.']),
}
