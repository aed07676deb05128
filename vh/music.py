"""C31: music helpers."""
import random

from hypothesis import strategies as st

from .core import Check, Facet
from . import seqs, sounds
from .seqs import describe, make

import ndspy.extras.music as M
import ndspy.soundBank as B
import ndspy.soundSequence as S
import ndspy.soundWaveArchive as WA

MODE = S.MonoPolySequenceEvent.Value


def durations():
    return st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([48, 127, 128, 300]))


def simple_events():
    return st.one_of(
        st.tuples(st.just('note'), st.integers(0, 127), st.integers(0, 127), st.just(False), durations()),
        st.tuples(st.just('rest'), durations()),
        st.tuples(st.just('byte'), st.just(0xC7), st.integers(0, 1)),
        st.tuples(st.just('byte'), st.sampled_from([0xC0, 0xC1]), st.integers(0, 127)),
    )


def ref_duration(e, mode):
    return e[1] if e[0] == 'rest' else e[4] if e[0] == 'note' and mode == 1 else 0


def timeline(prog, mode):
    """[(time, duration, mode before)] and the final (time, mode)."""
    out, t = [], 0
    for e in prog:
        d = ref_duration(e, mode)
        out.append((t, d, mode))
        t += d
        if e[:2] == ('byte', 0xC7):
            mode = e[2]
    return out, t, mode


def objects(prog):
    return [make(e) for e in prog]


def specs(events):
    return seqs.describe_all(events)


def c31_time_eval(case, T):
    prog, start, time, mode, cut, append = case
    start = min(start, len(prog))
    with T.sut('durationOf'):
        got = M.durationOf(objects(prog), MODE(mode))
    _, total, _ = timeline(prog, mode)
    T.eq(got, total, 'durationOf')
    if mode == 1:
        with T.sut('durationOf'):
            T.eq(M.durationOf(iter(objects(prog))), total, 'durationOf with default mode')

    events = objects(prog)
    kw = {}
    if cut:
        kw['cut'] = True
    if append:
        kw['append'] = True
    with T.sut('moveInTime'):
        idx, moved, m = M.moveInTime(events, start, time, MODE(mode), **kw)
    # what is possible
    rest = prog[start:]
    tl, total, endmode = timeline(rest, mode)
    ends = [0] + [t + d for t, d, _ in tl]
    over = next((i for i, (t, d, _) in enumerate(tl) if t < time < t + d), None)
    new = list(prog)
    if time == 0:
        want = (start, 0, mode)
    elif time in ends:
        k = ends.index(time)
        want = (start + k, time, tl[k][2] if k < len(tl) else endmode)
    elif over is not None and rest[over][0] == 'rest' and cut:
        a = time - tl[over][0]
        new[start + over:start + over + 1] = [('rest', a), ('rest', rest[over][1] - a)]
        want = (start + over + 1, time, tl[over][2])
    elif over is not None:
        want = (None, tl[over][0], None)
    elif append:
        new.append(('rest', time - total))
        want = (len(new), time, endmode)
    else:
        want = (len(prog), total, endmode)
    T.eq(moved, want[1], 'time moved')
    T.eq(specs(events), new, 'events after moving')
    if want[0] is None:
        # any event at this time
        T.check(start <= idx <= start + over and tl[idx - start][0] == moved, f'index {idx} is not at time {moved}')
        T.eq(m, tl[idx - start][2], 'mode')
    else:
        T.eq((idx, int(m)), (want[0], want[2]), 'index and mode')
    T.nontrivial(time > 0 and len(rest) > 1)
    T.label('exact', time in ends)
    T.label('cut', new != list(prog) and len(new) > len(prog) and over is not None)
    T.label('appended', append and over is None and time > total)
    T.label('stopped before', want[0] is None)
    if len(prog) % 4 == 0:
        with T.raises('moving backwards', ValueError):
            M.moveInTime(events, start, -1)


def c31_time_strategy():
    return st.tuples(st.lists(simple_events(), max_size=8), st.one_of(st.just(0), st.integers(0, 8)),
                     st.one_of(st.integers(0, 15), st.integers(0, 200)), st.integers(0, 1), st.booleans(), st.booleans())


# loops ---------------------------------------------------------------------


def notrests(prog, mode=1, until=None):
    out = []
    tl, _, _ = timeline(prog, mode)
    for e, (t, d, _) in zip(prog, tl):
        if e[0] != 'rest' and (until is None or t < until):
            out.append((t, e))
    return out


def c31_loop_eval(case, T):
    prog, start, length, clear, end = case
    prog = list(prog)
    stop = start + length
    tl, total, _ = timeline(prog, 1)
    events = objects(prog)
    if end:
        events.append(S.EndTrackSequenceEvent())
    given = list(events)
    with T.sut('making a track'):
        tr = M.SSEQMusic.Track(events)
    T.check(len(given) == len(events) and all(a is b for a, b in zip(given, events)), 'the list of events given to the track has changed')
    T.eq(specs(tr.events), prog, 'events of the track')
    T.check(not tr.looped, 'track is looped')
    possible = not any(t < x < t + d and e[0] == 'note' for e, (t, d, _) in zip(prog, tl) for x in (start, stop))
    if not possible:
        with T.raises('loop inside of a note', RuntimeError):
            tr.loop(start, stop, clearTrailing=clear)
        ev = specs(tr.events)
        T.eq(notrests(ev), notrests(prog), 'events after a refused loop')
        T.label('refused')
        return
    kw = {} if clear else {'clearTrailing': False}
    with T.sut('looping'):
        if end:
            tr.loop(start, stop, **kw)
        else:
            mu = M.SSEQMusic(S.SSEQ.fromEvents([S.EndTrackSequenceEvent()]))
            other = M.SSEQMusic.Track(objects(prog))
            mu.tracks = {0: other, 5: tr}
            mu.loop(start, stop, **kw)
            T.eq(specs(other.events), specs(tr.events), 'events of an equal track')
            mu.save()
            pl = play(mu.sseq.events)
            T.eq(pl[5], pl[0], 'equal tracks after saving')
    T.check(tr.looped, 'track is not looped')
    got = specs(tr.events)
    jumps = [i for i, e in enumerate(got) if e[0] == 'jump']
    T.eq(len(jumps), 1, 'number of jumps')
    j = jumps[0]
    before = got[:j]
    tl2, total2, _ = timeline(before, 1)
    T.eq(total2, stop, 'time before the jump')
    target = got[j][1]
    T.check(target < j, 'jump goes forward')
    T.eq(tl2[target][0], start, 'time of the loop start')
    T.check(target == 0 or tl2[target - 1][0] < start, 'loop does not start with the first event at its time')
    T.eq(notrests(before), notrests(prog, 1, stop), 'events in the loop and before')
    after = got[j + 1:]
    if clear:
        T.eq(after, [], 'events after the loop')
    else:
        T.eq(notrests(before + after), notrests(prog), 'events with those after the loop')
        T.eq(timeline(before + after, 1)[1], max(total, stop), 'total time')
    with T.raises('looping twice', RuntimeError):
        tr.loop(start, stop)
    T.nontrivial(len(prog) > 1)
    T.label('beyond the end', stop > total)
    T.label('trailing events kept', after)


def c31_loop_strategy():
    ev = st.one_of(simple_events(), st.tuples(st.just('rest'), durations()))
    return st.tuples(st.lists(ev, max_size=8), st.integers(0, 12), st.one_of(st.integers(1, 12), st.integers(1, 200)), st.booleans(), st.booleans())


# tracks --------------------------------------------------------------------


def play(events):
    """{track: ([specs], index of the jump destination or None)}, following the events as the hardware does."""
    starts = {0: 0}
    index = {}
    for i, e in enumerate(events):
        index.setdefault(id(e), i)
    i = 0
    if events and isinstance(events[0], S.DefineTracksSequenceEvent):
        i = 1
        while i < len(events) and isinstance(events[i], S.BeginTrackSequenceEvent):
            starts[events[i].trackNumber] = index[id(events[i].firstEvent)]
            i += 1
    starts[0] = i
    out = {}
    for n, s in starts.items():
        l, jump = [], None
        p = s
        while True:
            if p >= len(events):
                jump = 'runs over the end'
                break
            e = events[p]
            if isinstance(e, S.EndTrackSequenceEvent):
                break
            if isinstance(e, S.JumpSequenceEvent):
                d = index[id(e.destination)]
                jump = d - s
                break
            l.append(describe(e))
            p += 1
        out[n] = (l, jump)
    return out


def build_tracks(tracks, order, define):
    """tracks: {number: (specs, jump or None)}."""
    evs = {n: objects(p) for n, (p, _) in tracks.items()}
    for n, (p, j) in tracks.items():
        if j is not None and p:
            evs[n].append(S.JumpSequenceEvent(evs[n][j % len(p)]))
        else:
            evs[n].append(S.EndTrackSequenceEvent())
    if not define:
        return evs[0]
    out = [S.DefineTracksSequenceEvent(set(tracks))]
    nums = sorted(n for n in tracks if n)
    for n in nums:
        out.append(S.BeginTrackSequenceEvent(n, evs[n][0]))
    body = [0] + [n for n in order if n in tracks and n]
    for n in body:
        out += evs[n]
    return out


def want_play(tracks):
    # track 0 always exists, but may be silent
    return {0: ([], None), **{n: (list(p), None if j is None or not p else j % len(p)) for n, (p, j) in tracks.items()}}


def drop_empty(p):
    return {n: v for n, v in p.items() if n == 0 or v[0] or v[1] is not None}


def c31_tracks_eval(case, T):
    tl, order, define, how, edits = case
    tracks = {}
    for n, p, j in tl:
        tracks.setdefault(n, (list(p), j))
    tracks.setdefault(0, ([], None))
    if not define:
        tracks = {0: tracks[0]}
    events = build_tracks(tracks, order, define)
    T.eq(play(events), want_play(tracks), 'tracks as built')   # of the harness itself
    with T.sut('making a sequence'):
        q = S.SSEQ.fromEvents(events)
        if how:
            q = S.SSEQ(q.save()[0])
            if how == 2:
                q.parse()
    with T.sut('splitting into tracks'):
        mu = M.SSEQMusic(q)
    T.eq(sorted(mu.tracks), sorted(tracks), 'track numbers')
    T.eq(play(q.events), want_play(tracks), 'tracks of the sequence after splitting it')
    for n, tr in mu.tracks.items():
        p, j = tracks[n]
        ev = list(tr.events)
        if j is not None and p:
            T.check(isinstance(ev[-1], S.JumpSequenceEvent), f'track {n} does not end with its jump')
            T.check(ev[-1].destination is ev[j % len(p)], f'jump of track {n}')
            ev.pop()
        T.eq([describe(e) for e in ev], p, f'events of track {n}')
        T.eq(tr.looped, bool(j is not None and p), f'track {n} looped')
    held = {n: list(map(id, tr.events)) for n, tr in mu.tracks.items()}
    with T.sut('saving'):
        res = mu.save()
    T.check({n: list(map(id, tr.events)) for n, tr in mu.tracks.items()} == held, 'the tracks have other events after saving')
    T.check(res[0] is q and res[1] is None and res[2] is None, 'result of saving')
    T.eq(drop_empty(play(q.events)), drop_empty(want_play(tracks)), 'tracks after saving')
    for op, n, p in edits:
        if op == 'add' and n not in mu.tracks:
            tracks[n] = (list(p), None)
            mu.tracks[n] = M.SSEQMusic.Track(objects(p))
        elif op == 'delete' and n in mu.tracks:
            del mu.tracks[n], tracks[n]
        elif op == 'insert' and n in mu.tracks:
            q0, j = tracks[n]
            # at the start, so that jumps stay
            mu.tracks[n].events[:0] = objects(p)
            tracks[n] = (list(p) + q0, None if j is None or not q0 else j % len(q0) + len(p))
        elif op == 'collapse':
            mu.collapseTrackIDs()
            tracks = {i: tracks[k] for i, k in enumerate(sorted(tracks))}
    with T.sut('saving after edits'):
        mu.save()
        out = q.save()[0]
    T.eq(drop_empty(play(q.events)), drop_empty(want_play(tracks)), 'tracks after edits')
    with T.sut('loading'):
        l = S.SSEQ(out)
        l.parse()
    if any(p for p, _ in tracks.values()):
        T.eq(drop_empty(play(l.events)), drop_empty(want_play(tracks)), 'tracks after loading')
    with T.sut('splitting again'):
        again = M.SSEQMusic(l, None, [])
    T.eq(sorted(n for n, t in again.tracks.items() if t.events), sorted(n for n, (p, j) in tracks.items() if p), 'tracks with events after loading')
    T.nontrivial(sum(1 for p, _ in tracks.values() if p) > 1)
    T.label('looped track', any(j is not None and p for p, j in tracks.values()))
    T.label('empty track', any(not p for p, _ in tracks.values()))
    T.label('no track 0', 0 not in tracks)


def c31_tracks_strategy():
    # no rests of length 0 etc. are needed here: any simple events do
    ev = st.lists(simple_events(), max_size=4)
    tr = st.tuples(st.one_of(st.just(0), st.integers(0, 15)), ev, st.one_of(st.none(), st.none(), st.integers(0, 3)))
    ed = st.tuples(st.sampled_from(['add', 'delete', 'insert', 'collapse']), st.one_of(st.integers(0, 4), st.integers(0, 15)), ev)
    return st.tuples(st.lists(tr, min_size=1, max_size=5), st.permutations(range(16)), st.sampled_from([True, True, True, False]), st.integers(0, 2),
                     st.lists(ed, max_size=3))


# minifying -----------------------------------------------------------------


class Song:
    """A bank, wave archives and tracks from a seed."""

    def __init__(self, seed, archives, instruments, share, repeat):
        r = self.r = random.Random(seed)
        self.wide = instruments > 8
        self.swars = [WA.SWAR.fromWaves([sounds.make_wave((1, False, 1000 + 100 * a + w, 0, 0, 1, ('rand', 10 * a + w, 4))) for w in range(r.randrange(1, 7))])
                      for a in range(archives)]
        self.defs = []

        def note():
            if share and self.defs and r.random() < .5:
                return r.choice(self.defs)
            a = r.randrange(archives)
            t = r.choices([1, 2, 3], [6, 1, 1])[0]
            w = r.randrange(len(self.swars[a].waves)) if t == 1 else r.randrange(8)
            d = B.NoteDefinition(w, a if t == 1 else r.randrange(4), *(r.randrange(128) for _ in range(6)), t)
            self.defs.append(d)
            return d

        insts = []
        for _ in range(instruments):
            k = r.randrange(8)
            if repeat and insts and k < 2:
                i = r.choice(insts)
            elif k == 0:
                i = None
            elif k < 4:
                i = B.SingleNoteInstrument(note())
            elif k < 6:
                i = B.RangeInstrument(r.randrange(120), [note() for _ in range(r.randrange(1, 8))])
                if self.wide and r.random() < .5:
                    i = B.RangeInstrument(r.randrange(20), [note() for _ in range(r.choice([64, 65, 100, 108]))])
            else:
                ends = sorted(r.sample(range(1, 127), r.randrange(0, 8))) + [127]
                i = B.RegionalInstrument([B.RegionalInstrument.Region(e, note()) for e in ends])
            insts.append(i)
        self.bank = B.SBNK()
        self.bank.instruments = insts
        self.switches = {}
        self.tracks = []
        for _ in range(r.randrange(1, 4)):
            evs = []
            for _ in range(r.randrange(0, 4)):
                n = r.randrange(min(instruments, 128))
                sw = S.InstrumentSwitchSequenceEvent(0, n)
                if repeat and n in self.switches and r.random() < .5:
                    sw = self.switches[n]
                self.switches[n] = sw
                evs.append(sw)
                for _ in range(r.randrange(0, 5)):
                    evs.append(S.NoteSequenceEvent(self.pitch(insts[n]), r.randrange(128), r.randrange(50)))
                    if r.random() < .3:
                        evs.append(S.RestSequenceEvent(r.randrange(50)))
            self.tracks.append(evs)
        if r.random() < .5:
            self.bank.inaccessibleInstruments[r.randrange(100)] = B.SingleNoteInstrument(B.NoteDefinition(0, 0))
        if self.wide and r.random() < .3:
            # a long track
            for _ in range(r.choice([60, 200])):
                n = r.randrange(min(instruments, 128))
                self.tracks[-1].append(S.InstrumentSwitchSequenceEvent(0, n))
                self.tracks[-1] += [S.NoteSequenceEvent(self.pitch(insts[n]), r.randrange(128), r.randrange(50)) for _ in range(r.randrange(12))]

    def pitch(self, i):
        r = self.r
        if isinstance(i, B.RangeInstrument) and r.random() < .8:
            return min(127, i.firstPitch + r.randrange(len(i.noteDefinitions)))
        if isinstance(i, B.RegionalInstrument) and r.random() < .5:
            return min(127, r.choice(i.regions).lastPitch + r.randrange(2))
        return r.randrange(128)

    def sounds(self, bank, swars, tracks):
        """What each note plays."""
        out = []
        for evs in tracks:
            cur = None
            for e in evs:
                if isinstance(e, S.InstrumentSwitchSequenceEvent):
                    cur = bank.instruments[e.instrumentID]
                elif isinstance(e, S.NoteSequenceEvent):
                    d = None
                    if isinstance(cur, B.SingleNoteInstrument):
                        d = cur.noteDefinition
                    elif isinstance(cur, B.RangeInstrument):
                        k = e.type - cur.firstPitch
                        d = cur.noteDefinitions[k] if 0 <= k < len(cur.noteDefinitions) else None
                    elif cur is not None:
                        d = next((g.noteDefinition for g in cur.regions if e.type <= g.lastPitch), None)
                    if d is None:
                        out.append((e.type, e.velocity, e.duration, None))
                        continue
                    if int(d.type) == 1:
                        w = swars[d.waveArchiveIDID].waves[d.waveID]
                        wave = (w.sampleRate, bytes(w.data))
                    else:
                        wave = (d.waveID, int(d.type))
                    out.append((e.type, e.velocity, e.duration, (wave, d.pitch, d.attack, d.decay, d.sustain, d.release, d.pan)))
                elif isinstance(e, S.RestSequenceEvent):
                    out.append(('rest', e.duration))
        return out


def c31_minify_eval(case, T):
    seed, archives, instruments, share, repeat, how, noswars = case
    s = Song(seed, archives, instruments, share, repeat)
    before = s.sounds(s.bank, s.swars, s.tracks)
    nwaves = [len(a.waves) for a in s.swars]
    used = sorted({e.instrumentID for t in s.tracks for e in t if isinstance(e, S.InstrumentSwitchSequenceEvent)})
    swars = None if noswars else s.swars
    with T.sut(f'minifying ({how})'):
        if how == 'events':
            M.minifyByEvents((e for t in s.tracks for e in t), s.bank, swars)
        elif how in ('sseq', 'sseq unparsed'):
            flat = [e for t in s.tracks for e in t] + [S.EndTrackSequenceEvent()]
            s.tracks = [flat]
            q = S.SSEQ.fromEvents(flat)
            if how == 'sseq unparsed':
                q = S.SSEQ(q.save()[0])
            M.minifyBySseq(q, s.bank, swars)
            s.tracks = [q.events]
        elif how == 'sseqs':
            qs = [S.SSEQ(S.SSEQ.fromEvents(t + [S.EndTrackSequenceEvent()]).save()[0]) for t in s.tracks]
            M.minifyBySseqs(qs, s.bank, swars)
            s.tracks = [q.events for q in qs]
        else:
            q = S.SSEQ.fromEvents([S.EndTrackSequenceEvent()])
            mu = M.SSEQMusic(q, s.bank, swars)
            mu.tracks = {i: M.SSEQMusic.Track(t) for i, t in enumerate(s.tracks)}
            mu.minify()
            a, b, c = mu.save()
            T.check(a is q and b is s.bank and c is swars, 'result of saving')
    T.eq(s.sounds(s.bank, s.swars, s.tracks), before, 'sound of the notes')
    T.eq(len(s.bank.instruments), len(used), 'number of instruments')
    T.eq(len(s.bank.inaccessibleInstruments), 0, 'number of inaccessible instruments')
    if noswars:
        T.eq([len(a.waves) for a in s.swars], nwaves, 'number of waves')
    else:
        refs = {id(w) for a in s.swars for w in a.waves}
        T.eq(len(refs), sum(len(a.waves) for a in s.swars), 'number of different waves')
        played = {x[3][0] for x in before if x[0] != 'rest' and x[3]}
        single = {id(s.swars[d.waveArchiveIDID].waves[d.waveID]) for i in s.bank.instruments if isinstance(i, B.SingleNoteInstrument)
                  for d in [i.noteDefinition] if int(d.type) == 1}
        for a in s.swars:
            for w in a.waves:
                T.check((w.sampleRate, bytes(w.data)) in played or id(w) in single, 'a wave that no note uses is left')
    for i in s.bank.instruments:
        if isinstance(i, B.RegionalInstrument):
            T.eq(i.regions[-1].lastPitch, 127, 'end of the last region')
    # what is left can be saved and loaded
    with T.sut('saving the bank and wave archives'):
        bank = B.SBNK(s.bank.save()[0])
        arcs = [WA.SWAR(a.save()[0]) for a in s.swars]
    T.eq(s.sounds(bank, arcs, s.tracks), before, 'sound of the notes after saving and loading')
    T.nontrivial(len(before) > 1 and len(used) > 1)
    T.label(how)
    T.label('several wave archives', archives > 1)
    T.label('without wave archives', noswars)
    T.label('instruments removed', len(used) < instruments)
    T.label('more than 256 notes', len(before) > 256)


def c31_minify_strategy():
    return st.tuples(st.integers(0, 10**6), st.integers(1, 4), st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(9, 100)), st.booleans(), st.booleans(),
                     st.sampled_from(['events', 'sseq', 'sseq unparsed', 'sseqs', 'music']), st.sampled_from([False, False, False, True]))


# long tracks and large songs ------------------------------------------------


def seeded_events(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(8)
        d = r.choice([0, 1, 2, 5, 48, 127, 128, 300])
        out.append(('note', r.randrange(128), r.randrange(128), False, d) if k < 3 else ('rest', d) if k < 6 else ('byte', 0xC7, r.randrange(2)) if k < 7 else
                   ('byte', r.choice([0xC0, 0xC1]), r.randrange(128)))
    return out


def c31_long_eval(case, T):
    seed, n, kind = case
    r = random.Random(seed)
    if kind == 'tracks':
        nums = r.sample(range(16), r.randrange(1, 17))
        tl = [(t, seeded_events(r, r.randrange(n // len(nums) + 2)), r.choice([None, r.randrange(n + 1)])) for t in nums]
        c31_tracks_eval((tl, r.sample(range(16), 16), True, r.randrange(3), [('insert', r.choice(nums), seeded_events(r, 3)), ('collapse', 0, [])][:r.randrange(3)]), T)
    else:
        prog = seeded_events(r, n)
        total = timeline(prog, 1)[1]
        times = [t for t, _, _ in timeline(prog, 1)[0]] + [total]
        if kind == 'time':
            c31_time_eval((prog, r.choice([0, r.randrange(n + 1)]), r.choice([r.choice(times), r.randrange(total + 99)]), r.randrange(2), r.random() < .5, r.random() < .5), T)
        else:
            a, b = sorted((r.choice(times), r.choice(times)))
            if r.random() < .3:
                a, b = sorted((r.randrange(total + 1), r.randrange(total + 99)))
            c31_loop_eval((prog, a, max(1, b - a), r.random() < .5, r.random() < .5), T)
    T.label(kind)
    T.label('more than 256 events', n > 256)
    T.nontrivial(n > 64)


def c31_long_strategy():
    return st.tuples(st.integers(0, 10**6), st.one_of(st.integers(0, 300), st.integers(250, 1500)), st.sampled_from(['time', 'loop', 'tracks']))


def c31_misuse_eval(case, T):
    prog, kind = case
    events = objects(prog)
    if kind == 0:
        with T.raises('moving from behind the end', ValueError):
            M.moveInTime(events, len(events) + 1, 5)
        T.eq(specs(events), prog, 'events')
    elif kind == 1:
        with T.raises('a wave archive instead of a list', TypeError):
            M.SSEQMusic(S.SSEQ.fromEvents(events + [S.EndTrackSequenceEvent()]), B.SBNK(), WA.SWAR())
    elif kind == 2:
        with T.sut('minifying music without a bank'):
            mu = M.SSEQMusic(S.SSEQ.fromEvents(events + [S.EndTrackSequenceEvent()]))
            mu.minify()
        T.eq(specs(mu.tracks[0].events), prog, 'events')
    else:
        # tracks may keep the event that ends them
        q = S.SSEQ.fromEvents([S.EndTrackSequenceEvent()])
        mu = M.SSEQMusic(q)
        more = {0: list(prog), kind: list(reversed(prog))} if kind > 3 else {0: list(prog)}
        mu.tracks = {n: M.SSEQMusic.Track(objects(p)) for n, p in more.items()}
        for t in mu.tracks.values():
            t.events.append(S.EndTrackSequenceEvent())
        with T.sut('saving tracks that keep their ends'):
            mu.save()
        T.eq(play(q.events), {n: (p, None) for n, p in more.items()}, 'tracks with ends of their own')
        T.eq(sum(isinstance(e, S.EndTrackSequenceEvent) for e in q.events), len(more), 'number of ends')
    T.nontrivial(len(prog) > 1)
    T.label(str(min(kind, 4)))


# lists and settings --------------------------------------------------------


def c31_modifier_eval(case, T):
    n, ops = case
    base = [f'e{i}' for i in range(n)]
    l = list(base)
    ins, repl, dele = {}, {}, set()
    with T.sut('modifying'):
        with M.SimultaneousEventsModifier(l) as mod:
            for k, (op, i) in enumerate(ops):
                T.eq(list(mod), base, 'list as seen in the modifier')
                if op == 'insert':
                    i %= n + 1
                    mod.insert(i, f'new{k}')
                    ins.setdefault(i, []).append(f'new{k}')
                elif n and op == 'replace':
                    i %= n
                    mod[i] = f'new{k}'
                    repl[i] = f'new{k}'
                elif n:
                    i %= n
                    del mod[i]
                    dele.add(i)
                T.eq(l, base, 'list before the end')
    want = []
    for i in range(n + 1):
        want += ins.get(i, [])
        if i < n:
            if i in repl:
                want.append(repl[i])
            elif i not in dele:
                want.append(base[i])
    T.eq(l, want, 'list after modifications')
    T.nontrivial(len(ops) > 1 and n)


SETTINGS = {'initialPan': 0xC0, 'initialVolume': 0xC1, 'initialTranspose': 0xC3, 'initialPriority': 0xC6, 'initialMonoPoly': 0xC7,
            'initialAttackRate': 0xD0, 'initialDecayRate': 0xD1, 'initialSustainRate': 0xD2, 'initialReleaseRate': 0xD3, 'initialTempo': 0xE1,
            'initialInstrument': 0x81}


def event_type(e):
    return {'note': 0, 'rest': 0x80, 'inst': 0x81}.get(e[0]) if e[0] in ('note', 'rest', 'inst') else e[1]


def setting_value(code, v):
    if code == 0x81:
        return (v // 128 % 128, v % 128)
    if code == 0xC7:
        return MODE(v % 2)
    return v if code == 0xE1 else v % 128


def setting_event(code, v):
    v = setting_value(code, v)
    return ('inst', *v) if code == 0x81 else ('short' if code == 0xE1 else 'byte', code, int(v))


def c31_settings_eval(case, T):
    prog, ops = case
    prog = [e if e[0] != 'set' else setting_event(e[1], e[2]) for e in prog]
    with T.sut('making a track'):
        tr = M.SSEQMusic.Track(objects(prog))
    for name, v in ops:
        code = SETTINGS[name]

        def find():
            for i, e in enumerate(prog):
                if event_type(e) == code:
                    return i
                if e[0] in ('note', 'rest'):
                    return None
            return None

        def value(i):
            return None if i is None else tuple(prog[i][1:]) if code == 0x81 else prog[i][2]
        i = find()
        with T.sut(f'getting {name}'):
            T.eq(getattr(tr, name), value(i), name)
        new = None if v is None else setting_value(code, v)
        with T.sut(f'setting {name}'):
            setattr(tr, name, new)
            T.eq(getattr(tr, name), new if new is not None else value(find_after(prog, i, code)), f'{name} after setting it')
        if new is not None:
            e = setting_event(code, v)
            if i is None:
                prog.insert(0, e)
            else:
                prog[i] = e
        elif i is not None:
            del prog[i]
        T.eq(specs(tr.events), prog, f'events after setting {name}')
    T.nontrivial(any(e[0] == 'note' for e in prog) and len(ops) > 1)


def find_after(prog, i, code):
    """The event found once event i is deleted."""
    rest = prog[:i] + prog[i + 1:] if i is not None else prog
    for k, e in enumerate(rest):
        if event_type(e) == code:
            return k if i is None or k < i else k + 1
        if e[0] in ('note', 'rest'):
            return None
    return None


def c31_settings_strategy():
    ev = st.one_of(st.tuples(st.just('set'), st.sampled_from(sorted(SETTINGS.values())), st.integers(0, 0x3FFF)), simple_events())
    return st.tuples(st.lists(ev, max_size=6), st.lists(st.tuples(st.sampled_from(sorted(SETTINGS)), st.one_of(st.none(), st.integers(0, 0x3FFF))), min_size=1, max_size=4))


def c31_far_settings_eval(case, T):
    """The same in a track with many settings before the first note."""
    n, seed, tail, ops = case
    r = random.Random(seed)
    some = r.sample(sorted(SETTINGS.values()), r.randrange(1, 4))
    prog = [('set', r.choice(some), r.randrange(0x4000)) for _ in range(n)] + [('set', c, r.randrange(0x4000)) for c in sorted(SETTINGS.values())]
    c31_settings_eval((prog + tail, ops), T)


def c31_velocity_eval(case, T):
    prog, op, amount, clamp = case
    events = objects(prog)
    tr = M.SSEQMusic.Track(events)

    def new(v):
        x = int(v + amount) if op == 'add' else int(v * (amount / 16))
        return x
    values = [new(e[2]) for e in prog if e[0] == 'note']
    out = any(not 0 <= v <= 127 for v in values)

    def call():
        if op == 'add':
            tr.addToNoteVelocities(amount, clamp=clamp) if not clamp else tr.addToNoteVelocities(amount)
        else:
            tr.multiplyNoteVelocitiesBy(amount / 16, clamp=clamp)
    if out and not clamp:
        with T.raises('velocity out of range', ValueError):
            call()
        return
    with T.sut('changing velocities'):
        call()
    T.eq(specs(tr.events), [(*e[:2], min(127, max(0, new(e[2]))), *e[3:]) if e[0] == 'note' else e for e in prog], 'events')
    T.nontrivial(values)
    T.label('clamped', out)


def c31_velocity_strategy():
    return st.tuples(st.lists(simple_events(), max_size=5), st.sampled_from(['add', 'mul']), st.one_of(st.integers(-20, 20), st.integers(-140, 140)), st.booleans())


CHECKS = {
    'C31': Check('C31', [
        Facet('time', c31_time_strategy, c31_time_eval, 6000, 60000, 'non-trivial: moved by more than 0 in at least two events'),
        Facet('loops', c31_loop_strategy, c31_loop_eval, 4000, 40000, 'non-trivial: looped with at least two events'),
        Facet('tracks', c31_tracks_strategy, c31_tracks_eval, 3000, 30000, 'non-trivial: at least two tracks with events'),
        Facet('minifying', c31_minify_strategy, c31_minify_eval, 3000, 30000, 'non-trivial: at least two notes or rests and two instruments used'),
        Facet('modifier', lambda: st.tuples(st.integers(0, 6), st.lists(st.tuples(st.sampled_from(['insert', 'replace', 'delete']), st.integers(0, 9)), max_size=7)),
              c31_modifier_eval, 2000, 20000, 'non-trivial: at least two operations on a non-empty list'),
        Facet('settings', c31_settings_strategy, c31_settings_eval, 3000, 30000, 'non-trivial: at least two settings in a track with notes'),
        Facet('many settings', lambda: st.tuples(st.integers(0, 600), st.integers(0, 10**6), st.lists(simple_events(), max_size=3), c31_settings_strategy().map(lambda x: x[1])),
              c31_far_settings_eval, 200, 2000, 'non-trivial: at least two settings in a track with notes'),
        Facet('many instruments', lambda: st.tuples(c31_minify_strategy(), st.integers(250, 500)).map(lambda x: (*x[0][:2], x[1], *x[0][3:])), c31_minify_eval, 60, 600,
              'up to 500 instruments; non-trivial: at least two notes or rests and two instruments used'),
        Facet('long', c31_long_strategy, c31_long_eval, 400, 4000, 'non-trivial: more than 64 events'),
        Facet('misuse', lambda: st.tuples(st.lists(simple_events(), max_size=5), st.integers(0, 7)), c31_misuse_eval, 300, 3000, 'non-trivial: at least two events'),
        Facet('velocities', c31_velocity_strategy, c31_velocity_eval, 1500, 15000, 'non-trivial: there are notes'),
    ], 'Generated event lists, tracks and songs against a model of time and sound; non-trivial: at least two events that matter.',
        ['When a note prevents moving by the whole time, any event at the time reached may be given.',
         'Songs to be minified select an instrument before the first note of each track, do not transpose, have no jumps, and the last region of regional '
         'instruments ends at 127.', 'Multi-track sequences begin with the track definitions and define track 0.']),
}
