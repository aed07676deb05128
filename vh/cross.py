"""C24, C26, C27: properties of all kinds of objects, and of lists of named ones."""
import copy
import random
import struct

from hypothesis import strategies as st

from .core import Check, Facet, blobs, expand
from . import kinds
from .kinds import BY_NAME, scramble, snapshot

import ndspy


def frozen(v):
    """Saved values for comparison."""
    return kinds.snapshot(v)


def convert(v, to):
    """Saved values with the data as another type."""
    if isinstance(v, (bytes, bytearray)):
        return to(v)
    if isinstance(v, list):
        return [convert(x, to) for x in v]
    if isinstance(v, tuple):
        return tuple(convert(x, to) for x in v)
    return v


def upset(v):
    """Change all lists, sets and byte arrays in saved values, but no other objects."""
    if isinstance(v, bytearray):
        scramble(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            upset(x)
        if isinstance(v, list):
            v.append('added')
    elif isinstance(v, set):
        v.add(99)


def c24_save_eval(case, T):
    name, spec = case
    k = BY_NAME[name]
    with T.sut(f'making a {name}'):
        o = k.build(spec)
    if o is None:
        return
    before = snapshot(o)
    with T.sut(f'saving a {name}'):
        first = k.save(o)
    a = frozen(first)
    T.eq(snapshot(o), before, f'{name} after saving')
    with T.sut(f'saving a {name} again'):
        T.eq(frozen(k.save(o)), a, f'{name} saved again')
    upset(first)
    with T.sut(f'saving a {name} again'):
        T.eq(frozen(k.save(o)), a, f'{name} saved after changing the data saved before')
    T.eq(snapshot(o), before, f'{name} after changing the data saved before')
    T.label(name)
    T.nontrivial()


def c24_parts_eval(case, T):
    name, spec = case
    args = ['utf-8'] if name in ('message', 'escape') else []
    with T.sut(f'making a {name}'):
        o = kinds.PARTS[name][1](copy.deepcopy(spec))
    if not hasattr(o, 'save') or name == 'music' or isinstance(o, kinds.ndspy.soundSequence.DefineTracksSequenceEvent):
        return
    before = snapshot(o)
    with T.sut(f'saving a {name}'):
        first = o.save(*args)
    a = frozen(first)
    T.eq(snapshot(o), before, f'{name} after saving')
    upset(first)
    T.eq(snapshot(o), before, f'{name} after changing the data saved before')
    with T.sut(f'saving a {name} again'):
        T.eq(frozen(o.save(*args)), a, f'{name} saved after changing the data saved before')
    T.label(name)
    T.nontrivial()


def c24_load_eval(case, T):
    name, spec = case
    k = BY_NAME[name]
    with T.sut(f'making and saving a {name}'):
        o = k.build(spec)
        if o is None:
            return
        data = convert(k.save(o), bytes)
    want = None
    for to in (bytes, bytearray):
        given = convert(data, to)
        with T.sut(f'loading a {name} from {to.__name__}'):
            x = k.load(convert(given, lambda d: d))
            y = k.load(convert(given, lambda d: d))
        T.eq(frozen(given), frozen(data), f'data after loading a {name}')
        want = want or snapshot(x)
        T.eq(snapshot(x), want, f'{name} loaded from {to.__name__}')
        T.eq(snapshot(y), want, f'{name} loaded again from {to.__name__}')
        with T.sut(f'saving a {name} loaded from {to.__name__}'):
            k.save(x)
        T.eq(frozen(given), frozen(data), f'data after saving a {name}')
        if name != 'overlays':   # saving updates their sizes
            T.eq(snapshot(x), want, f'{name} loaded from {to.__name__}, after saving')
        n = scramble(x)
        T.nontrivial(n > 1)
        T.eq(snapshot(y), want, f'{name} after changing another one loaded from the same {to.__name__}')
        with T.sut(f'loading a {name} again'):
            z = k.load(convert(data, to))
        T.eq(snapshot(z), want, f'{name} loaded after changing another one')
    T.label(name)


def lists_in(o):
    """[(name, elements)] of the lists and dictionaries in an object."""
    if isinstance(o, dict):
        return [('values', [o[i] for i in sorted(o)])]
    return [(n, list(v.values()) if isinstance(v, dict) else list(v)) for n, v in kinds.public(o) if isinstance(v, (list, dict))]


def c24_apart_eval(case, T):
    """Changing one part of an object that was loaded leaves the other parts alone."""
    (name, spec), which, i, to = case
    k = BY_NAME[name]
    with T.sut(f'making and saving a {name}'):
        o = k.build(spec)
        if o is None:
            return
        if name in ('SDAT', 'SBNK', 'SWAR', 'NARC', 'BMG') and (which + i) % 2:
            # everything twice
            for _, v in kinds.public(o):
                if isinstance(v, list):
                    v.extend(v[:40])
        data = convert(k.save(o), bytearray if to else bytes)
    with T.sut(f'loading a {name}'):
        x = k.load(data)
    lists = [(n, l) for n, l in lists_in(x) if len(l) > 1]
    if not lists:
        return
    n, l = lists[which % len(lists)]
    i %= len(l)
    others = l[:i] + l[i + 1:]
    want = [snapshot(v) for v in others]
    count = scramble(l[i])
    T.eq([snapshot(v) for v in others], want, f'the other {n} of a {name} after changing one')
    T.nontrivial(count)
    T.label(name + ' ' + n, count)


def c24_shared_eval(case, T):
    """The same for entries of a sound archive that use the same file."""
    spec, parse = case
    k = BY_NAME['SDAT']
    with T.sut('making and saving an SDAT'):
        o = k.build(spec)
        if o is None:
            return
        for _, v in kinds.public(o):
            if isinstance(v, list):
                v.extend(v[:40])
        data = k.save(o)
    with T.sut('loading an SDAT'):
        x = k.load(data)
    lists = [(n, l) for n, l in lists_in(x) if l]
    if parse:
        for n, l in lists:
            for _, e in l:
                if hasattr(e, 'parse'):
                    try:
                        e.parse()
                    except Exception:
                        pass
    want = {n: [snapshot(v) for v in l[len(l) // 2:]] for n, l in lists}
    count = 0
    for n, l in lists:
        for v in l[:len(l) // 2]:
            count += scramble(v)
    for n, l in lists:
        T.eq([snapshot(v) for v in l[len(l) // 2:]], want[n], f'the second half of the {n} of an SDAT after changing the first half')
        T.label(n)
    T.nontrivial(count)


def transplant(o, other, in_place):
    """Give o the contents of the other object."""
    if isinstance(o, dict):
        o.clear()
        o.update(other)
        return
    for n, v in kinds.public(other):
        if in_place and isinstance(v, list) and isinstance(getattr(o, n), list):
            getattr(o, n)[:] = v
            continue
        if isinstance(getattr(type(other), n, None), property) and getattr(type(other), n).fset is None:
            continue
        if n == 'parsed' or v == 'error ValueError':
            continue
        setattr(o, n, v)


def c24_edit_eval(case, T):
    name, (spec, other, in_place) = case
    k = BY_NAME[name]
    if name == 'NSBMD':
        # models themselves cannot be edited
        other = (*spec[:2], other[2])
    with T.sut(f'making a {name}'):
        o, x, y = k.build(spec), k.build(other), k.build(other)
    if o is None or x is None or getattr(o, 'parsed', None) != getattr(x, 'parsed', None):
        return
    with T.sut(f'saving a {name}'):
        a = frozen(k.save(o))
        str(o), repr(o)
        want = frozen(k.save(y))
    with T.sut(f'editing a {name}'):
        transplant(o, x, in_place)
    T.eq(snapshot(o), snapshot(y), f'{name} after giving it the contents of another one')
    with T.sut(f'saving a {name} after edits'):
        T.eq(frozen(k.save(o)), want, f'{name} saved, edited and saved again')
    T.nontrivial(a != want)
    T.label(name)


def c24_new_eval(case, T):
    name, i, spec = case
    if i is None:
        def make():
            return kinds.PARTS[name][1](copy.deepcopy(spec))
    else:
        k = BY_NAME[name]
        make = (list(k.new) + [lambda: k.build(spec)])[i % (len(k.new) + 1)]
    with T.sut(f'making a {name}'):
        a, b = make(), make()
    if a is None:
        return
    want = snapshot(b)
    T.eq(snapshot(a), want, f'two new {name} objects')
    n = scramble(a)
    T.eq(snapshot(b), want, f'{name} after changing another one')
    with T.sut(f'making a {name}'):
        c = make()
    T.eq(snapshot(c), want, f'{name} made after changing another one')
    T.nontrivial(n > 1)
    T.label(name)


def c24_edit_strategy():
    return st.one_of(*(st.tuples(st.just(k.name), st.tuples(k.strategy(), k.strategy(), st.booleans())) for k in kinds.KINDS))


def c24_new_strategy():
    return st.one_of(*(st.tuples(st.just(k.name), st.integers(0, 5), k.strategy()) for k in kinds.KINDS), *(st.tuples(st.just(n), st.none(), s()) for n, (s, _) in kinds.PARTS.items()))


# ---------------------------------------------------------------------------
# C26

SECTIONS = {'BMG': [b'INF1', b'DAT1', b'FLW1', b'FLI1'], 'NSBMD': [b'MDL0', b'TEX0']}


def markers(name, data):
    """[(offset, length, values that are allowed there)] of the markers in a valid file."""
    out = []

    def at(off, n, allowed=None):
        out.append((off, n, allowed or [bytes(data[off:off + n])]))

    if name == 'LZ10':
        return [(0, 1, [b'\x10'])]
    for off, n in BY_NAME[name].magic:
        at(off, n, SECTIONS['NSBMD'] if name == 'NSBMD' and off >= 0x10 else None)
    if name == 'BMG':
        end = '<' if data[15] == 0 and data[12] else '>' if data[12] == 0 and data[15] else None
        at(0x10, 1, [b'\1', b'\2', b'\3', b'\4'])
        if end:
            off = 0x20
            for _ in range(struct.unpack_from(end + 'I', data, 12)[0]):
                at(off, 4, SECTIONS['BMG'])
                off += struct.unpack_from(end + 'I', data, off + 4)[0]
    elif name == 'NARC':
        # the order of the bytes is that of the version, too
        at(4, 2)
        off = 0x10
        for _ in range(3):
            at(off, 4)
            off += struct.unpack_from('<I', data, off + 4)[0]
    elif name == 'SDAT':
        for i in range(3):
            off = struct.unpack_from('<I', data, 0x10 + 8 * i)[0]
            if off:
                at(off, 4)
    elif name == 'NSBMD':
        for i in range(struct.unpack_from('<H', data, 0xE)[0]):
            at(struct.unpack_from('<I', data, 0x10 + 4 * i)[0], 4, SECTIONS['NSBMD'])
    return out


MARKED = [k for k in kinds.KINDS if k.magic]
MAGICS = [b'MESGbmg1', b'NARC', b'SDAT', b'SSEQ', b'SSAR', b'SBNK', b'SWAR', b'SWAV', b'STRM', b'BTX0', b'BMD0', b'JNBL', b'JNCL', b'DATA', b'INFO', b'SYMB',
          b'FILE', b'BTAF', b'BTNF', b'GMIF', b'RGCN', b'\0\0\0\0\0\0\0\0']


def altered(old, how, x):
    """Another value for a marker, or the same one if there is none of this kind."""
    rnd = random.Random(x)
    n = len(old)
    if how == 'random':
        return rnd.randbytes(n)
    if how == 'bit':
        b = x % (8 * n)
        return bytes(c ^ (1 << b % 8 if i == b // 8 else 0) for i, c in enumerate(old))
    if how == 'byte':
        i = x % n
        return old[:i] + rnd.randbytes(1) + old[i + 1:]
    if how == 'other':
        return (MAGICS[x % len(MAGICS)] + bytes(8))[:n]
    if how == 'reversed':
        return old[::-1]
    if how == 'case':
        return old.swapcase()
    if how == 'rotated':
        return old[1:] + old[:1]
    v = int.from_bytes(old, 'little') + (x % 5 - 2) * (1 if x & 64 else 256)
    return (v % 256 ** n).to_bytes(n, 'little')


def load_marked(name, data, others):
    if name == 'LZ10':
        import ndspy.lz10
        return ndspy.lz10.decompress(data)
    k = BY_NAME[name]
    return k.load([data] + others)


def c26_eval(case, T):
    (name, spec), which, how, x = case
    if name == 'LZ10':
        import ndspy.lz10
        with T.sut('compressing'):
            data, others = bytes(ndspy.lz10.compress(expand(spec))), []
    else:
        with T.sut(f'making and saving a {name}'):
            o = BY_NAME[name].build(spec)
            if o is None:
                return
            data, *others = convert(BY_NAME[name].save(o), bytes)
    ms = markers(name, data)
    off, n, allowed = ms[which % len(ms)]
    if name == 'NARC' and off == 4:
        # files with other marks for the order of bytes are not ruled out
        how = 'reversed'
    new = altered(data[off:off + n], how, x)
    if new in allowed:
        new = altered(data[off:off + n], 'random', x)
    if new in allowed:
        return
    bad = data[:off] + new + data[off + n:]
    for to in (bytes, bytearray):
        with T.raises(f'loading a {name} with {new!r} instead of {data[off:off + n]!r} at {off:#x}'):
            load_marked(name, to(bad), copy.deepcopy(others))
    T.nontrivial()
    T.label(f'{name} marker {min(which % len(ms), 3)}')


def c26_strategy():
    return st.tuples(st.one_of(kinds.cases(MARKED), st.tuples(st.just('LZ10'), blobs(400))), st.integers(0, 11),
                     st.sampled_from(['random', 'bit', 'byte', 'other', 'reversed', 'case', 'rotated', 'number']), st.integers(0, 2 ** 16))


def c26_kinds_eval(case, T):
    (name, spec), other, cut = case
    with T.sut(f'making and saving a {name}'):
        o = BY_NAME[name].build(spec)
        if o is None:
            return
        data = bytes(BY_NAME[name].save(o)[0])
    k = MARKED[other % len(MARKED)]
    if k.name == name or cut < k.magic[0][1]:
        # too short to be anything
        data = data[:min(cut, k.magic[0][1] - 1)]
        k = BY_NAME[name] if BY_NAME[name].magic else k
    with T.raises(f'loading {data[:16]!r}..., a file of the kind {name}, as a {k.name}'):
        k.cls(data)
    T.nontrivial(len(data) > 8)
    T.label(name)


def c26_kinds_strategy():
    return st.tuples(kinds.cases([k for k in kinds.KINDS if k.name not in ('overlays',)]), st.integers(0, len(MARKED) - 1), st.integers(0, 40))


# ---------------------------------------------------------------------------
# C27


class Awkward:
    """A value that cannot be compared or hashed."""
    __hash__ = None

    def __eq__(self, other):
        raise TypeError('not comparable')

    def __bool__(self):
        raise TypeError('neither true nor false')


def c27_value(x):
    return [None, object(), [], Awkward(), '', 0, (1, 2), b''][x]


def c27_names():
    return st.one_of(st.sampled_from(['a', 'b', 'A', '', 'a ', 'ab', None, 0, 1, True, 1.0, 'None', '0', (1, 'a'), b'a']), st.text(max_size=2))


def fresh(name):
    """An equal name that is another object."""
    if isinstance(name, str) and name:
        return ''.join(list(name))
    return tuple(list(name)) if isinstance(name, tuple) and name else name


def c27_eval(case, T):
    pairs, ops = case
    L = [(n, c27_value(v)) for n, v in pairs]
    model = list(L)
    T.nontrivial(len(L) > 1 and bool(ops))

    def same(what):
        T.check(len(L) == len(model), f'{what}: {len(L)} pairs, expected {len(model)}')
        for i, (got, want) in enumerate(zip(L, model)):
            T.check(len(got) == 2 and got[0] == want[0] and got[1] is want[1], f'{what}: pair {i} has changed')
            T.check(isinstance(got, tuple), f'{what}: pair {i} is a {type(got).__name__}')

    for op, name, v in ops:
        name = fresh(name)
        where = next((i for i, p in enumerate(model) if p[0] == name), None)
        what = f'{op} {name!r} in {[p[0] for p in model]}'
        value = c27_value(v)
        if where is None:
            with T.raises(what, KeyError):
                if op == 'index':
                    ndspy.indexInNamedList(L, name)
                elif op == 'find':
                    ndspy.findInNamedList(L, name)
                else:
                    ndspy.setInNamedList(L, name, value)
            T.label('absent')
        else:
            with T.sut(what):
                if op == 'index':
                    got = ndspy.indexInNamedList(L, name)
                elif op == 'find':
                    got = ndspy.findInNamedList(L, name)
                else:
                    ndspy.setInNamedList(L, name, value)
            if op == 'index':
                T.check(type(got) is int and got == where, f'{what}: {got!r}, expected {where}')
            elif op == 'find':
                T.check(got is model[where][1], f'{what}: not the value of pair {where}')
            else:
                model[where] = (name, value)
            T.label('duplicate name', sum(p[0] == name for p in model) > 1)
        same(f'after {what}')
        T.label(op)


def c27_strategy():
    return st.tuples(st.lists(st.tuples(c27_names(), st.integers(0, 7)), max_size=8),
                     st.lists(st.tuples(st.sampled_from(['index', 'find', 'set']), c27_names(), st.integers(0, 7)), max_size=8)).flatmap(
        # mostly names that are there
        lambda c: st.lists(st.integers(0, 9), min_size=len(c[1]), max_size=len(c[1])).map(
            lambda picks: (c[0], [(op, c[0][k][0] if k < len(c[0]) else n, v) for (op, n, v), k in zip(c[1], picks)])))


def c27_long_eval(case, T):
    n, seed = case
    rnd = random.Random(seed)
    names = [f'SEQ_{rnd.randrange(2 * n)}' for _ in range(n)]
    case = ([(x, rnd.randrange(8)) for x in names],
            [(rnd.choice(['index', 'find', 'set']), f'SEQ_{rnd.randrange(2 * n)}', rnd.randrange(8)) for _ in range(20)])
    c27_eval(case, T)


CHECKS = {
    'C24': Check('C24', [
        Facet('saving', kinds.cases, c24_save_eval, 3000, 30000, 'non-trivial: an object was saved'),
        Facet('saving parts', kinds.parts, c24_parts_eval, 2000, 20000, 'non-trivial: an object was saved'),
        Facet('loading', kinds.cases, c24_load_eval, 3000, 30000, 'non-trivial: at least two values could be changed'),
        Facet('parts of one', lambda: st.tuples(kinds.cases(), st.integers(0, 9), st.integers(0, 9), st.booleans()), c24_apart_eval, 2500, 25000,
              'non-trivial: one of several parts of an object was changed'),
        Facet('entries with the same file', lambda: st.tuples(BY_NAME['SDAT'].strategy(), st.booleans()), c24_shared_eval, 400, 4000,
              'sound archives with every entry twice; non-trivial: an entry was changed'),
        Facet('edits', c24_edit_strategy, c24_edit_eval, 2000, 20000, 'non-trivial: the data before and after the edit is different'),
        Facet('new objects', c24_new_strategy, c24_new_eval, 2000, 20000, 'non-trivial: at least two values could be changed'),
    ], 'Generated objects of all kinds.', []),
    'C26': Check('C26', [
        Facet('markers', c26_strategy, c26_eval, 4000, 40000, 'non-trivial: the file has a marker with a wrong value'),
        Facet('other kinds', c26_kinds_strategy, c26_kinds_eval, 2000, 20000, 'non-trivial: a file of another kind with more than eight bytes'),
    ], 'Valid files with altered markers.', ['Only markers at the places the format gives are altered: magic numbers and versions of files, and the names of their sections.']),
    'C27': Check('C27', [
        Facet('operations', c27_strategy, c27_eval, 4000, 40000, 'non-trivial: at least two pairs and one operation'),
        Facet('long lists', lambda: st.tuples(st.integers(1, 300), st.integers(0, 10 ** 6)), c27_long_eval, 300, 3000, 'non-trivial: at least two pairs and one operation'),
    ], 'Lists of pairs and operations on them.', []),
}
