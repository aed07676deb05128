"""
Objects that are used for several contents in turn: everything in one is
changed, in place as far as possible, into what another one contains. What is
saved then has to be what a new object with these contents saves.
"""
import enum

from hypothesis import strategies as st

from .core import Facet

READ_ONLY = {'parsed'}


def settable(o, n):
    p = getattr(type(o), n, None)
    return n not in READ_ONLY and not (isinstance(p, property) and p.fset is None)


def is_object(v):
    return type(v).__module__.startswith('ndspy') and not isinstance(v, (enum.Enum, tuple, type))


def change_into(o, other):
    """Give o the contents of the other object, keeping the objects within it where it can."""
    from . import kinds
    same = {}   # the objects that take the places of the other's events
    busy = set()

    def find_events(a, b):
        la, lb = (dict(kinds.public(x)).get('events') for x in (a, b))
        if isinstance(la, list) and isinstance(lb, list):
            used = set()
            for i, e in enumerate(lb):
                c = la[i] if i < len(la) else e
                if type(c) is not type(e) or id(c) in used or id(e) in same:
                    c = e
                used.add(id(c))
                same.setdefault(id(e), c)

    def into(a, b):
        if id(a) in busy:
            return
        busy.add(id(a))
        find_events(a, b)
        values = kinds.public(b)
        for n, v in values:
            if isinstance(v, str) and v.startswith('error ') or not settable(b, n):
                continue
            try:
                cur = getattr(a, n)
            except Exception:
                continue
            new = merge(cur, v)
            if new is not cur:
                setattr(a, n, new)

    def merge(a, b):
        if id(b) in same:
            c = same[id(b)]
            if c is not b:
                into(c, b)
            elif id(b) not in busy:
                busy.add(id(b))
                for n in ('destination', 'firstEvent'):
                    t = getattr(b, n, None)
                    if t is not None:
                        setattr(b, n, merge(None, t))
            return c
        if type(a) is not type(b):
            if isinstance(b, (list, tuple)):
                return type(b)(merge(None, x) for x in b) if not hasattr(b, '_fields') else b
            if is_object(b) and type(b).__name__ == 'SSARSequence':
                into(b, b)
            return b
        if isinstance(b, list):
            a[:] = [merge(a[i] if i < len(a) else None, x) for i, x in enumerate(b)]
            return a
        if isinstance(b, tuple) and not hasattr(b, '_fields'):
            return tuple(merge(a[i] if i < len(a) else None, x) for i, x in enumerate(b))
        if isinstance(b, bytearray):
            a[:] = b
            return a
        if isinstance(b, set):
            a.clear()
            a.update(b)
            return a
        if isinstance(b, dict):
            new = {k: merge(a.get(k), v) for k, v in b.items()}
            a.clear()
            a.update(new)
            return a
        if is_object(b):
            into(a, b)
            return a
        return b

    if isinstance(o, dict):
        merge(o, other)
    else:
        into(o, other)


def evaluate(case, T):
    from . import kinds
    name, (spec, other, how) = case
    k = next(k for k in kinds.KINDS if k.name == name)
    if name == 'NSBMD':
        # models themselves cannot be edited
        other = (*spec[:2], other[2])
    with T.sut(f'making a {name}'):
        o, x, y = k.build(spec), k.build(other), k.build(other)
    if o is None or x is None:
        return
    with T.sut(f'saving a {name}'):
        first = k.save(o)
        a = kinds.snapshot(first)
        want = kinds.snapshot(k.save(y))
        if how & 1:
            # one that was loaded
            o = k.load(first)
            if how & 2:
                k.save(o)
            if name in ('SSEQ', 'SSAR') and y.parsed:
                o.parse()
        str(o), repr(o)
    with T.sut(f'changing a {name}'):
        change_into(o, x)
    if kinds.snapshot(o) != kinds.snapshot(y):
        # (an object that occurs several times cannot get different contents)
        T.label('not comparable')
        return
    with T.sut(f'saving a {name} that was changed'):
        T.eq(kinds.snapshot(k.save(o)), want, f'{name} that was saved, changed in place and saved again')
    T.nontrivial(a != want)
    T.label(name)
    T.label('loaded', how & 1)


def strategy(names):
    def make():
        from . import kinds
        return st.one_of(*(st.tuples(st.just(k.name), st.tuples(k.strategy(), k.strategy(), st.integers(0, 3))) for k in kinds.KINDS if k.name in names))
    return make


def facet(*names, quick=600):
    return Facet('changed in place', strategy(names), evaluate, quick, quick * 10,
                 'objects saved, changed into others in place and saved again; non-trivial: the data is different')
