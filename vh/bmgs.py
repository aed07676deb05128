"""C14, C15: BMG message files."""
import random
import struct

from hypothesis import strategies as st

from . import reuse
from .core import Check, Facet, HarnessError, Violation, expand, ints, u8, u16, u32

import ndspy.bmg

ENCODINGS = {'cp1252': 1, 'utf-16': 2, 'shift-jis': 3, 'utf-8': 4}


def _chars(codec):
    out = []
    for c in map(chr, range(1, 0x10000)):
        if c == '\x1a' or 0xD800 <= ord(c) < 0xE000:
            continue
        try:
            if c.encode(codec).decode(codec) == c:
                out.append(c)
        except UnicodeError:
            pass
    return out


CP1252 = _chars('cp1252')
SJIS = _chars('shift-jis')
_uni = st.characters(exclude_categories=['Cs'], exclude_characters='\0\x1a')
# Characters worth trying more often: bytes of others within, ends of ranges, marks
SPECIAL = {
    'cp1252': '\u20ac\xff\xa0\x1b\x19\x7f\\~',
    'shift-jis': '\u30bd\u8868\u80fd\uff71\uff9f\u3000\u4e9c\x1b\x19\x7f',
    'utf-16': '\u1a00\u1a1a\u0100\u1a01\x1b\x19\ufeff\ufffe\uffff\u0d00\U0001f600\U00101a00\u0a0d',
    'utf-8': '\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff\ufeff\u1a1a\x1b\x19',
    'ascii': '\x1b\x19"\'{}%',
}
ALPHABET = {'cp1252': st.sampled_from(CP1252), 'shift-jis': st.sampled_from(SJIS), 'utf-16': _uni, 'utf-8': _uni,
            'ascii': st.sampled_from([chr(i) for i in range(1, 0x7F) if i != 0x1A and i != 0x5C and i != 0x7E])}


def parts(encoding):
    # (st.text would not use an alphabet of several parts evenly)
    char = st.one_of(ALPHABET[encoding], st.sampled_from(SPECIAL[encoding]), st.sampled_from('\n\r\t aZ'))
    text = st.one_of(st.text(ALPHABET[encoding], max_size=12), st.lists(char, max_size=12).map(''.join),
                     st.lists(st.sampled_from(['\r\n', '\r', '\n', '  ', ' ', '\t', 'a', '\x1b', '%s', '{0}', '&amp;', '<b>', '\x7f']), max_size=5).map(''.join))
    esc = st.tuples(u8(), st.one_of(st.binary(max_size=9), st.sampled_from([b'\0', b'\0\0', b'\x1a', b'\x1a\0', b'\0\x1a', b'\x1a\0\x04\0']),
                                  st.integers(245, 251).map(lambda n: bytes(i % 27 for i in range(n)))))
    return st.lists(st.one_of(text, text, esc), max_size=5)


@st.composite
def bmg_models(draw, encoding=None, max_messages=7):
    enc = draw(st.sampled_from(sorted(ENCODINGS)))
    alpha = encoding or enc
    info = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 4, 8, 11]))
    msgs = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 3, max_messages]))):
        null = draw(st.integers(0, 6)) == 6
        msgs.append((draw(st.binary(min_size=info, max_size=info)), [] if null else draw(parts(alpha)), null))
    inst = st.one_of(st.binary(min_size=8, max_size=8), st.just(bytes(8)))
    label = st.one_of(st.tuples(st.integers(-128, 127), st.integers(-0x8000, 0x7FFF)), st.just((0, 0)), st.tuples(st.just(0), st.integers(-1, 3)))
    script = st.tuples(u32(), u16())
    return {
        'encoding': enc, 'endianness': draw(st.sampled_from('<>')), 'id': draw(u32()),
        'unk14': draw(u32()), 'unk18': draw(u32()), 'unk1C': draw(u32()),
        'messages': msgs,
        'instructions': draw(st.lists(inst, max_size=6)),
        'labels': draw(st.lists(label, max_size=18)),
        'scripts': draw(st.lists(script, max_size=6)),
    }


FIELDS = ['encoding', 'endianness', 'id', 'unk14', 'unk18', 'unk1C']


def full(m):
    if m['encoding'] == 'utf-16':
        return 'utf-16-le' if m['endianness'] == '<' else 'utf-16-be'
    return m['encoding']


def to_bmg(m, wrap=False):
    b = ndspy.bmg.BMG()
    for k in FIELDS:
        setattr(b, k, m[k])
    b.messages = [to_message(x) for x in m['messages']]
    b.instructions = [Inst(i) if wrap else i for i in m['instructions']]
    b.labels = list(m['labels'])
    b.scripts = list(m['scripts'])
    return b


class Inst:
    def __init__(self, data):
        self.data = data

    def save(self):
        return self.data


def to_message(x):
    info, ps, null = x
    return ndspy.bmg.Message(info, [p if isinstance(p, str) else ndspy.bmg.Message.Escape(*p) for p in ps], null)


def from_message(msg):
    return (bytes(msg.info), [p if isinstance(p, str) else (p.type, bytes(p.data)) for p in msg.stringParts], bool(msg.isNull))


def normal(msgs):
    """Adjacent strings are one string in the file, and empty ones leave no trace."""
    out = []
    for info, ps, null in msgs:
        new = []
        for p in ps:
            if p == '':
                continue
            if isinstance(p, str) and new and isinstance(new[-1], str):
                new[-1] += p
            else:
                new.append(p)
        out.append((info, new, null))
    return out


def strip(items, zero):
    """Zeros at the end of a table cannot be told from its padding."""
    items = list(items)
    while items and items[-1] == zero:
        items.pop()
    return items


def judge(b, m, T, what):
    for k in FIELDS:
        T.eq(getattr(b, k), m[k], f'{what}: {k}')
    T.eq(len(b.messages), len(m['messages']), f'{what}: number of messages')
    for i, (g, w) in enumerate(zip([from_message(x) for x in b.messages], normal(m['messages']))):
        T.eq(g, w, f'{what}: message {i}')
    T.eq(strip([bytes(i) for i in b.instructions], bytes(8)), strip(m['instructions'], bytes(8)), f'{what}: instructions')
    T.eq(strip([tuple(x) for x in b.labels], (0, 0)), strip(m['labels'], (0, 0)), f'{what}: labels')
    T.eq([tuple(x) for x in b.scripts], m['scripts'], f'{what}: scripts')


# ---------------------------------------------------------------------------
# Reference writer and reader


def enc_message(m, ps):
    e = full(m)
    start = '\x1a'.encode(e)
    out = b''
    for p in ps:
        if isinstance(p, str):
            out += p.encode(e)
        else:
            out += start + bytes([len(start) + 2 + len(p[1]), p[0]]) + p[1]
    return out + '\0'.encode(e)


def pad32(b):
    return b + bytes(-len(b) % 32)


def ref_write(m, text_order=None, share=False, section_order=None):
    E = m['endianness']
    pool = bytearray('\0'.encode(full(m)))
    offs = {}
    where = {}
    ids = list(range(len(m['messages'])))
    for i in text_order or ids:
        info, ps, null = m['messages'][i]
        if null:
            offs[i] = 0
            continue
        t = enc_message(m, ps)
        if share and t in where:
            offs[i] = where[t]
            continue
        offs[i] = where[t] = len(pool)
        pool += t
    n = len(m['messages'][0][0]) if m['messages'] else 0
    inf = b''.join(struct.pack(E + 'I', offs[i]) + m['messages'][i][0] for i in ids)
    inf = struct.pack(E + '2HI', len(ids), 4 + n, m['id']) + inf
    secs = [section(E, b'INF1', inf), section(E, b'DAT1', pool)]
    if m['instructions'] or m['labels']:
        ni = -(-len(m['instructions']) // 2) * 2
        nl = -(-len(m['labels']) // 8) * 8
        body = struct.pack(E + '2HI', ni, nl, 0)
        body += b''.join(m['instructions']).ljust(8 * ni, b'\0')
        body += b''.join(struct.pack(E + 'h', i) for _, i in m['labels']).ljust(2 * nl, b'\0')
        body += b''.join(struct.pack('b', b) for b, _ in m['labels'])
        secs.append(section(E, b'FLW1', body))
    if m['scripts']:
        body = struct.pack(E + '2HI', len(m['scripts']), 8, 0)
        body += b''.join(struct.pack(E + 'IHH', i, x, 0) for i, x in m['scripts'])
        secs.append(struct.pack(E + '4sI', b'FLI1', len(pad32(bytes(8) + body))) + body)   # not padded itself
    if section_order:
        secs = [secs[i] if len(secs[i]) % 32 == 0 else pad32(secs[i]) for i in section_order if i < len(secs)]
    body = b''.join(secs)
    total = 0x20 + len(body)
    total += -total % 32
    head = b'MESGbmg1' + struct.pack(E + '2IB3I', total, len(secs), ENCODINGS[m['encoding']], m['unk14'], m['unk18'], m['unk1C'])
    return head.ljust(0x20, b'\0') + body


def section(E, magic, body):
    size = len(pad32(bytes(8) + body))
    return pad32(struct.pack(E + '4sI', magic, size) + body)


def ref_read(data, E):
    """Strict reader. Raises ValueError."""
    data = bytes(data)

    def req(cond, msg):
        if not cond:
            raise ValueError(msg)

    req(data[:8] == b'MESGbmg1', 'magic')
    total, nsec, enc, u14, u18, u1c = struct.unpack_from(E + '2IB3I', data, 8)
    req(data[0x1D:0x20] == bytes(3), 'header padding')
    req(total == -(-len(data) // 32) * 32, f'file size {total:#x} for {len(data):#x} bytes')
    encs = {v: k for k, v in ENCODINGS.items()}
    req(enc in encs, f'encoding {enc}')
    m = {'encoding': encs[enc], 'endianness': E, 'unk14': u14, 'unk18': u18, 'unk1C': u1c,
         'instructions': [], 'labels': [], 'scripts': []}
    pos = 0x20
    secs = {}
    order = []
    for _ in range(nsec):
        req(pos + 8 <= len(data), f'section at {pos:#x} is beyond the end')
        magic, size = struct.unpack_from(E + '4sI', data, pos)
        req(magic not in secs, f'two {magic}')
        req(size % 32 == 0 and size, f'{magic} size {size:#x}')
        secs[magic] = data[pos + 8:pos + size]
        order.append(magic)
        last = pos + size
        pos += size
    req(order == [x for x in (b'INF1', b'DAT1', b'FLW1', b'FLI1') if x in order], f'sections {order}')
    req(order[:2] == [b'INF1', b'DAT1'], f'sections {order}')
    req(pos == total, f'sections end at {pos:#x}, file at {total:#x}')
    inf, dat = secs[b'INF1'], secs[b'DAT1']
    n, size, m['id'] = struct.unpack_from(E + '2HI', inf, 0)
    req(len(pad32(bytes(16 + n * size))) == len(inf) + 8, 'INF1 length')
    req(not any(inf[8 + n * size:]), 'INF1 padding')
    e = full(m)
    nul, start = '\0'.encode(e), '\x1a'.encode(e)
    w = len(nul)
    req(dat[:w] == nul, 'DAT1 does not start with an empty string')
    m['messages'] = []
    end = w
    for i in range(n):
        off, = struct.unpack_from(E + 'I', inf, 8 + i * size)
        info = inf[12 + i * size:8 + (i + 1) * size]
        if off == 0:
            m['messages'].append((info, [], True))
            continue
        p = off
        ps = []
        text = b''
        while True:
            req(p + w <= len(dat), f'message {i} runs beyond the end of the text')
            c = dat[p:p + w]
            if c in (nul, start) and text:
                ps.append(text.decode(e))
                text = b''
            if c == nul:
                break
            if c == start:
                ln, typ = dat[p + w], dat[p + w + 1]
                req(ln >= w + 2, f'escape of length {ln}')
                ps.append((typ, dat[p + w + 2:p + ln]))
                p += ln
            else:
                text += c
                p += w
        req(off == end, f'message {i} is at {off:#x}, not {end:#x}')
        end = p + w
        m['messages'].append((info, ps, False))
    req(not any(dat[end:]) and len(dat) + 8 == len(pad32(bytes(8 + end))), 'DAT1 padding')
    if b'FLW1' in secs:
        b = secs[b'FLW1']
        ni, nl, z = struct.unpack_from(E + '2HI', b, 0)
        req(ni % 2 == 0 and nl % 8 == 0 and z == 0, f'FLW1 counts {ni} {nl} {z}')
        m['instructions'] = [b[8 + 8 * i:16 + 8 * i] for i in range(ni)]
        o = 8 + 8 * ni
        idx = struct.unpack_from(f'{E}{nl}h', b, o)
        rest = b[o + 2 * nl:]
        bid = struct.unpack_from(f'{nl}b', rest.ljust(nl, b'\0'), 0)
        m['labels'] = list(zip(bid, idx))
        req(not any(rest[nl:]), 'FLW1 padding')
    if b'FLI1' in secs:
        b = secs[b'FLI1']
        ns, es, z = struct.unpack_from(E + '2HI', b, 0)
        req(es == 8 and z == 0, 'FLI1 header')
        for i in range(ns):
            sid, ix, z = struct.unpack_from(E + 'I2H', b, 8 + 8 * i)
            req(z == 0, f'script {i}: padding {z:#x}')
            m['scripts'].append((sid, ix))
        req(not any(b[8 + 8 * ns:]), 'FLI1 padding')
    req((b'FLW1' in secs) == bool(m['instructions'] or m['labels']), 'empty FLW1')
    req((b'FLI1' in secs) == bool(m['scripts']), 'empty FLI1')
    return m


def judge_file(data, m, T, what):
    try:
        got = ref_read(data, m['endianness'])
    except (ValueError, struct.error, IndexError) as e:
        raise Violation(f'{what} is not a valid BMG: {e}')
    for k in FIELDS:
        T.eq(got[k], m[k], f'{what}: {k}')
    T.eq(got['messages'], normal(m['messages']), f'{what}: messages')
    T.eq(got['instructions'], m['instructions'] + [bytes(8)] * (len(m['instructions']) % 2), f'{what}: instructions')
    T.eq(got['labels'], m['labels'] + [(0, 0)] * (-len(m['labels']) % 8), f'{what}: labels')
    T.eq(got['scripts'], m['scripts'], f'{what}: scripts')


def labels(m, T):
    T.label(m['encoding'])
    T.label('big-endian', m['endianness'] == '>')
    T.label('escapes', any(not isinstance(p, str) for x in m['messages'] for p in x[1]))
    T.label('null message', any(x[2] for x in m['messages']))
    T.label('scripts', m['scripts'])
    T.label('label (0, 0) before others', (0, 0) in strip(m['labels'], (0, 0)))
    T.nontrivial(any(x[1] for x in m['messages']) or m['instructions'] or m['scripts'])


# C14 -----------------------------------------------------------------------


def c14_eval(case, T):
    m, wrap = case
    b = to_bmg(m, wrap)
    with T.sut('saving and loading a BMG'):
        data = b.save()
        again = ndspy.bmg.BMG(data, id=77)
    judge(again, m, T, 'saved and loaded BMG')
    with T.sut('saving and loading it again'):
        third = ndspy.bmg.BMG(again.save())
    judge(third, m, T, 'BMG after two rounds')
    labels(m, T)


def c14_strategy():
    return st.tuples(bmg_models(), st.booleans())


def c14_edit_strategy():
    p = parts('ascii')
    edit = st.one_of(
        st.tuples(st.just('encoding'), st.sampled_from(sorted(ENCODINGS)), st.integers(0, 2)),
        st.tuples(st.just('endianness'), st.sampled_from('<>'), st.just(0)),
        st.tuples(st.just('parts'), st.integers(0, 20), p),
        st.tuples(st.just('append part'), st.integers(0, 20), st.text(ALPHABET['ascii'], max_size=5)),
        st.tuples(st.just('add'), st.integers(0, 20), p),
        st.tuples(st.just('delete'), st.integers(0, 20), st.just(0)),
        st.tuples(st.just('null'), st.integers(0, 20), st.just(0)),
        st.tuples(st.just('id'), u32(), st.just(0)),
        st.tuples(st.just('instruction'), st.integers(0, 20), st.binary(min_size=8, max_size=8)),
        st.tuples(st.just('label'), st.integers(0, 20), st.tuples(st.integers(-128, 127), st.integers(-0x8000, 0x7FFF))),
        st.tuples(st.just('script'), st.integers(0, 20), st.tuples(u32(), u16())),
        st.tuples(st.just('reload'), st.just(0), st.just(0)),
    )
    return st.tuples(bmg_models('ascii'), st.lists(edit, min_size=1, max_size=6))


def c14_edit_eval(case, T):
    m, edits = case
    m = {k: list(v) if isinstance(v, list) else v for k, v in m.items()}
    n = len(m['messages'][0][0]) if m['messages'] else 0
    with T.sut('loading a BMG'):
        b = ndspy.bmg.BMG(ref_write(m))
    judge(b, m, T, 'loaded BMG')
    # work on what was loaded from here on: trailing zeros are gone
    m['messages'] = normal(m['messages'])
    m['instructions'] = [bytes(i) for i in b.instructions]
    m['labels'] = [tuple(x) for x in b.labels]
    for op, a, v in edits:
        ms = m['messages']
        if op in ('parts', 'append part', 'delete', 'null'):
            if not ms:
                continue
            i = a % len(ms)
        if op in ('encoding', 'endianness', 'id'):
            m[op] = a
            if op == 'encoding' and v == 1:
                a = a.upper()   # names of encodings are not case-sensitive
            elif op == 'encoding' and v == 2:
                b.encoding = 'latin-9'
                with T.raises('saving with an encoding that the format does not know', ValueError):
                    b.save()
            setattr(b, op, a)
            T.eq(b.fullEncoding.lower().replace('-', ''), full(m).replace('-', ''), 'fullEncoding')
        elif op == 'parts':
            ms[i] = (ms[i][0], v, False)
            b.messages[i].stringParts = to_message(ms[i]).stringParts
            b.messages[i].isNull = False
        elif op == 'append part':
            if ms[i][2]:
                continue
            ms[i] = (ms[i][0], ms[i][1] + [v], False)
            b.messages[i].stringParts.append(v)
        elif op == 'add':
            x = (bytes(n), v, False)
            ms.insert(a % (len(ms) + 1), x)
            b.messages.insert(a % len(ms), to_message(x))
        elif op == 'delete':
            del ms[i]
            del b.messages[i]
        elif op == 'null':
            ms[i] = (ms[i][0], [], True)
            b.messages[i].isNull = True
            b.messages[i].stringParts = []
        elif op in ('instruction', 'label', 'script'):
            key = op + 's'
            at = a % (len(m[key]) + 1)
            m[key].insert(at, v)
            getattr(b, key).insert(at, v)
        elif op == 'reload':
            with T.sut('saving and reloading'):
                b = ndspy.bmg.BMG(b.save())
            m['instructions'] = strip(m['instructions'], bytes(8))
            m['labels'] = strip(m['labels'], (0, 0))
            b.instructions = strip([bytes(i) for i in b.instructions], bytes(8))
            b.labels = strip(b.labels, (0, 0))
            m['messages'] = normal(m['messages'])
            judge(b, m, T, 'reloaded BMG')
    with T.sut('saving an edited BMG'):
        data = b.save()
        again = ndspy.bmg.BMG(data)
    judge(again, m, T, 'edited BMG')
    judge_file(data, m, T, 'edited BMG')
    labels(m, T)
    T.label('encoding changed', any(e[0] == 'encoding' for e in edits))


def big_strategy():
    """Total sizes that read similarly in both byte orders are the interesting ones."""
    near = st.builds(lambda a, b, c: a << 16 | b << 8 | c & 0xE0, st.integers(1, 5), st.integers(0, 5), st.sampled_from([0, 0, 0x20, 0xE0]))
    return st.tuples(st.one_of(near, st.integers(2048, 8192).map(lambda n: n * 32)), st.sampled_from('<>'),
                     st.sampled_from(['cp1252', 'utf-16']), st.booleans())


def c14_big_eval(case, T):
    size, E, enc, script = case
    w = 2 if enc == 'utf-16' else 1
    n = size - 0x20 - 0x20 - (0x20 if script else 0) - 8 - 2 * w
    text = ('Large. ' * (n // 7 // w + 2))[:n // w]
    m = {'encoding': enc, 'endianness': E, 'id': 5, 'unk14': 0, 'unk18': 0, 'unk1C': 0, 'instructions': [], 'labels': [],
         'messages': [(b'', [text], False)], 'scripts': [(1, 2)] if script else []}
    b = to_bmg(m)
    with T.sut('saving a large BMG'):
        data = b.save()
    with T.sut('loading a large BMG'):
        again = ndspy.bmg.BMG(data)
    judge(again, m, T, f'BMG of {len(data)} bytes')
    want = ref_write(m)
    T.same_bytes(data, want, 'large BMG')
    stored = -(-len(data) // 32) * 32
    if stored != size:
        raise HarnessError(f'{stored} instead of {size}')
    T.nontrivial()
    sw = int.from_bytes(size.to_bytes(4, 'little'), 'big')
    T.label('size reads smaller in the other byte order', sw < size)
    T.label('size reads the same in both byte orders', sw == size)


def many_strategy():
    n = st.one_of(st.sampled_from([0, 1, 127, 128, 255, 256, 257, 1000]), st.integers(0, 700))
    return st.tuples(st.integers(0, 10 ** 6), n, n, n, n, st.sampled_from(sorted(ENCODINGS)), st.sampled_from('<>'), st.sampled_from([0, 4, 4, 11, 252, 300]),
                     st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4]))


def many_model(case):
    """Long tables, in one of them sometimes more than 32767 entries."""
    seed, nm, ni, nl, ns, enc, E, info, huge = case
    r = random.Random(seed)
    nm, ni, nl, ns = [33000 if huge == i + 1 else n for i, n in enumerate((nm, ni, nl, ns))]
    top = 4 if nm > 5000 else 60

    def message():
        k = r.randrange(8)
        ps = [] if k == 0 else [f'{r.randrange(10 ** 6)} ' + 'abc ' * r.randrange(top)]
        if k == 1:
            ps.append((r.randrange(256), r.randbytes(r.randrange(9))))
        return r.randbytes(info), ps, k == 0 and bool(r.randrange(2))

    return {'encoding': enc, 'endianness': E, 'id': r.getrandbits(32), 'unk14': 0, 'unk18': r.getrandbits(32), 'unk1C': 0,
            'messages': [message() for _ in range(nm)],
            'instructions': [r.randbytes(8) for _ in range(ni)],
            'labels': [(r.randrange(-128, 128), r.randrange(-0x8000, 0x8000)) for _ in range(nl)],
            'scripts': [(r.getrandbits(32), r.getrandbits(16)) for _ in range(ns)]}


def c14_many_eval(case, T):
    m = many_model(case)
    b = to_bmg(m)
    with T.sut('saving and loading a BMG'):
        again = ndspy.bmg.BMG(b.save())
    judge(again, m, T, 'saved and loaded BMG')
    many_labels(m, T)


def c15_many_eval(case, T):
    m = many_model(case)
    ref = ref_write(m)
    with T.sut('saving a BMG, and loading and resaving a reference BMG'):
        out = to_bmg(m).save()
        again = ndspy.bmg.BMG(ref)
        out2 = again.save()
    T.same_bytes(out, ref, 'saved BMG')
    judge(again, m, T, 'loaded reference BMG')
    T.same_bytes(out2, ref, 'resaved BMG')
    many_labels(m, T)


def many_labels(m, T):
    n = max(len(m[k]) for k in ('messages', 'instructions', 'labels', 'scripts'))
    T.nontrivial(n > 255)
    T.label('more than 32767 entries', n > 32767)


# C15 -----------------------------------------------------------------------


def c15_eval(case, T):
    m, wrap = case
    b = to_bmg(m, wrap)
    with T.sut('saving a BMG'):
        data = b.save()
    judge_file(data, m, T, 'saved BMG')
    ref = ref_write(m)
    with T.sut('loading a reference BMG'):
        loaded = ndspy.bmg.BMG(ref)
    judge(loaded, m, T, 'reference BMG')
    with T.sut('resaving a reference BMG'):
        out = loaded.save()
    T.same_bytes(out, ref, 'resaved reference BMG')
    labels(m, T)


def c15_foreign_strategy():
    return st.tuples(bmg_models(), st.permutations(list(range(7))), st.booleans(), st.permutations([0, 1, 2, 3]), st.booleans())


def c15_foreign_eval(case, T):
    """Other valid arrangements: text order, shared text, order of sections."""
    m, order, share, sections, reorder = case
    data = ref_write(m, [i for i in order if i < len(m['messages'])], share, sections if reorder else None)
    with T.sut('loading a BMG with another arrangement'):
        b = ndspy.bmg.BMG(data)
    judge(b, m, T, 'BMG with another arrangement')
    with T.sut('saving it'):
        out = b.save()
    m = dict(m, instructions=[bytes(i) for i in b.instructions], labels=[tuple(x) for x in b.labels])
    judge_file(out, m, T, 'BMG with another arrangement, resaved')
    T.nontrivial(len(m['messages']) > 1)
    T.label('sections reordered', reorder)
    T.label('shared text', share and len({str(x[1]) for x in m['messages'] if not x[2]}) < len([x for x in m['messages'] if not x[2]]))


NOTE = ['Only text that the encoding maps back to itself is used; NUL and 0x1A are not text.',
        'Zero entries at the end of the instruction and label tables cannot be told from padding and are not compared.',
        'Adjacent strings of a message are one string in the file; empty ones leave no trace.']

CHECKS = {
    'C14': Check('C14', [
        Facet('round trip', c14_strategy, c14_eval, 5000, 60000, 'non-trivial: has text, escapes, instructions or scripts'),
        Facet('edits', c14_edit_strategy, c14_edit_eval, 5000, 60000, 'reference files loaded, edited, saved'),
        Facet('large', big_strategy, c14_big_eval, 300, 3000, 'file sizes around multiples of 64 KiB'),
        Facet('many', many_strategy, c14_many_eval, 80, 800, 'non-trivial: more than 255 entries of one kind'),
        reuse.facet('BMG'),
    ], 'BMGs in all encodings and byte orders, saved and loaded, or loaded and edited; non-trivial: has text, escapes, instructions or scripts.', NOTE),
    'C15': Check('C15', [
        Facet('both ways', c14_strategy, c15_eval, 6000, 80000, 'non-trivial: has text, escapes, instructions or scripts'),
        Facet('foreign', c15_foreign_strategy, c15_foreign_eval, 3000, 40000, 'non-trivial: several messages'),
        Facet('many', many_strategy, c15_many_eval, 80, 800, 'non-trivial: more than 255 entries of one kind'),
        reuse.facet('BMG'),
    ], 'BMGs against a reference reader and writer; non-trivial: has text, escapes, instructions or scripts.', NOTE),
}
