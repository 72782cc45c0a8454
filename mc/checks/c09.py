"""C09 - character and octet strings: value <-> octets, chunks, charsets, histories."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core, x509  # noqa

# ITU-T T.61 8-bit repertoire (0x80-0x9f are controls; -1: not assigned)
T61 = list(range(256))
for _i in (35, 36, 92, 94, 96, 123, 125, 126):
    T61[_i] = -1
T61[0xa0:0xc0] = [0xa0, 161, 162, 163, 36, 165, 35, 167, 164, -1, -1, 171, -1, -1, -1, -1, 176, 177, 178, 179, 215, 181, 182,
                  183, 247, -1, -1, 187, 188, 189, 190, 191]
T61[0xc0:0xd0] = [-1, 0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, -1, 0x30a, 0x327, 0x332, 0x30b, 0x328, 0x30c]
T61[0xd0:0xe0] = [-1] * 16
T61[0xe0:] = [8486, 198, 208, 170, 294, -1, 306, 319, 321, 216, 338, 186, 222, 358, 330, 329, 312, 230, 273, 240, 295, 305,
              307, 320, 322, 248, 339, 223, 254, 359, 331, -1]
T61R = dict((u, b) for b, u in enumerate(T61) if u >= 0)


def enc_char(kind, cp):
    """octets of one code point, or None if it has no encoding"""
    if kind == 'ascii':
        return bytes([cp]) if cp < 128 else None
    if kind == 'latin1':
        return bytes([cp]) if cp < 256 else None
    if kind == 't61':
        return bytes([T61R[cp]]) if cp in T61R else None
    if 0xd800 <= cp < 0xe000:
        return None
    if kind == 'utf32':
        return bytes([0, cp >> 16, cp >> 8 & 255, cp & 255])
    if kind == 'utf16':
        if cp < 0x10000:
            return bytes([cp >> 8, cp & 255])
        v = cp - 0x10000
        hi, lo = 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)
        return bytes([hi >> 8, hi & 255, lo >> 8, lo & 255])
    if kind == 'utf8':
        if cp < 0x80:
            return bytes([cp])
        if cp < 0x800:
            return bytes([0xc0 | cp >> 6, 0x80 | cp & 63])
        if cp < 0x10000:
            return bytes([0xe0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])
        return bytes([0xf0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])


CLASSES = [
    ('UTF8String', 12, 'utf8'), ('NumericString', 18, 'latin1'), ('PrintableString', 19, 'latin1'),
    ('TeletexString', 20, 't61'), ('IA5String', 22, 'ascii'), ('GraphicString', 25, 'latin1'),
    ('VisibleString', 26, 'latin1'), ('GeneralString', 27, 'latin1'), ('UniversalString', 28, 'utf32'),
    ('CharacterString', 29, 'latin1'), ('BMPString', 30, 'utf16'),
]


def encode(kind, text):
    parts = [enc_char(kind, ord(c)) for c in text]
    return None if None in parts else b''.join(parts)


def gen_chars(tier):
    cps = list(range(0, 0x3000 if tier == 'thorough' else 0x900)) + [0x2126, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe,
                                                                     0xffff, 0x10000, 0x10001, 0x1f600, 0x10ffff]
    for i in range(len(CLASSES)):
        for cp in cps:
            yield (i, chr(cp))
    alpha = u'A$\x00\xe9\u0308\u2126\u20ac\U0001f600'
    for i in range(len(CLASSES)):
        yield (i, u'')
        for n in (2, 3, 4) if tier == 'thorough' else (2, 3):
            for t in itertools.product(alpha, repeat=n):
                yield (i, u''.join(t))
        for n in (126, 127, 128, 255, 256, 300):
            yield (i, u'x' * n)


def check_chars(case, rec):
    i, text = case
    name, tag, kind = CLASSES[i]
    cls = getattr(core, name)
    want = encode(kind, text)
    rec.op(4)
    k, o = attempt(cls, text)
    rec.outcome('%s %s' % (name, want is not None))
    if want is None:
        if k == 'ok' or not isinstance(o, ValueError):
            return '%s(%r): %s %r' % (name, text, k, o)
        o = cls(u'OLD')
        before = o.dump()
        k, r = attempt(o.set, text)
        if k == 'ok' or o.native != u'OLD' or str(o) != u'OLD' or o.dump() != before:
            return 'refused set(%r) changed the value to %r' % (text, o.native)
        return
    if k != 'ok':
        return '%s(%r) refused: %r' % (name, text, o)
    d = ref.u(tag, want)
    if o.dump() != d or o.native != text or str(o) != text:
        return '%s(%r): dump %r expected %r' % (name, text, o.dump(), d)
    p = cls.load(d, strict=True)
    if p.native != text or str(p) != text or p.dump() != d or p.dump(force=True) != d or p.native != text:
        return '%s decode: %r expected %r' % (name, p.native, text)
    if len(p) != len(text) if hasattr(p, '__len__') else False:
        return 'len'
    g = core.load(d)
    if g.native != text or type(g) is not cls:
        return 'generic decode %r' % g
    rec.state(name, text)


def gen_bytes(tier):
    for i in range(len(CLASSES)):
        for b in range(256):
            yield (i, bytes([b]))
        for a in (range(256) if tier == 'thorough' or CLASSES[i][2] in ('utf8', 'utf16') else (0x24, 0x41, 0x80, 0xd8, 0xff)):
            for b in range(256):
                yield (i, bytes([a, b]))
        for t in itertools.product((0, 0x10, 0x11, 0x41, 0x80, 0xbf, 0xc3, 0xd8, 0xdc, 0xe2, 0xed, 0xf0, 0xf4), repeat=4):
            if CLASSES[i][2] in ('utf8', 'utf16', 'utf32'):
                yield (i, bytes(t))


def decode(kind, b):
    """reference decoder by greedy search over the encoder's definition; None if invalid"""
    if kind == 'ascii':
        return None if any(x > 127 for x in b) else u''.join(map(chr, b))
    if kind == 'latin1':
        return u''.join(map(chr, b))
    if kind == 't61':
        return None if any(T61[x] < 0 for x in b) else u''.join(chr(T61[x]) for x in b)
    if kind == 'utf32':
        if len(b) % 4:
            return None
        cps = [int.from_bytes(b[i:i + 4], 'big') for i in range(0, len(b), 4)]
        if any(c > 0x10ffff or 0xd800 <= c < 0xe000 for c in cps):
            return None
        return u''.join(map(chr, cps))
    if kind == 'utf16':
        if len(b) % 2:
            return None
        us = [int.from_bytes(b[i:i + 2], 'big') for i in range(0, len(b), 2)]
        out, i = [], 0
        while i < len(us):
            u = us[i]
            if 0xd800 <= u < 0xdc00:
                if i + 1 >= len(us) or not 0xdc00 <= us[i + 1] < 0xe000:
                    return None
                out.append(chr(0x10000 + ((u - 0xd800) << 10) + us[i + 1] - 0xdc00))
                i += 2
                continue
            if 0xdc00 <= u < 0xe000:
                return None
            out.append(chr(u))
            i += 1
        return u''.join(out)
    out, i = [], 0
    while i < len(b):
        x = b[i]
        n = 1 if x < 0x80 else 2 if 0xc2 <= x < 0xe0 else 3 if 0xe0 <= x < 0xf0 else 4 if 0xf0 <= x < 0xf5 else 0
        if n == 0 or i + n > len(b) or any(y & 0xc0 != 0x80 for y in b[i + 1:i + n]):
            return None
        cp = x if n == 1 else x & (0xff >> (n + 1))
        for y in b[i + 1:i + n]:
            cp = cp << 6 | y & 63
        if enc_char('utf8', cp) != b[i:i + n] or cp > 0x10ffff:
            return None
        out.append(chr(cp))
        i += n
    return u''.join(out)


def check_bytes(case, rec):
    i, b = case
    name, tag, kind = CLASSES[i]
    cls = getattr(core, name)
    d = ref.u(tag, b)
    want = decode(kind, b)
    o = cls.load(d)
    rec.op(3)
    k, r = attempt(lambda: o.native)
    rec.outcome('%s %s' % (kind, want is not None))
    if want is None:
        if k == 'ok' or not isinstance(r, ValueError):
            return '%s %r invalid octets decoded as %r' % (name, b, r)
        if o.dump() != d:
            return 'octets changed'
        return
    if k != 'ok' or r != want:
        return '%s %r decoded as %r expected %r' % (name, b, r, want)
    if o.dump() != d or o.dump(force=True) != d or o.native != want:
        return 're-encode %r' % o.dump()
    rec.state(name, b)


# ---- chunks
TEXTS = {'utf8': u'\u20ac\xe9z', 'latin1': u'ab\xe9', 't61': u'A\xe6\u0126', 'ascii': u'abc', 'utf32': u'\u20ac\U0001f600',
         'utf16': u'\u20ac\U0001f600a', 'raw': None}
RAW = b'\x04\x01\x00\xff'
KINDS = CLASSES + [('OctetString', 4, 'raw'), ('ParsableOctetString', 4, 'raw'), ('IntegerOctetString', 4, 'raw'),
                   ('VideotexString', 21, 'raw'), ('x509.NotReallyTeletexString', 20, 'cp')]


def splits(n, k):
    """ways to cut n octets into k chunks (empty chunks included)"""
    for cuts in itertools.combinations_with_replacement(range(n + 1), k - 1):
        yield (0,) + cuts + (n,)


def gen_chunks(tier):
    for i in range(len(KINDS)):
        kind = KINDS[i][2]
        n = 4 if kind == 'raw' else 3 if kind == 'cp' else len(encode(kind, TEXTS[kind]))
        yield (i, (), ())
        for k in range(1, 4):
            for c in splits(n, k):
                # nesting: each chunk is plain, wrapped in its own constructed element, or wrapped twice
                for nest in itertools.product((0, 1, 2) if k < 3 else (0, 1), repeat=k):
                    for tagging in ((), ('implicit',), ('explicit',), ('explicit-def',)):
                        yield (i, c, nest) + tagging


def cls_of(name):
    return getattr(x509, name[5:]) if name.startswith('x509.') else getattr(core, name)


def check_chunks(case, rec):
    i, cuts, nest = case[:3]
    tagging = case[3] if len(case) > 3 else None
    name, tag, kind = KINDS[i]
    cls = cls_of(name)
    raw = RAW if kind == 'raw' else b'\x80\x24\xe9' if kind == 'cp' else encode(kind, TEXTS[kind])
    if not cuts:
        raw = b''
    body = b''
    for j, n in enumerate(nest):
        c = ref.u(tag, raw[cuts[j]:cuts[j + 1]])
        for _ in range(n):
            c = ref.indef(0, tag, c)
        body += c
    kw = {}
    if tagging == 'implicit':
        kw = {'implicit': 3}
        d = ref.indef(2, 3, body)
        der = ref.ctx(3, raw)
    elif tagging == 'explicit':
        kw = {'explicit': 3}
        d = ref.indef(2, 3, ref.indef(0, tag, body))
        der = ref.expl(3, ref.u(tag, raw))
    elif tagging == 'explicit-def':
        kw = {'explicit': 3}
        d = ref.expl(3, ref.indef(0, tag, body))
        der = ref.expl(3, ref.u(tag, raw))
    else:
        d = ref.indef(0, tag, body)
        der = ref.u(tag, raw)
    if kind == 'raw':
        native = int.from_bytes(raw, 'big') if name == 'IntegerOctetString' else raw
    elif kind == 'cp':
        native = u'\u20ac$\xe9' if raw else u''
    else:
        native = decode(kind, raw)
    if name == 'IntegerOctetString':
        # the integer view re-encodes minimally
        want_der = None
    else:
        want_der = der
    rec.op(8)
    rec.outcome(name)
    rec.state(name, cuts, nest, tagging)
    for order in ('native-force', 'force-native', 'dump', 'copy', 'set'):
        if order == 'copy' and kind == 'cp':
            continue
        o = cls.load(d, strict=True, **kw)
        if order == 'native-force':
            if o.native != native:
                return '%s native %r expected %r' % (name, o.native, native)
        if order == 'copy':
            o = o.copy()
            if o.native != native:
                return '%s native of the copy %r' % (name, o.native)
        if order == 'set':
            v = 7 if name == 'IntegerOctetString' else b'\x07' if kind == 'raw' else u'7'
            if name == 'TeletexString':
                v = u'7'
            o.set(v)
            c = b'\x07' if kind == 'raw' else encode('t61' if kind == 'cp' else kind, u'7')
            w = ref.ctx(3, c) if tagging == 'implicit' else ref.u(tag, c)
            if tagging and tagging.startswith('explicit'):
                w = ref.expl(3, w)
            if o.dump() != w or o.native != v or o.dump(force=True) != w:
                return '%s after set: %r expected %r' % (name, o.dump(), w)
            continue
        x = o.dump(force=order != 'dump')
        if want_der is not None and x != want_der:
            return '%s %s: re-encoded %r as %r, expected %r' % (name, order, d, x, want_der)
        if o.native != native or cls.load(x, strict=True, **kw).native != native:
            return '%s native after re-encoding %r' % (name, o.native)
        if o.dump() != x or o.dump(force=True) != x:
            return '%s: re-encoding is not stable' % name


# ---- invalid chunks
def gen_badchunk(tier):
    for i in range(len(KINDS)):
        for bad in range(6):
            for pos in (0, 1):
                yield (i, bad, pos)


def check_badchunk(case, rec):
    i, bad, pos = case
    name, tag, kind = KINDS[i]
    cls = cls_of(name)
    good = ref.u(tag, encode('utf32', u'a') if kind == 'utf32' else b'\x00a')
    junk = [ref.u(2, b'\x01'), ref.u(tag + 1 if tag != 30 else 4, b'aa'), ref.ctx(tag, b'aa'), ref.seq(ref.u(tag, b'aa')),
            b'\x04', b'\x00'][bad]
    body = junk + good if pos == 0 else good + junk
    d = ident = ref.ident(0, 1, tag) + b'\x80' + body + b'\x00\x00'
    rec.op(1)

    def go():
        o = cls.load(d, strict=True)
        return o.native
    k, r = attempt(go)
    rec.outcome('%s' % (k,))
    if k == 'ok' or not isinstance(r, (ValueError, TypeError)):
        return '%s: chunk %r accepted: %s %r' % (name, junk, k, r)


SPACES = [
    Space('chars', gen_chars, check_chars, 'every code point below U+0900 (U+3000) and strings of <= 3 (4) over 8 characters, '
          'all 11 character string types'),
    Space('bytes', gen_bytes, check_bytes, 'all 1- and 2-octet contents, 4-octet contents over 13 octets'),
    Space('chunks', gen_chunks, check_chunks, 'all splits into <= 3 chunks, nested, under every tagging, 16 types'),
    Space('badchunk', gen_badchunk, check_badchunk, 'foreign or truncated elements in place of a chunk'),
]


def run(argv):
    return main('C09', SPACES, ['code points beyond those enumerated behave like others of the same encoded width'], argv)
