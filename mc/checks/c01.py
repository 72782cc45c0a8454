"""C01 - TLV framing: parse/peek agree with the reference X.690 decoder."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import parser  # noqa

ALPHA = [0x00, 0x01, 0x02, 0x1f, 0x30, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0xbf, 0xff]


def decide(data, rec):
    rec.op(4)
    try:
        want, end = ref.parse_one(data)
        if end and data[1:2] == b'\x80' or b'\x80' in data[:end]:
            if ref.indef_depth(data) > 10:
                want = None
    except ref.Bad:
        want = None
    except RecursionError:
        want = None
    got, err = None, None
    try:
        got = parser.parse(data)
    except ValueError as e:
        err = e
    if want is None:
        if got is not None:
            return 'accepted %r, which is not a complete element: %r' % (data, got)
        rec.outcome('reject')
        for f in (parser.peek, lambda d: parser.parse(d, strict=True)):
            try:
                r = f(data)
            except ValueError:
                continue
            return 'peek/strict accepted %r: %r' % (data, r)
        return None
    if got is None:
        return 'rejected %r: %s' % (data, err)
    got = tuple(got)
    if got != want:
        return 'parse(%r)\n  observed %r\n  expected %r' % (data, got, want)
    if any(type(x) is not bytes for x in got[3:]):
        return 'parts are not byte strings %r' % (got,)
    if got[3] + got[4] + got[5] != data[:end]:
        return 'parts do not re-concatenate'
    p = parser.peek(data)
    if p != end:
        return 'peek(%r) observed %r expected %r' % (data, p, end)
    try:
        st = parser.parse(data, strict=True)
    except ValueError:
        st = None
    if (st is not None) != (end == len(data)):
        return 'strict parse(%r): %r, element ends at %d of %d' % (data, st, end, len(data))
    if st is not None and tuple(st) != want:
        return 'strict parse differs: %r vs %r' % (st, want)
    rec.outcome('accept cons%d %s' % (want[1], 'indef' if want[5] else 'def'))
    rec.state(want[0], want[1], want[2], len(want[3]), want[4], want[5], len(data) - end)
    return None


def gen_alpha(tier):
    n = 6 if tier == 'thorough' else 5
    for k in range(0, n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            yield bytes(t)


def gen_full(tier):
    for k in range(0, 3):
        for t in itertools.product(range(256), repeat=k):
            yield bytes(t)
    for a in range(256):
        for b in range(256):
            for c in (range(256) if tier == 'thorough' else (0, 1, 0x80)):
                yield bytes([a, b, c])


TAGS = [0, 1, 15, 30, 31, 32, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 2 ** 28, 2 ** 35 + 1]
SIZES = [0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537]


def gen_struct(tier):
    for cls in range(4):
        for cons in (0, 1):
            for tag in TAGS:
                for size in SIZES + ([16777215, 16777216] if tier == 'thorough' and tag == 31 else []):
                    for form in ['min', 1, 2, 3, 4, 5, 8, 126]:
                        yield (cls, cons, tag, size, form)


def check_struct(case, rec):
    cls, cons, tag, size, form = case
    if form == 'min':
        ln = ref.length(size)
    else:
        if size >= 256 ** form:
            return None
        ln = ref.length_padded(size, form)
    hdr = ref.ident(cls, cons, tag) + ln
    # content that looks like headers, so a mis-positioned cursor changes the result
    pat = bytes([0x30, 0x80, 0x00, 0x00, 0x01, 0x1f])
    content = (pat * (size // 6 + 1))[:size]
    for tail in (b'', b'\x00', b'\x00\x00', b'\x30\x80'):
        m = decide(hdr + content + tail, rec)
        if m:
            return m[:600]
    full = hdr + content
    for cut in set(list(range(0, len(hdr) + 2)) + [len(full) - 2, len(full) - 1]):
        if 0 <= cut < len(full):
            m = decide(full[:cut], rec)
            if m:
                return 'cut at %d: %s' % (cut, m[:600])
    return None


# every shape of nested indefinite/definite elements with at most N nodes
def shapes(n):
    """ordered forests with exactly n nodes; node kind: P primitive, D definite, I indefinite"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in shapes(n - k):
            if k == 1:
                yield (('P',),) + rest
            for sub in shapes(k - 1):
                yield (('D', sub),) + rest
                yield (('I', sub),) + rest


def enc(node):
    if node[0] == 'P':
        return b'\x04\x02\x00\x00'
    body = b''.join(enc(x) for x in node[1])
    if node[0] == 'D':
        return ref.tlv(0, 1, 16, body)
    return ref.indef(2, 3, body)


def gen_nested(tier):
    for n in range(1, 7 if tier == 'thorough' else 6):
        for f in shapes(n):
            yield f


def check_nested(forest, rec):
    data = b''.join(enc(x) for x in forest)
    for cut in range(len(data), -1, -1):
        m = decide(data[:cut], rec)
        if m:
            return m
    for i in range(len(data)):   # every single-octet corruption with the structural octets
        for b in (0x00, 0x80, 0x81, 0x30, 0x1f):
            if data[i] != b:
                m = decide(data[:i] + bytes([b]) + data[i + 1:], rec)
                if m:
                    return m
    return None


def gen_depth(tier):
    for depth in list(range(1, 16)) + [50, 200, 2000, 20000]:
        for leaf in ('none', 'prim', 'def'):
            for wrap in (0, 1, 2):
                for sib in (0, 1):
                    yield (depth, leaf, wrap, sib)


def check_depth(case, rec):
    depth, leaf, wrap, sib = case
    body = {'none': b'', 'prim': b'\x05\x00', 'def': b'\x30\x02\x05\x00'}[leaf]
    pre = b'\x05\x00' if sib else b''
    data = (b'\x30\x80' + pre) * depth + body + b'\x00\x00' * depth
    deepest = depth - 1 + (1 if (leaf != 'none' or sib) else 0)
    for _ in range(wrap):
        data = ref.seq(data)
    if wrap:
        deepest = 0
    rec.op(2)
    try:
        got = parser.parse(data, strict=True)
    except ValueError:
        got = None
    rec.outcome('depth ok' if got else 'depth refused')
    rec.state(deepest, got is not None)
    if deepest <= 10 and got is None:
        return 'nesting of %d refused' % deepest
    if deepest > 10 and got is not None:
        return 'nesting of %d accepted: no bound on recursion' % deepest
    if got is not None and got[3] + got[4] + got[5] != data:
        return 'parts do not re-concatenate'
    return None


def gen_types(tier):
    for i in range(7):
        yield i


def check_types(i, rec):
    v = [None, u'0\x03', bytearray(b'\x05\x00'), memoryview(b'\x05\x00'), 5, [b'\x05\x00'], ()][i]
    for f in (parser.parse, parser.peek):
        rec.op()
        try:
            r = f(v)
        except TypeError:
            rec.outcome('TypeError')
            continue
        return 'not a byte string but accepted: %r -> %r' % (v, r)


# headers of every width, alone and inside of elements of indefinite length
def gen_wide(tier):
    for k in range(0, 72 if tier == 'quick' else 300):
        for d in (-1, 0):
            for wrap in (0, 1, 2):
                yield ('tag', (1 << k) + d, wrap)
    for size in list(range(0, 24)) + [63, 64, 125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 511, 512, 65533, 65534, 65535, 65536, 65537, 65538]:
        for form in ('min', 1, 2, 3, 4, 7, 8, 9, 16, 125, 126):
            for wrap in (1, 2):
                yield ('length', (size, form), wrap)
    for n in list(range(1, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
        yield ('many', n, 1)


def check_wide(case, rec):
    kind, x, wrap = case
    if kind == 'tag':
        inner = [ref.ident(cls, cons, x) + b'\x03\x04\x01a' for cls in range(4) for cons in (0, 1)]
        inner += [ref.ident(cls, True, x) + b'\x80\x04\x01a\0\0' for cls in range(4)]
    elif kind == 'length':
        size, form = x
        if form != 'min' and size >= 256 ** form:
            return None
        ln = ref.length(size) if form == 'min' else ref.length_padded(size, form)
        inner = [b'\x04' + ln + (b'\x30\x80\0\0\x01\x1f' * (size // 6 + 1))[:size]]
    else:
        inner = [b'\x05\x00' * x, b'\x24\x80\x04\x01a\x00\x00' * x, b'\x04\x02\0\0' * x, (b'\x05\x00\x24\x80\x00\x00') * x]
    for raw in inner:
        if wrap:
            raw = b'\x30\x80' + raw + b'\x00\x00'
        if wrap == 2:
            raw = b'\xa1\x80\x05\x00' + raw + b'\x02\x01\x05\x00\x00'
        for tail in (b'', b'\x00', b'\x00\x00'):
            m = decide(raw + tail, rec)
            if m:
                return m[:600]
        n = len(raw)
        cuts = range(n) if n < 200 else list(range(0, 150)) + list(range(n - 20, n))
        for cut in cuts:
            m = decide(raw[:cut], rec)
            if m:
                return 'cut at %d: %s' % (cut, m[:600])


SPACES = [
    Space('alphabet', gen_alpha, decide, 'all byte strings up to length 5 (6 thorough) over 12 structural octets'),
    Space('full', gen_full, decide, 'all byte strings up to length 2 (3 thorough) over all 256 octets'),
    Space('struct', gen_struct, check_struct,
          'class x method x tag boundary x length boundary x length form, with trailing data and truncations'),
    Space('nested', gen_nested, check_nested,
          'all forests of primitive/definite/indefinite elements with at most 5 (6) nodes, all truncations, '
          'all single-octet corruptions with 5 structural octets'),
    Space('depth', gen_depth, check_depth, 'indefinite nesting depth'),
    Space('wide', gen_wide, check_wide, 'tag numbers around 2**k up to 2**71 (2**299), length fields of up to 126 octets, up to 1000 elements; alone and inside of one or two elements of indefinite '
          'length; every cut'),
    Space('types', gen_types, check_types, 'non byte-string arguments'),
]
ASSUME = ['octets outside the alphabets behave like one of their class (thorough covers all 3-octet strings)']


def run(argv):
    return main('C01', SPACES, ASSUME, argv)
