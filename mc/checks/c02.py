"""C02 - header emission is minimal DER, and parse(emit(x)) == x."""
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import parser, core  # noqa

TAGS = list(range(0, 300)) + [511, 512, 16382, 16383, 16384, 16385, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28,
                              2 ** 32, 2 ** 35, 2 ** 63, 2 ** 64 + 1]
SIZES = list(range(0, 300)) + [383, 384, 511, 512, 32767, 32768, 65535, 65536, 65537]
BIG = [2 ** 20, 2 ** 24 - 1, 2 ** 24]


def gen_emit(tier):
    for cls in range(4):
        for m in (0, 1):
            for tag in TAGS:
                for size in (0, 1, 127, 128, 256):
                    yield (cls, m, tag, size)
            for tag in (0, 30, 31, 128):
                for size in SIZES + (BIG if tier == 'thorough' else BIG[1:] if tag == 31 else []):
                    yield (cls, m, tag, size)


def check_emit(case, rec):
    cls, m, tag, size = case
    content = (b'\x00\x80\xff' * (size // 3 + 1))[:size]
    rec.op(3)
    got = parser.emit(cls, m, tag, content)
    want = ref.tlv(cls, m, tag, content)
    if got != want:
        return 'emit: observed header %r expected %r' % (got[:len(got) - size], want[:len(want) - size])
    back = tuple(parser.parse(got, strict=True))
    if back != (cls, m, tag, want[:len(want) - size], content, b''):
        return 'parse(emit(..)) = %r' % (back[:4],)
    if parser.peek(got + b'\x00') != len(want):
        return 'peek'
    rec.state(cls, m, tag, size)
    rec.outcome('hdr%d' % (len(want) - size))


# values of the typed API carry the same header
def gen_value(tier):
    for size in SIZES + [70000]:
        for kind in ('octet', 'utf8', 'seq', 'seqof', 'set', 'int', 'bits', 'expl', 'impl', 'expl2', 'priv'):
            yield (kind, size)


class SeqOne(core.Sequence):
    _fields = [('v', core.OctetString)]


class SetOne(core.Set):
    _fields = [('v', core.OctetString)]


class SeqOfOct(core.SequenceOf):
    _child_spec = core.OctetString


def check_value(case, rec):
    kind, size = case
    b = b'\x41' * size
    o = ref.octets(b)
    rec.op(2)
    if kind == 'octet':
        obj, want = core.OctetString(b), o
    elif kind == 'utf8':
        obj, want = core.UTF8String(u'A' * size), ref.u(12, b)
    elif kind == 'seq':
        obj, want = SeqOne({'v': b}), ref.seq(o)
    elif kind == 'seqof':
        obj, want = SeqOfOct([b]), ref.seq(o)
    elif kind == 'set':
        obj, want = SetOne({'v': b}), ref.set_(o)
    elif kind == 'int':
        n = 1 << (8 * size)
        obj, want = core.Integer(n), ref.integer(n)
    elif kind == 'bits':
        obj, want = core.OctetBitString(b), ref.u(3, b'\x00' + b)
    elif kind == 'expl':
        obj, want = core.OctetString(b, explicit=3), ref.expl(3, o)
    elif kind == 'expl2':
        obj = core.OctetString(b, explicit=((2, 5), (1, 40)))
        want = ref.expl(40, ref.expl(5, o), 1)
    elif kind == 'impl':
        obj, want = core.OctetString(b, implicit=200), ref.tlv(2, 0, 200, b)
    else:
        obj, want = core.OctetString(b, implicit=('private', 31)), ref.tlv(3, 0, 31, b)
    got = obj.dump()
    rec.state(kind, size)
    rec.outcome(kind)
    if got != want:
        return 'dump of %s size %d: header %r expected %r' % (kind, size, got[:16], want[:16])
    if obj.dump() != want or obj.dump(force=True) != want:
        return 'second dump differs'


BADV = [-1, 2, 4, 5, 256, None, u'0', 1.0, b'\x00', (0,)]


def gen_bad(tier):
    for pos in range(4):
        for i, v in enumerate(BADV):
            yield (pos, i)


def check_bad(case, rec):
    pos, i = case
    v = BADV[i]
    args = [2, 1, 5, b'ab']
    args[pos] = v
    legal = False
    if type(v) is int:
        legal = (pos == 0 and 0 <= v <= 3) or (pos == 1 and v in (0, 1)) or (pos == 2 and v >= 0)
    if pos == 3 and type(v) is bytes:
        legal = True
    rec.op()
    kind, r = attempt(parser.emit, *args)
    rec.outcome('%s %s' % (kind, type(r).__name__))
    if legal:
        if kind != 'ok' or r != ref.tlv(*args):
            return 'legal arguments %r: %r' % (args, r)
        return
    want = ValueError if type(v) is int and pos != 3 else TypeError
    if kind == 'ok' or not isinstance(r, want):
        return 'illegal arguments %r: %r' % (args, r)


SPACES = [
    Space('emit', gen_emit, check_emit, 'emit over class x method x tag boundary x length boundary'),
    Space('value', gen_value, check_value, 'dump() of every kind of value at every length boundary'),
    Space('bad', gen_bad, check_bad, 'out of range and wrongly typed arguments'),
]


def run(argv):
    return main('C02', SPACES, ['tag numbers and lengths between the enumerated boundaries behave like their neighbours'], argv)
