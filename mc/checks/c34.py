"""C34 - equality of primitive values: same type and same value, whatever the framing, tagging and lazy state; membership agrees."""
import copy
import itertools
from .. import ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import core  # noqa


class Version(core.Integer):
    _map = {0: 'v1', 5: 'v5'}


class Color(core.Enumerated):
    _map = {0: 'red', 5: 'green'}


class Usage(core.BitString):
    _map = {0: 'a', 2: 'c'}


class Kind(core.ObjectIdentifier):
    _map = {'1.2.3': 'three'}


class MyOctets(core.OctetString):
    pass


class MyText(core.UTF8String):
    pass


class MyMyText(MyText):
    pass


class TagInt(core.Integer):
    explicit = (1, 3)


BITS = [b'\x00', b'\x05\xa0', b'\x00\xa0', b'\x00ab']
OCTETS = [b'', b'\x05', b'ab', b'\x00\x05', b'\x04\x01a']
TEXT = [b'', b'ab', b'12']
UTC, GEN = b'200229120000Z', b'20200229120000Z'
# name: (class, universal tag, contents)
TYPES = {
    'Boolean': (core.Boolean, 1, [b'\x00', b'\xff']), 'Integer': (core.Integer, 2, [b'\x00', b'\x05', b'\xff', b'\x00\x80', b'ab']),
    'Version': (Version, 2, [b'\x00', b'\x05', b'\x07']), 'TagInt': (TagInt, 2, [b'\x05', b'ab']),
    'BitString': (core.BitString, 3, BITS), 'Usage': (Usage, 3, [b'\x00', b'\x05\xa0']), 'OctetBitString': (core.OctetBitString, 3, [b'\x00', b'\x00\xa0', b'\x00ab']),
    'IntegerBitString': (core.IntegerBitString, 3, [b'\x05\xa0', b'\x00\xa0', b'\x00ab']), 'ParsableOctetBitString': (core.ParsableOctetBitString, 3, [b'\x00\x02\x01\x05', b'\x00ab']),
    'OctetString': (core.OctetString, 4, OCTETS), 'MyOctets': (MyOctets, 4, OCTETS), 'IntegerOctetString': (core.IntegerOctetString, 4, [b'\x05', b'ab', b'\x00\x05']),
    'ParsableOctetString': (core.ParsableOctetString, 4, [b'\x04\x01a', b'ab', b'\x02\x01\x05']),
    'Null': (core.Null, 5, [b'']), 'ObjectIdentifier': (core.ObjectIdentifier, 6, [b'\x2a\x03', b'\x2a\x04']), 'Kind': (Kind, 6, [b'\x2a\x03', b'\x2a\x05']),
    'RelativeOid': (core.RelativeOid, 13, [b'\x2a\x03', b'\x03']), 'Enumerated': (Color, 10, [b'\x00', b'\x05']),
    'UTF8String': (core.UTF8String, 12, TEXT + ['é'.encode('utf-8')]), 'MyText': (MyText, 12, TEXT), 'MyMyText': (MyMyText, 12, TEXT),
    'NumericString': (core.NumericString, 18, [b'', b'12']), 'PrintableString': (core.PrintableString, 19, TEXT), 'TeletexString': (core.TeletexString, 20, TEXT),
    'VideotexString': (core.VideotexString, 21, TEXT), 'IA5String': (core.IA5String, 22, TEXT), 'UTCTime': (core.UTCTime, 23, [UTC, b'2002291200Z']),
    'GeneralizedTime': (core.GeneralizedTime, 24, [GEN, b'202002291200Z']), 'GraphicString': (core.GraphicString, 25, TEXT), 'VisibleString': (core.VisibleString, 26, TEXT),
    'GeneralString': (core.GeneralString, 27, TEXT), 'UniversalString': (core.UniversalString, 28, [b'', b'\x00\x00\x00a']), 'BMPString': (core.BMPString, 30, [b'', b'\x00a', b'ab']),
    'ObjectDescriptor': (core.ObjectDescriptor, 7, TEXT), 'Real': (core.Real, 9, [b'', b'\x80\x00\x01']),
}
CHUNKED = {3, 4, 12, 18, 19, 20, 22, 25, 26, 27, 28, 30}
OWN = {'TagInt': ('e', 1, 3)}
FORMS = ['der', 'pad', 'one', 'two', 'nested', 'none']
TAGGING = [None, ('i', 2, 0), ('i', 1, 40), ('e', 2, 0), ('e', 3, 40)]
STATES = ['', 'native', 'dump', 'copy', 'deepcopy', 'native-copy', 'native-set', 'repr', 'force']
UNFIT = {'TagInt'}


def chunks(tag, content, form):
    def cut(b, h):
        if tag == 3:
            return [b'\x00' + b[1:1 + h]] * (h > 0) + [b[:1] + b[1 + h:]]
        return [b[:h], b[h:]]
    if form == 'one':
        return ref.u(tag, content)
    if form == 'none':
        return b''
    h = (len(content) - (tag == 3)) // 2
    parts = [ref.u(tag, c) for c in cut(content, h)]
    if form == 'nested':
        parts = [ref.indef(0, tag, parts[0])] + parts[1:]
    return b''.join(parts)


def encode(tag, content, form, tagging):
    cls, num = 0, tag
    if tagging and tagging[0] == 'i':
        cls, num = tagging[1:]
    if form == 'der':
        out = ref.ident(cls, 0, num) + ref.length(len(content)) + content
    elif form == 'pad':
        out = ref.ident(cls, 0, num) + ref.length_padded(len(content), 2) + content
    else:
        out = ref.indef(cls, num, chunks(tag, content, form))
    if tagging and tagging[0] == 'e':
        out = ref.expl(tagging[2], out, tagging[1])
    return out


def pool(tier):
    """what there is to compare: (type, index of the contents, form, tagging, state)"""
    out = []
    for name in TYPES:
        cls, tag, contents = TYPES[name]
        for i, c in enumerate(contents):
            for form in FORMS:
                if form not in ('der', 'pad') and tag not in CHUNKED or form == 'none' and c or form in ('two', 'nested') and len(c) - (tag == 3) < 2:
                    continue
                for tagging in ([None] if name in UNFIT else TAGGING):
                    for state in STATES:
                        odd = (form != 'der') + (tagging is not None) + (state != '')
                        if odd <= (2 if tier == 'thorough' else 1) or odd == 2 and form in ('two', 'one') and tagging in (None, ('i', 2, 0)):
                            out.append((name, i, form, tagging, state))
    return out


def make(item):
    name, i, form, tagging, state = item
    cls, tag, contents = TYPES[name]
    params = {}
    if tagging:
        params['implicit' if tagging[0] == 'i' else 'explicit'] = tagging[1:]
    o = cls.load(encode(tag, contents[i], form, OWN.get(name, tagging)), strict=True, **params)
    for s in state.split('-'):
        if s == 'native':
            o.native
        elif s == 'dump':
            o.dump()
        elif s == 'force':
            o.dump(force=True)
        elif s == 'copy':
            o = o.copy()
        elif s == 'deepcopy':
            o = copy.deepcopy(o)
        elif s == 'repr':
            repr(o), str(o) if hasattr(o, '__unicode__') else None
        elif s == 'set':
            o.set(o.native)
    return o


def expected(a, b):
    x, y = TYPES[a[0]], TYPES[b[0]]
    return x[1] == y[1] and value(a) == value(b)


def value(item):
    name, i, form, tagging, state = item
    c = TYPES[name][2][i]
    # encoding the text of a time anew makes it canonical
    if 'set' in state or 'force' in state:
        c = {b'2002291200Z': UTC, b'202002291200Z': GEN}.get(c, c)
        if name in ('IntegerOctetString', 'IntegerBitString', 'Usage'):
            c = None
    return c


POOLS = {}


def gen(tier):
    POOLS[tier] = pool(tier)
    for i in range(len(POOLS[tier])):
        yield (tier, i)


def check(case, rec):
    tier, i = case
    if tier not in POOLS:
        POOLS[tier] = pool(tier)
    p = POOLS[tier]
    a = p[i]
    va = value(a)
    if va is None:
        va = make(a).contents
    same = make(a)
    if not (same == same) or same != same:
        raise Violation('%r is not equal to itself' % (a,))
    for b in p[i:]:
        vb = value(b)
        if vb is None:
            vb = make(b).contents
        want = TYPES[a[0]][1] == TYPES[b[0]][1] and va == vb
        x, y = make(a), make(b)
        got = (x == y, y == x, x != y, y != x)
        rec.op(4)
        if got != (want, want, not want, not want):
            raise Violation('%r and %r: ==, ==, !=, != are %r, expected equal: %r' % (a, b, got, want))
        if want and a is not b and (x.dump(), y.dump()) != (make(a).dump(), make(b).dump()):
            raise Violation('comparing %r and %r changed one' % (a, b))
    rec.state((TYPES[a[0]][1], va))
    return None


OTHERS = [None, 1, u'ab', b'ab', (), object(), core.Sequence, core.VOID]


def gen_others(tier):
    for i in range(len(pool('quick'))):
        yield i


def check_others(case, rec):
    """values of other kinds are never equal, and never an error"""
    a = pool('quick')[case]
    for other in OTHERS + [core.SequenceOf([], spec=core.Integer), core.Any(core.Integer(5))]:
        o = make(a)
        rec.op(2)
        if o == other or not (o != other) or other == o:
            raise Violation('%r is equal to %r' % (a, other))


# ---------------------------------------------------------------- membership
class Ints(core.SequenceOf):
    _child_spec = core.Integer


class IntSet(core.SetOf):
    _child_spec = core.Integer


class Octs(core.SequenceOf):
    _child_spec = core.OctetString


class OctSet(core.SetOf):
    _child_spec = core.OctetString


class Texts(core.SequenceOf):
    _child_spec = core.UTF8String


LISTS = {'Ints': (Ints, 16, 'Integer', ['Integer', 'Version', 'TagInt']), 'IntSet': (IntSet, 17, 'Integer', ['Integer', 'Version']),
         'Octs': (Octs, 16, 'OctetString', ['OctetString', 'MyOctets']), 'OctSet': (OctSet, 17, 'OctetString', ['OctetString', 'MyOctets']),
         'Texts': (Texts, 16, 'UTF8String', ['UTF8String', 'MyText', 'MyMyText'])}


def gen_in(tier):
    for name in LISTS:
        cls, tag, elem, _ = LISTS[name]
        n = len(TYPES[elem][2])
        for k in range(0, 4 if tier == 'thorough' else 3):
            for items in itertools.product(range(n), repeat=k):
                for how in ('der', 'pad', 'two', 'built', 'appended', 'mixed'):
                    yield (name, items, how)


def check_in(case, rec):
    name, items, how = case
    cls, tag, elem, kinds = LISTS[name]
    ecls, etag, contents = TYPES[elem]

    def lst():
        objs = [ecls.load(encode(etag, contents[i], 'der', None)) for i in items]
        if how == 'built':
            return cls(objs)
        if how == 'appended':
            o = cls([])
            for x in objs:
                o.append(x.native)
            return o
        forms = ['der', 'two', 'pad'] if how == 'mixed' else [how]
        parts = []
        for j, i in enumerate(items):
            f = forms[j % len(forms)]
            if f == 'two' and (etag not in CHUNKED or len(contents[i]) < 2):
                f = 'one' if etag in CHUNKED else 'pad'
            parts.append(encode(etag, contents[i], f, None))
        o = cls.load(ref.tlv(0, 1, tag, b''.join(parts)))
        if how == 'mixed':
            o.native
        return o
    have = set(contents[i] for i in items)
    for kind in kinds:
        for i, c in enumerate(TYPES[kind][2]):
            for form in ('der', 'pad', 'one'):
                if form == 'one' and etag not in CHUNKED:
                    continue
                o = lst()
                before = o.dump()
                got = make((kind, i, form, None, '')) in o
                rec.op(2)
                rec.state((name, tuple(sorted(have)), c))
                if got is not (c in have):
                    raise Violation('%s %s in a %s of %r (%s): %r' % (kind, c, name, sorted(have), how, got))
                if o.dump() != before:
                    raise Violation('asking for membership changed %s' % before.hex())
    o = lst()
    for wrong in (core.Null(), core.Boolean(True), 5, u'ab', b'ab'):
        try:
            r = wrong in o
        except TypeError:
            continue
        if r:
            raise Violation('%r is in %r' % (wrong, case))
    return None


SPACES = [
    Space('pairs', gen, check, 'all pairs of values of 34 types x contents x framings (definite, padded, chunked) x tagging x lazy state: equal exactly if type and value are'),
    Space('others', gen_others, check_others, 'every value compared with values of other kinds'),
    Space('membership', gen_in, check_in, 'all lists of up to 2 (3) elements x how they were made x every value in every framing'),
]


def run(argv):
    return main('C34', SPACES, ['the value is the octets of the contents (chunks put together): values in a non-canonical BER form differ from the canonical ones',
                                'records, lists and choices are compared by identity and not claimed, Internet names and names are compared by other properties'], argv)
