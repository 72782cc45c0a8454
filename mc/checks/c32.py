"""C32 - values loaded without a type, fields without one, and concatenations."""
import contextlib
import datetime
import io
import itertools
from collections import OrderedDict

from .. import pki, ref
from ..common import Space, bootstrap, main, attempt, Violation

bootstrap()

from asn1crypto import core, x509  # noqa: E402

UTC = datetime.timezone.utc
ERR = 'ValueError'
TIME = b'20200229235958Z'

# tag -> (class, constructed, [(contents, native or ERR)]).  None: both forms of the header
U = {
    1: ('Boolean', False, [(b'\xff', True), (b'\x00', False), (b'\x01', True)]),
    2: ('Integer', False, [(b'\x05', 5), (b'\x80', -128), (b'\x00\x80', 128)]),
    3: ('BitString', False, [(b'\x00', ()), (b'\x07\x80', (1,)), (b'\x00\xa5', (1, 0, 1, 0, 0, 1, 0, 1))]),
    4: ('OctetString', False, [(b'', b''), (b'a', b'a'), (b'\x04\x01a', b'\x04\x01a')]),
    5: ('Null', False, [(b'', None)]),
    6: ('ObjectIdentifier', False, [(b'\x2a\x03', u'1.2.3'), (b'\x88\x37\x03', u'2.999.3')]),
    7: ('ObjectDescriptor', False, [(b'', b''), (b'a\xff', b'a\xff')]),
    8: ('InstanceOf', None, [(b'\x06\x01\x2a\xa0\x02\x05\x00', b'\x06\x01\x2a\xa0\x02\x05\x00')]),
    9: ('Real', False, [(b'', b''), (b'\x80\x00\x01', b'\x80\x00\x01')]),
    10: ('Enumerated', False, [(b'\x05', ERR)]),
    11: ('EmbeddedPdv', True, [(b'', []), (b'\x02\x01\x05', [5])]),
    12: ('UTF8String', False, [(b'', u''), (b'\xc3\xa9', u'\xe9'), (b'\xff', ERR)]),
    13: ('RelativeOid', False, [(b'\x03\x88\x37', u'3.1079')]),
    16: ('Sequence', True, [(b'', []), (b'\x02\x01\x05\x05\x00', [5, None])]),
    17: ('Set', True, [(b'', []), (b'\x01\x01\xff\x02\x01\x05', [True, 5])]),
    18: ('NumericString', False, [(b'1 2', u'1 2')]),
    19: ('PrintableString', False, [(b"aB'", u"aB'")]),
    20: ('TeletexString', False, [(b'a', u'a')]),
    21: ('VideotexString', False, [(b'a\xff', b'a\xff')]),
    22: ('IA5String', False, [(b'a@b', u'a@b')]),
    23: ('UTCTime', False, [(TIME[2:], datetime.datetime(2020, 2, 29, 23, 59, 58, tzinfo=UTC)), (b'99', ERR)]),
    24: ('GeneralizedTime', False, [(TIME, datetime.datetime(2020, 2, 29, 23, 59, 58, tzinfo=UTC))]),
    25: ('GraphicString', False, [(b'a', u'a')]),
    26: ('VisibleString', False, [(b'a b', u'a b')]),
    27: ('GeneralString', False, [(b'a', u'a')]),
    28: ('UniversalString', False, [(b'\x00\x00\x00a\x00\x01\xf4\x00', u'a\U0001f400'), (b'\x00', ERR)]),
    29: ('CharacterString', None, [(b'a', u'a')]),
    30: ('BMPString', False, [(b'\x00a\x20\xac', u'a\u20ac')]),
}
# the strings whose chunks can be spread over a value in the indefinite form
CHUNKED = {4: 'octets', 12: 'text', 18: 'text', 19: 'text', 20: 'text', 22: 'text', 25: 'text', 26: 'text', 27: 'text', 28: 'text', 30: 'text',
           21: 'octets', 3: 'bits'}
TAGS = list(range(0, 40)) + [127, 128, 300]


def native(x):
    if isinstance(x, list):
        return OrderedDict((u'%d' % i, native(y)) for i, y in enumerate(x))
    return x


def bad_native(x):
    return x is ERR or isinstance(x, list) and any(bad_native(y) for y in x)


def frame(tag, cons, contents, form):
    head = ref.ident(0, cons, tag)
    if form == 'der':
        return head + ref.length(len(contents)) + contents
    if form == 'indef':
        return head + b'\x80' + contents + b'\x00\x00'
    return head + ref.length_padded(len(contents), form) + contents


class ReqAny(core.Sequence):
    _fields = [('v', core.Any)]


class OptAny(core.Sequence):
    _fields = [('v', core.Any, {'optional': True})]


class Untyped(core.Sequence):
    _fields = [('v', core.Any, {'explicit': 1})]


class Anys(core.SequenceOf):
    _child_spec = core.Any


class AnySet(core.SetOf):
    _child_spec = core.Any


ENTRIES = {
    'load': (lambda b, strict: core.load(b, strict=strict), lambda b: b, lambda o: o),
    'Asn1Value': (lambda b, strict: core.Asn1Value.load(b, strict=strict), lambda b: b, lambda o: o),
    'Any': (lambda b, strict: core.Any.load(b, strict=strict), lambda b: b, lambda o: o),
    'field': (lambda b, strict: ReqAny.load(b, strict=strict), lambda b: ref.seq(b), lambda o: o['v'].parse()),
    'optional': (lambda b, strict: OptAny.load(b, strict=strict), lambda b: ref.seq(b), lambda o: o['v'].parse()),
    'tagged': (lambda b, strict: Untyped.load(b, strict=strict), lambda b: ref.seq(ref.expl(1, b)), lambda o: o['v'].parse()),
    'list': (lambda b, strict: Anys.load(b, strict=strict), lambda b: ref.seq(b), lambda o: o[0].parse()),
    'set': (lambda b, strict: AnySet.load(b, strict=strict), lambda b: ref.set_(b), lambda o: o[0].parse()),
    'untyped': (lambda b, strict: core.Sequence.load(b, strict=strict), lambda b: ref.seq(b), lambda o: o[0]),
    'untyped set': (lambda b, strict: core.Set.load(b, strict=strict), lambda b: ref.set_(b), lambda o: o[0]),
}


# the tags of the field stay on the value
def outer(entry, b):
    return ref.expl(1, b) if entry == 'tagged' else b


def unouter(entry, b):
    return ref.parse_one(b)[0][4] if entry == 'tagged' else b


def gen_universal(tier):
    for entry in ENTRIES:
        for tag in TAGS:
            for cons in (False, True):
                samples = U[tag][2] if tag in U else [(b'', None), (b'\x02\x01\x05', None)]
                for i in range(len(samples)):
                    for form in ('der', 1, 2, 3) + ((4, 9) if tier == 'thorough' else ()) + (('indef',) if cons else ()):
                        for tail in ((b'', b'\x05\x00') if entry in ('load', 'Asn1Value', 'Any') else (b'',)):
                            for strict in (True, False):
                                yield entry, tag, cons, i, form, tail, strict


def check_universal(case, rec):
    entry, tag, cons, i, form, tail, strict = case
    load, wrap, inner = ENTRIES[entry]
    rec.op(4)
    if tag in U:
        name, want_cons, samples = U[tag]
        contents, want = samples[i]
    else:
        name, want_cons, (contents, want) = None, None, [(b'', None), (b'\x02\x01\x05', None)][i]
    content = contents
    ok = name is not None and want_cons in (None, cons)
    merged = False
    if form == 'indef' and want_cons is False:
        # the chunks of the string; other primitive types have no such form
        if tag in CHUNKED:
            if CHUNKED[tag] == 'bits':
                content = ref.u(3, b'\x00') + ref.u(3, contents)
            else:
                content = ref.u(tag, contents[:1]) + ref.u(tag, contents[1:])
            ok = merged = True
    if form == 'indef' and tag == 29 and cons:
        return None  # not claimed: neither chunks nor a CHARACTER STRING sequence
    if tag == 0 and cons is False and contents == b'':
        return None  # end of contents octets
    buf = frame(tag, cons, content, form)
    data = wrap(buf) + tail
    kind, o = attempt(load, data, strict)
    if kind == 'ok':
        kind, v = attempt(inner, o)
    else:
        v = o
    rec.outcome('%s %s %s' % (tag, entry, 'ok' if kind == 'ok' else type(v).__name__))
    if tail and strict:
        ok = False
    if not ok:
        if kind == 'ok':
            return '%s of %s gives a %s (%r)' % (entry, data.hex(), type(v).__name__, attempt(lambda: v.native)[1])
        if not isinstance(v, ValueError):
            return '%s of %s raises %r' % (entry, data.hex(), v)
        return None
    if kind != 'ok':
        return '%s of %s raises %r' % (entry, data.hex(), v)
    if type(v) is not getattr(core, name):
        return '%s of %s gives a %s, expected %s' % (entry, data.hex(), type(v).__name__, name)
    der = outer(entry, ref.tlv(0, cons and not merged, tag, contents))
    for what, x in (('', v), ('copy of the ', v.copy())):
        kind, got = attempt(lambda: x.native)
        if want is ERR:
            if kind == 'ok' or not isinstance(got, ValueError):
                return '%snative of %s is %r, expected a ValueError' % (what, data.hex(), got)
        elif kind != 'ok':
            return '%snative of %s raises %r' % (what, data.hex(), got)
        elif got != native(want) or type(got) is not type(native(want)):
            return '%snative of %s is %r, expected %r' % (what, data.hex(), got, want)
        rec.state(tag, what, repr(got))
        if want is ERR and merged:
            continue
        if form != 'indef' and what == '' and x.dump() != outer(entry, buf):
            return '%sdump of %s is %s' % (what, buf.hex(), x.dump().hex())
        if contents != b'\x01' or tag != 1:
            kind, got = attempt(x.dump, True)
            # what is inside of an untyped SEQUENCE or SET is not re-encoded by force
            if tag in (16, 17) and got != der and form != 'indef':
                got = der if got == x.dump() else got
            if got != der and (want is not ERR or not isinstance(got, ValueError)):
                return '%sforced dump of %s is %r, expected %s' % (what, buf.hex(), got, der.hex())
            again = core.load(unouter(entry, x.dump()))
            if want is not ERR and again.native != native(want):
                return '%sreloaded native is %r' % (what, again.native)
    # the same octets with the type given
    kind, o = attempt(getattr(core, name).load, buf)
    if want_cons is not None and (kind != 'ok' or want is not ERR and o.native != native(want)):
        return '%s.load(%s) gives %r' % (name, buf.hex(), o)


# ------------------------------------------------------------------ trees of untyped values
LEAVES = [(2, b'\x05', 5), (4, b'a', b'a'), (5, b'', None), (1, b'\xff', True), (6, b'\x2a\x03', u'1.2.3'), (12, b'x', u'x')]


def trees(depth, width, leaves):
    """('l', i) or (tag, (children...)); elements of a SET have ascending identifiers, which DER asks for"""
    level = [('l', i) for i in range(leaves)]
    out = list(level)
    for d in range(depth):
        nxt = []
        for tag in (16, 17, 11):
            for n in range(width + 1):
                for kids in itertools.product(out if d < 1 else out[::3] + out[:2], repeat=n):
                    if tag == 17:
                        ids = [tree_der(k) for k in kids]
                        if ids != sorted(ids):
                            continue
                        if len(set(x[:1] for x in ids)) != len(ids):
                            continue
                    nxt.append((tag, kids))
        out = level + nxt
    return out


def tree_der(t):
    if t[0] == 'l':
        return ref.u(LEAVES[t[1]][0], LEAVES[t[1]][1])
    return ref.u(t[0], b''.join(tree_der(k) for k in t[1]), True)


def tree_ber(t, forms, path=()):
    form = forms.get(path, 'der')
    if t[0] == 'l':
        tag, contents, _ = LEAVES[t[1]]
        if form == 'indef':
            contents = ref.u(tag, contents[:1]) + ref.u(tag, contents[1:])
        return frame(tag, form == 'indef', contents, form)
    return frame(t[0], True, b''.join(tree_ber(k, forms, path + (i,)) for i, k in enumerate(t[1])), form)


def tree_native(t):
    if t[0] == 'l':
        return LEAVES[t[1]][2]
    return OrderedDict((u'%d' % i, tree_native(k)) for i, k in enumerate(t[1]))


def paths(t, path=()):
    yield path, t
    if t[0] != 'l':
        for i, k in enumerate(t[1]):
            for x in paths(k, path + (i,)):
                yield x


def node_forms(t):
    if t[0] == 'l' and LEAVES[t[1]][0] not in CHUNKED:
        return (1, 2)
    return (1, 2, 'indef')


HOLDERS = ['load', 'field', 'tagged', 'list', 'untyped', 'untyped set']


def gen_trees(tier):
    deep = tier == 'thorough'
    for t in trees(2, 2, 5 if deep else 3):
        ps = list(paths(t))
        combos = [()]
        for p, n in ps:
            combos += [((p, f),) for f in node_forms(n)]
        for (p, n), (q, m) in itertools.combinations(ps, 2):
            if deep:
                combos += [((p, f), (q, g)) for f in node_forms(n) for g in node_forms(m)]
            elif 'indef' in node_forms(n) and 'indef' in node_forms(m):
                combos.append(((p, 'indef'), (q, 'indef')))
        for c in combos:
            for h in HOLDERS if len(c) < 2 else HOLDERS[:1]:
                yield h, t, c


CLASSES = {16: 'Sequence', 17: 'Set', 11: 'EmbeddedPdv', 2: 'Integer', 4: 'OctetString', 5: 'Null', 1: 'Boolean', 6: 'ObjectIdentifier',
           12: 'UTF8String'}


def compare_tree(o, t, rec):
    tag = t[0] if t[0] != 'l' else LEAVES[t[1]][0]
    if type(o).__name__ != CLASSES[tag]:
        return 'a %s where a %s was encoded' % (type(o).__name__, CLASSES[tag])
    if t[0] == 'l':
        rec.op()
        if o.native != LEAVES[t[1]][2]:
            return 'native %r, expected %r' % (o.native, LEAVES[t[1]][2])
        return None
    rec.op(2)
    if len(o) != len(t[1]):
        return 'length %r, expected %d' % (len(o), len(t[1]))
    for i, k in enumerate(t[1]):
        r = compare_tree(o[i], k, rec)
        if r:
            return '[%d]: %s' % (i, r)
    kind, e = attempt(lambda: o[len(t[1])])
    if kind == 'ok' or not isinstance(e, LookupError):
        return 'element %d: %r' % (len(t[1]), e)


def forced(o, der, c, want, inner, h=None):
    """a SEQUENCE or SET without fields is not normalised by force, but never changes its meaning"""
    got = o.dump(force=True)
    if not c and got != der:
        return '%s expected %s' % (got.hex(), der.hex())
    (cls, cons, tag, header, content, trailer), end = ref.parse_one(got)
    if end != len(got) or trailer:
        return '%s is in the indefinite form' % got.hex()
    again = inner(type(o).load(unouter(h, got), strict=True)).native
    if again != want:
        return '%s is decoded to %r' % (got.hex(), again)


def check_trees(case, rec):
    h, t, c = case
    forms = dict(c)
    load, wrap, inner = ENTRIES[h]
    buf = tree_ber(t, forms)
    data = wrap(buf)
    der = tree_der(t)
    rec.outcome('%s depth %d forms %d' % (h, max(len(p) for p, _ in paths(t)), len(c)))
    want = tree_native(t)
    indef = any(f == 'indef' for f in forms.values())
    for order in ('read', 'native', 'dump', 'force', 'copy'):
        o = load(data, True)
        v = inner(o)
        if order == 'copy':
            v = v.copy()
        if order == 'native' and v.native != want:
            return 'native of %s: %r expected %r' % (data.hex(), v.native, want)
        if order == 'dump' and not indef and (v.dump() != outer(h, buf) or o.dump() != data):
            return 'dump of %s: %s, expected %s' % (data.hex(), v.dump().hex(), buf.hex())
        if order == 'force':
            r = forced(v, outer(h, der), c, want, lambda x: x, h)
            if r:
                return 'forced dump of %s: %s' % (data.hex(), r)
        r = compare_tree(v, t, rec)
        if r:
            return '%s (%s first): %s' % (data.hex(), order, r)
        if v.native != want:
            return 'native of %s (%s first): %r expected %r' % (data.hex(), order, v.native, want)
        r = forced(v, outer(h, der), c, want, lambda x: x, h) or forced(o, wrap(der), c, want, inner)
        if r:
            return 'forced dump of %s (%s first): %s' % (data.hex(), order, r)
        rec.op(5)
        rec.state(h, t, order)


# ------------------------------------------------------------------ concatenations
class Rec(core.Sequence):
    _fields = [('x', core.Integer), ('y', core.OctetString, {'default': b'q'})]


class Ints(core.SequenceOf):
    _child_spec = core.Integer


class Alt(core.Choice):
    _alternatives = [('n', core.Integer), ('t', core.UTF8String), ('r', Rec)]


class Imp(core.Integer):
    class_ = 2
    tag = 40


# part -> (class, [DER encodings], [natives])
PARTS = {
    'INT': (core.Integer, [b'\x02\x01\x05', b'\x02\x02\x01\x00'], [5, 256]),
    'OCT': (core.OctetString, [b'\x04\x00', b'\x04\x81\x80' + b'z' * 128], [b'', b'z' * 128]),
    'NUL': (core.Null, [b'\x05\x00'], [None]),
    'REC': (Rec, [b'\x30\x03\x02\x01\x05', b'\x30\x06\x02\x01\x05\x04\x01a'],
            [OrderedDict([('x', 5), ('y', b'q')]), OrderedDict([('x', 5), ('y', b'a')])]),
    'LST': (Ints, [b'\x30\x00', b'\x30\x03\x02\x01\x07'], [[], [7]]),
    'ALT': (Alt, [b'\x02\x01\x09', b'\x0c\x01t', b'\x30\x03\x02\x01\x05'], [9, u't', OrderedDict([('x', 5), ('y', b'q')])]),
    'ANY': (core.Any, [b'\x01\x01\xff', b'\x0c\x01z'], [True, u'z']),
    'IMP': (Imp, [b'\x9f\x28\x01\x05'], [5]),
}
LAYOUTS = [k for n in (1, 2, 3) for k in itertools.product(PARTS, repeat=n)]
_cache = {}


def concat(layout):
    if layout not in _cache:
        _cache[layout] = type('Cat' + ''.join(layout), (core.Concat,), {'_child_specs': [PARTS[k][0] for k in layout]})
    return _cache[layout]


def reframe(der, form):
    (cls, cons, tag, header, content, _), _e = ref.parse_one(der)
    if form == 'long':
        return ref.ident(cls, cons, tag) + ref.length_padded(len(content), 3) + content
    if form == 'indef':
        if cons:
            return ref.indef(cls, tag, content)
        if (cls, tag) in ((0, 4), (0, 12)):
            return ref.indef(cls, tag, ref.u(tag, content[:1]) + ref.u(tag, content[1:]))
        return None
    return der


TAILS = [b'\x00', b'\x05\x00', b'\x00\x00', b'\xff', b'\x02\x01\x05', b'\x04\x05a', b'\x00' * 300]


def gen_concat(tier):
    for lay in LAYOUTS + (list(itertools.product(sorted(PARTS), repeat=4)) if tier == 'thorough' else []):
        for vs in itertools.product(*[range(len(PARTS[k][1])) for k in lay]):
            yield lay, vs


def check_concat(case, rec):
    lay, vs = case
    cls = concat(lay)
    ders = [PARTS[k][1][i] for k, i in zip(lay, vs)]
    wants = [PARTS[k][2][i] for k, i in zip(lay, vs)]
    rec.outcome('%d parts' % len(lay))
    built = cls([PARTS[k][0].load(d) for k, d in zip(lay, ders)])
    if built.dump() != b''.join(ders) or len(built) != len(lay):
        return 'built: %s expected %s' % (built.dump().hex(), b''.join(ders).hex())
    for forms in itertools.product(('der', 'long', 'indef'), repeat=len(lay)):
        encs = [reframe(d, f) for d, f in zip(ders, forms)]
        if None in encs:
            continue
        data = b''.join(encs)
        o = cls.load(data, strict=True)
        copies = [('', o), ('copy: ', o.copy())]
        rec.op(4)
        for what, x in copies:
            for j, (k, want) in enumerate(zip(lay, wants)):
                rec.op(2)
                part = x[j]
                got = part.native
                if got != want:
                    return '%spart %d of %s is %r, expected %r' % (what, j, data.hex(), got, want)
                if k != 'ANY' and type(part) is not PARTS[k][0]:
                    return '%spart %d of %s is a %s' % (what, j, data.hex(), type(part).__name__)
                if forms[j] != 'indef' and what == '' and part.dump() != encs[j]:
                    return '%spart %d of %s dumps as %s' % (what, j, data.hex(), part.dump().hex())
            if [id(y) for y in x] != [id(x[j]) for j in range(len(lay))] or len(x) != len(lay):
                return 'iteration differs from indexing'
            if 'indef' not in forms and what == '' and (x.dump() != data or x.contents != data or bytes(x) != data):
                return '%s dumps as %s' % (data.hex(), x.dump().hex())
            if x.dump(force=True) != b''.join(ders):
                return '%sforced dump of %s is %s, expected %s' % (what, data.hex(), x.dump(force=True).hex(), b''.join(ders).hex())
            rec.state(lay, vs, x.dump())
        # octets after the last part
        for tail in TAILS:
            rec.op(2)
            kind, e = attempt(cls.load, data + tail, strict=True)
            if kind == 'ok' or not isinstance(e, ValueError):
                return 'strict load with %d octets after the last part: %r' % (len(tail), e)
            kind, e = attempt(cls.load, data + tail)
            if kind != 'ok' or e.dump(force=True) != b''.join(ders):
                return 'load with %d octets after the last part: %r' % (len(tail), e)
        # truncated: the parts before are as they were, or it is refused
        ends = [sum(len(x) for x in encs[:n]) for n in range(len(lay) + 1)]
        for cut in sorted(set(list(range(len(data)))[:24] + [len(data) - 1])):
            rec.op()
            kind, e = attempt(cls.load, data[:cut])
            if cut in ends:
                n = ends.index(cut)
                if kind != 'ok' or [y.native for y in list(e)[:n]] != wants[:n] or len(e) != len(lay):
                    return 'load of %s: %r' % (data[:cut].hex(), e)
            elif kind == 'ok' or not isinstance(e, ValueError):
                return 'load of the truncated %s: %r' % (data[:cut].hex(), e)
    # edits
    for j in range(len(lay)):
        for i in range(len(PARTS[lay[j]][1])):
            o = cls.load(b''.join(ders))
            c = o.copy()
            new = PARTS[lay[j]][0].load(PARTS[lay[j]][1][i])
            o[j] = new
            want = b''.join(ders[:j] + [PARTS[lay[j]][1][i]] + ders[j + 1:])
            rec.op(3)
            if o.dump() != want or o[j] is not new or o.contents != want:
                return 'part %d set to %s: %s expected %s' % (j, PARTS[lay[j]][1][i].hex(), o.dump().hex(), want.hex())
            if c.dump() != b''.join(ders):
                return 'the copy changed'
        if lay[j] == 'REC':
            o = cls.load(b''.join(ders))
            c = o.copy()
            o[j]['x'] = 300
            want = b''.join(ders[:j] + [ref.seq(ref.integer(300)) if vs[j] == 0 else ref.seq(ref.integer(300), ref.octets(b'a'))] + ders[j + 1:])
            if o.dump() != want or c.dump() != b''.join(ders):
                return 'field of part %d set: %s expected %s' % (j, o.dump().hex(), want.hex())
    o = cls.load(b''.join(ders))
    for bad in (len(lay), -1, len(lay) + 5):
        kind, e = attempt(lambda: o[bad])
        if kind == 'ok' or not isinstance(e, KeyError):
            return 'part %d: %r' % (bad, e)
        kind, e = attempt(o.__setitem__, bad, core.Null())
        if kind == 'ok' or not isinstance(e, KeyError):
            return 'part %d set: %r' % (bad, e)
    for bad in (5, None, b'\x05\x00', u'x'):
        kind, e = attempt(o.__setitem__, 0, bad)
        if kind == 'ok' or not isinstance(e, ValueError):
            return 'part set to %r: %r' % (bad, e)
    if o.dump() != b''.join(ders):
        return 'refused edits changed it'


# ------------------------------------------------------------------ OpenSSL trusted certificates
CERT = pki.cert()


def gen_trusted(tier):
    oids = ['1.3.6.1.5.5.7.3.1', '1.3.6.1.5.5.7.3.4', '1.2.3.4']
    sets = [c for n in range(len(oids) + 1) for c in itertools.permutations(oids, n)]
    some = [None] + sets if tier == 'thorough' else [None] + sets[:5]
    for trust in some:
        for reject in some:
            for alias in (None, u'', u'\xe9 name'):
                for keyid in (None, b'', b'\x01\x02'):
                    for other in (None, 0, 2):
                        yield trust, reject, alias, keyid, other


ALG = ref.seq(ref.oid('1.2.840.113549.1.1.11'))


def check_trusted(case, rec):
    trust, reject, alias, keyid, other = case
    aux = b''
    if trust is not None:
        aux += ref.seq(*[ref.oid(x) for x in trust])
    if reject is not None:
        aux += ref.tlv(2, True, 0, b''.join(ref.oid(x) for x in reject))
    if alias is not None:
        aux += ref.u(12, alias.encode('utf-8'))
    if keyid is not None:
        aux += ref.octets(keyid)
    if other is not None:
        aux += ref.tlv(2, True, 1, ALG * other)
    data = CERT + ref.seq(aux)
    rec.outcome('%s' % ''.join('01'[x is not None] for x in case))
    o = x509.TrustedCertificate.load(data, strict=True)
    if type(o[0]) is not x509.Certificate or type(o[1]) is not x509.CertificateAux:
        return 'parts %r' % (list(o),)
    a = o[1]
    names = {'1.3.6.1.5.5.7.3.1': u'server_auth', '1.3.6.1.5.5.7.3.4': u'email_protection'}
    want = [('trust', None if trust is None else [names.get(x, x) for x in trust]),
            ('reject', None if reject is None else [names.get(x, x) for x in reject]),
            ('alias', alias), ('keyid', keyid),
            ('other', None if other is None else [OrderedDict([('algorithm', u'1.2.840.113549.1.1.11'), ('parameters', None)])] * other)]
    for k, v in want:
        rec.op()
        if a[k].native != v:
            return '%s is %r, expected %r' % (k, a[k].native, v)
    if o[0].dump() != CERT or o.dump() != data or o.dump(force=True) != data or o.copy().dump() != data:
        return 'dump differs'
    built = x509.TrustedCertificate([x509.Certificate.load(CERT), x509.CertificateAux(dict((k, v) for k, v in want if v is not None))])
    if built.dump() != data:
        return 'built: %s expected %s' % (built.dump()[len(CERT):].hex(), data[len(CERT):].hex())
    if core.load(data).dump() != CERT:
        return 'generic load of the first part differs'
    rec.op(7)
    rec.state(case)


# ---------------------------------------------------------------- elements of other classes
INNER = [b'', b'abc', b'\x02\x01\x05', b'\x00\x80', b'\x02\x82\x00\x01\x05', b'\x30\x80\x05\x00\x00\x00\x04\x01a', b'\x24\x80\x04\x01a\x00\x00']
READS = ['', 'native', 'copy', 'debug', 'force']


def gen_other(tier):
    for cls in (1, 2, 3):
        for tag in TAGS:
            for entry in ENTRIES:
                for cons in (0, 1):
                    for i in range(len(INNER)):
                        if cons and INNER[i] in (b'abc', b'\x00\x80'):
                            continue
                        for form in ('der', 1, 2) + (('indef',) if cons else ()):
                            for r in range(len(READS)):
                                yield (cls, tag, entry, cons, i, form, r)


def check_other(case, rec):
    """the tag number of another class says nothing about the type: whatever is shown, the contents stay"""
    cls, tag, entry, cons, i, form, r = case
    raw = ref.ident(cls, cons, tag) + frame(0, 0, INNER[i], form)[1:]
    load, outer_, inner = ENTRIES[entry]
    data = outer_(raw)
    rec.op(4)
    try:
        holder = load(data, True)
        if holder.dump() != data and form != 'indef':
            raise Violation('%s: %s is re-encoded as %s' % (entry, data.hex(), holder.dump().hex()))
        o = inner(holder)
    except ValueError:
        if tag in U:
            raise
        rec.outcome('refused')
        return
    what = READS[r]
    # what has the tag number of a record and is not made of elements may be refused
    junk = tag in (11, 16, 17) and not cons
    if junk and what == 'force':
        return
    if what == 'native':
        for x in (o, holder):
            try:
                x.native
            except (ValueError, TypeError):
                pass
    elif what == 'copy':
        o, holder = o.copy(), holder.copy()
    elif what == 'debug':
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                holder.debug()
            except (ValueError, TypeError):
                pass
    elif what == 'force':
        o.dump(force=True)
    # chunks may have been put together
    raws = [raw] + ([ref.ident(cls, 1, tag) + b'\x03\x04\x01a'] if cons and i == 6 else [])
    want = [ref.tree(outer_(x)) for x in raws]
    got = ref.tree(holder.dump(force=(what == 'force')))
    rec.op(4)
    if got not in want:
        raise Violation('%s: after %r %s is re-encoded as %s' % (entry, what, data.hex(), holder.dump().hex()))
    for force in (False, True)[:1 if junk else 2]:
        one = o.dump(force=force)
        rec.state(one)
        if ref.tree(one) not in [ref.tree(outer(entry, x)) for x in raws]:
            raise Violation('%s: after %r %s is encoded as %s (force=%s)' % (entry, what, raw.hex(), one.hex(), force))
    if junk:
        return
    got = ref.tree(holder.dump(force=True))
    if got not in want:
        raise Violation('%s: after %r %s is re-encoded by force as %s' % (entry, what, data.hex(), ref.untree(got).hex()))
    rec.outcome('kept')


SPACES = [
    Space('other classes', gen_other, check_other, 'every tag number of the other classes x form x contents x framing x way of loading without a type x read: refused or kept'),
    Space('universal', gen_universal, check_universal, 'every tag number x form x contents x framing x way of loading without a type'),
    Space('untyped trees', gen_trees, check_trees, 'every nesting of untyped values x framings of one or two nodes x holder x order of reading'),
    Space('concatenations', gen_concat, check_concat, 'every layout of one to three parts x values x framings, truncations, edits and refusals'),
    Space('trusted certificates', gen_trusted, check_trusted, 'every combination of the fields of the auxiliary part of a trusted certificate'),
]


def run(argv):
    return main('C32', SPACES, ['oracle: the table of universal types of X.680 with values computed by hand; a tree model of the encoding; '
                                'tags without a type, and wrong forms, are refused with ValueError',
                                'not claimed: what is shown of elements of other classes without a type, missing parts of a concatenation beyond being empty'], argv)
