"""C16 - implicit and explicit tagging are exact and reversible."""
import itertools
from .. import ref, schema as S, ladder as L
from ..common import Space, bootstrap, main, attempt
from ..schema import Field, Seq, SetT, SeqOf, Choice, INT, OCT, UTF, BOOL, NULL, BITS, OID, ENUM, ANY, NAMES

bootstrap()
from asn1crypto import core  # noqa

REC = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='REC')
ST = SetT([Field('p', UTF), Field('q', INT)], values=[{'p': u'k', 'q': 1}], name='ST')
CHO = Choice([Field('s', UTF), Field('t', INT, ('i', 2, 77)), Field('r', REC, ('e', 2, 78))], name='CHO')
TYPES = {'INT': INT, 'OCT': OCT, 'UTF': UTF, 'BOOL': BOOL, 'NULL': NULL, 'BITS': BITS, 'OID': OID, 'ENUM': ENUM, 'REC': REC, 'ST': ST,
         'LIST': SeqOf(INT, [[1, 2], []]), 'SETOF': S.SetOfT(OCT, [[b'a', b'b'], []]), 'CHO': CHO, 'ANY': ANY,
         'OBITS': S.OBITS, 'IOCT': S.IOCT, 'FLAGS': S.FLAGS, 'BMP': S.BMP}

# a stack: outermost last; each tag ('i'|'e', class, number)
NUMS = [0, 30, 31, 127, 128, 16383, 16384, 2097152]


def singles(nums, classes=(1, 2, 3)):
    for kind in 'ie':
        for c in classes:
            for n in nums:
                yield ((kind, c, n),)


def stacks(tier):
    yield ()
    for s in singles(NUMS if tier == 'quick' else NUMS + [1, 2, 5, 16, 17, 63, 64, 255, 256, 2097151]):
        yield s
    small = [(c, n) for c in (1, 2, 3) for n in ((0, 31) if tier == 'quick' else (0, 1, 31, 128))]
    for a in small:
        for b in small:
            yield (('e',) + a, ('e',) + b)
    for a in small[:4]:
        for b in small[:4]:
            for c in small[:4]:
                yield (('e',) + a, ('e',) + b, ('e',) + c)


def fits(ty, st):
    return not (st and st[0][0] == 'i' and isinstance(ty, (Choice, S.AnyT)))


def wrap(n, st):
    for t in st:
        n = S.apply_tag(n, t)
    return n


def params(st, style):
    """the ways to ask for a stack"""
    if not st:
        return {} if style == 0 else None
    kind = st[0][0]
    if kind == 'i':
        _, c, n = st[0]
        if style == 0:
            return {'implicit': (NAMES[c], n)}
        if style == 1 and c == 2:
            return {'implicit': n}
        if style == 2 and c == 2:
            return {'tag_type': 'implicit', 'tag': n}
        return None
    if len(st) == 1:
        _, c, n = st[0]
        if style == 0:
            return {'explicit': (NAMES[c], n)}
        if style == 1 and c == 2:
            return {'explicit': n}
        if style == 2 and c == 2:
            return {'tag_type': 'explicit', 'tag': n}
        if style == 3:
            return {'explicit': (c, n)}
        return None
    if style == 0:
        return {'explicit': tuple((NAMES[c], n) for _, c, n in st)}
    if style == 3:
        return {'explicit': tuple((c, n) for _, c, n in st)}
    return None


def gen(tier):
    for name in TYPES:
        for st in stacks(tier):
            if fits(TYPES[name], st):
                yield (name, st)


def values(ty):
    return ty.values[:2]


def check(case, rec):
    name, st = case
    ty = TYPES[name]
    for v in values(ty):
        n = wrap(ty.node(v), st)
        want = S.encode(n)
        nat = ty.native(v)
        for style in range(4):
            p = params(st, style)
            if p is None:
                continue
            rec.op(4)
            # built
            o = ty.cls(ty.py(v), **dict(p))
            if o.dump() != want:
                return '%s %r with %r encodes as %s instead of %s' % (name, v, p, o.dump().hex(), want.hex())
            if not S.native_eq(o.native, nat):
                return '%s %r with %r reads as %r' % (name, v, p, o.native)
            # decoded, from each framing
            for fm in S.variant_forms(n, 1):
                raw = S.encode(n, fm)
                rec.op(2)
                d = load(ty, raw, p)
                if not S.native_eq(d.native, nat):
                    return '%s %s with %r reads as %r instead of %r' % (name, raw.hex(), p, d.native, nat)
                if d.dump(force=True) != want:
                    return '%s %s with %r is re-encoded as %s instead of %s' % (name, raw.hex(), p, d.dump().hex(), want.hex())
                for k, c in enumerate([load(ty, raw, p).copy(), copy_of_read(load(ty, raw, p))]):
                    if S.uses_indef(n, fm):
                        if not S.native_eq(c.native, nat) or load(ty, c.dump(), p).native != d.native and not isinstance(nat, S.Bag):
                            return 'a copy of %s %s reads as %r' % (name, raw.hex(), c.native)
                    elif c.dump(force=True) != want or not S.native_eq(c.native, nat):
                        return 'a copy of %s %s with %r is %s' % (name, raw.hex(), p, c.dump().hex())
            rec.state(want)
            rec.outcome('%d tags' % len(st))
            # as a field
            if len(st) <= 1 or style == 0:
                rec.op(2)
                cls = type('R', (core.Sequence,), {'_fields': [('a', core.Integer), ('f', ty.cls, dict(p)), ('z', core.Null)]})
                body = ref.u(16, ref.u(2, b'\x01') + want + ref.u(5, b''), True)
                r = cls({'a': 1, 'f': ty.py(v), 'z': None})
                if r.dump() != body:
                    return 'a field %s with %r of %r encodes as %s instead of %s' % (name, p, v, r.dump().hex(), body.hex())
                r = cls({'a': 1, 'f': ty.cls(ty.py(v)) if not isinstance(ty, S.AnyT) else ty.py(v), 'z': None})
                if r.dump() != body:
                    return 'a field %s with %r of the object %r encodes as %s instead of %s' % (name, p, v, r.dump().hex(), body.hex())
                r = cls({'a': 1, 'f': ty.cls(ty.py(v), **dict(p)), 'z': None})
                if r.dump() != body:
                    return 'a field %s with %r of the tagged object %r encodes as %s instead of %s' % (name, p, v, r.dump().hex(), body.hex())
                r = cls.load(body)
                if not S.native_eq(r['f'].native, nat) or r['z'].native is not None or r['f'].dump() != want:
                    return 'a field %s with %r reads as %r, %s' % (name, p, r['f'].native, r['f'].dump().hex())
                if cls.load(body).dump(force=True) != body:
                    return 'a field %s with %r re-encodes as %s' % (name, p, cls.load(body).dump(force=True).hex())


def load(ty, raw, p):
    return ty.cls.load(raw, strict=True, **dict(p))


def copy_of_read(o):
    o.native
    repr(o)
    return o.copy()


# ------------------------------------------------------------------ class-level tags
def gen_cls(tier):
    inner = [(), (('i', 1, 3),), (('e', 1, 3),), (('e', 1, 3), ('e', 2, 40))]
    outer = [(), (('e', 2, 0),), (('e', 2, 0), ('e', 3, 200)), (('i', 2, 0),)]
    for name in TYPES:
        for a in inner:
            for b in outer:
                if a and fits(TYPES[name], a) and fits(TYPES[name], b):
                    # an implicit tag on an explicitly tagged class would replace the outer tag: not supported
                    if b and b[0][0] == 'i' and a[0][0] == 'e':
                        continue
                    if isinstance(TYPES[name], S.AnyT):
                        continue
                    yield (name, a, b)


def check_cls(case, rec):
    name, a, b = case
    ty = TYPES[name]
    attrs = {}
    if a[0][0] == 'i':
        attrs = {'class_': a[0][1], 'tag': a[0][2]}
    else:
        attrs = {'explicit': tuple((c, n) for _, c, n in a) if len(a) > 1 else a[0][1:]}
    cls = type('T', (ty.cls,), attrs)
    p = params(b, 0)
    for v in values(ty):
        inner = ty.node(v)
        if b and b[0][0] == 'i':
            n = wrap(inner, b)
        else:
            n = wrap(wrap(inner, a), b)
        want = S.encode(n)
        nat = ty.native(v)
        rec.op(5)
        o = cls(ty.py(v), **dict(p))
        if o.dump() != want:
            return 'a %s of class tags %r with %r encodes as %s instead of %s' % (name, a, p, o.dump().hex(), want.hex())
        for fm in S.variant_forms(n, 1):
            raw = S.encode(n, fm)
            d = cls.load(raw, strict=True, **dict(p))
            rec.op(2)
            if not S.native_eq(d.native, nat) or d.dump(force=True) != want:
                return 'a %s of class tags %r with %r: %s reads as %r, dumps as %s' % (name, a, p, raw.hex(), d.native, d.dump().hex())
        c = cls.load(want, **dict(p)).copy()
        if c.dump() != want or not S.native_eq(c.native, nat):
            return 'a copy of a %s of class tags %r with %r encodes as %s instead of %s' % (name, a, p, c.dump().hex(), want.hex())
        # in a list and in a record
        if not b:
            lst = type('L', (core.SequenceOf,), {'_child_spec': cls})
            body = ref.u(16, want + want, True)
            k = lst([cls(ty.py(v)), cls(ty.py(v))])
            if k.dump() != body:
                return 'a list of %s of class tags %r encodes as %s instead of %s' % (name, a, k.dump().hex(), body.hex())
            if not all(S.native_eq(x, nat) for x in lst.load(body).native) or len(lst.load(body)) != 2:
                return 'a list of %s of class tags %r reads as %r' % (name, a, lst.load(body).native)
        rcls = type('R', (core.Sequence,), {'_fields': [('f', cls, dict(p, optional=True)), ('z', core.Null)]})
        body = ref.u(16, want + ref.u(5, b''), True)
        r = rcls({'f': cls(ty.py(v)), 'z': None})
        if r.dump() != body:
            return 'a field %s of class tags %r with %r encodes as %s instead of %s' % (name, a, p, r.dump().hex(), body.hex())
        r = rcls.load(body)
        if not S.native_eq(r.native['f'], nat) or r.dump(force=True) != body:
            return 'a field %s of class tags %r with %r reads as %r and dumps as %s' % (name, a, p, r.native, r.dump().hex())
        r = rcls.load(ref.u(16, ref.u(5, b''), True))
        if r.native['f'] is not None:
            return 'an absent field %s of class tags %r reads as %r' % (name, a, r.native)
        # and not without its tags
        for wrong in (wrap(inner, b), wrap(inner, (('e', 1, 4),)), wrap(inner, (('i', 1, 4),)) if not isinstance(ty, Choice) else inner):
            raw = S.encode(wrong)
            if raw == want:
                continue
            k, e = attempt(lambda: cls.load(raw, strict=True, **dict(p)).native)
            if k == 'ok' or not isinstance(e, (ValueError, TypeError)):
                return 'a %s of class tags %r with %r is decoded from %s: %r' % (name, a, p, raw.hex(), e)
        rec.state(want)
        rec.outcome('class')


# ------------------------------------------------------------------ retag, untag, mismatches
def tag_menu():
    out = [()]
    for kind in 'ie':
        for c, n in ((1, 0), (2, 0), (2, 1), (2, 31), (3, 0)):
            out.append(((kind, c, n),))
    out += [(('e', 2, 0), ('e', 2, 1)), (('e', 2, 1), ('e', 2, 0)), (('e', 2, 0), ('e', 2, 0)), (('e', 1, 0), ('e', 3, 0))]
    return out


def gen_pairs(tier):
    for name in TYPES:
        for a in tag_menu():
            for b in tag_menu():
                if fits(TYPES[name], a) and fits(TYPES[name], b):
                    yield (name, a, b)


def check_pairs(case, rec):
    name, a, b = case
    ty = TYPES[name]
    pa, pb = params(a, 0), params(b, 0)
    for v in values(ty):
        nat = ty.native(v)
        ra = S.encode(wrap(ty.node(v), a))
        rb = S.encode(wrap(ty.node(v), b))
        rec.op(4)
        # decoding with another specification
        if a != b:
            k, e = attempt(lambda: ty.cls.load(ra, strict=True, **dict(pb)).native)
            if isinstance(ty, S.AnyT) and b == a[1:] or isinstance(ty, S.AnyT) and b == ():
                # any element is a value of ANY
                if k == 'ok' or isinstance(e, ValueError):
                    rec.outcome('any')
                else:
                    return 'ANY reads %s as %r' % (ra.hex(), e)
            elif isinstance(ty, S.AnyT) and len(b) < len(a) and a[len(a) - len(b):] == b:
                rec.outcome('any')
            elif k == 'ok' or not isinstance(e, (ValueError, TypeError)):
                return '%s %r tagged %r is decoded as if it was tagged %r: %r' % (name, v, a, b, e)
            else:
                rec.outcome('refused')
        # retagging: built, decoded, decoded and read
        for k in range(4):
            o = ty.cls(ty.py(v), **dict(pa)) if k == 0 else ty.cls.load(ra, **dict(pa))
            if k == 2:
                o.native
            if k == 3:
                o = o.copy()
            t = o.retag(dict(pb)) if b else o.untag()
            rec.op(3)
            if t.dump() != rb:
                return '%s %r tagged %r and retagged %r (%d) encodes as %s instead of %s' % (name, v, a, b, k, t.dump().hex(), rb.hex())
            if not S.native_eq(t.native, nat):
                return '%s %r tagged %r and retagged %r (%d) reads as %r' % (name, v, a, b, k, t.native)
            if o.dump() != ra or not S.native_eq(o.native, nat):
                return '%s %r tagged %r is %s after a retagged copy was made' % (name, v, a, o.dump().hex())
            u = t.untag()
            r0 = S.encode(ty.node(v))
            if u.dump() != r0 or not S.native_eq(u.native, nat):
                return '%s %r tagged %r, retagged %r and untagged (%d) encodes as %s instead of %s' % (name, v, a, b, k, u.dump().hex(), r0.hex())
            if isinstance(b, tuple) and len(b) == 1 and b[0][1] == 2:
                w = o.retag({'i': 'implicit', 'e': 'explicit'}[b[0][0]], b[0][2])
                if w.dump() != rb:
                    return '%s %r retagged with the old interface encodes as %s' % (name, v, w.dump().hex())
            # assigned to a place that has the other tags
            # (an ANY with tags of its own is an element like any other)
            for where, f, want in [] if a and isinstance(ty, S.AnyT) else places(ty, b, pb, rb, o):
                rec.op(1)
                got = f()
                if got.dump() != want or got.dump(force=True) != want:
                    return '%s %r tagged %r (%d) given to %s tagged %r: %s instead of %s' % (name, v, a, k, where, b, got.dump().hex(), want.hex())
            if o.dump() != ra or not S.native_eq(o.native, nat):
                return '%s %r tagged %r is %s after it was given to a record' % (name, v, a, o.dump().hex())
        rec.state(ra, rb)


_places = {}


def places(ty, b, pb, rb, o):
    """the places a value can be given to, that have the tags b: (what, function that builds one, encoding)"""
    if (id(ty), b) not in _places:
        _places[(id(ty), b)] = (
            type('R', (core.Sequence,), {'_fields': [('v', ty.cls, dict(pb)), ('z', core.Null)]}),
            type('S', (core.Set,), {'_fields': [('v', ty.cls, dict(pb))]}) if b and not isinstance(ty, Choice) else None,
            type('C', (core.Choice,), {'_alternatives': [('v', ty.cls, dict(pb)), ('z', core.Null, {'implicit': ('private', 99)})]})
            if not isinstance(ty, Choice) and (b or not isinstance(ty, S.AnyT)) else None)
    R, St, C = _places[(id(ty), b)]
    want = ref.seq(rb, b'\x05\x00')

    def later():
        r = R({'z': core.Null()})
        r['v'] = o
        return r

    def over():
        r = R.load(want)
        r['v'] = o
        return r
    yield 'a new record', (lambda: R({'v': o, 'z': core.Null()})), want
    yield 'a field of a record', later, want
    yield 'a field of a decoded record', over, want
    if St:
        yield 'a SET', (lambda: St({'v': o})), ref.set_(rb)
    if C:
        yield 'a choice', (lambda: C('v', o)), rb
        yield 'a choice by a dict', (lambda: C({'v': o})), rb


# ------------------------------------------------------------------ one deviation in one layer
BST = [(), (('i', 2, 0),), (('i', 1, 31),), (('e', 2, 0),), (('e', 1, 31),), (('e', 2, 0), ('e', 2, 1)), (('e', 3, 5), ('e', 1, 31)),
       (('e', 2, 0), ('e', 2, 0), ('e', 2, 0)), (('e', 1, 1), ('e', 2, 2), ('e', 3, 3))]


def gen_broken(tier):
    for name in TYPES:
        for st in BST:
            if fits(TYPES[name], st) and not (isinstance(TYPES[name], S.AnyT) and not st):
                yield (name, st)


def layers(raw, layer):
    """wrap octets in layers of [class, number, constructed, indefinite, octets before, octets after]"""
    for c, n, cons, indef, pre, post in layer:
        raw = pre + raw + post
        raw = ref.ident(c, cons, n) + b'\x80' + raw + b'\0\0' if indef else ref.tlv(c, cons, n, raw)
    return raw


EXTRA = [b'\x05\x00', b'\x02\x01\x07', b'\x00', b'\x00\x00', b'\x30', b'\xa0\x02\x05\x00']


def broken(ty, v, st):
    """(what, octets): every encoding that differs in one thing in one layer"""
    base = S.encode(wrap(ty.node(v), st[:1] if st and st[0][0] == 'i' else ()))
    es = [[c, n, True, False, b'', b''] for k, c, n in st if k == 'e']
    for i in range(len(es)):
        def with_(**kw):
            out = [list(x) for x in es]
            for k, val in kw.items():
                out[i][int(k[1:])] = val
            return layers(base, out)
        for c in range(4):
            if c != es[i][0]:
                yield 'class of layer %d' % i, with_(_0=c)
        for n in (0, 1, 2, 3, 5, 30, 31, 32, 128):
            if n != es[i][1]:
                yield 'tag of layer %d' % i, with_(_1=n)
        yield 'method of layer %d' % i, with_(_2=False)
        for x in EXTRA:
            yield 'after the contents of layer %d' % i, with_(_5=x)
            yield 'before the contents of layer %d' % i, with_(_4=x)
            if x[:1] != b'\0':
                yield 'after the contents of the indefinite layer %d' % i, with_(_3=True, _5=x)
        yield 'missing layer %d' % i, layers(base, es[:i] + es[i + 1:])
        yield 'doubled layer %d' % i, layers(base, es[:i + 1] + es[i:])
        yield 'empty layer %d' % i, layers(b'', es[i:])
        yield 'empty indefinite layer %d' % i, layers(b'', [es[i][:3] + [True, b'', b'']] + es[i + 1:])
    if not isinstance(ty, (Choice, S.AnyT)):
        b = ref.parse_one(base)[0]
        for c in range(4):
            if c != b[0]:
                yield 'class of the value', layers(ref.tlv(c, b[1], b[2], b[4]), es)
        yield 'method of the value', layers(ref.tlv(b[0], not b[1], b[2], b[4]), es)
        for n in (b[2] ^ 1, b[2] + 32, 29):
            yield 'tag of the value', layers(ref.tlv(b[0], b[1], n, b[4]), es)


def check_broken(case, rec):
    name, st = case
    ty = TYPES[name]
    p = params(st, 0)
    if p is None:
        return None
    def rcls(**kw):
        return type('R', (core.Sequence,), {'_fields': [('a', core.Integer), ('f', ty.cls, dict(p, **kw)), ('z', core.Null, {'implicit': ('private', 9999)})]})
    req, opt = rcls(), rcls(optional=True)
    lst = type('L', (core.SequenceOf,), {'_child_spec': type('T', (ty.cls,), {'explicit': tuple((c, n) for _, c, n in st)})}) \
        if st and st[0][0] == 'e' else None
    cho = type('C', (core.Choice,), {'_alternatives': [('f', ty.cls, dict(p)), ('o', core.Real, {'implicit': 99})]}) \
        if not isinstance(ty, (Choice, S.AnyT)) else None
    def deep(o):
        o.native
        o.dump(force=True)
        return o.native
    for v in values(ty):
        want = S.encode(wrap(ty.node(v), st))
        seen = set()
        for what, raw in broken(ty, v, st):
            if raw == want or raw in seen:
                continue
            seen.add(raw)
            if isinstance(ty, S.AnyT) and (what.startswith('doubled layer 0') or what.startswith('missing layer 0') and len(st) > 1
                                           and st[0] == st[1]):
                continue
            body = ref.seq(ref.u(2, b'\x01'), raw, ref.tlv(3, False, 9999, b''))
            for where, f in (('alone', lambda: deep(ty.cls.load(raw, strict=True, **dict(p)))),
                             ('in a required field', lambda: deep(req.load(body, strict=True))),
                             ('in an optional field', lambda: deep(opt.load(body, strict=True))),
                             ('in a list', lst and (lambda: deep(lst.load(ref.seq(want, raw), strict=True)))),
                             ('in a choice', cho and (lambda: deep(cho.load(raw, strict=True))))):
                if not f:
                    continue
                rec.op(1)
                k, e = attempt(f)
                if k == 'ok' or not isinstance(e, ValueError):
                    return '%s %s with %r: %s (%s) is accepted %s: %r' % (name, raw.hex(), p, what, want.hex(), where, e)
            rec.state(raw)
            rec.outcome(what.split(' layer')[0])


SPACES = [
    Space('stacks', gen, check, '18 types x all tag stacks (one implicit, one to three explicit) over classes and number boundaries x the ways to specify '
          'them, built, decoded from every framing with <= 1 deviation, copied, and as a field'),
    Space('class-tags', gen_cls, check_cls, '18 types x tags on the class x tags of the field'),
    Space('broken', gen_broken, check_broken, '18 types x tag stacks x every deviation (class, number, method, missing, doubled, empty, octets before '
          'or after) in every layer: refused alone, as a field, as an element and as an alternative'),
    Space('pairs', gen_pairs, check_pairs, '18 types x all pairs of tag stacks: decoding with the wrong one, retag() and untag() in every lazy state'),
    Space('sizes', L.tag_cases, L.check_tags, 'tag numbers up to 255 and around 2**k to 2**64 x class x kind, 1-24 (60) explicit tags; deviations'),
]


def run(argv):
    return main('C16', SPACES, ['implicit tagging of an explicitly tagged class is not supported by the library and not claimed'], argv)
