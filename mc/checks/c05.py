"""C05 - every BER encoding of a value means that value, and forces to its DER."""
from .. import ref, schema as S, ladder as L
from ..common import Space, bootstrap, main, attempt

bootstrap()


def gen(tier):
    for name, ty in S.FAMILY.items():
        k = 3 if tier == 'thorough' else 2
        for vi, v in enumerate(ty.values):
            n = ty.node(v)
            for i, fm in enumerate(S.variant_forms(n, k)):
                nodes = n.flat()
                yield (name, vi, tuple((j, fm[id(x)]) for j, x in enumerate(nodes) if id(x) in fm))


def setup(case):
    name, vi, fl = case
    ty = S.FAMILY[name]
    v = ty.values[vi]
    n = ty.node(v)
    nodes = n.flat()
    return ty, v, S.encode(n, dict((id(nodes[j]), f) for j, f in fl)), S.encode(n)


def check(case, rec):
    ty, v, ber, der = setup(case)
    rec.op(7)
    rec.outcome('%s dev=%d' % (case[0], len(case[2])))
    want = ty.native(v)
    o = ty.cls.load(ber, strict=True)
    if not S.native_eq(o.native, want):
        return 'native of %s: %r expected %r' % (ber.hex(), o.native, want)
    got = o.dump(force=True)
    if got != der:
        return 'forced dump (after reading) of %s: %s expected %s' % (ber.hex(), got.hex(), der.hex())
    if not S.native_eq(o.native, want):
        return 'native after forcing: %r expected %r' % (o.native, want)
    if o.dump(force=True) != der or o.dump() != der:
        return 'second dump differs'
    o = ty.cls.load(ber)
    got = o.dump(force=True)
    if got != der:
        return 'forced dump (unread) of %s: %s expected %s' % (ber.hex(), got.hex(), der.hex())
    o = ty.cls.load(ber).copy()
    got = o.dump(force=True)
    if got != der:
        return 'forced dump of a copy of %s: %s expected %s' % (ber.hex(), got.hex(), der.hex())
    rec.state(case[0], got)
    if not case[2]:
        made = ty.cls(ty.py(v)) if case[0] != 'NULL' else ty.cls()
        if made.dump() != der or made.dump(force=True) != der:
            return 'constructed %r: %s expected %s' % (ty.py(v), made.dump().hex(), der.hex())
        if not S.native_eq(made.native, want):
            return 'native of constructed: %r expected %r' % (made.native, want)


def gen_embed(tier):
    """every framing of a value, inside of every framing of an explicit tag inside of a list"""
    for name, ty in S.FAMILY.items():
        if name == 'CH':
            continue
        for vi, v in enumerate(ty.values[:2]):
            n = S.N(0, 16, kids=[S.apply_tag(ty.node(v), ('e', 2, 9))])
            for fm in S.variant_forms(n, 2 if tier == 'thorough' else 1):
                nodes = n.flat()
                yield (name, vi, tuple((j, fm[id(x)]) for j, x in enumerate(nodes) if id(x) in fm))


def check_embed(case, rec):
    name, vi, fl = case
    ty = S.FAMILY[name]
    v = ty.values[vi]
    w = S.Seq([S.Field('f', ty, ('e', 2, 9))], values=[])
    n = w.node({'f': v})
    nodes = n.flat()
    ber = S.encode(n, dict((id(nodes[j]), f) for j, f in fl))
    der = S.encode(n)
    rec.op(3)
    rec.state(ber)
    rec.outcome('dev=%d' % len(fl))
    o = w.cls.load(ber, strict=True)
    if o.dump(force=True) != der:
        return 'forced dump of %s: %s expected %s' % (ber.hex(), o.dump().hex(), der.hex())
    o = w.cls.load(ber)
    if not S.native_eq(o['f'].native, ty.native(v)):
        return 'native %r expected %r' % (o['f'].native, ty.native(v))
    if o['f'].dump(force=True) != S.encode(nodes[1]):
        return 'forced dump of the field %s' % o['f'].dump().hex()
    if o.dump(force=True) != der:
        return 'forced dump after the field %s' % o.dump().hex()


def gen_sizes(tier):
    for kind, n in L.cases(tier):
        yield (kind, n)


def check_sizes(case, rec):
    kind, size = case
    ty, v = L.make(kind, size)
    n = ty.node(v)
    der = S.encode(n)
    want = ty.native(v)
    rec.state(case)
    for name, fm in L.framings(n):
        ber = S.encode(n, fm)
        what = '%s of size %d, framing %r' % (kind, size, name)
        rec.op(4)
        rec.outcome(name)
        o = ty.cls.load(ber, strict=True)
        if not S.native_eq(o.native, want):
            return '%s: native is %.200r, expected %.200r' % (what, o.native, want)
        got = o.dump(force=True)
        if got != der:
            return '%s: forced dump after reading is %s, expected %s' % (what, got.hex()[:200], der.hex()[:200])
        if not S.native_eq(o.native, want) or o.dump() != der:
            return '%s: changed after forcing' % what
        for k, o in (('unread', ty.cls.load(ber)), ('copied', ty.cls.load(ber).copy())):
            got = o.dump(force=True)
            if got != der:
                return '%s: forced dump, %s, is %s, expected %s' % (what, k, got.hex()[:200], der.hex()[:200])
    made = ty.cls(ty.py(v))
    if made.dump() != der or made.dump(force=True) != der:
        return '%s of size %d constructed: %s, expected %s' % (kind, size, made.dump().hex()[:200], der.hex()[:200])
    if not S.native_eq(made.native, want):
        return '%s of size %d: native of constructed is %.200r, expected %.200r' % (kind, size, made.native, want)


SPACES = [
    Space('variants', gen, check, 'all values of %d schemas x all BER framings with <= 2 (3) nodes deviating from DER' % len(S.FAMILY)),
    Space('embedded', gen_embed, check_embed, 'the same inside of an explicit tag inside of a SEQUENCE'),
    Space('sizes', gen_sizes, check_sizes, '%d kinds of values over a ladder of sizes (contents, elements, fields, alternatives, arcs, bits, depths, tag '
          'numbers; around every power of two) x framings of all elements or of one of them' % len(L.KINDS)),
]


def run(argv):
    return main('C05', SPACES, ['chunked strings use indefinite-length constructed encodings; definite-length constructed '
                                'strings are refused by the library by design',
                                'BER freedom is enumerated as deviations from DER, bounded by their number'], argv)
