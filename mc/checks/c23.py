"""C23 - distinguished names: comparison against a reference normal form, all pairs; build; native and human readable forms."""
import collections
import itertools
import stringprep
import unicodedata
from .. import pki, ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import x509, core  # noqa

# ------------------------------------------------------------------ texts
# token -> its normal form; ' ' is a space
TOK = [
    (u'a', u'a'), (u'A', u'a'), (u'b', u'b'), (u'1', u'1'), (u'-', u'-'), (u' ', u' '), (u'  ', u' '), (u'\t', u' '), (u'\n', u' '), (u'\xa0', u' '), (u'\u3000', u' '), (u'\u2003', u' '), (u'\u2028', u' '),
    (u'\xad', u''), (u'\u200b', u''), (u'\ufe00', u''), (u'\ufe0e', u''), (u'\ufe0f', u''), (u'\u034f', u''), (u'\ufeff', u''), (u'\x00', u''), (u'\x1f', u''), (u'\x1e', u''), (u'\x7f', u''), (u'\u2060', u''), (u'\ufffc', u''),
    (u'\xdf', u'ss'), (u'ss', u'ss'), (u'\xe9', u'\xe9'), (u'\xc9', u'\xe9'), (u'e\u0301', u'\xe9'), (u'E\u0301', u'\xe9'), (u'\ufb01', u'fi'), (u'fi', u'fi'), (u'\uff21', u'a'), (u'\u03a3', u'\u03c3'), (u'\u03c2', u'\u03c3'), (u'\u03c3', u'\u03c3'),
    (u'\xb2', u'2'), (u'2', u'2'), (u'\u4f8b', u'\u4f8b'), (u'\u042f', u'\u044f'), (u'\u044f', u'\u044f'), (u'\ufe50', u','), (u',', u','), (u'\ufe30', u'..'), (u'.', u'.'), (u'\u0301', u'\u0301'), (u'\U00010400', u'\U00010428'), (u'\u212b', u'\xe5'), (u'\xe5', u'\xe5'), (u'\xc5', u'\xe5'),
]
FORBIDDEN = [u'\ue000', u'\ufffd', u'\ufdd0', u'\u0378', u'\U0001F600']


def normal(idx):
    s = u''.join(TOK[i][1] for i in idx)
    # the tokens are in normal form; their concatenation has to be composed again
    s = unicodedata.normalize('NFC', s)
    return u' '.join(s.split(u' ')) if u' ' not in s else u' '.join(x for x in s.split(u' ') if x)


def atv(oid, value):
    return pki.atv(oid, value)


def texts(tier):
    n = len(TOK)
    out = [()] + [(i,) for i in range(n)] + [p for p in itertools.product(range(n), repeat=2) if tier == 'thorough' or (p[0] + p[1]) % 2 == 0 or p[0] == p[1]]
    if tier == 'thorough':
        small = [0, 1, 5, 7, 13, 16, 26, 28, 30, 36, 47]
        out += list(itertools.product(small, repeat=3))
    else:
        out += list(itertools.product([0, 5, 13, 30], repeat=3))
    return out


CACHE = {}


def objects(tier):
    if tier not in CACHE:
        CACHE[tier] = [(i, normal(i), x509.NameTypeAndValue.load(atv(pki.CN, pki.utf8(u''.join(TOK[t][0] for t in i))))) for i in texts(tier)]
    return CACHE[tier]


def gen_text(tier):
    for i in range(len(texts(tier))):
        yield (tier, i)


def check_text(case, rec):
    tier, i = case
    objs = objects(tier)
    ti, ni, oi = objs[i]
    fresh = x509.NameTypeAndValue({'type': 'common_name', 'value': x509.DirectoryString('utf8_string', u''.join(TOK[t][0] for t in ti))})
    other = x509.NameTypeAndValue.load(atv(pki.O, pki.utf8(u''.join(TOK[t][0] for t in ti))))
    for tj, nj, oj in objs:
        rec.op()
        for a in (oi, fresh):
            if (a == oj) is not (ni == nj) or (a != oj) is not (ni != nj):
                raise Violation('%r == %r is %s; normal forms %r and %r' % (oi.native, oj.native, a == oj, ni, nj))
    if other == oi or oi == other or not other != oi:
        raise Violation('an organization name is equal to a common name, %r' % oi.native)
    rec.state(ni)
    rdn = x509.RelativeDistinguishedName([fresh])
    rdn2 = x509.RelativeDistinguishedName.load(ref.set_(atv(pki.CN, pki.utf8(ni))))
    if rdn != rdn2 or rdn.hashable != rdn2.hashable:
        raise Violation('%r and its normal form are not equal, or have other hashes: %r, %r' % (rdn.native, rdn.hashable, rdn2.hashable))


# ------------------------------------------------------------------ attributes
STRINGS = [(12, 'utf-8'), (19, 'ascii'), (20, 'latin1'), (22, 'ascii'), (28, 'utf-32-be'), (30, 'utf-16-be')]


def value_items():
    """(label, encoded attribute, normal form)"""
    out = []
    for t in (u'Ab c', u' aB  C ', u'abc', u'h\xe9', u'H\xc9', u'5', u'true'):
        for tag, enc in STRINGS:
            try:
                c = t.encode(enc)
            except UnicodeEncodeError:
                continue
            nf = u' '.join(t.lower().split())
            for o in (pki.CN, pki.O, '1.2.3.4'):
                if o == '1.2.3.4' and tag == 20 and not t.isascii():
                    continue                              # T.61, not Latin-1, outside of a directory string
                out.append(('%s %s %r' % (o, enc, t), atv(o, ref.u(tag, c)), (o, 'text', nf)))
                if tag == 12 and o == pki.CN:
                    out.append(('chunked %r' % t, atv(o, ref.indef(0, tag, ref.u(tag, c[:1]) + ref.u(tag, c[1:]))), (o, 'text', nf)))
    u = '1.2.3.4'
    for v in (ref.integer(5), ref.integer(1), ref.integer(0), ref.boolean(True), ref.boolean(False), ref.null(), ref.octets(b'5'), ref.octets(b'abc'), ref.seq(ref.integer(5)), ref.seq(), ref.set_(),
              ref.oid('1.2.3'), ref.bitstring([1, 0]), ref.seq(ref.null())):
        out.append(('unknown %s' % v.hex(), atv(u, v), (u, 'der', v)))
    out.append(('other unknown', atv('1.2.3.5', ref.integer(5)), ('1.2.3.5', 'der', ref.integer(5))))
    for b in (b'', b'abc', b'ABC', b' abc ', b'\x81', b'\x8d', b'\xff', b'\x1e\x1f', b'5'):
        out.append(('unique identifier %r' % b, atv('2.5.4.45', ref.u(3, b'\0' + b)), ('2.5.4.45', 'der', b)))
    for v, nf in ((u'A@H', u'a@h'), (u'a@h', u'a@h'), (u'a@i', u'a@i')):
        out.append(('email %s' % v, atv(pki.EMAIL, pki.ia5(v)), (pki.EMAIL, 'text', nf)))
        out.append(('email utf8 %s' % v, atv(pki.EMAIL, pki.utf8(v)), (pki.EMAIL, 'text', nf)))
    for v, nf in ((u'Example', u'example'), (u'example', u'example'), (u'xn--bcher-kva', u'b\xfccher'), (u'XN--bcher-kvb', u'xn--bcher-kvb')):
        out.append(('dc %s' % v, atv(pki.DC, pki.ia5(v)), (pki.DC, 'text', nf)))
    for v in (u'DE', u'de', u'US'):
        out.append(('country %s' % v, atv(pki.C, pki.printable(v)), (pki.C, 'text', v.lower())))
    return out


VALUES = value_items()


def gen_value(tier):
    for i in range(len(VALUES)):
        yield (i,)


def check_value(case, rec):
    i, = case
    li, di, ni = VALUES[i]
    for lj, dj, nj in VALUES:
        for wrap in (lambda d: x509.NameTypeAndValue.load(d), lambda d: x509.RelativeDistinguishedName.load(ref.set_(d)), lambda d: x509.Name.load(ref.seq(ref.set_(d))), lambda d: x509.GeneralName.load(ref.expl(4, ref.seq(ref.set_(d)))).chosen):
            rec.op()
            a, b = wrap(di), wrap(dj)
            if (a == b) is not (ni == nj) or (a != b) is not (ni != nj):
                raise Violation('%s == %s (%s) is %s; normal forms %r and %r' % (li, lj, type(a).__name__, a == b, ni, nj))
            if ni == nj and hasattr(a, 'hashable') and (a.hashable, type(a.hashable)) != (b.hashable, type('')):
                raise Violation('%s and %s are equal and have the hashes %r and %r' % (li, lj, a.hashable, b.hashable))
            if ni != nj and hasattr(a, 'hashable') and a.hashable == b.hashable and 'unknown' not in (li + ' ' + lj).split(' '):
                raise Violation('%s and %s are not equal and have the same hashable value %r' % (li, lj, a.hashable))
            if i == 0 or i == 5:
                if wrap(dj).dump() != b.dump():
                    raise Violation('comparing changed %s' % lj)
    rec.state(ni)


# ------------------------------------------------------------------ every code point
def prepare(s):
    """RFC 4518 section 2 by the categories of Unicode 3.2; None if the text can not be prepared"""
    old = unicodedata.ucd_3_2_0
    out = u''
    for ch in s:
        c = ord(ch)
        cat = old.category(ch)
        if 9 <= c <= 13 or c == 0x85:
            out += u' '
        elif cat in ('Cc', 'Cf') or c in (0xad, 0x1806, 0x34f, 0xfffc, 0x200b, 0x180e) or 0x180b <= c <= 0x180d or 0xfe00 <= c <= 0xfe0f:
            pass
        elif cat in ('Zs', 'Zl', 'Zp'):
            out += u' '
        else:
            out += stringprep.map_table_b2(ch)
    out = unicodedata.normalize('NFKC', out)
    for ch in out:
        if old.category(ch) in ('Cn', 'Co', 'Cs') or ch == u'\ufffd' or old.category(ch) == 'Cf':
            return None
    sides = [old.bidirectional(ch) for ch in out]
    if any(x in ('R', 'AL') for x in sides):
        if 'L' in sides or sides[0] not in ('R', 'AL') or sides[-1] not in ('R', 'AL'):
            return None
    return u' '.join(x for x in out.split(u' ') if x)


FRAMES = [u'%s', u'a%s1', u' %s  ', u'%s%s']


def points():
    return itertools.chain(range(0xd800), range(0xe000, 0x20000), range(0x2f800, 0x2fa20), range(0x2fff0, 0x30010), range(0xe0000, 0xe0200), range(0x10fff0, 0x110000))


def gen_point(tier):
    for f in range(2 if tier == 'quick' else len(FRAMES)):
        for b in range(16):
            yield (f, b)


def check_point(case, rec):
    f, b = case
    frame = FRAMES[f]
    by_hash = {}
    for i, c in enumerate(points()):
        if i % 16 != b:
            continue
        ch = chr(c)
        text = frame.replace(u'%s', ch)
        if unicodedata.ucd_3_2_0.category(ch) == 'Cn' and unicodedata.normalize('NFKC', ch) != ch:
            continue                     # a compatibility character added after Unicode 3.2: not claimed
        want = prepare(text)
        rec.op()
        n = x509.Name.load(pki.name((pki.CN, text)))
        try:
            h = n.hashable
        except ValueError:
            h = None
        if (h is None) is not (want is None):
            raise Violation('U+%04X in %r %s be prepared' % (c, frame, 'can not' if want is not None else 'can'))
        if h is None:
            continue
        if by_hash.setdefault(h, want) != want:
            raise Violation('U+%04X in %r has the same hash as %r, not %r' % (c, frame, by_hash[h], want))
        m = x509.Name.load(pki.name((pki.CN, want)))
        if n != m or m.hashable != h:
            raise Violation('U+%04X in %r is not equal to its normal form %r' % (c, frame, want))
        if n == x509.Name.load(pki.name((pki.CN, want + want if want else u'x'))):
            raise Violation('U+%04X in %r is equal to something else' % (c, frame))
        if c % 64 == 0:
            rec.state((f, c))


def gen_forbidden(tier):
    for f in FORBIDDEN:
        for where in (u'%s', u'a%s', u'%sa'):
            yield (where % f,)


def check_forbidden(case, rec):
    t, = case
    rec.op()
    rec.state(t)
    a, b = (x509.Name.load(pki.name((pki.CN, t))) for _ in (0, 1))
    for f in (lambda: a == b, lambda: b != a, lambda: a.hashable, lambda: a == b):
        try:
            f()
        except ValueError:
            continue
        raise Violation('%r can not be prepared, but is compared' % t)


# ------------------------------------------------------------------ relative names
ATVS = [(pki.CN, u'a'), (pki.CN, u'A'), (pki.CN, u'z'), (pki.O, u'a'), (pki.O, u'b'), (pki.C, u'c'), ('1.2.3', u'a'), (pki.CN, u'b')]


def rdn_items(k):
    return [s for r in range(1, k + 1) for s in itertools.combinations(range(len(ATVS)), r)]


def rdn_der(s):
    return pki.rdn(*[atv(ATVS[i][0], pki.utf8(ATVS[i][1])) for i in s])


def rdn_obj(s, how):
    if how == 0:
        return x509.RelativeDistinguishedName.load(rdn_der(s))
    if how == 2:
        # in another order than that of DER
        return x509.RelativeDistinguishedName.load(ref.tlv(0, True, 17, b''.join(sorted((atv(ATVS[i][0], pki.utf8(ATVS[i][1])) for i in s), reverse=True))))
    return x509.RelativeDistinguishedName([x509.NameTypeAndValue({'type': ATVS[i][0], 'value': core.UTF8String(ATVS[i][1]) if ATVS[i][0] == '1.2.3' else x509.DirectoryString('utf8_string', ATVS[i][1])}) for i in s])


def rdn_norm(s):
    return tuple(sorted((ATVS[i][0], ATVS[i][1].lower()) for i in s))


def gen_rdn(tier):
    for i in range(len(rdn_items(3 if tier == 'quick' else 4))):
        yield (tier, i)


def check_rdn(case, rec):
    tier, i = case
    items = rdn_items(3 if tier == 'quick' else 4)
    a = [rdn_obj(items[i], how) for how in (0, 1, 2)]
    na = rdn_norm(items[i])
    if len(set(x.hashable for x in a)) != 1:
        raise Violation('hash of %s' % (items[i],))
    for s in items:
        b = [rdn_obj(s, how) for how in (0, 1, 2)]
        nb = rdn_norm(s)
        for x, y in ((a[0], b[1]), (b[0], a[1]), (a[2], b[0]), (b[2], a[2]), (a[1], b[1])):
            rec.op()
            if (x == y) is not (na == nb) or (x != y) is not (na != nb):
                raise Violation('%s == %s is %s' % (na, nb, x == y))
        if na == nb and a[0].hashable != b[0].hashable:
            raise Violation('%s and %s have other hashes' % (items[i], s))
        if na != nb and a[0].hashable == b[0].hashable:
            raise Violation('%s and %s are not equal and have the same hashable value' % (items[i], s))
    rec.state(na)


# ------------------------------------------------------------------ names
RDNS = [(0,), (1,), (3,), (5,), (0, 3), (1, 3), (0, 2), (7, 2)]


def name_items(k):
    return [s for r in range(0, k + 1) for s in itertools.product(range(len(RDNS)), repeat=r)]


def name_der(s):
    return ref.seq(*[rdn_der(RDNS[i]) for i in s])


def gen_name(tier):
    for i in range(len(name_items(2 if tier == 'quick' else 3))):
        yield (tier, i)


def check_name(case, rec):
    tier, i = case
    items = name_items(2 if tier == 'quick' else 3)
    s = items[i]
    a = x509.Name.load(name_der(s))
    a2 = x509.Name('', x509.RDNSequence([rdn_obj(RDNS[j], 1) for j in s]))
    na = [rdn_norm(RDNS[j]) for j in s]
    if a != a2 or a.hashable != a2.hashable or a.dump() != a2.dump() or len(a) != len(s):
        raise Violation('%s constructed and decoded are not equal' % (na,))
    if a.chosen == a or a == a.chosen or a == None or a == a.dump():  # noqa
        raise Violation('a name is equal to something else')
    if (tier, 'names') not in CACHE:
        CACHE[tier, 'names'] = [(x509.Name.load(name_der(x)), [rdn_norm(RDNS[j]) for j in x]) for x in items]
    for b, nb in CACHE[tier, 'names']:
        rec.op(2)
        if (a == b) is not (na == nb) or (b != a2) is not (na != nb) or (a.chosen == b.chosen) is not (na == nb):
            raise Violation('%s == %s is %s' % (na, nb, a == b))
        if na == nb and a.hashable != b.hashable:
            raise Violation('%s and %s have other hashes' % (na, nb))
        if na != nb and a.hashable == b.hashable:
            raise Violation('%s and %s are not equal and have the same hashable value' % (na, nb))
    rec.state(repr(na))
    show(a, [[ATVS[j] for j in RDNS[k]] for k in s])
    show(a2, [[ATVS[j] for j in RDNS[k]] for k in s])


LABEL = {pki.CN: 'Common Name', pki.O: 'Organization', pki.C: 'Country', '1.2.3': '1.2.3'}
NAMEOF = {pki.CN: 'common_name', pki.O: 'organization_name', pki.C: 'country_name', '1.2.3': '1.2.3'}


def show(n, rdns):
    """native and human friendly form; rdns: lists of (type, text)"""
    want = collections.OrderedDict()
    for r in rdns:
        for t, v in sorted(r, key=lambda x: atv(x[0], pki.utf8(x[1]))):
            want.setdefault(t, []).append(v)
    native = n.native
    if list(native.items()) != [(NAMEOF[t], v if len(v) > 1 else v[0]) for t, v in want.items()]:
        raise Violation('native of %s is %s' % (rdns, native))
    human = n.human_friendly
    parts = ['%s: %s' % (LABEL[t], ', '.join(v[::-1])) for t, v in want.items()]
    last = sorted(rdns[-1], key=lambda x: atv(x[0], pki.utf8(x[1])))[-1][0] if rdns else None
    if last != pki.C:
        parts = parts[::-1]
    sep = '; ' if any(',' in p for p in parts) else ', '
    if human != sep.join(parts):
        raise Violation('human friendly form of %s is %r' % (rdns, human))


def gen_human(tier):
    # values that are not text, and more than two of a type
    for o in ('2.5.4.45', '1.2.3.4', pki.CN):
        for n in (1, 2, 3, 4):
            for shape in ('rdns', 'set'):
                yield (o, n, shape)


def check_human(case, rec):
    o, n, shape = case
    vals = [ref.u(3, b'\0v%d' % i) if o == '2.5.4.45' else ref.integer(i + 70) if o == '1.2.3.4' else pki.utf8(u'v%d' % i) for i in range(n)]
    atvs = [atv(o, v) for v in vals]
    d = ref.seq(*[ref.set_(a) for a in atvs]) if shape == 'rdns' else ref.seq(ref.set_(*atvs))
    name = x509.Name.load(d)
    rec.op()
    rec.state(case)
    want = [b'v%d' % i if o == '2.5.4.45' else i + 70 if o == '1.2.3.4' else u'v%d' % i for i in range(n)]
    got = list(name.native.values())
    if got != [want if n > 1 else want[0]]:
        raise Violation('native of %s is %s' % (case, name.native))
    text = name.human_friendly
    for w in want:
        if (u'v%d' % want.index(w) if o != '1.2.3.4' else u'%d' % w) not in text:
            raise Violation('human friendly form %r does not have %r' % (text, w))


# ------------------------------------------------------------------ build
def build_types():
    out = []
    for o, n in sorted(x509.NameType._map.items()):
        spec = x509.NameTypeAndValue._oid_specs.get(n)
        out.append((o, n, spec))
    return out


def expected_value(o, n, text, printable):
    """the encoding RFC 5280 and the documentation of build() give"""
    if n == 'unique_identifier':
        return ref.u(3, b'\0' + text)
    if n in ('email_address', 'domain_component'):
        return pki.ia5(text)
    if n == 'telephone_number' or n in ('dn_qualifier', 'country_name', 'serial_number'):
        return pki.printable(text)
    if n.startswith('tpm_') or n.startswith('platform_'):
        return pki.utf8(text)
    return pki.printable(text) if printable else pki.utf8(text)


def gen_build(tier):
    n = len(build_types())
    for printable in (False, True):
        for a in range(n):
            for key in (0, 1):
                yield ((a,), key, printable)
        for a, b in itertools.permutations(range(n), 2):
            yield ((a, b), (a + b) % 2, printable)
        if tier == 'thorough':
            for c in itertools.combinations(range(0, n, 2), 3):
                yield (c[::-1], sum(c) % 2, printable)
    for r in range(n):
        yield (tuple(range(n))[r:] + tuple(range(n))[:r], r % 2, False)
    yield ((), 0, False)


def check_build(case, rec):
    idx, key, printable = case
    types = build_types()
    d = collections.OrderedDict()
    want = []
    for k, i in enumerate(idx):
        o, n, spec = types[i]
        text = b'v%d' % k if n == 'unique_identifier' else u'v%d@x.y' % k if n == 'email_address' else u'v%d' % k
        d[(n, o)[key]] = text
        want.append((n, ref.set_(atv(o, expected_value(o, n, text, printable))), text))
    name = x509.Name.build(d, printable) if printable else x509.Name.build(d)
    rec.op()
    rec.state(case)
    order = x509.NameType.preferred_order
    want.sort(key=lambda w: (order.index(w[0]) if w[0] in order else len(order), w[0]))
    if name.dump() != ref.seq(*[w[1] for w in want]):
        raise Violation('build(%r) encodes as %s, expected %s' % (d, name.dump().hex(), ref.seq(*[w[1] for w in want]).hex()))
    if list(name.native.items()) != [(w[0], w[2]) for w in want]:
        raise Violation('build(%r) has native %r' % (d, name.native))
    again = x509.Name.build(name.native, printable)
    if again != name or again.dump() != name.dump():
        raise Violation('build() of the native value %r is another name' % name.native)
    if len(set(order)) != len(order):
        raise Violation('order')


def gen_order(tier):
    keys = [n for _, n, _ in build_types()] + [o for o, _, _ in build_types()] + ['1.2.3', '1.2.10', '1.2.3.4', '2.5.4.999', '0.9']
    for a in keys:
        yield (a, tuple(keys))


def check_order(case, rec):
    a, keys = case
    order = x509.NameType.preferred_order
    by_oid = dict((o, n) for o, n, _ in build_types())

    def place(k):
        k = by_oid.get(k, k)
        return (order.index(k) if k in order else len(order), k)
    for b in keys:
        rec.op()
        x, y = x509.NameType.preferred_ordinal(a), x509.NameType.preferred_ordinal(b)
        if (x < y, x == y) != (place(a) < place(b), place(a) == place(b)):
            raise Violation('preferred order of %s and %s: %r and %r' % (a, b, x, y))
        rec.state(a, b)


def gen_refused(tier):
    for d in ({u'nope': u'a'}, {u'1.2.3.4': u'a'}, {u'common_name': 5}, {u'common_name': None}, {u'common_name': b'a'}, {u'unique_identifier': u'a'}, {u'email_address': u'\xe9@a'}, {u'domain_component': u'a..b'}, {u'common_name': [u'a', u'b']}):
        yield (repr(sorted(d.items())),)


def check_refused(case, rec):
    d = dict(eval(case[0]))
    rec.op()
    rec.state(case)
    try:
        n = x509.Name.build(d)
    except (ValueError, TypeError):
        return
    raise Violation('build(%r) is accepted, as %s' % (d, n.dump().hex()))


# ------------------------------------------------------------------ changes
def changes():
    c = collections.OrderedDict()
    c['value'] = lambda n: n.chosen[0][0].__setitem__('value', x509.DirectoryString('utf8_string', u'new'))
    c['type'] = lambda n: n.chosen[0][0].__setitem__('type', 'surname')
    c['chosen'] = lambda n: n.chosen[0][0]['value'].chosen.set(u'NEW')
    c['append'] = lambda n: n.chosen.append(rdn_obj((5,), 1))
    c['del'] = lambda n: n.chosen.__delitem__(0)
    c['rdn'] = lambda n: n.chosen[-1].append(x509.NameTypeAndValue({'type': 'title', 'value': x509.DirectoryString('utf8_string', u'T')}))
    c['replace'] = lambda n: n.chosen.__setitem__(0, rdn_obj((2, 4), 1))
    c['native'] = lambda n: n.native
    c['eq'] = lambda n: n == x509.Name.load(name_der((1, 4)))
    c['hash'] = lambda n: n.hashable
    c['dump'] = lambda n: n.dump()
    return c


CHANGES = changes()


def model_change(m, c):
    """m: list of lists of [type, value]"""
    if c == 'value' or c == 'chosen':
        m[0][0][1] = u'new' if c == 'value' else u'NEW'
    elif c == 'type':
        m[0][0][0] = '2.5.4.4'
    elif c == 'append':
        m.append([[pki.C, u'c']])
    elif c == 'del':
        del m[0]
    elif c == 'rdn':
        m[-1].append(['2.5.4.12', u'T'])
    elif c == 'replace':
        m[0] = [[pki.CN, u'z'], [pki.O, u'b']]


def gen_change(tier):
    for start in ((0,), (0, 2), (4, 0)):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for ops in itertools.product(CHANGES, repeat=n):
                yield (start, ops)


def check_change(case, rec):
    start, ops = case
    m = [[list(ATVS[j]) for j in sorted(RDNS[k], key=lambda j: atv(ATVS[j][0], pki.utf8(ATVS[j][1])))] for k in start]
    n = x509.Name.load(name_der(start))
    if start == (4, 0) and any(o in ('value', 'type', 'chosen') for o in ops):
        return                                             # which value is the first one of a set depends on the order
    for op in ops:
        if not m or op in ('value', 'type', 'chosen') and len(m[0]) > 1:
            return
        CHANGES[op](n)
        model_change(m, op)
        rec.op()
    want = ref.seq(*[pki.rdn(*[atv(t, pki.utf8(v)) for t, v in r]) for r in m])
    fresh = x509.Name.load(want)
    if not (n == fresh and fresh == n) or n != fresh or n.hashable != fresh.hashable:
        raise Violation('%s after %s is not equal to %s: %s' % (start, ops, m, n.native))
    def unordered(native):
        return sorted((k, sorted(v) if isinstance(v, list) else v) for k, v in native.items())

    if n.dump(force='chosen' in ops) != want:                  # a primitive value that is set in place is encoded by force
        raise Violation('%s after %s encodes as %s, expected %s' % (start, ops, n.dump().hex(), want.hex()))
    if 'chosen' not in ops and unordered(n.native) != unordered(fresh.native):
        raise Violation('%s after %s has native %r, expected %r' % (start, ops, n.native, fresh.native))
    wrong = x509.Name.load(pki.name((pki.CN, u'something else')))
    if n == wrong:
        raise Violation('equal to something else')
    rec.state(want)


# ------------------------------------------------------------------ long texts, long names
def gen_sizes(tier):
    ns = list(range(1, 34)) + [62, 63, 64, 65, 127, 128, 129, 255, 256, 257] + ([511, 512, 1000, 4096, 65536] if tier == 'thorough' else [])
    for n in ns:
        for what in ('text', 'spaces', 'words', 'rdns', 'types', 'set'):
            if n <= 129 or what in ('text', 'spaces', 'words') or n <= 257 and tier == 'thorough':
                yield (what, n)


def check_sizes(case, rec):
    what, n = case
    rec.state(case)
    # (name, what it means): names that mean the same are equal, others are not
    items = []
    if what in ('text', 'spaces', 'words'):
        unit = u'a' if what != 'words' else u'ab '
        base = (unit * n).strip() if what != 'spaces' else u'a' + u' ' * n + u'b'
        norm = base if what != 'spaces' else u'a b'
        variants = [(base, norm), (base.upper(), norm), (u' ' + base + u'  ', norm), (base + u'\xad', norm), (base + u'z', norm + u'z'), (base[:-1] + u'y', norm[:-1] + u'y'),
                    (u'x' + base[1:], u'x' + norm[1:]), (base + u' a', norm + u' a'), (base + u'a', norm + u'a'), (base.replace(u' ', u'   '), norm)]
        if what == 'spaces':
            variants += [(u'a' + u' ' * (n + 1) + u'b', norm), (u'ab', u'ab')]
        for t, m in variants:
            for enc in (pki.utf8, lambda t: ref.u(30, t.encode('utf-16-be'))):
                items.append((pki.name(pki.rdn(pki.atv(pki.O, enc(t)))), [[m]]))
            items.append((pki.name((pki.C, u'DE'), (pki.O, t)), [[u'de'], [m]]))
    elif what in ('rdns', 'types'):
        o = (lambda i: pki.CN) if what == 'rdns' else (lambda i: '1.2.3.%d' % i)
        base = [(o(i), u'v%d' % i) for i in range(n)]
        for at in sorted(set(i for i in (0, 1, n // 2, n - 2, n - 1) if 0 <= i < n)):
            for v in (u'V%d' % at, u'other'):
                w = list(base)
                w[at] = (o(at), v)
                items.append((w, [(t, x.lower()) for t, x in w]))
            items.append((base[:at] + base[at + 1:], base[:at] + base[at + 1:]))
        items += [(base, base), (base + base[-1:], base + base[-1:]), (base[::-1], base[::-1])]
        items = [(pki.name(*a), b) for a, b in items]
    else:
        base, upper = [[atv(pki.CN if i % 2 else '1.2.3.%d' % i, pki.utf8(c + u'%d' % i)) for i in range(n)] for c in u'vV']
        less = base[:-1] + [atv(pki.O, pki.utf8(u'v'))]
        for m, atvs in (('base', base), ('base', upper), ('less', less), ('more', base + less[-1:]), ('rest' if n > 1 else 'less', base[1:] + less[-1:])):
            items.append((ref.seq(ref.set_(*atvs)), m))
            items.append((ref.seq(ref.set_(*atvs[::-1])), m))
            items.append((ref.seq(ref.set_(*atvs), ref.set_(atv(pki.O, pki.utf8(u'w')))), (m, 'w')))
    names = [(x509.Name.load(d), m) for d, m in items]
    for a, m in names:
        for b, k in names:
            rec.op(2)
            if (a == b) is not (m == k) or (a != b) is not (m != k) or (a.hashable == b.hashable) is not (m == k):
                raise Violation('%s of size %d: %s == %s is %s, the same hashable value: %s, expected %s' % (
                    what, n, a.dump().hex()[:300], b.dump().hex()[:300], a == b, a.hashable == b.hashable, m == k))
    if what == 'rdns':
        a = names[-3][0]
        want = [u'v%d' % i for i in range(n)]
        if a.native != {'common_name': want if n > 1 else want[0]} or a.human_friendly != u'Common Name: ' + u', '.join(want[::-1]):
            raise Violation('%d common names: native is %r, human friendly %r' % (n, a.native, a.human_friendly))
    elif what == 'types':
        a = names[-3][0]
        if list(a.native.items()) != [('1.2.3.%d' % i, u'v%d' % i) for i in range(n)] or \
                a.human_friendly != u', '.join(u'1.2.3.%d: v%d' % (i, i) for i in reversed(range(n))):
            raise Violation('%d types: native is %r, human friendly %r' % (n, a.native, a.human_friendly))
    elif what == 'text':
        for t in (u'a' * n, u'\xe9' * n):
            b = x509.Name.build({'organization_name': t})
            if b.dump() != pki.name((pki.O, t)) or b.native != {'organization_name': t}:
                raise Violation('a text of %d characters is built as %r' % (n, b.native))


SPACES = [
    Space('text', gen_text, check_text, 'all pairs of texts of up to 2 (3) of 52 tokens: case, spaces, ignored, composed and compatibility characters'),
    Space('values', gen_value, check_value, 'all pairs of attributes of all string types and other types, in 4 containers'),
    Space('code points', gen_point, check_point, 'every code point of the first two planes and of the tags, in 4 texts, vs the categories of Unicode 3.2'),
    Space('forbidden', gen_forbidden, check_forbidden, 'code points that can not be prepared'),
    Space('relative names', gen_rdn, check_rdn, 'all pairs of sets of up to 3 (4) of 8 attributes, in 3 forms'),
    Space('names', gen_name, check_name, 'all pairs of names of up to 2 (3) of 8 relative names; native and human friendly form'),
    Space('human', gen_human, check_human, 'values that are not text, several of a type'),
    Space('order', gen_order, check_order, 'all pairs of registered types (by name and by identifier) and unregistered identifiers'),
    Space('build', gen_build, check_build, 'all mappings of up to 2 (3) of all registered types, and of all of them'),
    Space('refused', gen_refused, check_refused, 'mappings that are no name'),
    Space('changes', gen_change, check_change, 'all sequences of up to 3 (4) edits and reads'),
    Space('sizes', gen_sizes, check_sizes, 'texts of 1-257 characters (runs of spaces, words), names of 1-129 (257) relative names, relative names of 1-129 (257) attributes; variants of '
          'each at the ends and in the middle, all pairs'),
]


def run(argv):
    return main('C23', SPACES, ['oracle: hand-made tables of normal forms of RFC 4518; reference encoder'], argv)
