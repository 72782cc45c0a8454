"""C22 - Internet names: IP addresses, DNS names, email addresses, URIs."""
import ipaddress
import itertools
import re
import socket
from .. import ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import x509, core  # noqa


def trap(f, *a):
    try:
        return ('ok', f(*a))
    except (ValueError, TypeError) as e:
        return ('refused', type(e).__name__)


def expect(got, want, what, *args):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what % args, got, want))


# ------------------------------------------------------------------ framings of a string
def framings(tag, content):
    """primitive, long length, chunked definite, chunked indefinite"""
    yield 'der', ref.u(tag, content)
    yield 'long', bytes([tag, 0x82, len(content) >> 8, len(content) & 255]) + content
    half = len(content) // 2
    yield 'chunks', ref.tlv(0, True, tag, ref.u(tag, content[:half]) + ref.u(tag, content[half:]))
    yield 'indefinite', ref.indef(0, tag, ref.u(tag, content[:half]) + ref.u(tag, content[half:]))


def check_decoded(cls, tag, content, native, rec, what):
    for label, der in framings(tag, content):
        if label == 'chunks':
            continue                                      # constructed with a definite length: C09
        o = cls.load(der)
        for rnd in (0, 1):
            rec.op()
            expect(trap(lambda: o.native), native, 'native of %s %s (%s)', what, content, label)
            o = o.copy()
        if label != 'indefinite':
            expect(cls.load(der).dump(), der, 'dump of %s %s (%s)', what, content, label)
        expect(cls.load(der).dump(force=True), ref.u(tag, content), 'forced dump of %s %s (%s)', what, content, label)


# ------------------------------------------------------------------ IP addresses: from text
V4 = [u'0.0.0.0', u'10.0.0.1', u'127.255.0.128', u'255.255.255.255', u'1.2.3.4']


def v6_texts(groups):
    """every way to write the address that RFC 4291 allows (a sample of cases)"""
    full = ['%x' % g for g in groups]
    yield ':'.join(full)
    yield ':'.join(full).upper()
    yield ':'.join('%04x' % g for g in groups)
    tail = '%d.%d.%d.%d' % (groups[6] >> 8, groups[6] & 255, groups[7] >> 8, groups[7] & 255)
    yield ':'.join(full[:6]) + ':' + tail
    for i in range(8):
        for j in range(i + 1, 9):
            if not any(groups[i:j]):
                yield ':'.join(full[:i]) + '::' + ':'.join(full[j:])
                if j <= 6:
                    yield ':'.join(full[:i]) + '::' + ':'.join(full[j:6] + [tail])


def gen_iptext(tier):
    for a in V4:
        for p in [None] + list(range(33)):
            yield ('4', a, p)
    for pattern in range(256):
        yield ('6', pattern, None)
    for pattern in (0, 1, 0x80, 0x81, 0x18, 0xff, 0xaa) if tier == 'quick' else range(256):
        for p in range(129):
            yield ('6', pattern, p)


def mask(width, p):
    return ((1 << width) - (1 << (width - p))).to_bytes(width // 8, 'big')


def check_iptext(case, rec):
    kind, a, p = case
    if kind == '4':
        texts = [a]
        octets = bytes(int(x) for x in a.split('.'))
    else:
        groups = [((0x2001 + i * 0x0fed) & 0xffff) if a >> i & 1 else 0 for i in range(8)]
        texts = list(v6_texts(groups)) if p is None or a in (0, 0x81) else list(v6_texts(groups))[:1]
        octets = b''.join(g.to_bytes(2, 'big') for g in groups)
    want = octets + (b'' if p is None else mask(len(octets) * 8, p))
    for t in texts:
        text = t if p is None else u'%s/%d' % (t, p)
        for make in (lambda: x509.IPAddress(text), lambda: x509.GeneralName('ip_address', text).chosen, again(x509.IPAddress, u'::9/5', text), again_ld(x509.IPAddress, ref.indef(0, 4, ref.u(4, b'\1\2') + ref.u(4, b'\3\4')), text)):
            o = make()
            rec.op()
            tag = o.implicit
            expect(o.contents, want, 'contents of IPAddress(%r)', text)
            expect(bytes(o), want, 'bytes of IPAddress(%r)', text)
            if not tag:
                expect(o.dump(), ref.u(4, want), 'dump of IPAddress(%r)', text)
            expect(octets_of(o.native), want, 'native %r of IPAddress(%r)', o.native, text)
            expect(octets_of(x509.IPAddress.load(ref.u(4, want)).native), want, 'decoded native of IPAddress(%r)', text)
    rec.state(kind, a, p)


def again(cls, first, second):
    def make():
        o = cls(first)
        o.native, o.dump(), o == o.copy()
        o.set(second)
        return o
    return make


def again_ld(cls, der, second):
    def make():
        o = cls.load(der)
        o.native, o.dump(), o == o.copy()
        o.set(second)
        return o
    return make


def octets_of(native):
    addr, _, p = native.partition('/')
    o = ipaddress.ip_address(addr).packed
    return o + (mask(len(o) * 8, int(p)) if p else b'')


BADTEXT = [u'', u'1.2.3', u'1.2.3.4.5', u'1.2.3.256', u'1.2.3.-1', u'1.2.3.4/33', u'1.2.3.4/-1', u'1.2.3.4/x', u'1.2.3.4/', u'/8', u'::1/129', u'::1/-1', u':', u':::', u'1::2::3', u'1:2:3:4:5:6:7', u'1:2:3:4:5:6:7:8:9', u'12345::', u'g::',
           u'::1%eth0', u'fe80::1%1', u'[::1]', u'example.com', u'1.2.3.4:80', u'::1.2.3', u'::1.2.3.4.5', u'1.2.3.4/255.0.0.0', u'1.2.3.4/8/8', u' 1.2.3.4', u'1.2.3.4 ', u'0x1.2.3.4', u'\u0661.2.3.4']


def gen_badip(tier):
    for t in BADTEXT:
        for base in (None, u'10.0.0.0/8', u'::1'):
            yield (t, base)


def check_badip(case, rec):
    t, base = case
    rec.op()
    rec.state(case)
    if base is None:
        got = trap(x509.IPAddress, t)
        if got[0] == 'ok':
            raise Violation('IPAddress(%r) is accepted, as %r' % (t, got[1].dump()))
        return
    o = x509.IPAddress(base)
    before = o.dump()
    got = trap(o.set, t)
    if got[0] == 'ok' or o.native != base or o.dump() != before or bytes(o) != before[2:]:
        raise Violation('set(%r) on %r: %r, native %r' % (t, base, got, o.native))


# ------------------------------------------------------------------ IP addresses: from octets
def gen_ipoctets(tier):
    for n in range(0, 41):
        for fill in (0, 1, 0xff):
            yield (bytes([fill]) * n,)
    for m in itertools.product((0, 0x80, 0xc0, 0xfe, 0xff, 1, 0x7f, 0x55), repeat=4):
        yield (b'\x0a\0\0\1' + bytes(m),)
    for m in range(256):
        for i in range(4):
            yield (b'\xff\0\0\1' + b'\xff' * i + bytes([m]) + b'\0' * (3 - i),)
    a6 = b'\x20\1' + b'\0' * 13 + b'\1'
    for p in range(129):
        yield (a6 + mask(128, p),)
        for b in range(128):
            if tier == 'thorough' or b in (0, 1, 64, 127, p, p - 1, p + 1, p - 8, p + 8):
                m = int.from_bytes(mask(128, p), 'big') ^ (1 << (127 - b))
                yield (a6 + m.to_bytes(16, 'big'),)


def ip_native(c):
    """None or (address octets, prefix length or None)"""
    n = {4: 4, 8: 4, 16: 16, 32: 16}.get(len(c))
    if n is None:
        return None
    if len(c) == n:
        return (c, None)
    bits = ''.join('{0:08b}'.format(x) for x in c[n:])
    if '01' in bits:
        return None
    return (c[:n], bits.count('1'))


def check_ipoctets(case, rec):
    c, = case
    want = ip_native(c)
    for label, der in framings(4, c):
        if label == 'chunks':
            continue
        o = x509.IPAddress.load(der)
        for _ in (0, 1):
            rec.op()
            got = o.native
            if got is not None:
                a, _, p = got.partition('/')
                if got.count('/') > 1 or (p and str(int(p)) != p):
                    raise Violation('native of %s is %r' % (c.hex(), got))
                got = (ipaddress.ip_address(a).packed, int(p) if p else None)
            expect(got, want, 'native of IPAddress %s (%s)', c.hex(), label)
            expect(bytes(o), c, 'bytes of IPAddress')
            o = o.copy()
    if want:
        # the text leads to the octets again
        expect(x509.IPAddress(x509.IPAddress.load(ref.u(4, c)).native).contents, c, 'octets of the text of %s', c.hex())
    rec.state(c)
    rec.outcome('none' if want is None else 'text')


# ------------------------------------------------------------------ DNS names
LABELS = [  # text, A-label in the case that is encoded, or None
    (u'a', b'a'), (u'A', b'A'), (u'b-1', b'b-1'), (u'_x', b'_x'), (u'*', b'*'), (u'b\xfccher', b'xn--bcher-kva'), (u'B\xdcCHER', b'xn--bcher-kva'), (u'stra\xdfe', b'strasse'), (u'strasse', b'strasse'), (u'\uff41', b'a'),
    (u'\u4f8b', b'xn--fsq'), (u'e\u0301', b'xn--9ca'), (u'\xe9', b'xn--9ca'), (u'xn--bcher-kva', b'xn--bcher-kva'), (u'Xn--Bcher-Kva', b'Xn--Bcher-Kva'), (u'xn--strae-oqa', b'xn--strae-oqa'), (u'a' * 63, b'a' * 63), (u'a' * 64, None), (u'a b', b'a b'),
    (u'\xfc' * 60, None), (u'', None),
]
U_OF = {b'xn--bcher-kva': u'b\xfccher', b'xn--fsq': u'\u4f8b', b'xn--9ca': u'\xe9'}


def dns_unicode(c):
    try:
        return ('ok', u'.'.join(U_OF.get(l, l.decode('ascii')) for l in c.split(b'.')))
    except UnicodeDecodeError:
        return ('refused', 'UnicodeDecodeError')


def gen_dns(tier):
    for n in (1, 2, 3):
        for idx in itertools.product(range(len(LABELS) - 1), repeat=n):
            if n == 3 and tier == 'quick' and sum(idx) % 5:
                continue
            yield (idx, '')
            if n < 3:
                yield (idx, 'lead')
                yield (idx, 'trail')
                yield (idx, 'empty')
    for sep in (u'\u3002', u'\uff0e', u'\uff61'):
        yield ((0, 5), sep)


def check_dns(case, rec):
    idx, how = case
    parts = [LABELS[i] for i in idx]
    text = (how if how not in ('', 'lead', 'trail', 'empty') else u'.').join(p[0] for p in parts)
    want = None if any(p[1] is None for p in parts) else b'.'.join(p[1] for p in parts)
    if how == 'lead':
        text, want = u'.' + text, None if want is None else b'.' + want
    elif how == 'trail':
        text, want = text + u'.', None if want is None else want + b'.'
    elif how == 'empty':
        text, want = text + u'..a', None
    rec.state(case)
    for make in (lambda: x509.DNSName(text), lambda: x509.GeneralName('dns_name', text).chosen, again(x509.DNSName, u'\xfc.old', text), again_ld(x509.DNSName, ref.indef(0, 22, ref.u(22, b'xn--') + ref.u(22, b'9ca')), text)):
        rec.op()
        got = trap(make)
        if want is None:
            if got[0] == 'ok':
                raise Violation('DNSName(%r) is accepted, as %r' % (text, got[1].contents))
            continue
        if got[0] != 'ok':
            raise Violation('DNSName(%r) is refused' % text)
        o = got[1]
        expect(o.contents, want, 'contents of DNSName(%r)', text)
        if not o.implicit:
            expect(o.dump(), ref.u(22, want), 'dump of DNSName(%r)', text)
        expect(o.native, text, 'native of DNSName(%r)', text)
        expect(str(o), text, 'str of DNSName(%r)', text)
    if want is not None:
        check_decoded(x509.DNSName, 22, want, dns_unicode(want), rec, 'DNSName')
        t = dns_unicode(want)[1]
        expect(x509.DNSName(t).contents, want, 'encoding of the text %r', t)
        rec.outcome('valid')


def gen_rawdns(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for s in itertools.product((b'a', b'Z', b'.', b'-', b'*', b'xn--', b'\x80', b' '), repeat=n):
            yield (b''.join(s),)


def check_rawdns(case, rec):
    c, = case
    native = dns_unicode(c)
    got = trap(lambda: x509.DNSName.load(ref.u(22, c)).native)
    rec.op()
    rec.state(c)
    if native[0] == 'refused':
        expect(got[0], 'refused', 'native of the DNSName %r', c)
    elif not any(l.startswith(b'xn--') for l in c.split(b'.')):
        expect(got, native, 'native of the DNSName %r', c)
    else:
        # any decoding of the label: it has to encode to the same octets
        if got[0] != 'ok':
            raise Violation('native of the DNSName %r is refused' % c)
        if not any(l == '' for l in got[1].split('.')):
            expect(trap(lambda: x509.DNSName(got[1]).contents), ('ok', c), 'encoding of the native of the DNSName %r', c)


# ------------------------------------------------------------------ equality
def pairs_space(name, items, cls, tag, doc, small=lambda items: items):
    """items: list of (maker label, maker, normal form)"""
    everything = items

    def gen(tier):
        for i in range(len(small(everything))) if tier == 'quick' else range(len(everything)):
            yield (i, tier == 'quick')

    def check(case, rec):
        i, quick = case
        items = small(everything) if quick else everything
        la, fa, na = items[i]
        a = fa()
        da = a.dump()
        for j in range(len(items)):
            lb, fb, nb = items[j]
            if j % 50 == 0:
                a = fa()
            b = fb()
            db = b.dump()
            for x, y in ((a, b), (b, a), (a, b)):
                rec.op()
                got = (x == y, x != y)
                if got != (na == nb, na != nb):
                    raise Violation('%s == %s is %s, != is %s; normal forms %r, %r' % (la, lb, got[0], got[1], na, nb))
            if (a.dump(), b.dump()) != (da, db):
                raise Violation('comparing %s and %s changed their encoding' % (la, lb))
            rec.outcome('equal' if na == nb else 'not equal')
        a = fa()
        for other in (None, 5, u'a', a.native, core.IA5String(u'a'), core.OctetString(b'a'), object()):
            if (a == other, a != other) != (False, True):
                raise Violation('%s == %r' % (la, other))
        rec.state(repr(na))
    return Space(name, gen, check, doc)


def decoded(cls, tag, content):
    for label, der in framings(tag, content):
        if label != 'chunks':
            yield ('%s %r' % (label, content), lambda der=der: cls.load(der))


def dns_items():
    out = []
    for t in (u'a.b', u'A.b', u'a.B', u'a.c', u'a', u'a.b.c', u'b\xfccher.b', u'B\xdccher.B', u'xn--bcher-kva.b', u'Xn--bcher-KVA.b', u'stra\xdfe.b', u'strasse.b', u'\uff41.b', u'.a.b', u'a.b.', u'*.b', u'', u'\xe9', u'e\u0301'):
        lead = u'.' if t.startswith(u'.') else u''
        labels = t[len(lead):].split(u'.')
        table = dict((k, v) for k, v in LABELS if v)
        c = lead.encode() + b'.'.join(table[l] if l in table else b'xn--bcher-kva' if l == u'B\xdccher' else l.encode('ascii') for l in labels)
        out.append(('DNSName(%r)' % t, lambda t=t: x509.DNSName(t), c.lower()))
        for l, f in decoded(x509.DNSName, 22, c):
            out.append((l, f, c.lower()))
    out.append(('a..b', lambda: x509.DNSName.load(ref.u(22, b'a..b')), b'a..b'))
    out.append(('xn--strae-oqa', lambda: x509.DNSName.load(ref.u(22, b'xn--strae-oqa.b')), b'xn--strae-oqa.b'))
    return out


def ip_items():
    out = []
    for t in (u'10.0.0.1', u'10.0.0.2', u'10.0.0.1/32', u'10.0.0.1/8', u'::1', u'0:0::1', u'::a00:1', u'::10.0.0.1', u'::ffff:10.0.0.1', u'::1/128', u'::1/0', u'0.0.0.0/0', u'::', u'0.0.0.0'):
        c = octets_of(t)
        out.append(('IPAddress(%r)' % t, lambda t=t: x509.IPAddress(t), c))
        for l, f in decoded(x509.IPAddress, 4, c):
            out.append((l, f, c))
    for c in (b'', b'\x0a', b'\x0a\0\0\1\0\xff\0\xff', b'\x0a\0\0\1\xff\0\xff\0'):
        for l, f in decoded(x509.IPAddress, 4, c):
            out.append((l, f, c))
    return out


# ------------------------------------------------------------------ email
BOXES = [u'a', u'A', u'a.b', u'"x@y"', u'a+b', u'', u'a b', u'x@y']
HOSTS = [(u'h', b'h'), (u'H', b'H'), (u'example.com', b'example.com'), (u'Example.COM', b'Example.COM'), (u'b\xfccher.de', b'xn--bcher-kva.de'), (u'B\xdcCHER.de', b'xn--bcher-kva.de'), (u'stra\xdfe.de', b'strasse.de'), (u'strasse.de', b'strasse.de'),
         (u'', b''), (u'xn--bcher-kva.de', b'xn--bcher-kva.de'), (u'xn--strae-oqa.de', b'xn--strae-oqa.de'), (u'[10.0.0.1]', b'[10.0.0.1]'), (u'10.0.0.1', b'10.0.0.1')]
PLAIN = [u'', u'abc', u'ABC', u'example.com', u'.example.com']


def gen_email(tier):
    for b in range(len(BOXES)):
        for h in range(len(HOSTS)):
            yield (b, h)
    for p in PLAIN:
        yield (p, None)
    for t in (u'\xe9@a.b', u'a@b..c', u'\xe9', u'a@' + u'x' * 64, u'a@.b'):
        yield (t, 'bad')


def check_email(case, rec):
    b, h = case
    rec.state(case)
    if h == 'bad':
        text, want = b, None
    elif h is None:
        text, want = b, b.encode('ascii')
    else:
        text, want = BOXES[b] + u'@' + HOSTS[h][0], BOXES[b].encode('ascii') + b'@' + HOSTS[h][1]
    for make in (lambda: x509.EmailAddress(text), lambda: x509.GeneralName('rfc822_name', text).chosen, again(x509.EmailAddress, u'old@\xfc', text), again_ld(x509.EmailAddress, ref.indef(0, 22, ref.u(22, b'q@xn--') + ref.u(22, b'9ca')), text)):
        rec.op()
        got = trap(make)
        if want is None:
            expect(got[0], 'refused', 'EmailAddress(%r)', text)
            continue
        if got[0] != 'ok':
            raise Violation('EmailAddress(%r) is refused' % text)
        o = got[1]
        expect(o.contents, want, 'contents of EmailAddress(%r)', text)
        expect(o.native, text, 'native of EmailAddress(%r)', text)
        if not o.implicit:
            expect(o.dump(), ref.u(22, want), 'dump of EmailAddress(%r)', text)
    if want is not None:
        if h is None:
            native = text
        else:
            native = BOXES[b] + u'@' + dns_unicode(HOSTS[h][1])[1]
        check_decoded(x509.EmailAddress, 22, want, ('ok', native), rec, 'EmailAddress')


def email_items():
    out = []
    for b in (u'a', u'A', u'"x@y"', u''):
        for t, c in HOSTS[:8] + HOSTS[9:10]:
            full = b.encode('ascii') + b'@' + c
            norm = (b, c.lower())
            out.append(('EmailAddress(%r)' % (b + u'@' + t), lambda v=b + u'@' + t: x509.EmailAddress(v), norm))
            if b != u'A':
                for l, f in decoded(x509.EmailAddress, 22, full):
                    out.append((l, f, norm))
    for p in PLAIN:
        out.append(('EmailAddress(%r)' % p, lambda p=p: x509.EmailAddress(p), (None, p.encode('ascii'))))
        for l, f in decoded(x509.EmailAddress, 22, p.encode('ascii')):
            out.append((l, f, (None, p.encode('ascii'))))
    out.append(('latin', lambda: x509.EmailAddress.load(ref.u(22, b'\xe9@h')), (u'\xe9', b'h')))
    return out


# ------------------------------------------------------------------ URIs
UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'
SUB = "!$&'()*+,;="
RESERVED = ':/?#[]@' + SUB
SAFE = {'user': SUB, 'pass': SUB, 'path': '/@:' + SUB, 'query': '/?@:' + SUB, 'fragment': '/?@:' + SUB}
DELIMS = {'user': ':/?#[]@', 'pass': '/?#[]@', 'path': '?#', 'query': '#', 'fragment': ''}


def token(comp, t):
    """(encoded, with escapes in upper case; text, with escapes in lower case) of one character or escape of an IRI"""
    if t.startswith('%') and len(t) > 2 and t != '%z':
        raw = bytes(int(x, 16) for x in t[1:].split('%'))
        if len(raw) > 1:
            return ''.join('%%%02X' % x for x in raw), raw.decode('utf-8')
        c = chr(raw[0])
        if raw[0] > 127:
            return '%%%02X' % raw[0], '%%%02x' % raw[0]
        if c in UNRESERVED:
            return c, c
        return '%%%02X' % raw[0], ('%%%02x' % raw[0]) if c in RESERVED + '%' or raw[0] < 32 or raw[0] == 127 else c
    if t in ('%', '%z'):
        return '%25' + t[1:], '%25' + t[1:]
    if t in UNRESERVED or t in SAFE[comp]:
        return t, t
    raw = t.encode('utf-8')
    return ''.join('%%%02X' % x for x in raw), t if t not in RESERVED else '%%%02x' % raw[0]


def tokens(comp, tier):
    raw = [c for c in '-._~Z9' + RESERVED if c not in DELIMS[comp]] + [u'\xe9', u'\u20ac', u'\U0001F600', '"', '<', '`', '{', '|', '\\', '^', '%z', '%']
    if comp in ('path', 'query', 'fragment'):
        raw.append(' ')
    esc = ['%' + '%02x' % ord(c) for c in 'Az~-' + RESERVED + '% "<\\\x00\x0a\x0d\x09\x1a\x1b\x1c\x1d\x1e\x1f\x7f'] + ['%c3%a9', '%E2%82%AC', '%f0%9f%98%80', '%ff', '%C3', '%80', '%2F', '%4A', '%3F']
    return raw + esc


def wrap(comp, text):
    """the URI with the component, and the function from the encoded component to the encoded URI"""
    return {
        'user': ('http://x%sy@h/p?q#f', 'http://x%sy@h/p?q#f'),
        'pass': ('http://u:x%sy@h/p?q#f', 'http://u:x%sy@h/p?q#f'),
        'path': ('http://h/x%sy?q#f', 'http://h/x%sy?q#f'),
        'query': ('http://h/p?x%sy#f', 'http://h/p?x%sy#f'),
        'fragment': ('http://h/p?q#x%sy', 'http://h/p?q#x%sy'),
        'ldap': ('ldap:///CN=x%sy', 'ldap:///CN=x%sy'),
        'urn': ('urn:x%sy', 'urn:x%sy'),
    }[comp]


COMPS = [('user', 'user'), ('pass', 'pass'), ('path', 'path'), ('query', 'query'), ('fragment', 'fragment'), ('ldap', 'path'), ('urn', 'path')]


def upper(b):
    return re.sub(b'%[0-9a-fA-F]{2}', lambda m: m.group(0).upper(), b)


def lower(t):
    return re.sub(u'%[0-9a-fA-F]{2}', lambda m: m.group(0).lower(), t)


def gen_uritok(tier):
    for where, comp in COMPS:
        n = len(tokens(comp, tier))
        for a in range(n):
            yield (where, comp, (a,))
            for b in range(n):
                if tier == 'thorough' and where in ('path', 'query', 'user'):
                    yield (where, comp, (a, b, -1))
                else:
                    yield (where, comp, (a, b))


def check_uritok(case, rec):
    where, comp, idx = case
    toks = tokens(comp, None)
    if idx[-1] == -1:
        for c in range(-1, len(toks)):
            check_uri_tokens(where, comp, [toks[i] for i in idx[:2]] + ([toks[c]] if c >= 0 else []), rec)
    else:
        check_uri_tokens(where, comp, [toks[i] for i in idx], rec)
    rec.state(case)


def check_uri_tokens(where, comp, seq, rec):
    for i, t in enumerate(seq):
        if t == '%' and i + 1 < len(seq) and not seq[i + 1].startswith('%'):
            return                                         # would be another escape
        if t == '%80' and i and seq[i - 1].startswith('%') and len(seq[i - 1]) > 2 and int(seq[i - 1][-2:], 16) > 127:
            return                                         # would complete or extend a sequence
    iri_f, uri_f = wrap(where, None)
    text = iri_f % ''.join(seq)
    parts = [token(comp, t) for t in seq]
    uri = (uri_f % ''.join(p[0] for p in parts)).encode('ascii')
    native = uri_f % ''.join(p[1] for p in parts)
    verify_uri(text, uri, native, rec)


def verify_uri(text, uri, native, rec):
    for make in (lambda: x509.URI(text), again_ld(x509.URI, ref.indef(0, 22, ref.u(22, b'http:') + ref.u(22, b'//h')), text)):
        rec.op()
        o = make()
        expect(upper(o.contents), uri, 'contents of URI(%r)', text)
        expect(o.native, text, 'native of URI(%r)', text)
        expect(o.dump(), ref.u(22, o.contents), 'dump of URI(%r)', text)
    for enc in (uri, o.contents):
        u = x509.URI.load(ref.u(22, enc))
        rec.op()
        expect(lower(u.native), native, 'native of the URI %r', enc)
        expect(upper(x509.URI(u.native).contents), uri, 'encoding of the native %r of the URI %r', u.native, enc)
        if not (u == o and o == u) or u != o:
            raise Violation('URI(%r) and its encoding %r are not equal' % (text, enc))


SCHEMES = ['http', 'https', 'ldap', 'HTTP', 'x-y+z.1', 'urn', 'file', 'ftp']
AUTHS = [None, '', 'h', 'H.Com', u'b\xfccher.de', u'B\xdcCHER.de', '[::1]', '[2001:DB8::1]', '10.0.0.1', 'xn--strae-oqa.de']
USERS = [None, 'u', 'u:p', 'u:', ':p', '', ':', 'u:p:q']
PORTS = [None, '80', '443', '389', '0', '65535']
PATHS = ['', '/', '/a', '/a/b', '/a//b/', '//a', 'a', 'a:b']
QUERIES = [None, 'q', 'a=b&c?/']
FRAGS = [None, 'f', '/?f']
A_OF = {u'b\xfccher.de': 'xn--bcher-kva.de', u'B\xdcCHER.de': 'xn--bcher-kva.de'}


def structures():
    for s, a, u, p, path in itertools.product(SCHEMES, AUTHS, USERS, PORTS, PATHS):
        if not a and (u is not None or p is not None):
            continue
        if a is None and path.startswith('//') or a is not None and not path.startswith('/') and path:
            continue
        if a == '' and s in ('http', 'https', 'HTTP'):
            continue
        yield (s, a, u, p, path)


def assemble(s, a, u, p, path, q, f, encode):
    out = s + ':'
    if a is not None:
        if encode:
            if u is not None and u.count(':') > 1:
                i = u.index(':') + 1
                u = u[:i] + u[i:].replace(':', '%3A' if encode == 'uri' else '%3a')
            a = A_OF.get(a, a).lower() if encode == 'uri' else {'xn--bcher-kva.de': u'b\xfccher.de'}.get(A_OF.get(a), a.lower())
        out += '//' + (u + '@' if u is not None else '') + a + (':' + p if p is not None else '')
    out += path
    return out + ('?' + q if q is not None else '') + ('#' + f if f is not None else '')


def gen_uri(tier):
    for i, st in enumerate(structures()):
        yield st


def check_uri(case, rec):
    s, a, u, p, path = case
    for q, f in itertools.product(QUERIES, FRAGS):
        text = assemble(s, a, u, p, path, q, f, None)
        uri = assemble(s.lower(), a, u, p, path, q, f, 'uri').encode('ascii')
        native = assemble(s.lower(), a, u, p, path, q, f, 'iri')
        verify_uri(text, uri, native, rec)
    rec.state(case)


def uri_items():
    out = []
    for s in ('http', 'https', 'ldap', 'HTTP'):
        for a in (None, 'h', 'H', u'b\xfccher.de', 'xn--bcher-kva.de', '[::1]'):
            for u, p in ((None, None), (None, '80'), (None, '443'), ('u', None), ('U', None), ('u:p', '80'), ('u:', None), ('', None)):
                if a is None and (u is not None or p is not None):
                    continue
                for path in ('', '/', '/a', '/A', '/a%2fb', '/a/b', '/a%2Fb', '/%61', '/a%3fq', '/a%2541', '/a%41', '/aA', '/a%0ab', '/ab', '/a%2cb', '/a,b', '/%c3%a9', u'/\xe9', '/a%1ab', '/%ff', '/%fe', '/a%23f'):
                    if a is None and path == '':
                        continue
                    if (s in ('HTTP', 'ldap') or a in (None, 'H', '[::1]') or u is not None) and path not in ('', '/', '/a', '/a%2fb'):
                        continue
                    for q, f in ((None, None), ('q', None), ('41', None), ('q', 'f'), (None, 'f')):
                        if path not in ('/a', '', '/') and q == 'q' or q == '41' and path != '/a%25' or path in ('', '/') and q is None and f is not None:
                            continue
                        text = assemble(s, a, u, p, path, q, f, None)
                        ls = s.lower()
                        port = None if (ls, p) in (('http', '80'), ('https', '443')) else p
                        toks = re.findall(u'%[cC]3%[aA]9|%[0-9a-fA-F]{2}|.', path)
                        npath = ''.join(token('path', t)[0] for t in toks)
                        if npath == '/' and q is None and f is None and a is not None:
                            npath = ''
                        norm = (ls, None if a is None else A_OF.get(a, a).lower(), u, port, npath, q, f)
                        out.append((text, lambda t=text: x509.URI(t), norm))
    return out


def fewer_uris(items):
    return [x for x in items if x[2][0] == 'http' and x[2][1] == 'h' and x[2][2:4] == (None, None) and x[0][:4] == 'http' or x[2][4:] in (('', None, None), ('/', None, None))]


# ------------------------------------------------------------------ the replacement of the inet functions for Windows
SHIM_TEXTS = ['::1.2.3.4', '::ffff:1.2.3.4', '1:2:3:4:5:6:1.2.3.4', '1:2:3:4:5:6:7:1.2.3.4', '1:2:3:4:5::1.2.3.4', '1:2:3:4:5:6::1.2.3.4', '1.2.3.4::', '::01.2.3.4', '1:2:3:4:5:6:1.2.3.256', '1.2.3.4:1::',
              '::1.2.3.4:1', '1.2.3.4::1.2.3.4', ':1.2.3.4', ':::1.2.3.4', '1::1.2.3', '1::1.2.3.4.5', '1:2:3:4:5:6:7::8', '::1%1', '::1/64', '1.2.3.4/8', ' ::1', '::1 ', '::1\n', '1.2.3.4\n', ' 1.2.3.4',
              '+1.2.3.4', '1_0.2.3.4', '1.2.3.-4', '::-1', '::+1', '::1_0', '::0x1', '::\u0661', '\u0661.2.3.4', '::12345', '::00001', '1.2.3', '1.2.3.4.5', '1..2.3', '0x1.2.3.4', '1e1.2.3.4', '[::1]', '1.2.3.256', '1.2.3.1000']


def gen_shim(tier):
    for z in range(256):
        for fill in (1, 0x10, 0xabc, 0xffff):
            yield ('v6', z, fill)
    for pos in range(4):
        for v in range(300):
            yield ('v4', pos, v)
    for n in range(0, 8 if tier == 'quick' else 9):
        for t in itertools.product('1a:.', repeat=n):
            yield ('text', ''.join(t))
    for t in SHIM_TEXTS:
        yield ('text', t)
    for what in ('family', 'type', 'length'):
        yield ('wrong', what)


def check_shim(case, rec):
    from asn1crypto import _inet
    V4, V6 = socket.AF_INET, socket.AF_INET6
    if case[0] == 'v6':
        groups = [0 if case[1] >> i & 1 else case[2] + i if case[2] < 0xfff0 else case[2] for i in range(8)]
        octets = b''.join(g.to_bytes(2, 'big') for g in groups)
        a = ipaddress.IPv6Address(octets)
        expect(trap(_inet.inet_ntop, V6, octets), ('ok', str(a)), 'the text of %s', octets.hex())
        hexed = ['%x' % g for g in groups]
        texts = [str(a), a.exploded, str(a).upper(), ':'.join(hexed), ':'.join(hexed[:6]) + ':' + str(ipaddress.IPv4Address(octets[12:]))]
        for i in range(8):
            for j in range(i + 1, 9):
                if not any(groups[i:j]):
                    texts.append(':'.join(hexed[:i]) + '::' + ':'.join(hexed[j:]))
                    if j <= 6:
                        texts.append(':'.join(hexed[:i]) + '::' + ':'.join(hexed[j:6] + [str(ipaddress.IPv4Address(octets[12:]))]))
        for t in texts:
            rec.op()
            expect(trap(_inet.inet_pton, V6, t), ('ok', octets), 'the octets of %s', t)
            expect(trap(_inet.inet_pton, V4, t), ('refused', 'ValueError'), '%s as an IPv4 address', t)
    elif case[0] == 'v4':
        groups = [9, 10, 199, 255]
        groups[case[1]] = case[2]
        t = '.'.join(map(str, groups))
        rec.op()
        if case[2] > 255:
            expect(trap(_inet.inet_pton, V4, t), ('refused', 'ValueError'), 'the octets of %s', t)
        else:
            expect(trap(_inet.inet_pton, V4, t), ('ok', bytes(groups)), 'the octets of %s', t)
            expect(trap(_inet.inet_ntop, V4, bytes(groups)), ('ok', t), 'the text of %s', bytes(groups).hex())
        expect(trap(_inet.inet_pton, V6, t), ('refused', 'ValueError'), '%s as an IPv6 address', t)
    elif case[0] == 'text':
        for family in (V4, V6):
            rec.op()
            try:
                want = ('ok', socket.inet_pton(family, case[1]))
            except (OSError, ValueError):
                want = ('refused', 'ValueError')
            expect(trap(_inet.inet_pton, family, case[1]), want, 'the octets of %r', case[1])
    else:
        rec.op()
        if case[1] == 'family':
            for f, x in ((_inet.inet_ntop, b'\1\2\3\4'), (_inet.inet_pton, '1.2.3.4')):
                for family in (0, 1, 3, 99, None):
                    if family not in (V4, V6):
                        expect(trap(f, family, x), ('refused', 'ValueError'), 'the address family %r', family)
        elif case[1] == 'type':
            for family in (V4, V6):
                expect(trap(_inet.inet_ntop, family, '1.2.3.4'), ('refused', 'TypeError'), 'a text to inet_ntop')
                expect(trap(_inet.inet_pton, family, b'1.2.3.4'), ('refused', 'TypeError'), 'octets to inet_pton')
        else:
            for n in range(20):
                for family, size in ((V4, 4), (V6, 16)):
                    if n != size:
                        expect(trap(_inet.inet_ntop, family, b'\1' * n), ('refused', 'ValueError'), '%d octets', n)
    rec.state(case)


# ------------------------------------------------------------------ long names
RUNS = [u'a', u'Z', u'\xe9', u'\u20ac', u'\U0001F600', u'%2f', u'%ff', u'%c3%a9', u'%25', u'%41', u'"', u'&', u'=', u'%0a']


def gen_sizes(tier):
    for n in list(range(3, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129] + ([255, 256, 1000] if tier == 'quick' else [254, 255, 256, 257, 1000, 4096, 65536]):
        for where, comp in COMPS:
            for r in RUNS:
                yield ('run', n, where, comp, r)
        for k in ('segments', 'query', 'labels', 'ulabels', 'label', 'box', 'names'):
            yield (k, n, None, None, None)


def check_sizes(case, rec):
    kind, n, where, comp, r = case
    rec.state(case)
    if kind == 'run':
        for seq in ([r] * n, [u'x'] * (n - 1) + [r], [r] + [u'%3d'] * (n - 1), [RUNS[i % 13] for i in range(n)][:-1] + [r]):
            check_uri_tokens(where, comp, seq, rec)
    elif kind == 'segments':
        path = u''.join(u'/s%d' % i for i in range(n))
        verify_uri(u'http://h' + path, ('http://h' + path).encode('ascii'), 'http://h' + path, rec)
        verify_uri(u'http://h' + u'/' * n, b'http://h' + b'/' * n, 'http://h' + '/' * n, rec)
    elif kind == 'query':
        q = u'&'.join(u'k%d=v%%26%d' % (i, i) for i in range(n))
        verify_uri(u'http://h/?' + q, ('http://h/?' + q).encode('ascii'), 'http://h/?' + q, rec)
    elif kind in ('labels', 'ulabels', 'label'):
        if kind == 'label':
            if n > 60:
                return
            text, want = u'a' * n + u'.b\xfccher', b'a' * n + b'.xn--bcher-kva'
        else:
            one = (u'b\xfccher', b'xn--bcher-kva') if kind == 'ulabels' else (u'l1', b'l1')
            text, want = u'.'.join([one[0]] * n), b'.'.join([one[1]] * n)
        for make in (lambda: x509.DNSName(text), lambda: x509.DNSName.load(ref.u(22, want))):
            rec.op(3)
            o = make()
            expect(o.native, text, 'native of DNSName(%r)', text)
            expect(o.contents, want, 'contents of DNSName(%r)', text)
            expect(o == x509.DNSName(text), True, 'equality of DNSName(%r)', text)
            expect(o == x509.DNSName(text + u'x'), False, 'equality of DNSName(%r) with a longer one', text)
        o = x509.EmailAddress(u'me@' + text)
        expect(o.contents, b'me@' + want, 'contents of an address at %r', text)
        expect(x509.EmailAddress.load(ref.u(22, b'me@' + want)).native, u'me@' + text, 'native of an address at %r', text)
        if len(want) < 254:
            # (the port and the user are those of the text)
            verify_uri(u'http://u:p@' + text + u':81/\xe9', b'http://u:p@' + want + b':81/%C3%A9', u'http://u:p@' + text + u':81/\xe9', rec)
    elif kind == 'box':
        box = u'q.' * (n // 2) + u'z' * (n % 2 + 1)
        for make in (lambda: x509.EmailAddress(box + u'@\xfc.de'), lambda: x509.EmailAddress.load(ref.u(22, box.encode('ascii') + b'@xn--tda.de'))):
            rec.op(2)
            o = make()
            expect(o.native, box + u'@\xfc.de', 'native of %r', box)
            expect(o.contents, box.encode('ascii') + b'@xn--tda.de', 'contents of %r', box)
            expect(o == x509.EmailAddress(box.upper() + u'@\xfc.de'), False, 'equality of another mailbox than %r', box)
            expect(o == x509.EmailAddress(box + u'@\xdc.DE'), True, 'equality of the host in another case after %r', box)
    else:
        names = [u'n%d.\xfc.de' % i for i in range(n)]
        o = x509.GeneralNames([x509.GeneralName('dns_name', t) for t in names])
        back = x509.GeneralNames.load(o.dump())
        rec.op(2)
        expect(o.native, names, 'native of %d names', n)
        expect(back.native, names, 'native of %d names that were read', n)
        expect([x.chosen.contents for x in back], [b'n%d.xn--tda.de' % i for i in range(n)], 'contents of %d names', n)


SPACES = [
    Space('ip text', gen_iptext, check_iptext, 'IPv4 and IPv6 addresses (all patterns of zero groups, in all notations) and all prefix lengths, set in 4 ways'),
    Space('ip refused', gen_badip, check_badip, 'text that is no address'),
    Space('ip windows', gen_shim, check_shim, 'the replacement of inet_ntop and inet_pton for Windows: all patterns of zero groups in all notations, all short texts, against the functions of the system'),
    Space('ip octets', gen_ipoctets, check_ipoctets, 'octets of all lengths, masks of all shapes'),
    pairs_space('ip equal', ip_items(), x509.IPAddress, 4, 'all pairs of addresses in all framings'),
    Space('dns text', gen_dns, check_dns, 'names of up to 3 labels of 20 kinds'),
    Space('dns octets', gen_rawdns, check_rawdns, 'all short contents over 8 fragments'),
    pairs_space('dns equal', dns_items(), x509.DNSName, 22, 'all pairs of names in all framings'),
    Space('email', gen_email, check_email, 'mailboxes x hosts'),
    pairs_space('email equal', email_items(), x509.EmailAddress, 22, 'all pairs of addresses in all framings'),
    Space('uri characters', gen_uritok, check_uritok, 'all sequences of up to 2 (3) of 80 characters and escapes in each component'),
    Space('uri structure', gen_uri, check_uri, 'schemes x authorities x user names x ports x paths x queries x fragments'),
    pairs_space('uri equal', uri_items(), x509.URI, 22, 'all pairs of a family of URIs', fewer_uris),
    Space('sizes', gen_sizes, check_sizes, 'URIs with 3-1000 characters or escapes of 14 kinds in a component, 3-1000 segments, parameters, labels; mailboxes, labels and lists of names of these sizes'),
]


def run(argv):
    return main('C22', SPACES, ['oracle: the ipaddress module, tables of A-labels, RFC 3986/3987 rules per character'], argv)
