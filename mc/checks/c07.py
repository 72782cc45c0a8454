"""C07 - object identifiers: encoding, decoding, names, histories."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core  # noqa

OID = core.ObjectIdentifier


class Named(core.ObjectIdentifier):
    _map = {
        u'1.2.3': u'alpha',
        u'1.2.4': u'beta',
        u'2.999.128': u'gamma',
        u'0.39': u'low',
        u'2.40': u'forty',
        u'1.2.840.113549.1.1.11': u'sha',
    }


ARCS = [0, 1, 2, 38, 39, 40, 41, 47, 48, 79, 80, 119, 120, 127, 128, 129, 255, 256, 999, 16383, 16384, 2097151,
        2097152, 2 ** 28 - 1, 2 ** 28, 2 ** 32, 2 ** 64, 2 ** 70 + 1]
TAIL = [0, 1, 39, 40, 127, 128, 16383, 16384, 2 ** 35]


def gen_arcs(tier):
    for first in (0, 1, 2):
        for second in ARCS if first == 2 else range(40):
            yield (first, second)
            for third in ARCS:
                yield (first, second, third)
            for t in itertools.product(TAIL, repeat=2):
                yield (first, second) + t
            if second in (0, 39, 128):
                for t in itertools.product(TAIL, repeat=4 if tier == 'thorough' else 3):
                    yield (first, second) + t
    for b in range(0, 20000 if tier == 'thorough' else 5000):
        yield (2, b)
        yield (1, 3, b)


def check_arcs(arcs, rec):
    dotted = u'.'.join(str(a) for a in arcs)
    want = ref.u(6, ref.oid_content(arcs))
    rec.op(6)
    o = OID(dotted)
    if o.dump() != want:
        return 'dump %r expected %r' % (o.dump(), want)
    if o.native != dotted or o.dotted != dotted or str(o) != dotted:
        return 'native %r dotted %r' % (o.native, o.dotted)
    p = OID.load(want, strict=True)
    if p.native != dotted or p.dotted != dotted or str(p) != dotted:
        return 'decoded as %r / %r' % (p.native, p.dotted)
    if p.dump() != want or p.dump(force=True) != want or p.native != dotted:
        return 're-encoded as %r' % p.dump()
    if not (o == p):
        return 'equality'
    rec.state(want)
    rec.outcome('len%d' % len(want))


CONT = [0x00, 0x01, 0x27, 0x28, 0x29, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x86, 0x88, 0xff]


def gen_contents(tier):
    for k in (1, 2):
        for t in itertools.product(range(256), repeat=k):
            yield bytes(t)
    for k in range(3, 6 if tier == 'thorough' else 5):
        for t in itertools.product(CONT, repeat=k):
            yield bytes(t)


def check_contents(c, rec):
    """every well-formed content decodes to its arcs and re-encodes to itself"""
    try:
        arcs = ref.oid_arcs(c)
        rel = ref.subids(c)
    except ref.Bad:
        # malformed: decoding may refuse it, but must not fail in any other way, and must not touch the octets
        o = OID.load(ref.u(6, c))
        k, r = attempt(lambda: o.native)
        rec.outcome('malformed')
        if k != 'ok' and not isinstance(r, (ValueError, TypeError)):
            return 'malformed content: %r' % r
        if o.dump() != ref.u(6, c):
            return 'malformed content altered'
        return
    d = ref.u(6, c)
    dotted = u'.'.join(map(str, arcs))
    o = OID.load(d)
    rec.op(4)
    if o.native != dotted or o.dotted != dotted:
        return '%r decoded as %r, expected %r' % (c, o.native, dotted)
    if OID(dotted).dump() != d:
        return 'encode(decode(%r)) = %r' % (c, OID(dotted).dump())
    if o.dump(force=True) != d:
        return 'forced dump'
    r = core.RelativeOid.load(ref.u(13, c))
    rd = u'.'.join(map(str, rel))
    if r.native != rd or r.dotted != rd:
        return 'relative %r decoded as %r, expected %r' % (c, r.native, rd)
    if core.RelativeOid(rd).dump() != ref.u(13, c) or r.dump(force=True) != ref.u(13, c):
        return 'relative encode(decode(%r))' % c
    rec.state(c)
    rec.outcome('arcs%d' % len(arcs))


BAD = [u'', u'1', u'3.1', u'4.1.2', u'0.40', u'1.40', u'1.64.3', u'1.', u'.1', u'1..2', u'a', u'1.a', u'1.2.x', u'1.2.-3',
       u'-1.2', u'1.-2', u'1.2.3.', u' ', u'1,2', u'1.2 .3', u'unknown_name', u'1.2.0x3', u'1.2.3e1', u'255.255.1']
BADT = [None, 5, 1.2, b'1.2.3', (1, 2, 3), [1, 2]]


def gen_bad(tier):
    for cls in ('OID', 'Named'):
        for start in ('new', 'set', 'load', 'load+native', 'load+dotted'):
            for i in range(len(BAD) + len(BADT)):
                yield (cls, start, i)


def mk(cls, start):
    k = {'OID': OID, 'Named': Named, 'Rel': core.RelativeOid}[cls]
    if start == 'new':
        return k, k()
    if start == 'set':
        return k, k(u'1.2.3')
    o = k.load(ref.u(k.tag, ref.oid_content([1, 2, 3])))
    if start == 'load+native':
        o.native
    if start == 'load+dotted':
        o.dotted
    return k, o


def check_bad(case, rec):
    cls, start, i = case
    k, o = mk(cls, start)
    v = (BAD + BADT)[i]
    want_exc = ValueError if i < len(BAD) else TypeError
    rec.op(2)
    s, r = attempt(o.set, v)
    rec.outcome('%s %s' % (s, type(r).__name__))
    if s == 'ok' or not isinstance(r, want_exc):
        return 'set(%r): %s %r, contents %r' % (v, s, r, o.contents)
    s, r = attempt(k, v) if v is not None else ('err', want_exc())
    if s == 'ok' or not isinstance(r, want_exc):
        return 'constructor(%r): %s %r' % (v, s, r)
    if start == 'new':
        if o.contents is not None or o.native is not None:
            return 'a refused value left contents %r native %r' % (o.contents, o.native)
        return
    nat = u'alpha' if cls == 'Named' else u'1.2.3'
    if o.native != nat or o.dotted != u'1.2.3' or o.dump() != ref.oid('1.2.3'):
        return 'a refused set(%r) changed the value: native %r dotted %r dump %r' % (v, o.native, o.dotted, o.dump())


OPS = [('set', u'1.2.4'), ('set', u'2.999.128'), ('set', u'1.2.5'), ('setname', u'gamma'), ('setname', u'alpha'), 'bad',
       'native', 'dotted', 'dump', 'force', 'copy', 'reload']


def gen_hist(tier):
    for cls in ('OID', 'Named', 'Rel'):
        for start in ('set', 'load', 'load+native', 'load+dotted'):
            for n in range(0, 5 if tier == 'thorough' else 4):
                for ops in itertools.product(range(len(OPS)), repeat=n):
                    yield (cls, start, ops)


def check_hist(case, rec):
    cls, start, ops = case
    k, o = mk(cls, start)
    val = u'1.2.3'
    rel = cls == 'Rel'
    if rel and start == 'set':
        pass
    elif rel:
        val = u'42.3'       # the same octets read as a relative identifier
    m = Named._map if cls == 'Named' else {}
    rev = dict((v, q) for q, v in m.items())

    def enc(v):
        arcs = [int(x) for x in v.split('.')]
        if rel:
            return ref.u(13, b''.join(ref.base128(a) for a in arcs))
        return ref.u(6, ref.oid_content(arcs))
    for i in ops:
        op = OPS[i]
        rec.op()
        if op == 'bad':
            s, r = attempt(o.set, u'9.x')
            if s == 'ok':
                return 'bad value accepted'
        elif type(op) is tuple:
            if op[0] == 'setname' and cls != 'Named':
                s, r = attempt(o.set, op[1])
                if s == 'ok':
                    return 'name accepted without a vocabulary'
                continue
            o.set(op[1])
            val = rev.get(op[1], op[1])
        elif op == 'native':
            if o.native != m.get(val, val):
                return 'native %r expected %r' % (o.native, m.get(val, val))
        elif op == 'dotted':
            if o.dotted != val:
                return 'dotted %r expected %r' % (o.dotted, val)
        elif op in ('dump', 'force'):
            if o.dump(force=op == 'force') != enc(val):
                return '%s %r expected %r' % (op, o.dump(), enc(val))
        elif op == 'copy':
            p = o.copy()
            o.set(u'1.2.9')
            o = p
        elif op == 'reload':
            o = k.load(o.dump(), strict=True)
    rec.state(cls, val)
    rec.outcome(cls)
    if o.native != m.get(val, val) or o.dotted != val or str(o) != val or o.dump() != enc(val):
        return 'final: native %r dotted %r dump %r, expected %r' % (o.native, o.dotted, o.dump(), val)


def gen_map(tier):
    for v in [u'alpha', u'beta', u'gamma', u'low', u'forty', u'sha', u'nope', u'', u'1.2.3', u'1.2.77', u'0.39', u'2.40']:
        for fresh in (0, 1):
            for order in ('map', 'unmap'):
                yield (v, fresh, order)


def check_map(case, rec):
    v, fresh, order = case
    cls = Named
    if fresh:
        cls = type('Named', (core.ObjectIdentifier,), {'_map': dict(Named._map)})
    m = Named._map
    rev = dict((b, a) for a, b in m.items())
    rec.op(1)
    if order == 'map':
        got = cls.map(v)
        if got != m.get(v, v):
            return 'map(%r) = %r' % (v, got)
    else:
        s, r = attempt(cls.unmap, v)
        if v in rev:
            ok = s == 'ok' and r == rev[v]
        elif v[:1].isdigit():
            ok = s == 'ok' and r == v
        else:
            ok = s == 'err' and isinstance(r, ValueError)
        if not ok:
            return 'unmap(%r): %s %r' % (v, s, r)
    rec.outcome(order)
    for bad in (None, 5, b'1.2.3'):
        for f in (cls.map, cls.unmap):
            s, r = attempt(f, bad)
            if s == 'ok' or not isinstance(r, TypeError):
                return 'non-string %r: %r' % (bad, r)
    for f in (OID.map, OID.unmap):
        s, r = attempt(f, u'1.2.3')
        if s == 'ok' or not isinstance(r, ValueError):
            return 'class without vocabulary: %r' % (r,)


SPACES = [
    Space('arcs', gen_arcs, check_arcs, 'arc tuples over base-128 and first-pair boundaries'),
    Space('contents', gen_contents, check_contents,
          'all content octet strings of length <= 2, all of length <= 4 (5) over 15 octets, absolute and relative'),
    Space('bad', gen_bad, check_bad, 'values that cannot be encoded are refused and leave the object as it was'),
    Space('histories', gen_hist, check_hist, 'all histories of length <= 3 (4) over set/observe/copy/reload'),
    Space('map', gen_map, check_map, 'name <-> dotted conversions'),
]


def run(argv):
    return main('C07', SPACES, ['arc values between the enumerated boundaries behave like their neighbours'], argv)
