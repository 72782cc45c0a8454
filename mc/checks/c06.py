"""C06 - integers: minimal two's complement encoding, exact decoding, every route."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core, util  # noqa


class Version(core.Integer):
    _map = {0: 'v1', 1: 'v2', 2: 'v3', 127: 'small', 128: 'edge', -1: 'neg', 256: 'big'}


class Reason(core.Enumerated):
    _map = {0: 'zero', 1: 'one', 127: 'm', 128: 'n', 255: 'o', 256: 'p', 65536: 'q'}


def boundary(kmax):
    seen = set()
    for k in range(0, kmax):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                v = s * (1 << k) + d
                if v not in seen:
                    seen.add(v)
                    yield v


def gen_values(tier):
    lim = 140000 if tier == 'thorough' else 70000
    for v in range(-lim, lim):
        yield v
    for v in boundary(4200 if tier == 'thorough' else 2100):
        if abs(v) >= lim:
            yield v


def check_value(n, rec):
    rec.op(9)
    c = ref.int_content(n)
    want = ref.u(2, c)
    i = core.Integer(n)
    if i.dump() != want:
        return 'Integer(%d).dump() = %r, expected %r' % (n, i.dump(), want)
    if i.native != n or int(i) != n or i.contents != c:
        return 'Integer(%d): native %r int %r contents %r' % (n, i.native, int(i), i.contents)
    j = core.Integer.load(want, strict=True)
    if j.native != n or int(j) != n or type(j.native) is not int:
        return 'Integer.load(%r) native %r' % (want, j.native)
    if j.dump() != want or j.dump(force=True) != want:
        return 'reload of %d: dump %r' % (n, j.dump(force=True))
    if not (j == i) or (core.Integer(n + 1) == i):
        return 'equality of %d' % n
    # byte string conversion helpers
    s = util.int_to_bytes(n, signed=True)
    if s != c or util.int_from_bytes(s, signed=True) != n:
        return 'int_to_bytes(%d, signed) = %r' % (n, s)
    rec.state(len(c), n < 0, c[0])
    rec.outcome('len%d' % min(len(c), 5))
    if n >= 0:
        u = util.int_to_bytes(n)
        ulen = max(1, (n.bit_length() + 7) // 8)
        if u != n.to_bytes(ulen, 'big') or util.int_from_bytes(u) != n:
            return 'int_to_bytes(%d) = %r' % (n, u)
        for w in (ulen, ulen + 1, ulen + 7):
            rec.op(2)
            if util.int_to_bytes(n, width=w) != n.to_bytes(w, 'big'):
                return 'int_to_bytes(%d, width=%d) = %r' % (n, w, util.int_to_bytes(n, width=w))
        if ulen > 1 and (n < 70000 or n % 3 == 0):
            k, r = attempt(util.int_to_bytes, n, width=ulen - 1)
            if k == 'ok' or not isinstance(r, OverflowError):
                return 'int_to_bytes(%d, width=%d) did not refuse: %r' % (n, ulen - 1, r)
        # unsigned carriers
        o = core.IntegerOctetString(n)
        if o.dump() != ref.octets(u) or o.native != n:
            return 'IntegerOctetString(%d) %r' % (n, o.dump())
        b = core.IntegerBitString(n)
        bc = b.dump()
        back = core.IntegerBitString.load(bc)
        if b.native != n or back.native != n or bc[:1] != b'\x03':
            return 'IntegerBitString(%d) %r native %r' % (n, bc, back.native)
        cont = ref.parse_one(bc)[0][4]
        if cont[0] != 0 or ref.int_value(b'\x00' + cont[1:]) != n:
            return 'IntegerBitString(%d) content %r' % (n, cont)
    for w in (len(c), len(c) + 1, len(c) + 3):
        rec.op(1)
        if util.int_to_bytes(n, signed=True, width=w) != n.to_bytes(w, 'big', signed=True):
            return 'int_to_bytes(%d, signed, width=%d)' % (n, w)
    return None


def gen_contents(tier):
    for k in (1, 2):
        for t in itertools.product(range(256), repeat=k):
            yield bytes(t)
    third = range(256) if tier == 'thorough' else (0, 1, 0x7f, 0x80, 0xff)
    for a in (range(256) if tier == 'thorough' else (0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff)):
        for b in range(256):
            for c in third:
                yield bytes((a, b, c))
    for k in (4, 5, 8, 9, 16, 17):
        for t in itertools.product((0, 0x7f, 0x80, 0xff), repeat=3):
            yield bytes(t) + b'\x55' * (k - 3)


def check_contents(c, rec):
    """any (also non-minimal) content octets decode to the two's complement value and survive re-encoding"""
    n = ref.int_value(c)
    d = ref.u(2, c)
    rec.op(6)
    i = core.Integer.load(d)
    if i.native != n or int(i) != n:
        return 'Integer.load(%r).native = %r, expected %d' % (d, i.native, n)
    if i.dump() != d:
        return 'dump of untouched %r = %r' % (d, i.dump())
    f = i.dump(force=True)
    if f != ref.integer(n):
        return 'force dump of %r = %r' % (d, f)
    if i.native != n or i.dump() != f:
        return 'after force dump: native %r' % i.native
    if util.int_from_bytes(c, signed=True) != n or util.int_from_bytes(c) != int.from_bytes(c, 'big'):
        return 'int_from_bytes(%r)' % c
    o = core.IntegerOctetString.load(ref.octets(c))
    if o.native != int.from_bytes(c, 'big') or o.dump() != ref.octets(c):
        return 'IntegerOctetString.load(%r) native %r' % (c, o.native)
    for k in range(3):
        # leading zero octets are part of the octet string
        o = core.IntegerOctetString.load(ref.octets(c) if k < 2 else ref.indef(0, 4, ref.octets(c[:1]) + ref.octets(c[1:])))
        if k == 1:
            o = o.copy()
        if o.dump(force=True) != ref.octets(c) or o.native != int.from_bytes(c, 'big'):
            return 'IntegerOctetString %r re-encoded %r' % (c, o.dump())
    rec.state(len(c), n)
    rec.outcome('minimal' if ref.int_content(n) == c else 'padded')
    return None


# set/decode/observe histories on one object: the last value set is the value
VALS = [0, 127, 128, -128, -129, 65536]
OPS = [('set', v) for v in VALS] + ['native', 'dump', 'force', 'copy', 'int', 'reload']


def gen_hist(tier):
    depth = 4 if tier == 'thorough' else 3
    for start in ('new', 'load', 'loadpad', 'implicit', 'explicit'):
        for n in range(0, depth + 1):
            for ops in itertools.product(range(len(OPS)), repeat=n):
                yield (start, ops)


def check_hist(case, rec):
    start, ops = case
    val = 5
    kw = {}
    enc = ref.integer
    if start == 'new':
        o = core.Integer(5)
    elif start == 'load':
        o = core.Integer.load(b'\x02\x01\x05')
    elif start == 'loadpad':
        o = core.Integer.load(b'\x02\x03\x00\x00\x05')
    elif start == 'implicit':
        kw = dict(implicit=3)
        o = core.Integer.load(b'\x83\x01\x05', **kw)
        enc = lambda n: ref.ctx(3, ref.int_content(n))  # noqa
    else:
        kw = dict(explicit=3)
        o = core.Integer.load(b'\xa3\x03\x02\x01\x05', **kw)
        enc = lambda n: ref.expl(3, ref.integer(n))  # noqa
    raw = b'\x02\x03\x00\x00\x05' if start == 'loadpad' else enc(5)
    for k in ops:
        op = OPS[k]
        rec.op()
        if type(op) is tuple:
            o.set(op[1])
            val = op[1]
            raw = enc(val)
        elif op == 'native':
            if o.native != val:
                return 'native %r expected %r' % (o.native, val)
        elif op == 'dump':
            if o.dump() != raw:
                return 'dump %r expected %r' % (o.dump(), raw)
        elif op == 'force':
            raw = enc(val)
            if o.dump(force=True) != raw:
                return 'force dump %r expected %r' % (o.dump(), raw)
        elif op == 'copy':
            p = o.copy()
            o.set(77)
            o = p
            # a copy is re-encoded with a fresh header, the content octets are kept
        elif op == 'int':
            if int(o) != val:
                return 'int %r expected %r' % (int(o), val)
        elif op == 'reload':
            o = core.Integer.load(o.dump(), strict=True, **kw)
    rec.state(start, val, raw)
    rec.outcome(start)
    if o.native != val or int(o) != val or o.dump() != raw:
        return 'final: native %r int %r dump %r; expected %r %r' % (o.native, int(o), o.dump(), val, raw)


# named values
def gen_named(tier):
    for cls in ('Version', 'Reason'):
        for n in list(range(-300, 300)) + [65535, 65536, 65537]:
            for route in ('set', 'load', 'loadpad', 'name'):
                yield (cls, n, route)


def check_named(case, rec):
    name, n, route = case
    cls = {'Version': Version, 'Reason': Reason}[name]
    m = cls._map
    want = m.get(n, n)
    tag = cls.tag
    rec.op(3)
    if route == 'name':
        if n not in m:
            k, r = attempt(cls, u'no such name %d' % n)
            if k == 'ok' or not isinstance(r, ValueError):
                return 'unknown name accepted %r' % (r,)
            return
        o = cls(m[n])
    elif route == 'set':
        k, o = attempt(cls, n)
        if name == 'Reason' and n not in m:
            rec.outcome('enum unknown')
            if k == 'ok' or not isinstance(o, ValueError):
                return 'value outside of the enumeration accepted: %r' % (o,)
            return
        if k != 'ok':
            return 'refused %d: %r' % (n, o)
    else:
        c = ref.int_content(n)
        if route == 'loadpad':
            c = (b'\xff' if n < 0 else b'\x00') + c
        d = ref.u(tag, c)
        o = cls.load(d)
        if o.dump() != d:
            return 'dump of untouched'
        k, r = attempt(lambda: o.native)
        if name == 'Reason' and n not in m:
            rec.outcome('enum unknown')
            if k == 'ok' or not isinstance(r, ValueError):
                return 'decoding a value outside of the enumeration: %s %r' % (k, r)
            return
    if o.native != want or int(o) != n:
        return 'native %r int %r expected %r %r' % (o.native, int(o), want, n)
    if o.dump(force=True) != ref.u(tag, ref.int_content(n)):
        return 'dump %r' % o.dump()
    rec.state(name, n, route)
    rec.outcome(route)


# stored width of integers in octet strings
def gen_width(tier):
    for v in [0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 64 - 1, 2 ** 64]:
        for w in (1, 2, 3, 4, 8, 9, 20, 32):
            for order in ('width-set', 'set-width', 'load-width', 'width-set-set'):
                yield (v, w, order)


def check_width(case, rec):
    v, w, order = case
    fits = v < 256 ** w
    rec.op(2)

    def go():
        if order == 'set-width':
            o = core.IntegerOctetString(v)
            o.set_encoded_width(w)
        elif order == 'load-width':
            o = core.IntegerOctetString.load(ref.octets(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')))
            o.set_encoded_width(w)
        else:
            o = core.IntegerOctetString()
            o.set_encoded_width(w)
            if order == 'width-set-set':
                o.set(1)
            o.set(v)
        return o
    k, o = attempt(go)
    rec.outcome('%s %s' % (k, fits))
    if not fits:
        if k == 'ok':
            return 'value does not fit in %d octets but accepted as %r' % (w, o.dump())
        return
    if k != 'ok':
        return 'refused: %r' % o
    want = ref.octets(v.to_bytes(w, 'big'))
    rec.state(v, w)
    for d in (o.dump(), o.dump(force=True), o.dump()):
        if d != want:
            return 'dump %r expected %r' % (d, want)
    if o.native != v:
        return 'native %r' % o.native


def gen_bool(tier):
    for b in range(256):
        yield b


def check_bool(b, rec):
    rec.op(4)
    o = core.Boolean.load(bytes([1, 1, b]))
    if o.native is not (b != 0) or bool(o) is not (b != 0):
        return 'native %r' % o.native
    if o.dump() != bytes([1, 1, b]):
        return 'dump of untouched'
    if o.dump(force=True) != ref.boolean(b != 0):
        return 'forced dump %r' % o.dump()
    for v in (True, False):
        o.set(v)
        if o.dump() != ref.boolean(v) or o.native is not v or core.Boolean(v).dump() != ref.boolean(v):
            return 'set'
    rec.outcome('bool %s' % (b != 0))


SPACES = [
    Space('bool', gen_bool, check_bool, 'all boolean content octets'),
    Space('values', gen_values, check_value,
          'every integer in [-70000, 70000) and +-2^k+d, k < 2100, |d| <= 2, through every carrier'),
    Space('contents', gen_contents, check_contents, 'all content octet strings of length <= 2, boundary ones above'),
    Space('histories', gen_hist, check_hist, 'all set/observe/copy/reload histories of length <= 3 (4) from 5 starts'),
    Space('named', gen_named, check_named, 'named values: every route, inside and outside of the vocabulary'),
    Space('width', gen_width, check_width, 'fixed-width unsigned carriers'),
]


def run(argv):
    return main('C06', SPACES, ['integers away from powers of two behave like their neighbours of the same width'], argv)
