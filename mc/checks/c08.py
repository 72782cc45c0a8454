"""C08 - bit strings: bits, octets, integers and names are views of the same bits."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core  # noqa


class Flags(core.BitString):
    _map = {0: 'a', 1: 'b', 3: 'd', 7: 'h', 8: 'i', 10: 'k'}


MAP = Flags._map
NAMES = dict((v, k) for k, v in MAP.items())


def val(bits):
    v = 0
    for b in bits:
        v = v * 2 + b
    return v


def octs(bits):
    b = list(bits) + [0] * (-len(bits) % 8)
    return bytes(val(b[i:i + 8]) for i in range(0, len(b), 8))


def decode(c):
    """bits and unused bits of primitive content, or Bad"""
    if not c:
        raise ref.Bad('no unused octet')
    u = c[0]
    if u > 7 or (u and len(c) == 1):
        raise ref.Bad('unused')
    bits = []
    for o in c[1:]:
        bits += [(o >> (7 - i)) & 1 for i in range(8)]
    n = len(bits) - u
    return tuple(bits[:n]), tuple(bits[n:])


def named(bits):
    return set(MAP.get(i, i) for i, b in enumerate(bits) if b)


def rstrip(bits):
    bits = list(bits)
    while bits and not bits[-1]:
        bits.pop()
    return bits


def views(load, bits, unused, rec, reenc=True):
    """every view of the bit string obtained by load(cls) agrees with the reference bits"""
    rec.op(8)
    o = load(core.BitString)
    if o.native != bits or o.unused_bits != unused:
        return 'BitString native %r unused %r, expected %r %r' % (o.native, o.unused_bits, bits, unused)
    for i in range(len(bits) + 2):
        if o[i] is not bool(i < len(bits) and bits[i]):
            return 'bit %d' % i
    if o.dump(force=True) != ref.bitstring(bits) or o.native != bits:
        return 'BitString forced dump %r' % o.dump()
    if o.dump() != ref.bitstring(bits) or o.unused_bits != (0,) * (-len(bits) % 8):
        return 'BitString after forced dump %r %r' % (o.dump(), o.unused_bits)
    p = load(core.OctetBitString)
    if p.native != octs(bits) or bytes(p) != octs(bits) or p.unused_bits != unused:
        return 'OctetBitString native %r unused %r' % (p.native, p.unused_bits)
    if p.dump(force=True) != ref.bitstring(bits) or p.native != octs(bits) or p.unused_bits != (0,) * (-len(bits) % 8):
        return 'OctetBitString forced dump %r' % p.dump()
    q = load(core.IntegerBitString)
    if q.native != val(bits) or q.unused_bits != unused:
        return 'IntegerBitString native %r' % q.native
    d = q.dump(force=True)
    if q.native != val(bits) or d != ref.bitstring(bits) or q.unused_bits != (0,) * (-len(bits) % 8):
        return 'IntegerBitString forced dump %r' % d
    r = load(core.ParsableOctetBitString)
    k, v = attempt(lambda: r.native)
    if unused:
        if k == 'ok' or not isinstance(v, ValueError):
            return 'ParsableOctetBitString with unused bits %r' % (v,)
    else:
        if k != 'ok' or v != octs(bits) or r.dump(force=True) != ref.u(3, b'\x00' + octs(bits)):
            return 'ParsableOctetBitString native %r' % (v,)
    f = load(Flags)
    if f.native != named(bits):
        return 'named bits %r expected %r' % (f.native, named(bits))
    for n, i in NAMES.items():
        want = i < len(bits) and bits[i] == 1
        if f[n] is not want or f[i] is not want:
            return 'named bit %s %r' % (n, f[n])
    if f.dump(force=True) != ref.bitstring(rstrip(bits)) or f.native != named(bits):
        return 'named bits forced dump %r expected %r' % (f.dump(), ref.bitstring(rstrip(bits)))
    return None


def gen_bits(tier):
    for n in range(0, 16 if tier == 'thorough' else 13):
        for t in itertools.product((0, 1), repeat=n):
            yield t
    for n in list(range(13, 70)) + [127, 128, 129, 255, 256, 1015, 1016, 1017, 1024]:
        for pat in ((1,), (0,), (1, 0), (0, 1, 1), (1,) + (0,) * 15, (0,) * 15 + (1,)):
            yield (pat * n)[:n]


def check_bits(bits, rec):
    rec.op(2)
    unused = (0,) * (-len(bits) % 8)
    o = core.BitString(bits)
    if o.dump() != ref.bitstring(bits) or o.native != bits or o.unused_bits != unused:
        return 'BitString(%r): dump %r native %r' % (bits, o.dump(), o.native)
    d = ref.bitstring(bits)
    m = views(lambda c: c.load(d, strict=True), bits, unused, rec)
    if m:
        return m
    m = views(lambda c: core.BitString(bits).cast(c), bits, unused, rec)
    if m:
        return 'cast: ' + m
    if len(bits) % 8 == 0:
        b = octs(bits)
        for cls in (core.OctetBitString, core.ParsableOctetBitString):
            if cls(b).dump() != d or cls(b).native != b:
                return '%s(%r).dump() = %r' % (cls.__name__, b, cls(b).dump())
    if len(bits) <= 11:
        f = Flags(bits)
        if f.native != named(bits) or f.dump() != ref.bitstring(rstrip(bits)):
            return 'Flags(%r): %r %r' % (bits, f.native, f.dump())
        f = Flags(named(bits))
        if f.native != named(bits) or f.dump() != ref.bitstring(rstrip(bits)):
            return 'Flags(%r): %r %r' % (named(bits), f.native, f.dump())
    else:
        k, f = attempt(Flags, bits)
        if k == 'ok' and f.native != named(bits):
            return 'Flags too long: %r' % f.native
    rec.state(d)
    rec.outcome('bits mod %d' % (len(bits) % 8))


def gen_contents(tier):
    yield b''
    for k in (1, 2):
        for t in itertools.product(range(256), repeat=k):
            yield bytes(t)
    al = [0, 1, 0x0f, 0x55, 0x7f, 0x80, 0xf0, 0xff]
    for u in range(0, 10):
        for k in range(2, 5 if tier == 'thorough' else 4):
            for t in itertools.product(al, repeat=k):
                yield bytes((u,) + t)


def check_contents(c, rec):
    d = ref.u(3, c)
    try:
        bits, unused = decode(c)
    except ref.Bad:
        rec.outcome('malformed')
        for cls in (core.BitString, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString, Flags):
            o = cls.load(d)
            rec.op(2)
            k, v = attempt(lambda: o.native)
            if k == 'ok' or not isinstance(v, ValueError):
                return '%s: malformed content %r gives %s %r' % (cls.__name__, c, k, v)
            if o.dump() != d:
                return 'malformed content altered'
        return
    for cls in (core.BitString, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString, Flags):
        o = cls.load(d)
        if o.dump() != d:
            return 'untouched dump'
        attempt(lambda: o.native)
        if o.dump() != d:
            return '%s: dump after reading %r, expected %r' % (cls.__name__, o.dump(), d)
    rec.state(bits, unused)
    rec.outcome('unused%d' % len(unused))
    return views(lambda cl: cl.load(d, strict=True), bits, unused, rec)


CHUNKS = [b'\x00', b'\x00\xa5', b'\x04\xf0', b'\x04\xff', b'\x00\x01\x02', b'\x01\x80', b'\x08\x00', b'\x01', b'']


def chunk_trees(n, depth):
    """forests with n leaves; nodes nest as indefinite constructed elements"""
    if n == 0:
        yield ()
        return
    for leaf in range(len(CHUNKS)):
        for rest in chunk_trees(n - 1, depth):
            yield (leaf,) + rest
    if depth:
        for k in range(0, n + 1):
            if k == 0 and depth < 2:
                continue
            for sub in chunk_trees(k, depth - 1):
                if k == 0:
                    for rest in chunk_trees(n - 1, 0):
                        yield (sub,) + rest + (0,)
                else:
                    for rest in chunk_trees(n - k, depth - 1):
                        yield (sub,) + rest


def gen_chunks(tier):
    seen = set()
    for n in range(0, 5 if tier == 'thorough' else 4):
        for f in chunk_trees(n, 2):
            if f not in seen:
                seen.add(f)
                yield f


def enc_chunks(f):
    out = b''
    for x in f:
        if isinstance(x, int):
            out += ref.u(3, CHUNKS[x])
        else:
            out += b'\x23\x80' + enc_chunks(x) + b'\x00\x00'
    return out


def leaves(f):
    for x in f:
        if isinstance(x, int):
            yield CHUNKS[x]
        else:
            for y in leaves(x):
                yield y


def check_chunks(f, rec):
    d = b'\x23\x80' + enc_chunks(f) + b'\x00\x00'
    try:
        bits, unused = (), ()
        for c in leaves(f):
            if len(bits) % 8:
                raise ref.Bad('inner unused bits')
            b, unused = decode(c)
            bits += b
    except ref.Bad:
        rec.outcome('malformed')
        for cls in (core.BitString, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString, Flags):
            rec.op()
            k, v = attempt(lambda: cls.load(d).native)
            if k == 'ok' or not isinstance(v, ValueError):
                return '%s: malformed chunks %r give %s %r' % (cls.__name__, d, k, v)
        return
    rec.state(bits, unused)
    rec.outcome('ok')
    m = views(lambda cl: cl.load(d, strict=True), bits, unused, rec)
    if m:
        return m
    return views(lambda cl: cl.load(d, strict=True).copy(), bits, unused if not unused else (0,) * len(unused), rec) \
        if not unused else None


# named bits and item assignment histories
NOPS = ([('on', n) for n in ('a', 'd', 'h', 'i', 'k', 1, 10)] + [('off', n) for n in ('a', 'h', 'k', 7)] +
        ['native', 'dump', 'force', 'copy', 'reload', ('setset', ('b', 'i')), ('settuple', (0, 1, 0, 1)), 'badname',
         'badset', 'toolong'])


def gen_named(tier):
    for start in ('new', 'empty', 'set', 'load', 'chunks', 'padded', 'beyond'):
        for n in range(0, 5 if tier == 'thorough' else 4):
            for ops in itertools.product(range(len(NOPS)), repeat=n):
                yield (start, ops)


def check_named(case, rec):
    start, ops = case
    src = {'load': ref.bitstring([1, 0, 0, 1]), 'padded': b'\x03\x04\x04\x90\x00\x0f', 'beyond': b'\x03\x03\x00\x90\x01',
           'chunks': b'\x23\x80\x03\x02\x00\x90\x03\x02\x05\x20\x00\x00'}.get(start)
    if start == 'new':
        o, idx = Flags(), set()
    elif start == 'empty':
        o, idx = Flags(set()), set()
    elif start == 'set':
        o, idx = Flags(set(['a', 'd'])), {0, 3}
    else:
        o = Flags.load(src)
        idx = {'load': {0, 3}, 'padded': {0, 3}, 'beyond': {0, 3, 15}, 'chunks': {0, 3, 10}}[start]

    def enc():
        if src is not None and start != 'chunks':
            return src
        return ref.bitstring([1 if i in idx else 0 for i in range(max(idx) + 1)] if idx else [])

    def nat():
        return set(MAP.get(i, i) for i in idx)
    for k in ops:
        op = NOPS[k]
        rec.op()
        if op == 'native':
            if o.native != nat():
                return 'native %r expected %r' % (o.native, nat())
        elif op == 'dump':
            if start == 'new' and o.contents is None:
                continue
            if o.dump() != enc():
                return 'dump %r expected %r' % (o.dump(), enc())
        elif op == 'force':
            src = None
            if o.dump(force=True) != enc():
                return 'forced dump %r expected %r' % (o.dump(), enc())
        elif op == 'copy':
            if o.contents is None:
                continue
            p = o.copy()
            o[0] = not o[0]
            o = p
        elif op == 'reload':
            if o.contents is None:
                continue
            o = Flags.load(o.dump(), strict=True)
        elif op in ('badname', 'badset', 'toolong'):
            if op == 'badname':
                s, r = attempt(o.__setitem__, 'zz', True)
            elif op == 'badset':
                s, r = attempt(o.set, set(['a', 'zz', 'k']))
            else:
                s, r = attempt(o.set, (1,) * 12)
            if s == 'ok' or not isinstance(r, ValueError):
                return '%s accepted: %r native %r dump %r' % (op, r, o.native, o.dump())
        else:
            src = None
            if op[0] == 'setset':
                arg = set(op[1])
                o.set(arg)
                arg.add('k')      # the caller's set stays the caller's
                idx = set(NAMES[x] for x in op[1])
            elif op[0] == 'settuple':
                o.set(op[1])
                idx = set(i for i, b in enumerate(op[1]) if b)
            else:
                i = NAMES.get(op[1], op[1])
                o[op[1]] = op[0] == 'on'
                (idx.add if op[0] == 'on' else idx.discard)(i)
    rec.state(start, tuple(sorted(idx)), src)
    rec.outcome(start)
    if o.contents is None:
        return
    if o.native != nat() or o.dump() != enc():
        return 'final: native %r dump %r; expected %r %r' % (o.native, o.dump(), nat(), enc())
    for n, i in NAMES.items():
        if o[n] is not (i in idx):
            return 'item %r' % n


UOPS = [('on', i) for i in (0, 1, 7, 8, 9, 16)] + [('off', i) for i in (0, 7, 8, 11)] + ['native', 'dump', 'force', 'copy',
                                                                                       'reload', ('set', (1, 1, 0)), 'badname']


def gen_unnamed(tier):
    for start in ((), (1,), (0, 0, 0, 0, 0, 0, 0, 1), (1, 0, 1, 0, 1, 0, 1, 0, 1)):
        for route in ('set', 'load', 'dirty'):
            for n in range(0, 5 if tier == 'thorough' else 4):
                for ops in itertools.product(range(len(UOPS)), repeat=n):
                    yield (start, route, ops)


def check_unnamed(case, rec):
    start, route, ops = case
    bits = list(start)
    src = None
    if route == 'set':
        o = core.BitString(start)
    else:
        src = ref.bitstring(start)
        if route == 'dirty' and len(start) % 8:
            src = src[:-1] + bytes([src[-1] | 1])
        o = core.BitString.load(src)

    def enc():
        return src if src is not None else ref.bitstring(bits)
    for k in ops:
        op = UOPS[k]
        rec.op()
        if op == 'native':
            if o.native != tuple(bits):
                return 'native %r expected %r' % (o.native, bits)
        elif op == 'dump':
            if o.dump() != enc():
                return 'dump %r expected %r' % (o.dump(), enc())
        elif op == 'force':
            src = None
            if o.dump(force=True) != enc():
                return 'forced dump %r expected %r' % (o.dump(), enc())
        elif op == 'copy':
            p = o.copy()
            o[0] = not o[0]
            o = p
        elif op == 'reload':
            o = core.BitString.load(o.dump(), strict=True)
        elif op == 'badname':
            s, r = attempt(o.__setitem__, 'zz', True)
            if s == 'ok' or not isinstance(r, ValueError):
                return 'name accepted without vocabulary'
        elif op[0] == 'set':
            o.set(op[1])
            src, bits = None, list(op[1])
        else:
            o[op[1]] = op[0] == 'on'
            src = None
            while len(bits) <= op[1]:
                bits.append(0)
            bits[op[1]] = 1 if op[0] == 'on' else 0
    rec.state(tuple(bits), src)
    rec.outcome(route)
    if o.native != tuple(bits) or o.dump() != enc():
        return 'final: native %r dump %r; expected %r %r' % (o.native, o.dump(), bits, enc())


SPACES = [
    Space('bits', gen_bits, check_bits, 'all bit tuples of length <= 12 (15), patterns up to 1024 bits, every view and cast'),
    Space('contents', gen_contents, check_contents, 'all primitive contents of length <= 2, 9 unused counts x 8 octets above'),
    Space('chunks', gen_chunks, check_chunks, 'all constructed encodings of <= 3 (4) chunks of 9 kinds, nested to depth 2'),
    Space('named', gen_named, check_named, 'named-bit histories of length <= 3 (4) from 7 starts'),
    Space('unnamed', gen_unnamed, check_unnamed, 'bit assignment histories of length <= 3 (4) from 12 starts'),
]


def run(argv):
    return main('C08', SPACES, ['bits beyond the enumerated lengths behave like those of the same length modulo 8'], argv)
