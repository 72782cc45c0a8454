"""C26 - keys: wrapping, sizes, EC widths and points, against independent curve data and reference encodings."""
import hashlib
import itertools
import json
import os
from .. import ref
from ..common import Space, bootstrap, main, check, attempt as _attempt

bootstrap()
from asn1crypto import core, keys, algos  # noqa

DATA = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'openssl.json')))
CURVES = DATA['curves']
I = ref.integer
RSA, PSS, OAEP, DSA, EC, DH = '1.2.840.113549.1.1.1', '1.2.840.113549.1.1.10', '1.2.840.113549.1.1.7', '1.2.840.10040.4.1', '1.2.840.10045.2.1', '1.2.840.10046.2.1'
ED = {'x25519': '1.3.101.110', 'x448': '1.3.101.111', 'ed25519': '1.3.101.112', 'ed448': '1.3.101.113'}


def attempt(f):
    how, v = _attempt(f)
    return how == 'ok', v


def up8(n):
    return (n.bit_length() + 7) // 8 * 8


def octetbits(b):
    return ref.u(3, b'\0' + b)


def spki(o, params, key):
    return ref.seq(ref.seq(ref.oid(o), params), octetbits(key))


def p8(o, params, key, attrs=b''):
    return ref.seq(I(0), ref.seq(ref.oid(o), params), ref.octets(key), attrs)


# ------------------------------------------------------------------ sizes
def magnitudes(tier):
    sizes = set(range(1, 41)) | set(x + d for x in (160, 256, 512, 768, 1024, 1536, 2048, 3072, 4096, 8192) for d in (-9, -8, -1, 0, 1, 7, 8)) | set([521, 571, 333, 1023, 1025])
    if tier == 'thorough':
        sizes |= set(range(1, 700)) | set(range(1000, 1060)) | set(range(2040, 2060))
    for n in sorted(sizes):
        for v in sorted(set([1 << (n - 1), (1 << (n - 1)) + 1, (1 << n) - 1, (1 << n) - 2 if n > 1 else 1, (1 << (n - 1)) + (1 << (n // 2))])):
            if v > 0:
                yield v


def gen_sizes(tier):
    for v in magnitudes(tier):
        for kind in ('rsa private', 'rsa public', 'pss private', 'pss public', 'oaep public', 'dsa private', 'dsa public', 'dh public', 'dsa q', 'order'):
            yield (kind, hex(v))


def check_sizes(case, rec):
    kind, n = case[0], int(case[1], 16)
    rec.op()
    o = {'rsa': RSA, 'pss': PSS, 'oaep': OAEP, 'dsa': DSA, 'dh': DH, 'order': None}[kind.split()[0]]
    if kind == 'order':
        d = ref.seq(I(1), ref.seq(ref.oid('1.2.840.10045.1.1'), I(23)), ref.seq(ref.octets(b'\1'), ref.octets(b'\1')), ref.octets(b'\4\1\1'), I(n))
        got = keys.ECDomainParameters.load(d).key_size
        check(got == up8(n) // 8 and isinstance(got, int), 'the key size of a curve of order %s is %r', hex(n), got)
        rec.state(kind, n)
        return
    if kind == 'dsa q':
        for cls, d in ((keys.PublicKeyInfo, spki(DSA, ref.seq(I(23), I(n), I(2)), I(5))), (keys.PrivateKeyInfo, p8(DSA, ref.seq(I(23), I(n), I(2)), I(5)))):
            k = cls.load(d)
            want = 'sha1' if n.bit_length() <= 160 else 'sha2'
            check(k.hash_algo == want, '%s with q = %s: hash algorithm %s, not %s', cls.__name__, hex(n), k.hash_algo, want)
            params = k['algorithm' if cls is keys.PublicKeyInfo else 'private_key_algorithm']['parameters']
            check(params.q_byte_size == up8(n) // 8, 'q_byte_size is %r for %s', params.q_byte_size, hex(n))
        rec.state(kind, n)
        return
    params = {'rsa': ref.null(), 'pss': b'', 'oaep': b'', 'dsa': ref.seq(I(n), I(7), I(2)), 'dh': ref.seq(I(n), I(2), I(7))}[kind.split()[0]]
    if kind.endswith('private'):
        key = I(5) if o == DSA else ref.seq(I(0), *[I(x) for x in (n, 3, 5, 7, 11, 13, 17, 19)])
        k = keys.PrivateKeyInfo.load(p8(o, params, key))
    else:
        key = I(5) if o in (DSA, DH) else ref.seq(I(n), I(3))
        k = keys.PublicKeyInfo.load(spki(o, params, key))
    for _ in range(2):
        check(k.bit_size == up8(n) and isinstance(k.bit_size, int), '%s key of %d bits (%s): bit size %r', kind, n.bit_length(), hex(n), k.bit_size)
        check(k.byte_size == up8(n) // 8 and isinstance(k.byte_size, int), '%s key of %d bits: byte size %r', kind, n.bit_length(), k.byte_size)
    check(k.algorithm == {'rsa': 'rsa', 'pss': 'rsassa_pss', 'oaep': 'rsaes_oaep', 'dsa': 'dsa', 'dh': 'dh'}[kind.split()[0]], 'algorithm %s', k.algorithm)
    for what in ['curve'] + (['hash_algo'] if o != DSA else []):
        ok, e = attempt(lambda: getattr(k, what))
        check(not ok and isinstance(e, ValueError), '%s of a %s key gives %r', what, kind, e)
    rec.state(kind, n)


# ------------------------------------------------------------------ curves
def ec_values(order):
    return [1, 255, 256, order - 1, order >> 9, 1 << 80]


def gen_curves(tier):
    for o in sorted(keys.NamedCurve._map):
        for i in range(6):
            for how in ('inside', 'outside', 'object', 'fields', 'order of fields', 'information first', 'minimal', 'other curve before', 'other curve, loaded'):
                yield (o, i, how)


def ec_key(value, width, curve=None, public=None):
    return ref.seq(I(1), ref.octets(value.to_bytes(width, 'big')), ref.expl(0, ref.oid(curve)) if curve else b'', ref.expl(1, octetbits(public)) if public else b'')


def check_curves(case, rec):
    o, i, how = case
    rec.op()
    name = keys.NamedCurve._map[o]
    if o in CURVES:
        _, order, field = CURVES[o]
        width = (order.bit_length() + 7) // 8
        coord = (field + 7) // 8
    else:
        width = coord = keys.NamedCurve._key_sizes[o]
        order = 1 << (8 * width - 1)
    v = ec_values(order)[i] % order
    point = b'\4' + (7).to_bytes(coord, 'big') + (1 << 70).to_bytes(coord, 'big')
    want = p8(EC, ref.oid(o), ec_key(v, width, None, point))
    check(keys.ECDomainParameters('named', name).key_size == width, 'the keys of %s have %d bytes, not %r', name, width, keys.ECDomainParameters('named', name).key_size)
    check(keys.ECDomainParameters.load(ref.oid(o)).key_size == width, 'the keys of %s have %d bytes', name, width)
    if how == 'inside':
        src = ec_key(v, width, o, point)
        info = keys.PrivateKeyInfo.wrap(src, 'ec')
    elif how == 'object':
        src = ec_key(v, width, o, point)
        k = keys.ECPrivateKey.load(src)
        info = keys.PrivateKeyInfo.wrap(k, 'ec')
        check(k.dump() == src and k.dump(force=True) == src, 'wrapping changed the key: %s, not %s', k.dump().hex(), src.hex())
    elif how == 'outside':
        info = keys.PrivateKeyInfo.load(want)
    elif how == 'fields':
        k = keys.ECPrivateKey({'version': 1, 'private_key': v, 'parameters': keys.ECDomainParameters('named', name), 'public_key': point})
        check(k.dump() == ec_key(v, width, o, point), 'an EC key of %s is encoded as %s, not %s', name, k.dump().hex(), ec_key(v, width, o, point).hex())
        info = keys.PrivateKeyInfo.wrap(k, 'ec')
    elif how == 'order of fields':
        k = keys.ECPrivateKey()
        k['parameters'] = keys.ECDomainParameters('named', o)
        k['public_key'] = keys.ECPointBitString(point)
        k['private_key'] = v
        k['version'] = 'ecPrivkeyVer1'
        check(k.dump() == ec_key(v, width, o, point), 'an EC key of %s is encoded as %s, not %s', name, k.dump().hex(), ec_key(v, width, o, point).hex())
        info = keys.PrivateKeyInfo.wrap(k, 'ec')
    else:
        k = keys.ECPrivateKey({'version': 1, 'private_key': v, 'public_key': point})
        info = keys.PrivateKeyInfo()
        fields = [('version', 0), ('private_key_algorithm', {'algorithm': 'ec', 'parameters': keys.ECDomainParameters('named', name)}), ('private_key', k)]
        if how == 'information first':
            fields = [fields[1], fields[2], fields[0]]
        elif how.startswith('other curve'):
            fields = [('private_key_algorithm', {'algorithm': 'ec', 'parameters': keys.ECDomainParameters('named', 'sect571r1')}), fields[2], fields[0], fields[1]]
        for f, x in fields:
            if how == 'other curve, loaded' and f == 'private_key_algorithm' and info['private_key_algorithm'].native is not None and info['version'].native is not None:
                info = keys.PrivateKeyInfo.load(info.dump())
            info[f] = x
    for what, x in (('the key', info), ('the key loaded', keys.PrivateKeyInfo.load(info.dump())), ('its copy', info.copy()), ('forced', None)):
        if x is None:
            got = info.dump(force=True)
        else:
            got = x.dump()
            check(x.algorithm == 'ec' and x.curve == ('named', name), '%s has curve %r', what, x.curve)
            check(x.bit_size == 8 * width and x.byte_size == width, '%s of %s has %r bits, not %d', what, name, x.bit_size, 8 * width)
            check(x['private_key'].parsed['private_key'].native == v, '%s is %r, not %r', what, x['private_key'].parsed['private_key'].native, v)
            check(x['private_key'].parsed['public_key'].native == point, '%s has another public key', what)
        check(got == want, '%s of %s wrapped (%s) is encoded as %s, not %s', what, name, how, got.hex(), want.hex())
    rec.state(case)


# ------------------------------------------------------------------ points
def coords(tier):
    out = [0, 1, 2, 255, 256, 257, 65535, 65536]
    for n in (63, 64, 65, 160, 255, 256, 257, 521) + ((7, 8, 9, 15, 16, 17, 31, 33, 191, 192, 384, 512) if tier == 'thorough' else ()):
        out += [1 << n, (1 << n) - 1, (1 << n) + 1]
    return sorted(set(out))


def gen_points(tier):
    c = coords(tier)
    for i in range(len(c)):
        yield ('xy', i, tier)
    for first in range(256):
        yield ('first', first, tier)


def check_points(case, rec):
    kind, i, tier = case
    if kind == 'first':
        for body in (b'', b'\1', b'\1\2', b'\1' * 32, b'\1\2' * 32, b'\0' * 2, b'\0\1' * 16, b'\0' * 31 + b'\1'):
            data = bytes([i]) + body
            for cls in (keys.ECPoint, keys.ECPointBitString):
                rec.op()
                ok, got = attempt(lambda: cls(data).to_coords())
                if i == 4 and body and len(body) % 2 == 0:
                    half = len(body) // 2
                    check(ok and got == (int.from_bytes(body[:half], 'big'), int.from_bytes(body[half:], 'big')), 'the point %s has coordinates %r', data.hex(), got)
                elif i != 4:
                    check(not ok and isinstance(got, ValueError), 'the point %s gives %r', data.hex(), got)
            if i in (2, 3, 4) and body and (i != 4 or len(body) % 2 == 0):
                k = keys.PublicKeyInfo.load(spki(EC, ref.oid('1.2.840.10045.3.1.7'), data))
                want = 8 * (len(body) if i != 4 else len(body) // 2)
                check(k.bit_size == want and k.byte_size == want // 8, 'the bit size of the public key %s is %r', data.hex(), k.bit_size)
                check(k['public_key'].native == data, 'the point %s is read as %r', data.hex(), k['public_key'].native)
        rec.state(case)
        return
    c = coords(tier)
    x = c[i]
    for y in c:
        w = max(1, (x.bit_length() + 7) // 8, (y.bit_length() + 7) // 8)
        want = b'\4' + x.to_bytes(w, 'big') + y.to_bytes(w, 'big')
        for cls, enc in ((keys.ECPoint, ref.octets(want)), (keys.ECPointBitString, octetbits(want))):
            rec.op()
            ok, p = attempt(lambda: cls.from_coords(x, y))
            check(ok, '%s.from_coords(%d, %d) raises %r', cls.__name__, x, y, p)
            check(p.dump() == enc, '%s.from_coords(%d, %d) is encoded as %s, not %s', cls.__name__, x, y, p.dump().hex(), enc.hex())
            for q in (p, cls.load(enc), p.copy()):
                check(q.to_coords() == (x, y), 'the coordinates %r became %r', (x, y), q.to_coords())
        for bad in ((-1 - x, y), (x, -1 - y)):
            ok, e = attempt(lambda: keys.ECPoint.from_coords(*bad))
            check(not ok and isinstance(e, ValueError), 'negative coordinates give %r', e)
    rec.state(case)


# ------------------------------------------------------------------ wrapping
VALUES = [0, 1, 127, 128, 255, 256, 32767, 32768, (1 << 64) - 1, 1 << 1023]


def gen_wrap(tier):
    for algo in ('rsa', 'rsassa_pss'):
        for pos in range(8):
            for v in range(len(VALUES)):
                for other in range(3):
                    for how in ('bytes', 'object', 'tagged', 'built'):
                        yield (algo, pos, v, other, how)
    for pos in range(5):
        for v in range(len(VALUES)):
            for how in ('bytes', 'object', 'tagged', 'built'):
                yield ('dsa', pos, v, 0, how)
    for algo in ('rsa', 'rsassa_pss'):
        for pos in range(2):
            for v in range(len(VALUES)):
                for how in ('bytes', 'object', 'tagged', 'built'):
                    yield ('public ' + algo, pos, v, 0, how)


RSAF = ['modulus', 'public_exponent', 'private_exponent', 'prime1', 'prime2', 'exponent1', 'exponent2', 'coefficient']


def as_given(cls, d, how, native):
    if how == 'bytes':
        return d
    if how == 'object':
        return cls.load(d)
    if how == 'tagged':
        return cls.load(ref.expl(3, d), explicit=3)
    return cls(native)


def check_wrap(case, rec):
    algo, pos, v, other, how = case
    rec.op()
    if algo == 'dsa':
        vals = [23, 11, 4, 9, 3]
        vals[pos] = VALUES[v]
        d = ref.seq(I(0), *[I(x) for x in vals])
        given = as_given(keys.DSAPrivateKey, d, how, dict(zip(['version', 'p', 'q', 'g', 'public_key', 'private_key'], [0] + vals)))
        info = keys.PrivateKeyInfo.wrap(given, 'dsa')
        want = p8(DSA, ref.seq(*[I(x) for x in vals[:3]]), I(vals[4]))
        read = lambda x: x['private_key'].parsed.native  # noqa
        value = vals[4]
    elif algo.startswith('public'):
        vals = [77, 3]
        vals[pos] = VALUES[v]
        d = ref.seq(*[I(x) for x in vals])
        given = as_given(keys.RSAPublicKey, d, how, dict(zip(RSAF, vals)))
        algo = algo.split()[1]
        info = keys.PublicKeyInfo.wrap(given, algo)
        want = spki(RSA if algo == 'rsa' else PSS, ref.null() if algo == 'rsa' else b'', d)
        read = lambda x: list(x['public_key'].parsed.native.values())  # noqa
        value = vals
    else:
        vals = [77, 3, 5, 7, 11, 13, 17, 19]
        vals[pos] = VALUES[v]
        more = [[], [[2, 3, 4]], [[128, 0, 255], [1, 2, 1 << 100]]][other]
        d = ref.seq(I(1 if more else 0), *([I(x) for x in vals] + ([ref.seq(*[ref.seq(*[I(x) for x in m]) for m in more])] if more else [])))
        native = dict(zip(RSAF, vals), version='multi' if more else 'two-prime')
        if more:
            native['other_prime_infos'] = [dict(zip(['prime', 'exponent', 'coefficient'], m)) for m in more]
        given = as_given(keys.RSAPrivateKey, d, how, native)
        info = keys.PrivateKeyInfo.wrap(given, algo)
        want = p8(RSA if algo == 'rsa' else PSS, ref.null() if algo == 'rsa' else b'', d)
        read = lambda x: [x['private_key'].parsed[f].native for f in RSAF]  # noqa
        value = vals
    for what, x in (('wrapped', info), ('loaded', type(info).load(want)), ('copied', info.copy())):
        check(x.algorithm == algo, 'the algorithm of the %s key is %r', what, x.algorithm)
        big = vals[0]
        check(x.bit_size == up8(big) and x.byte_size == up8(big) // 8 or not big, 'the %s key with %s has %r bits, not %d', what, hex(big), x.bit_size, up8(big))
        check(x.dump() == want, 'the %s key (%r) is encoded as %s, not %s', what, case, x.dump().hex(), want.hex())
        check(read(x) == value, 'the %s key has the components %r, not %r', what, read(x), value)
    check(info.dump(force=True) == want, 'the wrapped key is encoded anew as %s, not %s', info.dump(force=True).hex(), want.hex())
    if isinstance(given, core.Asn1Value):
        check(given.dump() == (ref.expl(3, d) if how == 'tagged' else d), 'wrapping changed the key to %s', given.dump().hex())
    if isinstance(info, keys.PublicKeyInfo):
        for x in (info, keys.PublicKeyInfo.load(want)):
            check(x.sha1 == hashlib.sha1(d).digest() and x.sha256 == hashlib.sha256(d).digest(), 'the hashes are not those of the key')
    rec.state(case)


# ------------------------------------------------------------------ histories of an EC key
NAMES = ['secp256r1', 'secp521r1', 'secp112r1']
WIDTHS = {'secp256r1': 32, 'secp521r1': 66, 'secp112r1': 14}
MOVES = ['key 1', 'key big', 'curve 0', 'curve 1', 'curve 2', 'specified', 'no curve', 'point', 'dump', 'copy', 'reload']


def gen_hist(tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        for h in itertools.product(MOVES, repeat=n):
            if any(m.startswith('key') for m in h) and (any(m.startswith('curve') or m == 'specified' for m in h)):
                yield h


def check_hist(case, rec):
    """After any sequence of settings the private key has the width of the last curve that was set (whichever came first)."""
    k = keys.ECPrivateKey({'version': 1})
    value = width = params = public = None
    for m in case:
        rec.op()
        if m.startswith('key'):
            value = 1 if m == 'key 1' else (1 << 100) + 5
            k['private_key'] = value
            if width is None:
                # without a curve: the width of the first key that has more than one octet
                n = (value.bit_length() + 7) // 8
                if n > 1:
                    width = n
        elif m.startswith('curve'):
            name = NAMES[int(m[-1])]
            params = ref.oid(keys.NamedCurve.unmap(name))
            width = WIDTHS[name]
            k['parameters'] = ('named', name)
        elif m == 'specified':
            order = (1 << 200) + 9
            params = ref.seq(I(1), ref.seq(ref.oid('1.2.840.10045.1.1'), I(23)), ref.seq(ref.octets(b'\1'), ref.octets(b'\1')), ref.octets(b'\4\1\1'), I(order))
            width = 26
            k['parameters'] = keys.ECDomainParameters.load(params)
        elif m == 'no curve':
            params = None
            del k['parameters']
        elif m == 'point':
            public = b'\4\1\2'
            k['public_key'] = public
        elif value is None:
            continue
        elif m == 'dump':
            k.dump()
        elif m == 'copy':
            k = k.copy()
        elif m == 'reload':
            k = keys.ECPrivateKey.load(k.dump())
            if width is None and value.bit_length() > 8:
                width = (value.bit_length() + 7) // 8
            return_width = (max(1, (value.bit_length() + 7) // 8) if width is None else width)
            width = return_width if return_width > 1 else None
            LOADED.append(1)
        if value is not None:
            if any(m == 'reload' for m in case):
                # what was loaded does not know the curve until it is set again, but keeps its own octets
                pass
            n = max(1, (value.bit_length() + 7) // 8)
            if width is not None and width < n:
                return
    if value is None:
        return
    want = ref.seq(I(1), ref.octets(value.to_bytes(width or 1, 'big')), ref.expl(0, params) if params else b'', ref.expl(1, octetbits(public)) if public else b'')
    check(k.dump() == want, 'after %r the key is encoded as %s, not %s', case, k.dump().hex(), want.hex())
    check(k['private_key'].native == value, 'after %r the key is %r, not %r', case, k['private_key'].native, value)
    check(k.copy().dump() == want and k.dump(force=True) == want, 'after %r the copy or the forced encoding is another', case)
    rec.state(case)


LOADED = []

# ------------------------------------------------------------------ registration, opaque keys, implicit and specified curves
def gen_other(tier):
    for size in range(1, 12):
        yield ('register', size)
    for name in ED:
        for key in ('', '00', '04', '0420' + '00' * 32, '3003020105', 'ff' * 56, '04', '3080'):
            yield ('edwards', name, key)
    for c in ('specified', 'implicit_ca', 'named'):
        yield ('curve', c)


def check_other(case, rec):
    rec.op()
    if case[0] == 'register':
        size = case[1]
        oid = '1.3.6.1.4.1.99999.%d' % size
        try:
            keys.NamedCurve.register('test%d' % size, oid, size)
            k = keys.ECPrivateKey({'version': 1, 'private_key': 5, 'parameters': ('named', 'test%d' % size)})
            want = ref.seq(I(1), ref.octets((5).to_bytes(size, 'big')), ref.expl(0, ref.oid(oid)))
            check(k.dump() == want, 'a key on a registered curve is encoded as %s, not %s', k.dump().hex(), want.hex())
            check(keys.ECDomainParameters.load(ref.oid(oid)).native == 'test%d' % size, 'the name of a registered curve')
            check(keys.PrivateKeyInfo.wrap(k, 'ec').curve == ('named', 'test%d' % size), 'the curve')
        finally:
            keys.NamedCurve._map.pop(oid)
            (keys.NamedCurve._reverse_map or {}).pop('test%d' % size, None)
            keys.NamedCurve._key_sizes.pop(oid)
        ok, e = attempt(lambda: keys.ECDomainParameters.load(ref.oid('1.3.6.1.4.1.99998.1')).key_size)
        check(not ok and isinstance(e, ValueError), 'an unknown curve has the key size %r', e)
    elif case[0] == 'edwards':
        name, key = case[1], bytes.fromhex(case[2])
        d = spki(ED[name], b'', key)
        k = keys.PublicKeyInfo.load(d)
        check(k.native['public_key'] == key and k['public_key'].native == key and k.algorithm == name, 'a public %s key %s is read as %r', name, key.hex(), k.native)
        check(k.dump(force=True) == d, 'a public %s key %s is encoded as %s', name, key.hex(), k.dump().hex())
        built = keys.PublicKeyInfo({'algorithm': {'algorithm': name}, 'public_key': key})
        check(built.dump() == d, 'a public %s key %s is encoded as %s', name, key.hex(), built.dump().hex())
        d = p8(ED[name], b'', ref.octets(key))
        k = keys.PrivateKeyInfo.load(d)
        check(k['private_key'].parsed.native == key and k.algorithm == name, 'a private %s key %s is read as %r', name, key.hex(), k.native)
        check(k.dump(force=True) == d, 'a private %s key %s is encoded as %s', name, key.hex(), k.dump().hex())
    else:
        alt = case[1]
        order = (1 << 160) + 7
        params = {'specified': ref.seq(I(1), ref.seq(ref.oid('1.2.840.10045.1.1'), I(23)), ref.seq(ref.octets(b'\1'), ref.octets(b'\1'), octetbits(b'seed')), ref.octets(b'\4\1\1'), I(order), I(1)), 'implicit_ca': ref.null(), 'named': ref.oid('1.3.132.0.34')}[alt]
        for k in (keys.PublicKeyInfo.load(spki(EC, params, b'\4' + b'\1' * 42)), keys.PrivateKeyInfo.load(p8(EC, params, ec_key(7, 21)))):
            name, value = k.curve
            check(name == alt, 'the curve is %r', name)
            if alt == 'specified':
                check(value['order'] == order and value['cofactor'] == 1 and value['curve']['seed'] == b'seed', 'the curve is %r', value)
            else:
                check(value == (None if alt == 'implicit_ca' else 'secp384r1'), 'the curve is %r', value)
            check(k.bit_size == 168, 'the bit size is %r', k.bit_size)
            check(k.copy().dump() == k.dump(force=True), 'the copy')
        ok, e = attempt(lambda: keys.ECDomainParameters.load(params).key_size)
        if alt == 'implicit_ca':
            check(not ok and isinstance(e, ValueError), 'the key size of an implicit curve is %r', e)
        else:
            check(ok and e == {'specified': 21, 'named': 48}[alt], 'the key size is %r', e)
    rec.state(case)


SPACES = [
    Space('sizes', gen_sizes, check_sizes, 'bit and byte sizes and hash algorithms of keys with moduli, primes and orders at every octet boundary'),
    Space('curves', gen_curves, check_curves, 'every named curve x private keys with leading zeros x 9 ways of building'),
    Space('points', gen_points, check_points, 'all pairs of boundary coordinates; every first octet of a point'),
    Space('wrapping', gen_wrap, check_wrap, 'RSA, RSASSA-PSS and DSA keys x component x boundary value x form given'),
    Space('histories', gen_hist, check_hist, 'all sequences of 5 (6) settings of an EC private key'),
    Space('others', gen_other, check_other, 'registered curves, RFC 8410 keys, specified and implicit curves'),
]


def run(argv):
    return main('C26', SPACES, ['oracle: curve orders and field sizes from OpenSSL; reference encodings; integer arithmetic'], argv)
