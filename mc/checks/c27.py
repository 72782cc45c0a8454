"""C27 - what algorithm identifiers say about digests, signatures, key derivation and ciphers, against a table written from the RFCs."""
import itertools
from .. import ref
from ..common import Space, bootstrap, main, check, attempt

bootstrap()
from asn1crypto import core, algos  # noqa

I = ref.integer
O = ref.oid
S = ref.seq
NULL = ref.null()
ERR = object()            # ValueError (or TypeError, when the parameters are not of the type that the algorithm has)
SKIP = object()           # nothing is claimed


class Not(object):
    pass


# ------------------------------------------------------------------ the table (by identifier)
RSA1 = '1.2.840.113549.1.1.'
NIST3 = '2.16.840.1.101.3.4.3.'
NIST2 = '2.16.840.1.101.3.4.2.'
BSI = '0.4.0.127.0.7.1.1.4.1.'
SHA2 = ['sha224', 'sha256', 'sha384', 'sha512']
SHA3 = ['sha3_224', 'sha3_256', 'sha3_384', 'sha3_512']

# digest identifiers: RFC 3279, RFC 4055, RFC 8702, NIST CSOR
DIGESTS = {'1.2.840.113549.2.2': 'md2', '1.2.840.113549.2.5': 'md5', '1.3.14.3.2.26': 'sha1',
           NIST2 + '1': 'sha256', NIST2 + '2': 'sha384', NIST2 + '3': 'sha512', NIST2 + '4': 'sha224', NIST2 + '5': 'sha512_224', NIST2 + '6': 'sha512_256',
           NIST2 + '7': 'sha3_224', NIST2 + '8': 'sha3_256', NIST2 + '9': 'sha3_384', NIST2 + '10': 'sha3_512', NIST2 + '11': 'shake128', NIST2 + '12': 'shake256',
           NIST2 + '17': 'shake128_len', NIST2 + '18': 'shake256_len'}
# HMAC identifiers: RFC 8018 appendix B.1.2, NIST CSOR
HMACS = {'1.2.840.113549.2.7': 'sha1', '1.2.840.113549.2.8': 'sha224', '1.2.840.113549.2.9': 'sha256', '1.2.840.113549.2.10': 'sha384', '1.2.840.113549.2.11': 'sha512',
         '1.2.840.113549.2.12': 'sha512_224', '1.2.840.113549.2.13': 'sha512_256', NIST2 + '13': 'sha3_224', NIST2 + '14': 'sha3_256', NIST2 + '15': 'sha3_384', NIST2 + '16': 'sha3_512', '1.3.14.3.2.10': 'des_mac'}
# signatures: (signature scheme, digest, digest for CMS)
SIGS = {RSA1 + '1': ('rsassa_pkcs1v15', None), RSA1 + '2': ('rsassa_pkcs1v15', 'md2'), RSA1 + '4': ('rsassa_pkcs1v15', 'md5'), RSA1 + '5': ('rsassa_pkcs1v15', 'sha1'),
        RSA1 + '14': ('rsassa_pkcs1v15', 'sha224'), RSA1 + '11': ('rsassa_pkcs1v15', 'sha256'), RSA1 + '12': ('rsassa_pkcs1v15', 'sha384'), RSA1 + '13': ('rsassa_pkcs1v15', 'sha512'),
        '1.3.14.3.2.3': ('rsassa_pkcs1v15', 'md5'), '1.3.14.3.2.29': ('rsassa_pkcs1v15', 'sha1'), '1.3.14.7.2.3.1': ('rsassa_pkcs1v15', 'md2'),
        '1.2.840.10040.4.1': ('dsa', None), '1.2.840.10040.4.3': ('dsa', 'sha1'), '1.3.14.3.2.27': ('dsa', 'sha1'),
        '1.2.840.10045.4': ('ecdsa', None), '1.2.840.10045.4.1': ('ecdsa', 'sha1'), '1.3.101.112': ('ed25519', None), '1.3.101.113': ('ed448', None)}
for n, h in enumerate(SHA2):
    SIGS[NIST3 + str(1 + n)] = ('dsa', h)
    SIGS['1.2.840.10045.4.3.%d' % (1 + n)] = ('ecdsa', h)
    SIGS[BSI + str(2 + n)] = ('ecdsa', h)
for n, h in enumerate(SHA3):
    SIGS[NIST3 + str(5 + n)] = ('dsa', h)
    SIGS[NIST3 + str(9 + n)] = ('ecdsa', h)
    SIGS[NIST3 + str(13 + n)] = ('rsassa_pkcs1v15', h)
    SIGS[BSI + str(8 + n)] = ('ecdsa', h)
SIGS[BSI + '1'] = ('ecdsa', 'sha1')
CMS_HASH = {'1.3.101.112': 'sha512', '1.3.101.113': 'shake256'}      # RFC 8419
PSS, OAEP, MGF1, PSPEC = RSA1 + '10', RSA1 + '7', RSA1 + '8', RSA1 + '9'

# ciphers: identifier -> (cipher, mode, key length, block size, what the parameters are)
AES = '2.16.840.1.101.3.4.1.'
CIPHERS = {'1.3.14.3.2.7': ('des', 'cbc', 8, 8, 'iv'), '1.2.840.113549.3.7': ('tripledes', 'cbc', 24, 8, 'iv')}
for base, length in ((0, 16), (20, 24), (40, 32)):
    for n, (mode, params) in enumerate([('ecb', ''), ('cbc', 'iv'), ('ofb', 'iv'), ('cfb', 'any'), ('wrap', ''), ('gcm', 'any'), ('ccm', 'ccm'), ('wrap_pad', '')]):
        CIPHERS[AES + str(base + 1 + n)] = ('aes', mode, length, 16, params)
RC2, RC4, RC5, PBES2 = '1.2.840.113549.3.2', '1.2.840.113549.3.4', '1.2.840.113549.3.9', '1.2.840.113549.1.5.13'
# PBES1: RFC 8018 A.3; PKCS12: RFC 7292 appendix C.  identifier -> (kdf, digest, cipher, key length, block size)
PBE = {'1.2.840.113549.1.5.1': ('pbkdf1', 'md2', 'des', 8, 8), '1.2.840.113549.1.5.4': ('pbkdf1', 'md2', 'rc2', 8, 8), '1.2.840.113549.1.5.3': ('pbkdf1', 'md5', 'des', 8, 8),
       '1.2.840.113549.1.5.6': ('pbkdf1', 'md5', 'rc2', 8, 8), '1.2.840.113549.1.5.10': ('pbkdf1', 'sha1', 'des', 8, 8), '1.2.840.113549.1.5.11': ('pbkdf1', 'sha1', 'rc2', 8, 8),
       '1.2.840.113549.1.12.1.1': ('pkcs12_kdf', 'sha1', 'rc4', 16, 0), '1.2.840.113549.1.12.1.2': ('pkcs12_kdf', 'sha1', 'rc4', 5, 0),
       '1.2.840.113549.1.12.1.3': ('pkcs12_kdf', 'sha1', 'tripledes', 24, 8), '1.2.840.113549.1.12.1.4': ('pkcs12_kdf', 'sha1', 'tripledes', 16, 8),
       '1.2.840.113549.1.12.1.5': ('pkcs12_kdf', 'sha1', 'rc2', 16, 8), '1.2.840.113549.1.12.1.6': ('pkcs12_kdf', 'sha1', 'rc2', 5, 8)}
PBKDF2, SCRYPT = '1.2.840.113549.1.5.12', '1.3.6.1.4.1.11591.4.11'
UNKNOWN = '1.2.3.4.5'
NUMBERS = [0, 1, 2, 127, 128, 255, 256, 2048, 65536, (1 << 31) - 1, 1 << 31, (1 << 64) + 1]
SALTS = [b'', b'\0', b'\xff', b'salt', b'\4\1\0', b's' * 127, b's' * 128, b'\x30\x00']
SIGPROPS = ['signature_algo', 'hash_algo', 'cms_hash_algo']
ENCPROPS = ['kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations', 'key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv']


def same(got, want):
    return type(got) is type(want) and got == want


def verify(what, x, want, rec, errors=ValueError):
    """every property of x is the wanted one, in every order of two reads, for the value and its copies"""
    names = sorted(want)
    for k, y in enumerate((x, x.copy(), type(x).load(x.dump()), type(x).load(x.dump(force=True)))):
        for name in (names if k % 2 == 0 else reversed(names)):
            rec.op()
            w = want[name]
            how, v = attempt(lambda: getattr(y, name))
            if w is SKIP:
                check(how == 'ok' or isinstance(v, (ValueError, TypeError)), '%s of %s raises %r', name, what, v)
            elif w is ERR:
                check(how == 'err' and isinstance(v, errors), '%s of %s is %r', name, what, v)
            else:
                check(how == 'ok' and same(v, w), '%s of %s is %r, not %r', name, what, v, w)
    rec.state(what)


# ------------------------------------------------------------------ signatures
def gen_sig(tier):
    for o in sorted(SIGS) + [UNKNOWN, '1.2.840.113549.1.1', '1.2.840.10045.4.3', '2.16.840.1.101.3.4.3']:
        for p in ('', '0500', '3000', '020105'):
            yield (o, p)


def check_sig(case, rec):
    o, p = case
    d = S(O(o), bytes.fromhex(p))
    if o in ALSO_NULL and p not in ('', '0500'):
        x = algos.SignedDigestAlgorithm.load(d)
        how, e = attempt(lambda: x.native)
        check(how == 'err' and isinstance(e, ValueError), 'parameters %s of %s are accepted as %r', p, o, e)
        return
    scheme, digest = SIGS.get(o, (ERR, None))
    want = dict(signature_algo=scheme, hash_algo=digest or ERR, cms_hash_algo=digest or CMS_HASH.get(o, ERR))
    verify('signature %s with parameters %r' % case, algos.SignedDigestAlgorithm.load(d), want, rec)
    if p == '' and o in SIGS:
        # made from its name, and from its identifier
        name = algos.SignedDigestAlgorithmId(o).native
        for given in (name, o):
            for how in range(2):
                x = algos.SignedDigestAlgorithm({'algorithm': given})
                if how:
                    x = algos.SignedDigestAlgorithm()
                    x['algorithm'] = given
                verify('signature made as %s' % given, x, want, rec)
                if o in ALSO_NULL:
                    check(x.dump().endswith(NULL), 'RFC 4055: the parameters of %s are NULL, but it is encoded as %s', o, x.dump().hex())
                elif scheme != 'rsassa_pkcs1v15':
                    check(not x.dump().endswith(NULL), 'the parameters of %s are absent, but it is encoded as %s', o, x.dump().hex())
        other = algos.SignedDigestAlgorithm({'algorithm': name})
        d1 = other.dump()
        how, x = attempt(lambda: algos.SignedDigestAlgorithm.load(d1))
        check(SIGS.get(x['algorithm'].dotted) == SIGS[o], 'the name of %s stands for another algorithm', o)


# those of RFC 4055 whose parameters are NULL
ALSO_NULL = [RSA1 + '1', RSA1 + '11', RSA1 + '12', RSA1 + '13', RSA1 + '14']


def explicit(n, d):
    return ref.expl(n, d)


def gen_pss(tier):
    hashes = sorted(DIGESTS) + [UNKNOWN, None]
    for h in hashes:
        for hp in ('', '0500'):
            for m in (None, '1.3.14.3.2.26', NIST2 + '1', NIST2 + '3', UNKNOWN):
                for salt in (None, 0, 20, 32, 127, 128, 1 << 20):
                    yield ('pss', h, hp, m, salt)
    for p in ('', '0500', '020105', '04023000'):
        yield ('bad', p)


def check_pss(case, rec):
    if case[0] == 'bad':
        how, x = attempt(lambda: algos.SignedDigestAlgorithm.load(S(O(PSS), bytes.fromhex(case[1]))))
        if how == 'err':
            return check(isinstance(x, ValueError), 'wrong parameters of RSASSA-PSS: %r', x)
        for name, want in (('signature_algo', 'rsassa_pss'), ('hash_algo', ERR), ('cms_hash_algo', ERR)):
            for _ in range(2):
                rec.op()
                how, v = attempt(lambda: getattr(x, name))
                check((how, v) == ('ok', want) if want is not ERR else how == 'err' and isinstance(v, (ValueError, TypeError)), '%s of RSASSA-PSS with parameters %r is %r', name, case[1], v)
        rec.state(case)
        return
    _, h, hp, m, salt = case
    parts = b''
    if h is not None:
        if h in DIGESTS and h == '1.3.14.3.2.26' and hp == '':
            pass
        parts += explicit(0, S(O(h), bytes.fromhex(hp)))
    if m is not None:
        parts += explicit(1, S(O(MGF1), S(O(m), NULL)))
    if salt is not None:
        parts += explicit(2, I(salt))
    digest = DIGESTS.get(h, h) if h else 'sha1'
    x = algos.SignedDigestAlgorithm.load(S(O(PSS), S(parts)))
    want = dict(signature_algo='rsassa_pss', hash_algo=digest, cms_hash_algo=digest)
    if digest == UNKNOWN:
        want = dict(signature_algo='rsassa_pss', hash_algo=SKIP, cms_hash_algo=SKIP)
    verify('RSASSA-PSS %r' % (case,), x, want, rec)
    p = x['parameters']
    check(p['salt_length'].native == (20 if salt is None else salt), 'the salt length of %r is %r', case, p['salt_length'].native)
    check(p['trailer_field'].native == 'trailer_field_bc', 'the trailer field of %r is %r', case, p['trailer_field'].native)
    check(p['mask_gen_algorithm']['algorithm'].native == 'mgf1' and p['mask_gen_algorithm']['parameters']['algorithm'].native == (DIGESTS.get(m, m) if m else 'sha1'), 'the mask generation function of %r is %r', case, p['mask_gen_algorithm'].native)


# ------------------------------------------------------------------ encryption
def scheme_cases(tier):
    """(label, encoding of the algorithm, wanted properties)"""
    none = dict(kdf=ERR, kdf_hmac=ERR, kdf_salt=ERR, kdf_iterations=ERR)
    for o in sorted(CIPHERS):
        cipher, mode, length, block, params = CIPHERS[o]
        for iv in ([b'', b'\0' * 8, b'\1' * 16, b'\4\2ab', b'v' * 128] if params == 'iv' else [None]):
            if params == 'iv':
                p = ref.octets(iv)
            elif params == 'ccm':
                p = S(ref.octets(b'n' * 12), I(16))
            elif params == 'any':
                p = S(ref.octets(b'n' * 12), I(16)) if mode == 'gcm' else ref.octets(b'i' * 16)
            else:
                p = b''
            yield ('%s %r' % (o, iv), S(O(o), p), dict(none, key_length=length, encryption_mode=mode, encryption_cipher=cipher, encryption_block_size=block, encryption_iv=iv if iv is not None else SKIP))
    versions = [None, -1, 0, 1, 16, 32, 40, 57, 58, 59, 64, 119, 120, 121, 128, 159, 160, 161, 255, 256, 264, 512, 1024, 2040, 65536]
    if tier == 'thorough':
        versions += list(range(-300, 256)) + list(range(256, 4096, 8))
    for v in versions:
        for iv in (b'', b'i' * 8, b'\0' * 8):
            length = {None: 4, 160: 5, 120: 8, 58: 16}.get(v, v // 8 if v is not None and v >= 256 and v % 8 == 0 else ERR)        # RFC 2268, section 6
            yield ('rc2 %r %r' % (v, iv), S(O(RC2), S(I(v) if v is not None else b'', ref.octets(iv))), dict(none, key_length=length, encryption_mode='cbc', encryption_cipher='rc2', encryption_block_size=8, encryption_iv=iv))
    for bits in (64, 128, 32):
        for rounds in (0, 8, 12, 127):
            for iv in (None, b'', b'i' * 8, b'i' * 16):
                yield ('rc5 %r %r %r' % (bits, rounds, iv), S(O(RC5), S(I(16), I(rounds), I(bits), ref.octets(iv) if iv is not None else b'')),
                       dict(none, key_length=ERR, encryption_mode='cbc', encryption_cipher='rc5', encryption_block_size=bits // 8, encryption_iv=iv))


def gen_schemes(tier):
    for i, c in enumerate(scheme_cases(tier)):
        yield (i, tier)


SCHEMES = {}


def schemes(tier):
    if tier not in SCHEMES:
        SCHEMES[tier] = list(scheme_cases(tier))
    return SCHEMES[tier]


def check_schemes(case, rec):
    label, d, want = schemes(case[1])[case[0]]
    verify(label, algos.EncryptionAlgorithm.load(d), want, rec)
    x = algos.EncryptionAlgorithm.load(d)
    if x['parameters'].__class__ is not core.Any:
        x = algos.EncryptionAlgorithm(x.native)
    if want['encryption_iv'] is not SKIP:
        check(x.dump() == d, 'the algorithm %s made from its native value is encoded as %s, not %s', label, x.dump().hex(), d.hex())
        verify(label + ' made', x, want, rec)
    # inside an AnyAlgorithmIdentifier the parameters are of the same type
    y = algos.AnyAlgorithmIdentifier.load(d)
    check(y.native == x.native and type(y['parameters']) is type(x['parameters']), 'AnyAlgorithmIdentifier reads %s as %r, not %r', label, y.native, x.native)


def gen_pbe(tier):
    for o in sorted(PBE):
        for n in range(len(NUMBERS)):
            for s in range(len(SALTS)):
                yield (o, n, s)
    for o in [RC4, UNKNOWN, RSA1 + '1', OAEP, '1.2.840.113549.1.5', '1.2.840.113549.1.12.1']:
        for p in ('', '0500', '3000'):
            yield (o, p)


def check_pbe(case, rec):
    if len(case) == 2:
        o, p = case
        how, x = attempt(lambda: algos.EncryptionAlgorithm.load(S(O(o), bytes.fromhex(p))))
        want = dict.fromkeys(ENCPROPS, ERR)
        want['encryption_iv'] = SKIP if o != UNKNOWN else ERR
        if (o, p) in ((RSA1 + '1', '3000'), (OAEP, '0500')):
            for name in ENCPROPS:
                how, v = attempt(lambda: getattr(x, name))
                check(how == 'err' and isinstance(v, (ValueError, TypeError)) or name == 'encryption_iv', '%s of %s is %r', name, case, v)
            return
        return verify('%s %s' % case, x, want, rec, (ValueError, TypeError))
    o, n, s = case
    kdf, digest, cipher, length, block = PBE[o]
    d = S(O(o), S(ref.octets(SALTS[s]), I(NUMBERS[n])))
    want = dict(kdf=kdf, kdf_hmac=digest, kdf_salt=SALTS[s], kdf_iterations=NUMBERS[n], key_length=length, encryption_mode='cbc' if cipher != 'rc4' else SKIP, encryption_cipher=cipher, encryption_block_size=block, encryption_iv=None)
    x = algos.EncryptionAlgorithm.load(d)
    verify('%s %r' % (o, case), x, want, rec)
    y = algos.EncryptionAlgorithm({'algorithm': o, 'parameters': {'salt': SALTS[s], 'iterations': NUMBERS[n]}})
    check(y.dump() == d, 'made anew: %s, not %s', y.dump().hex(), d.hex())
    verify('%s %r made' % (o, case), y, want, rec)


# ------------------------------------------------------------------ PBES2
def kdf_cases(tier):
    """(label, encoding of the key derivation function, kdf, hmac, salt, iterations, length)"""
    lengths = [None, 0, 1, 16, 24, 127, 128, 1 << 16]
    for salt in (b'', b'salt', b'\4\2ab') + ((b's' * 128, b'\0') if tier == 'thorough' else ()):
        for n in (1, 127, 128, 2048) + ((0, 1 << 31, (1 << 64) + 1) if tier == 'thorough' else ()):
            for length in lengths:
                for prf in [None] + sorted(HMACS) + [UNKNOWN]:
                    for pp in ((NULL, b'') if prf else (b'',)):
                        yield ('pbkdf2 %r %r %r %r %r' % (salt, n, length, prf, pp), S(O(PBKDF2), S(ref.octets(salt), I(n), I(length) if length is not None else b'', S(O(prf), pp) if prf else b'')),
                               ('pbkdf2', (HMACS.get(prf, prf) if prf else 'sha1') if prf != UNKNOWN else SKIP, salt, n, length))
    for length in lengths:
        yield ('pbkdf2 other source %r' % length, S(O(PBKDF2), S(S(O('1.2.3'), NULL), I(5), I(length) if length is not None else b'')), ('pbkdf2', 'sha1', ERR, 5, length))
    for salt in (b'', b'salt', b'\4\2ab', b's' * 128):
        for cost in (2, 16384, 1 << 20):
            for r in (1, 8):
                for length in lengths:
                    yield ('scrypt %r %r %r %r' % (salt, cost, r, length), S(O(SCRYPT), S(ref.octets(salt), I(cost), I(r), I(1), I(length) if length is not None else b'')), ('scrypt', None, salt, None, length))


KDFS = {}


def kdfs(tier):
    if tier not in KDFS:
        KDFS[tier] = list(kdf_cases(tier))
    return KDFS[tier]


PICK = None


def picked():
    """one of each cipher"""
    global PICK
    if PICK is None:
        seen, PICK = set(), []
        for i, (label, d, want) in enumerate(schemes('quick')):
            o = label.split()[0]
            key = (o, want['encryption_iv'] is None, want['key_length'])
            if key not in seen:
                seen.add(key)
                PICK.append(i)
    return PICK


def gen_pbes2(tier):
    for k in range(len(kdfs(tier))):
        yield (tier, k)


def check_pbes2(case, rec):
    tier, k = case
    label, kd, (kdf, hmac, salt, n, length) = kdfs(tier)[k]
    p = picked()
    chosen = p if tier == 'thorough' else [p[(k + j * 7) % len(p)] for j in range(10)]
    for i in chosen:
        slabel, sd, swant = schemes('quick')[i]
        d = S(O(PBES2), S(kd, sd))
        want = dict(swant, kdf=kdf, kdf_hmac=hmac, kdf_salt=salt, kdf_iterations=n)
        if length is not None:
            want['key_length'] = length
        x = algos.EncryptionAlgorithm.load(d)
        verify('pbes2 with %s and %s' % (label, slabel), x, want, rec)
    kf = algos.KdfAlgorithm.load(kd)
    check(kf['algorithm'].native == kdf and kf['parameters']['salt'].native == (salt if salt is not ERR else kf['parameters']['salt'].native), 'the function %s is read as %r', label, kf.native)
    # the native form is built to the same octets
    if salt is not ERR and hmac is not SKIP and not kd.endswith(NULL):
        y = algos.KdfAlgorithm({'algorithm': kdf, 'parameters': {a: b for a, b in kf['parameters'].native.items() if a != 'salt' or kdf == 'scrypt'}})
        if kdf == 'pbkdf2':
            y['parameters']['salt'] = algos.Pbkdf2Salt({'specified': salt})
        canon = kf.dump(force=True)
        check(y.dump() == canon, 'the function %s is built anew as %s, not %s', label, y.dump().hex(), canon.hex())
    # PBMAC1 and the scheme
    for m in (sorted(HMACS) + [UNKNOWN])[k % 3::3]:
        d = S(O('1.2.840.113549.1.5.14'), S(kd, S(O(m), NULL)))
        x = algos.Pkcs5MacAlgorithm.load(d)
        check(x['algorithm'].native == 'pbmac1' and x['parameters']['message_auth_scheme']['algorithm'].native == HMACS.get(m, m) and x['parameters']['key_derivation_func']['algorithm'].native == kdf, 'PBMAC1 with %s is read as %r', m, x.native)
        check(x.dump() == d, 'PBMAC1 is encoded as %s', x.dump().hex())


# ------------------------------------------------------------------ nothing else than a digest
def gen_nulls(tier):
    for cls in ('DigestAlgorithm', 'SignedDigestAlgorithm', 'EncryptionAlgorithm', 'AnyAlgorithmIdentifier'):
        table = {'DigestAlgorithm': DIGESTS, 'SignedDigestAlgorithm': SIGS, 'EncryptionAlgorithm': {**CIPHERS, **PBE, RSA1 + '1': 0, OAEP: 0}, 'AnyAlgorithmIdentifier': {**DIGESTS, **SIGS, **CIPHERS, **PBE}}[cls]
        for o in sorted(table) + [UNKNOWN]:
            for how in ('dict', 'field', 'none', 'null', 'absent', 'value'):
                yield (cls, o, how)


NULLS = ALSO_NULL + ['1.3.14.3.2.26'] + [NIST2 + str(n) for n in (1, 2, 3, 4)]       # RFC 4055, sections 2.1, 3.1 and 5, RFC 3279


def check_nulls(case, rec):
    cname, o, how = case
    cls = getattr(algos, cname)
    rec.op()
    null = o in NULLS
    full = S(O(o), NULL if null else b'')
    if how == 'dict':
        x = cls({'algorithm': o})
    elif how == 'field':
        x = cls()
        x['algorithm'] = o
    elif how == 'none':
        x = cls({'algorithm': o, 'parameters': None}) if not null else cls({'algorithm': o})
    elif how == 'null':
        if not null:
            return
        x = cls({'algorithm': o, 'parameters': core.Null()})
    elif how == 'value':
        x = cls({'algorithm': cls._fields[0][1](o)})
    else:
        # what was decoded without parameters stays without them
        d = S(O(o))
        x = cls.load(d)
        check(x['algorithm'].dotted == o and x.native['parameters'] is None, '%s reads as %r', d.hex(), x.native)
        check(x.dump() == d and x.dump(force=True) == d and x.copy().dump() == d, '%s is encoded as %s', d.hex(), x.dump(force=True).hex())
        rec.state(case)
        return
    check(x.dump() == full, '%s of %s (%s) is encoded as %s, not %s', cname, o, how, x.dump().hex(), full.hex())
    check(x.copy().dump() == full and x.native['parameters'] is None and x['algorithm'].dotted == o, '%s of %s (%s) reads as %r', cname, o, how, x.native)
    rec.state(case)


# ------------------------------------------------------------------ DSA signatures in the form of IEEE P1363
def numbers(tier):
    out = [0, 1, 127, 128, 255, 256]
    for n in (15, 16, 63, 64, 159, 160, 255, 256, 257, 384, 511, 512, 521) + (tuple(range(2, 80)) if tier == 'thorough' else ()):
        out += [1 << n, (1 << n) - 1]
    return sorted(set(out))


def gen_p1363(tier):
    for i in range(len(numbers(tier))):
        yield (tier, i)


def check_p1363(case, rec):
    ns = numbers(case[0])
    r = ns[case[1]]
    for s in ns:
        rec.op()
        w = max(1, *[(v.bit_length() + 7) // 8 for v in (r, s)])
        x = algos.DSASignature({'r': r, 's': s})
        check(x.dump() == S(I(r), I(s)), 'the signature (%d, %d) is encoded as %s', r, s, x.dump().hex())
        for y in (x, algos.DSASignature.load(S(I(r), I(s)))):
            got = y.to_p1363()
            check(len(got) % 2 == 0 and int.from_bytes(got[:len(got) // 2], 'big') == r and int.from_bytes(got[len(got) // 2:], 'big') == s, 'the signature (%d, %d) is written as %s', r, s, got.hex())
            check(len(got) // 2 == w, 'the signature (%d, %d) is written in %d octets', r, s, len(got))
            for width in (w, w + 1, w + 9):
                got = y.to_p1363(width=width)
                if width > 0:
                    check(got == r.to_bytes(width, 'big') + s.to_bytes(width, 'big'), 'the signature (%d, %d) is written as %s with width %d', r, s, got.hex(), width)
                    z = algos.DSASignature.from_p1363(got)
                    check(z.dump() == S(I(r), I(s)), 'the signature (%d, %d) is read back as %r', r, s, z.native)
            if w > 1:
                how, e = attempt(lambda: y.to_p1363(width=w - 1))
                check(how == 'err' and isinstance(e, ValueError), 'a signature of %d octets fits in %d: %r', w, w - 1, e)
    rec.state(case)


SPACES = [
    Space('signatures', gen_sig, check_sig, 'every signature identifier x parameters absent, NULL, an empty SEQUENCE, an INTEGER: decoded, copied and made from name and identifier; all properties'),
    Space('pss', gen_pss, check_pss, 'RSASSA-PSS: every digest (and none, and an unknown one) x mask generation digest x salt length; parameters that are absent or of another type'),
    Space('ciphers', gen_schemes, check_schemes, 'every cipher with every shape of its parameters (RC2 versions, RC5 block sizes, initialisation vectors): all nine properties, twice, copied, encoded anew and made from native values'),
    Space('password based', gen_pbe, check_pbe, 'every PBES1 and PKCS 12 identifier x boundary iteration counts x salts; identifiers that are no ciphers'),
    Space('pbes2', gen_pbes2, check_pbes2, 'PBES2 and PBMAC1: every key derivation function (salts, counts, lengths, all pseudo-random functions) x ciphers of each kind'),
    Space('null parameters', gen_nulls, check_nulls, 'every identifier of every algorithm type x the ways to set it: NULL parameters exactly where RFC 4055 has them; decoded absent parameters stay absent'),
    Space('p1363', gen_p1363, check_p1363, 'all pairs of boundary integers as DSA signatures, written with all widths around the needed one and read back'),
]

def run(argv):
    return main('C27', SPACES, ['oracle: tables of RFC 3279, 4055, 5084, 8018, 7292, 2268, 8419, 5758, NIST CSOR and BSI TR-03111, written by hand; integer arithmetic'], argv)
