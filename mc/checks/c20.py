"""C20 - concurrent first use of a type gives every thread the same answer."""
import functools
import os
from .. import ref, corpus, sched
from ..common import Space, bootstrap, main, Violation

bootstrap()
# imported, but nothing of it is used in this process: only forked children do
from asn1crypto import algos, cms, core, crl, csr, keys, ocsp, pem, pkcs12, tsp, util, x509  # noqa


# ------------------------------------------------------------------ synthetic types, never instantiated in this process
class TId(core.ObjectIdentifier):
    _map = {'1.2.3.1': 'one', '1.2.3.2': 'two', '1.2.3.3': 'three'}


class TNum(core.Integer):
    _map = {0: 'zero', 1: 'uno', 2: 'dos'}


class TEnum(core.Enumerated):
    _map = {0: 'red', 1: 'green', 2: 'blue'}


class TFlags(core.BitString):
    _map = {0: 'a', 1: 'b', 9: 'j'}


class TInner(core.Sequence):
    _fields = [('x', core.Integer), ('y', core.Boolean, {'default': False})]


class TList(core.SequenceOf):
    _child_spec = TInner


class TTagged(core.Integer):
    explicit = (2, 5)


class TChoice(core.Choice):
    _alternatives = [('n', core.Integer), ('i', TInner), ('t', core.UTF8String, {'explicit': 1})]


class TSet(core.Set):
    _fields = [('p', core.Integer, {'implicit': 0}), ('q', core.OctetString), ('r', core.Boolean, {'default': True})]


class TPair(core.Sequence):
    _fields = [('id', TId), ('value', core.Any, {'optional': True})]
    _oid_pair = ('id', 'value')
    _oid_specs = {'one': core.Integer, 'two': TInner, 'three': TFlags}


class TCall(core.Sequence):
    _fields = [('kind', TNum), ('value', core.Any)]

    def _value_spec(self):
        return {'zero': core.Integer, 'uno': TInner}.get(self['kind'].native)

    _spec_callbacks = {'value': _value_spec}


def i(n):
    return ref.integer(n)


INNER1 = ref.seq(i(5))
INNER2 = ref.seq(i(-7), ref.u(1, b'\xff'))
OID1, OID2, OID3 = [ref.oid('1.2.3.%d' % k) for k in (1, 2, 3)]


def stable(x):
    if isinstance(x, dict):
        return [(k, stable(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [stable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(repr(v) for v in x)
    return repr(x)


def out(o):
    """everything there is to observe"""
    return (repr(stable(o.native)), o.dump().hex(), o.dump(force=True).hex())


def dec(cls, raw):
    def body():
        return out(cls.load(raw))
    return body


def mk(cls, *a, **k):
    def body():
        return out(cls(*a, **k))
    return body


def call(f, *a):
    def body():
        return repr(f(*a))
    return body


def edit(cls, raw, key, val):
    def body():
        o = cls.load(raw)
        o[key] = val
        return out(o)
    return body


H = {}


def pairs(name, size, *bodies):
    """every ordered pair, a body with itself included"""
    for x in range(len(bodies)):
        for y in range(len(bodies)):
            H['%s/%d-%d' % (name, x, y)] = (bodies[x], bodies[y], size)


pairs('oid', 's', dec(TId, OID1), mk(TId, 'two'), call(TId.unmap, 'three'), call(TId.map, '1.2.3.1'))
pairs('int', 's', dec(TNum, i(1)), mk(TNum, 'dos'), mk(TNum, 7))
pairs('enum', 's', dec(TEnum, ref.u(10, b'\x02')), mk(TEnum, 'green'))
pairs('flags', 's', dec(TFlags, ref.u(3, b'\x06\x40\x40')), mk(TFlags, {'a', 'j'}), mk(TFlags, (1, 0, 1)))
pairs('tagged', 's', dec(TTagged, ref.ctx(5, i(3), True)), mk(TTagged, 9))
pairs('seq', 's', dec(TInner, INNER1), mk(TInner, {'x': 3, 'y': True}), edit(TInner, INNER2, 'y', False))
pairs('list', 'm', dec(TList, ref.seq(INNER1, INNER2)), mk(TList, [{'x': 1}]))
pairs('choice', 'm', dec(TChoice, i(3)), mk(TChoice, name='i', value={'x': 1}), dec(TChoice, ref.ctx(1, ref.u(12, b'a'), True)))
pairs('set', 'm', dec(TSet, ref.set_(ref.u(4, b'q'), ref.ctx(0, b'\x01', False))), mk(TSet, {'q': b'1', 'p': 3, 'r': False}))
pairs('pair', 'm', dec(TPair, ref.seq(OID2, INNER1)), mk(TPair, {'id': 'one', 'value': 4}), dec(TPair, ref.seq(ref.oid('1.2.3.9'), i(1))))
pairs('callback', 'm', dec(TCall, ref.seq(i(1), INNER2)), mk(TCall, {'kind': 'zero', 'value': 4}))
pairs('any', 's', dec(core.Any, INNER1), call(lambda: out(core.Any(core.Integer(1)))))
pairs('time', 's', dec(core.UTCTime, ref.u(23, b'240101000000Z')), dec(core.GeneralizedTime, ref.u(24, b'20240101000000Z')))

# the library's own types
NAME1 = ref.seq(ref.set_(ref.seq(ref.oid('2.5.4.6'), ref.u(19, b'US'))), ref.set_(ref.seq(ref.oid('2.5.4.3'), ref.u(12, b'Will'))))
SHA256 = ref.seq(ref.oid('2.16.840.1.101.3.4.2.1'), ref.u(5, b''))
RSASHA = ref.seq(ref.oid('1.2.840.113549.1.1.11'), ref.u(5, b''))
PBES2 = ref.seq(ref.oid('1.2.840.113549.1.5.13'), ref.seq(
    ref.seq(ref.oid('1.2.840.113549.1.5.12'), ref.seq(ref.u(4, b'saltsalt'), i(2048))),
    ref.seq(ref.oid('2.16.840.1.101.3.4.1.2'), ref.u(4, b'i' * 16))))
RKI = ref.seq(ref.u(4, b'skid'))


def legacy_rki():
    o = cms.RecipientKeyIdentifier.load(RKI)
    return (repr(o['subjectKeyIdentifier'].native), out(o))


def legacy_pref():
    return out(cms.SMIMEEncryptionKeyPreference(name='recipientKeyId', value=cms.RecipientKeyIdentifier({'subject_key_identifier': b'x'})))


def names_equal():
    a, b = x509.Name.build({'common_name': u'Will', 'country_name': u'US'}), x509.Name.load(NAME1)
    return (repr(a == b), a.human_friendly, b.human_friendly, a.hashable, a.dump().hex())


def sig():
    o = algos.SignedDigestAlgorithm.load(RSASHA)
    return (o.signature_algo, o.hash_algo, out(o))


def pbes2():
    o = algos.EncryptionAlgorithm.load(PBES2)
    return (o.encryption_cipher, o.encryption_mode, o.key_length, o.kdf, repr(o.kdf_salt), repr(o.encryption_iv), out(o))


def anyalgo():
    return (out(algos.AnyAlgorithmIdentifier.load(SHA256)), out(algos.AnyAlgorithmId(u'aes128_cbc')))


def cert(rel, *attrs):
    raw = corpus.read(rel)

    def body():
        der = raw
        if pem.detect(der):
            der = pem.unarmor(der)[2]
        o = x509.Certificate.load(der)
        return (out(o), [stable(getattr(o, a) if not isinstance(getattr(o, a), core.Asn1Value) else getattr(o, a).native) for a in attrs])
    return body


def whole(cls, rel):
    raw = corpus.read(rel)

    def body():
        der = raw
        if pem.detect(der):
            der = pem.unarmor(der)[2]
        return out(cls.load(der))
    return body


EC = ref.seq(ref.seq(ref.oid('1.2.840.10045.2.1'), ref.oid('1.2.840.10045.3.1.7')), ref.u(3, b'\0\4' + b'\1' * 64))


def eckey():
    o = keys.PublicKeyInfo.load(EC)
    return (repr(o.curve), o.algorithm, o.bit_size, o['public_key'].to_coords(), out(o))


def curve():
    return out(keys.NamedCurve(u'secp384r1'))


def gn_ip():
    return out(x509.GeneralName(name='ip_address', value=u'10.0.0.0/8'))


def gn_dn():
    return out(x509.GeneralName.load(ref.ctx(4, NAME1, True)))


def exts():
    return out(x509.Extensions([{'extn_id': 'basic_constraints', 'critical': True, 'extn_value': {'ca': True}},
                                {'extn_id': 'key_usage', 'extn_value': {'digital_signature', 'crl_sign'}}]))


EXTS_RAW = ref.seq(ref.seq(ref.oid('2.5.29.19'), ref.u(1, b'\xff'), ref.u(4, ref.seq(ref.u(1, b'\xff')))),
                   ref.seq(ref.oid('2.5.29.37'), ref.u(4, ref.seq(ref.oid('1.3.6.1.5.5.7.3.1')))))

pairs('nta', 'm', mk(x509.NameTypeAndValue, {'type': u'email_address', 'value': u'a@b.c'}))
pairs('algo', 'm', sig, mk(algos.SignedDigestAlgorithm, {'algorithm': u'sha256_ecdsa'}), dec(algos.AlgorithmIdentifier, SHA256))
pairs('legacy', 'm', legacy_rki, dec(cms.RecipientKeyIdentifier, RKI))
pairs('pref', 'm', legacy_pref, dec(cms.SMIMEEncryptionKeyPreference, ref.ctx(1, ref.u(4, b'x'), True)))
pairs('curve', 'm', curve)
pairs('anyalgo', 'l', anyalgo, sig)
pairs('name', 'l', names_equal, dec(x509.Name, NAME1))
pairs('pbes2', 'l', pbes2, mk(algos.EncryptionAlgorithm, {'algorithm': u'rc4'}))
pairs('eckey', 'l', eckey, curve)
pairs('gn', 'l', gn_ip, gn_dn)
pairs('exts', 'l', exts, dec(x509.Extensions, EXTS_RAW))
pairs('attrs', 'l', mk(cms.CMSAttribute, {'type': u'content_type', 'values': [u'data']}),
      dec(cms.CMSAttributes, ref.set_(ref.seq(ref.oid('1.2.840.113549.1.9.4'), ref.set_(ref.u(4, b'd' * 20))))))
H['cert/0-0'] = (cert('keys/test-der.crt', 'key_identifier', 'ca', 'self_signed'), cert('geotrust_certs/codex.crt', 'valid_domains', 'key_usage_value'), 'x')
H['cert/1-0'] = (cert('geotrust_certs/codex.crt', 'valid_domains', 'key_usage_value'), cert('keys/test-der.crt', 'key_identifier', 'ca', 'self_signed'), 'x')


# ------------------------------------------------------------------ exploration
@functools.lru_cache(None)
def alone(name, who, opcodes):
    return sched.in_child(lambda: sched.count(H[name][who], opcodes))


def verdict(name, plan, opcodes, rec):
    a, b = H[name][0], H[name][1]
    wa, wb = alone(name, 0, False)[0], alone(name, 1, False)[0]
    got = sched.in_child(lambda: sched.run((a, b), plan, opcodes))
    rec.op()
    if got[0] != 'ran':
        raise Violation('%s under the schedule %s of %s: %s' % (name, plan, 'instructions' if opcodes else 'lines', got[1]))
    _, res, again, steps, blocked, switches = got
    rec.state(name, opcodes, tuple(plan), tuple(steps))
    rec.outcome('%s%s' % (name.split('/')[0], ' (one waited for the other)' if blocked else ''))
    for who, want in ((0, wa), (1, wb)):
        for what, g in (('obtained', res[who]), ('obtains when it asks again', again[who])):
            if g != want:
                raise Violation('%s: thread %d %s\n  %r\nalone it obtains\n  %r\nschedule: thread 0 runs %s %s, then the other, and so on' % (
                    name, who, what, g, want, plan, 'instructions' if opcodes else 'lines'))
    return steps, switches


R = 8
# small enough for every instruction, and for two preemptions
INSTR = ['oid/0-2', 'oid/1-0', 'enum/0-1', 'tagged/0-1', 'flags/1-0']
TWO = ['oid/2-1', 'tagged/0-1', 'enum/1-0', 'int/0-1', 'oid/0-3', 'seq/0-1']


def gen1(tier):
    for name in H:
        size = H[name][2]
        if tier == 'quick' and size not in 'sm':
            continue
        for r in range(R):
            yield (name, False, r)
    for name in INSTR if tier == 'quick' else [n for n in H if H[n][2] == 's']:
        for r in range(R):
            yield (name, True, r)


def check1(case, rec):
    """one preemption of thread 0, everywhere"""
    name, opcodes, r = case
    res, n = alone(name, 0, opcodes)
    if res[0] != 'ok' or alone(name, 1, False)[0][0] != 'ok':
        raise Violation('%s fails on its own: %r %r' % (name, res, alone(name, 1, False)))
    for k in range(r, n + 1, R):
        verdict(name, (k,), opcodes, rec)


def gen2(tier):
    # in quick, every line of the first thread with every eighth of the other
    for name in TWO[:2] if tier == 'quick' else TWO:
        for r in range(48):
            yield (name, 48, r, 8 if tier == 'quick' else 1)


def check2(case, rec):
    """two preemptions: thread 0, thread 1, thread 0 to its end, thread 1"""
    name, n, r, stride = case
    total = alone(name, 0, False)[1]
    other = alone(name, 1, False)[1]
    for k in range(r, total, n):
        for j in range(1 + k % stride, other + 1, stride):
            steps, switches = verdict(name, (k, j), False, rec)
            if switches < 2:
                # thread 1 was at its end before the second preemption, or had to wait
                break


SPACES = [
    Space('one-preemption', gen1, check1, 'every schedule with one preemption, at every line (and for the small harnesses every bytecode instruction) of the library that thread 0 executes', cpu_limit=600),
    Space('two-preemptions', gen2, check2, 'two threads, preemptions of both: at every line of the first, and every (quick: every eighth) line of the other', cpu_limit=600),
]


def run(argv):
    # an execution is a fork and a few waits: more workers than cores
    os.environ.setdefault('VERIF_JOBS', '14')
    return main('C20', SPACES, [
        'a step is a source line of asn1crypto, in part of the spaces a bytecode instruction; switches inside of C code of CPython do not exist under its global lock',
        'two threads; every execution starts in a process in which the library was imported and not used',
        'threads that block on a lock of the other give way to it, from then on the execution is not controlled any more'], argv)
