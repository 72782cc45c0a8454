"""X.509, CRL and OCSP structures encoded with the reference encoder, from the ASN.1 modules of their RFCs."""
from . import ref
from .ref import seq, set_, integer, octets, oid, u, ctx, expl, boolean, null

CN, C, O, OU, EMAIL, DC, SN = '2.5.4.3', '2.5.4.6', '2.5.4.10', '2.5.4.11', '1.2.840.113549.1.9.1', '0.9.2342.19200300.100.1.25', '2.5.4.5'


def utf8(s):
    return u(12, s.encode('utf-8'))


def printable(s):
    return u(19, s.encode('ascii'))


def ia5(s):
    return u(22, s.encode('ascii') if not isinstance(s, bytes) else s)


def atv(t, value):
    return seq(oid(t), value)


def rdn(*atvs):
    return set_(*sorted(atvs))


def name(*rdns):
    """each: an encoded RDN, or (type, text)"""
    return seq(*[rdn(atv(r[0], utf8(r[1]))) if isinstance(r, tuple) else r for r in rdns])


def general(kind, v):
    """GeneralName"""
    if kind == 'dir':
        return expl(4, v)
    if kind == 'oid':
        return ctx(8, ref.parse_one(oid(v))[0][4])
    if kind == 'other':
        return ctx(0, oid(v[0]) + expl(0, v[1]), True)
    num = {'email': 1, 'dns': 2, 'uri': 6, 'ip': 7}[kind]
    return ctx(num, v if isinstance(v, bytes) else v.encode('ascii'))


def generals(*gs):
    return seq(*[general(*g) for g in gs])


def retag(cls, num, der):
    """implicit tag"""
    (c, cons, t, h, content, trl), _ = ref.parse_one(der)
    return ref.tlv(cls, cons, num, content)


def utctime(s):
    return u(23, s.encode('ascii'))


def gentime(s):
    return u(24, s.encode('ascii'))


def bits(*on):
    """a named bit list: no trailing zeros"""
    n = max(on) + 1 if on else 0
    return ref.bitstring([int(i in on) for i in range(n)])


def alg(o, params=b''):
    return seq(oid(o), params)


SHA256RSA = alg('1.2.840.113549.1.1.11', null())
SHA1 = alg('1.3.14.3.2.26', null())
RSA = '1.2.840.113549.1.1.1'
SPKI = seq(alg(RSA, null()), u(3, b'\0' + seq(integer((1 << 511) + 111), integer(65537))))
SUBJECT = name((C, u'DE'), (CN, u'subject'))
ISSUER = name((C, u'DE'), (CN, u'issuer'))


def extension(o, value, critical=False, explicit_false=False):
    return seq(oid(o), boolean(critical) if critical or explicit_false else b'', octets(value))


def tbs(exts=None, subject=SUBJECT, issuer=ISSUER, serial=5, spki=SPKI, before=utctime('200101000000Z'), after=utctime('300101000000Z'), version=2, sig=SHA256RSA):
    """exts: list of encoded Extension or None"""
    return seq(expl(0, integer(version)) if version else b'', integer(serial), sig, issuer, seq(before, after), subject, spki,
               b'' if exts is None else expl(3, seq(*exts)))


def cert(exts=None, sig=SHA256RSA, sigvalue=b'sig', **kw):
    return seq(tbs(exts, sig=sig, **kw), sig, u(3, b'\0' + sigvalue))


def revoked(serial, exts=None, date=utctime('210101000000Z')):
    return seq(integer(serial), date, b'' if exts is None else seq(*exts))


def crl(exts=None, entries=None, issuer=ISSUER, this=utctime('210101000000Z'), nxt=utctime('220101000000Z'), sig=SHA256RSA):
    t = seq(integer(1), sig, issuer, this, nxt or b'', b'' if entries is None else seq(*entries), b'' if exts is None else expl(0, seq(*exts)))
    return seq(t, sig, u(3, b'\0sig'))


def certid(serial=5):
    return seq(SHA1, octets(b'n' * 20), octets(b'k' * 20), integer(serial))


def request(exts=None, serial=5):
    return seq(certid(serial), b'' if exts is None else expl(0, seq(*exts)))


def ocsp_request(exts=None, requests=None, requestor=None, signature=None):
    return seq(seq(b'' if requestor is None else expl(1, requestor), seq(*(requests or [request()])), b'' if exts is None else expl(2, seq(*exts))),
               b'' if signature is None else expl(0, signature))


GOOD, UNKNOWN = ctx(0, b''), ctx(2, b'')


def revoked_status(reason=None, at='20210101000000Z'):
    return ctx(1, gentime(at) + (b'' if reason is None else expl(0, u(10, bytes([reason])))), True)


def single(exts=None, status=GOOD, nxt=None, serial=5):
    return seq(certid(serial), status, gentime('20210101000000Z'), b'' if nxt is None else expl(0, gentime(nxt)), b'' if exts is None else expl(1, seq(*exts)))


def basic(exts=None, singles=None, responder=None, certs=None):
    data = seq(responder or expl(1, ISSUER), gentime('20210101000000Z'), seq(*(singles or [single()])), b'' if exts is None else expl(1, seq(*exts)))
    return seq(data, SHA256RSA, u(3, b'\0sig'), b'' if certs is None else expl(0, seq(*certs)))


def ocsp_response(exts=None, singles=None, status=0, **kw):
    if status:
        return seq(u(10, bytes([status])))
    return seq(u(10, b'\0'), expl(0, seq(oid('1.3.6.1.5.5.7.48.1.1'), octets(basic(exts, singles, **kw)))))


def dp(full=None, relative=None, reasons=None, issuer=None):
    n = b''
    if full is not None:
        n = expl(0, retag(2, 0, generals(*full)))
    elif relative is not None:
        n = expl(0, retag(2, 1, relative))
    return seq(n, b'' if reasons is None else retag(2, 1, bits(*reasons)), b'' if issuer is None else retag(2, 2, generals(*issuer)))


def aki(kid=None, issuer=None, serial=None):
    return seq(b'' if kid is None else ctx(0, kid), b'' if issuer is None else retag(2, 1, generals(*issuer)), b'' if serial is None else retag(2, 2, integer(serial)))


def csr(attrs=(), subject=SUBJECT, spki=SPKI):
    return seq(seq(integer(0), subject, spki, ref.ctx(0, b''.join(sorted(attrs)), True)), SHA256RSA, u(3, b'\0sig'))


# extensions of certificates: name -> (OID, value)
URI = ('uri', 'http://example.com/a.crl')
CERT_EXTS = {
    'subject_directory_attributes': ('2.5.29.9', seq(seq(oid('1.3.6.1.5.5.7.9.4'), set_(printable('DE'))))),
    'key_identifier': ('2.5.29.14', octets(b'\x01\x02\x03')),
    'key_usage': ('2.5.29.15', bits(0, 5)),
    'private_key_usage_period': ('2.5.29.16', seq(ctx(0, b'20200101000000Z'))),
    'subject_alt_name': ('2.5.29.17', generals(('dns', 'example.com'), ('ip', b'\x0a\0\0\x01'), ('email', 'a@example.com'))),
    'issuer_alt_name': ('2.5.29.18', generals(('dns', 'ca.example.com'))),
    'basic_constraints': ('2.5.29.19', seq(boolean(True), integer(4))),
    'name_constraints': ('2.5.29.30', seq(ctx(0, seq(general('dns', 'example.com')), True))),
    'crl_distribution_points': ('2.5.29.31', seq(dp([URI]))),
    'certificate_policies': ('2.5.29.32', seq(seq(oid('2.5.29.32.0')))),
    'policy_mappings': ('2.5.29.33', seq(seq(oid('1.2.3'), oid('1.2.4')))),
    'authority_key_identifier': ('2.5.29.35', aki(b'\x09\x08', [('dir', ISSUER)], 77)),
    'policy_constraints': ('2.5.29.36', seq(ctx(0, b'\x02'))),
    'extended_key_usage': ('2.5.29.37', seq(oid('1.3.6.1.5.5.7.3.1'))),
    'freshest_crl': ('2.5.29.46', seq(dp([('uri', 'http://example.com/delta.crl')]))),
    'inhibit_any_policy': ('2.5.29.54', integer(3)),
    'authority_information_access': ('1.3.6.1.5.5.7.1.1', seq(seq(oid('1.3.6.1.5.5.7.48.1'), general('uri', 'http://ocsp.example.com/')),
                                                               seq(oid('1.3.6.1.5.5.7.48.2'), general('uri', 'http://ca.example.com/ca.crt')))),
    'subject_information_access': ('1.3.6.1.5.5.7.1.11', seq(seq(oid('1.3.6.1.5.5.7.48.5'), general('uri', 'http://ca.example.com/repo')))),
    'tls_feature': ('1.3.6.1.5.5.7.1.24', seq(integer(5))),
    'ocsp_no_check': ('1.3.6.1.5.5.7.48.1.5', null()),
    'entrust_version_extension': ('1.2.840.113533.7.65.0', seq(u(27, b'V8'), bits(0))),
    'netscape_certificate_type': ('2.16.840.1.113730.1.1', bits(1)),
    'signed_certificate_timestamp_list': ('1.3.6.1.4.1.11129.2.4.2', octets(b'sct')),
    'microsoft_enroll_certtype': ('1.3.6.1.4.1.311.20.2', u(30, b'\0C\0A')),
}
UNKNOWN_EXTS = {'1.2.3.4.5': ('1.2.3.4.5', seq(integer(1))), '2.5.29.99': ('2.5.29.99', b'\xff')}
CRL_EXTS = {
    'issuer_alt_name': CERT_EXTS['issuer_alt_name'],
    'crl_number': ('2.5.29.20', integer(1000)),
    'delta_crl_indicator': ('2.5.29.27', integer(999)),
    'issuing_distribution_point': ('2.5.29.28', seq(expl(0, retag(2, 0, generals(URI))), ctx(1, b'\xff'))),
    'authority_key_identifier': CERT_EXTS['authority_key_identifier'],
    'freshest_crl': CERT_EXTS['freshest_crl'],
    'authority_information_access': CERT_EXTS['authority_information_access'],
}
ENTRY_EXTS = {
    'crl_reason': ('2.5.29.21', u(10, b'\x01')),
    'hold_instruction_code': ('2.5.29.23', oid('1.2.840.10040.2.1')),
    'invalidity_date': ('2.5.29.24', gentime('20201231000000Z')),
    'certificate_issuer': ('2.5.29.29', generals(('dns', 'x.example.com'), ('dir', SUBJECT))),
}
REQUEST_EXTS = {'service_locator': ('1.3.6.1.5.5.7.48.1.7', seq(ISSUER, CERT_EXTS['authority_information_access'][1]))}
OCSPREQ_EXTS = {
    'nonce': ('1.3.6.1.5.5.7.48.1.2', octets(b'nonce')),
    'acceptable_responses': ('1.3.6.1.5.5.7.48.1.4', seq(oid('1.3.6.1.5.5.7.48.1.1'))),
    'preferred_signature_algorithms': ('1.3.6.1.5.5.7.48.1.8', seq(seq(SHA256RSA))),
}
SINGLE_EXTS = {
    'crl': ('1.3.6.1.5.5.7.48.1.3', seq(expl(0, ia5('http://example.com/')), expl(1, integer(3)))),
    'archive_cutoff': ('1.3.6.1.5.5.7.48.1.6', gentime('20100101000000Z')),
    'crl_reason': ENTRY_EXTS['crl_reason'],
    'invalidity_date': ENTRY_EXTS['invalidity_date'],
    'certificate_issuer': ENTRY_EXTS['certificate_issuer'],
    'signed_certificate_timestamp_list': ('1.3.6.1.4.1.11129.2.4.5', octets(b'sct')),
}
RESPONSE_EXTS = {'nonce': OCSPREQ_EXTS['nonce'], 'extended_revoke': ('1.3.6.1.5.5.7.48.1.9', null())}
