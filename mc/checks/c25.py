"""C25 - derived attributes are those of the extensions and fields that are present."""
import datetime
import hashlib
import itertools
from .. import pki, ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import x509, crl, ocsp, csr, core  # noqa

UTC = datetime.timezone.utc
# kind -> (class, function from the list of extensions to the encoding and the way to the object, table, attributes that do not follow the pattern)
KINDS = {
    'cert': (lambda e: x509.Certificate.load(pki.cert(e)), pki.CERT_EXTS, ('entrust_version_extension', 'netscape_certificate_type', 'signed_certificate_timestamp_list', 'microsoft_enroll_certtype'),
             lambda o: o['tbs_certificate']['extensions']),
    'crl': (lambda e: crl.CertificateList.load(pki.crl(e)), pki.CRL_EXTS, (), lambda o: o['tbs_cert_list']['crl_extensions']),
    'entry': (lambda e: crl.CertificateList.load(pki.crl(None, [pki.revoked(4), pki.revoked(5, e), pki.revoked(6)]))['tbs_cert_list']['revoked_certificates'][1], pki.ENTRY_EXTS, ('hold_instruction_code',),
              lambda o: o['crl_entry_extensions']),
    'request': (lambda e: ocsp.OCSPRequest.load(pki.ocsp_request(None, [pki.request(e)]))['tbs_request']['request_list'][0], pki.REQUEST_EXTS, (), lambda o: o['single_request_extensions']),
    'ocsprequest': (lambda e: ocsp.OCSPRequest.load(pki.ocsp_request(e)), pki.OCSPREQ_EXTS, (), lambda o: o['tbs_request']['request_extensions']),
    'single': (lambda e: ocsp.OCSPResponse.load(pki.ocsp_response(None, [pki.single(e)])).response_data['responses'][0], pki.SINGLE_EXTS, ('signed_certificate_timestamp_list',),
               lambda o: o['single_extensions']),
    'response': (lambda e: ocsp.OCSPResponse.load(pki.ocsp_response(e)), pki.RESPONSE_EXTS, (), lambda o: o.response_data['response_extensions']),
}
STANDALONE = {
    'entry': lambda e: crl.RevokedCertificate.load(pki.revoked(5, e)),
    'request': lambda e: ocsp.Request.load(pki.request(e)),
    'single': lambda e: ocsp.SingleResponse.load(pki.single(e)),
}


def all_names(kind):
    return list(KINDS[kind][1]) + list(pki.UNKNOWN_EXTS)


def attrs(kind):
    return [n for n in KINDS[kind][1] if n not in KINDS[kind][2]]


def ext_of(kind, n):
    t = KINDS[kind][1]
    return t[n] if n in t else pki.UNKNOWN_EXTS[n]


# ------------------------------------------------------------------ subsets and orders of extensions
def gen_ext(tier):
    for kind in KINDS:
        names = all_names(kind)
        yield (kind, None, (), 0)
        for r in range(0, 3 if tier == 'quick' or len(names) > 12 else 4):
            for sub in itertools.permutations(range(len(names)), r):
                for crit in itertools.product((0, 1, 2), repeat=r) if r < 3 else ((0, 1, 2), (1, 1, 0)):
                    yield (kind, sub, crit, 0)
                    if r == 1 or tier == 'thorough':
                        yield (kind, sub, crit, 1)
        # almost everything
        full = tuple(range(len(names)))
        for r in range(0, 3):
            for out in itertools.combinations(full, r):
                sub = tuple([i for i in full if i not in out])
                for c in (0, 1):
                    yield (kind, sub, (c,) * len(sub), 0)
                    yield (kind, sub[::-1], tuple([(i + c) % 3 for i in range(len(sub))]), 1)
        if tier == 'thorough':
            for r in (3, 4) if len(names) > 12 else range(3, len(names)):
                for sub in itertools.combinations(full, r):
                    yield (kind, sub, tuple([i % 3 for i in range(r)]), 0)
                    yield (kind, sub[::-1], tuple([(i + 1) % 3 for i in range(r)]), 1)


def check_ext(case, rec):
    kind, sub, crit, how = case
    names = all_names(kind)
    if sub is None:
        exts = None
        present, critical = {}, set()
    else:
        exts = [pki.extension(ext_of(kind, names[i])[0], ext_of(kind, names[i])[1], c == 1, c == 2) for i, c in zip(sub, crit)]
        present = dict((names[i], ext_of(kind, names[i])[1]) for i in sub)
        critical = set(names[i] for i, c in zip(sub, crit) if c == 1)
    load = KINDS[kind][0]
    want = attrs(kind)

    def read(o, a):
        rec.op()
        if a == 'critical_extensions':
            got = o.critical_extensions
            if got != critical:
                raise Violation('critical_extensions is %r, expected %r' % (got, critical))
            return
        got = getattr(o, a + '_value')
        if a not in present:
            if got is not None:
                raise Violation('%s_value is %r, the extension is absent' % (a, got))
            return
        if got is None:
            raise Violation('%s_value is None, the extension is present' % a)
        if got.dump() != present[a]:
            raise Violation('%s_value encodes as %s, the extension contains %s' % (a, got.dump().hex(), present[a].hex()))

    order = want + ['critical_extensions']
    orders = [order, order[::-1]]
    if sub is None or len(sub) <= 1:
        orders = [order[i:] + order[:i] for i in range(len(order))]
    for od in orders:
        o = load(exts)
        if how == 1 and kind in STANDALONE:
            o = STANDALONE[kind](exts)
        elif how == 1:
            # after everything was read, and in a copy
            o.native
            for x in KINDS[kind][3](o):
                x['extn_value'].native
            o = o.copy()
        for a in od:
            read(o, a)
        c = o.copy()
        for a in od:
            read(o, a)
        for a in od[::-1]:
            read(c, a)
        if how == 1:
            # an edited copy has the attributes of what it now contains
            if sub is not None and len(sub) > 1:
                c = o.copy()
                l = KINDS[kind][3](c)
                gone = names[sub[0]]
                del l[0]
                save = dict(present), set(critical)
                present.pop(gone)
                critical.discard(gone)
                for a in od:
                    read(c, a)
                present.clear()
                present.update(save[0])
                critical.clear()
                critical.update(save[1])
    # the extensions by themselves
    l = KINDS[kind][3](load(exts))
    if sub is not None:
        if [x['extn_id'].native for x in l] != [names[i] for i in sub]:
            return 'extensions are %r' % ([x['extn_id'].native for x in l],)
        if [x['critical'].native for x in l] != [c == 1 for c in crit]:
            return 'critical flags are %r' % ([x['critical'].native for x in l],)
    rec.state(kind, sub, crit)
    rec.outcome(kind)


# ------------------------------------------------------------------ certificates: attributes computed from fields and extensions
OTHER = pki.name((pki.CN, u'other'))
VARIANT = pki.name((pki.C, u'de'), (pki.CN, u'SUBJECT '))
BASIC = {None: None, 'empty': pki.seq(), 'false': pki.seq(ref.boolean(False)), 'true': pki.seq(ref.boolean(True)), 'true0': pki.seq(ref.boolean(True), ref.integer(0)),
         'true4': pki.seq(ref.boolean(True), ref.integer(4)), 'path': pki.seq(ref.integer(3))}
SKI = {None: None, 'a': b'aaa', 'b': b'bbb', 'long': b'k' * 20, 'lonh': b'k' * 19 + b'l', 'short': b'aa', 'empty': b''}
AKI = {None: (None, None, None, None), 'empty': (pki.aki(), None, None, None), 'a': (pki.aki(b'aaa'), b'aaa', None, None), 'b': (pki.aki(b'bbb'), b'bbb', None, None),
       'is': (pki.aki(None, [('dir', pki.ISSUER)], 12), None, pki.ISSUER, 12), 'ais': (pki.aki(b'aaa', [('dir', OTHER)], -1), b'aaa', OTHER, -1),
       'dns': (pki.aki(None, [('dns', 'x'), ('dir', OTHER)], 2), None, OTHER, 2), 'only': (pki.aki(b'bbb', [('dns', 'x')], 2), b'bbb', None, None),
       'long': (pki.aki(b'k' * 20), b'k' * 20, None, None), 'prefix': (pki.aki(b'k' * 19), b'k' * 19, None, None), 'no octets': (pki.aki(b''), b'', None, None),
       'two': (pki.aki(None, [('dir', OTHER), ('dir', pki.ISSUER)], 0), None, OTHER, 0)}
SUBJ = {'same': pki.ISSUER, 'other': pki.SUBJECT, 'case': pki.name((pki.C, u'de'), (pki.CN, u'ISSUER '))}


def gen_cert(tier):
    for b in BASIC:
        for s in SKI:
            for a in AKI:
                for j in SUBJ:
                    for order in (0, 1):
                        yield (b, s, a, j, order)


def hashes(d):
    return hashlib.sha1(d).digest(), hashlib.sha256(d).digest()


def expect(o, a, want, rec):
    rec.op()
    got = getattr(o, a)
    if got != want or type(got) is not type(want):
        raise Violation('%s is %r, expected %r' % (a, got, want))


def name_sha256(der):
    """as documented: the SHA-256 hash of the name"""
    return hashlib.sha256(der).digest()


def check_cert(case, rec):
    b, s, a, j, order = case
    exts = []
    if BASIC[b] is not None:
        exts.append(pki.extension('2.5.29.19', BASIC[b], True))
    if SKI[s] is not None:
        exts.append(pki.extension('2.5.29.14', ref.octets(SKI[s])))
    kid = AKI[a]
    if kid[0] is not None:
        exts.append(pki.extension('2.5.29.35', kid[0]))
    der = pki.cert(exts[::-1] if order else exts, subject=SUBJ[j], serial=-7 if order else 129, sigvalue=b'\x01\x02' * 3, sig=pki.alg('1.2.840.10045.4.3.2') if order else pki.SHA256RSA)
    sha1, sha256 = hashes(der)
    issued = j != 'other'
    signed = 'no'
    if issued and (s is None or kid[1] is None or kid[1] == SKI[s]):
        signed = 'maybe'
    ca = {None: None, 'empty': False, 'false': False, 'true': True, 'true0': True, 'true4': True, 'path': False}[b]
    want = [
        ('ca', ca), ('max_path_length', {'true0': 0, 'true4': 4}.get(b)), ('key_identifier', SKI[s]), ('authority_key_identifier', kid[1]),
        ('authority_issuer_serial', None if kid[2] is None else name_sha256(kid[2]) + b':' + str(kid[3]).encode()),
        ('issuer_serial', name_sha256(pki.ISSUER) + b':' + (b'-7' if order else b'129')),
        ('self_issued', issued), ('self_signed', signed), ('sha1', sha1), ('sha256', sha256),
        ('sha1_fingerprint', ' '.join('%02X' % x for x in sha1)), ('sha256_fingerprint', ' '.join('%02X' % x for x in sha256)),
        ('serial_number', -7 if order else 129), ('signature', b'\x01\x02' * 3), ('hash_algo', 'sha256'), ('signature_algo', 'ecdsa' if order else 'rsassa_pkcs1v15'),
        ('not_valid_before', datetime.datetime(2020, 1, 1, tzinfo=UTC)), ('not_valid_after', datetime.datetime(2030, 1, 1, tzinfo=UTC)),
        ('valid_domains', []), ('valid_ips', []), ('crl_distribution_points', []), ('delta_crl_distribution_points', []), ('ocsp_urls', []),
    ]
    for od in (want, want[::-1]):
        o = x509.Certificate.load(der)
        for _ in (0, 1):
            for k, v in od:
                expect(o, k, v, rec)
            if o.subject.dump() != SUBJ[j] or o.issuer.dump() != pki.ISSUER or o.public_key.dump() != pki.SPKI:
                return 'subject, issuer or public key differ'
    # self_signed first: it depends on the others
    for k, v in want:
        expect(x509.Certificate.load(der), k, v, rec)
    rec.state(case)
    rec.outcome(signed)


# ------------------------------------------------------------------ validity: every kind of time
TIMES = {'utc': (pki.utctime('491231235959Z'), datetime.datetime(2049, 12, 31, 23, 59, 59, tzinfo=UTC)),
         'utc50': (pki.utctime('500101000000Z'), datetime.datetime(1950, 1, 1, tzinfo=UTC)),
         'gen': (pki.gentime('20500101000000Z'), datetime.datetime(2050, 1, 1, tzinfo=UTC)),
         'max': (pki.gentime('99991231235959Z'), datetime.datetime(9999, 12, 31, 23, 59, 59, tzinfo=UTC))}


def gen_times(tier):
    for a in TIMES:
        for b in TIMES:
            yield (a, b)


def check_times(case, rec):
    a, b = case
    o = x509.Certificate.load(pki.cert(None, before=TIMES[a][0], after=TIMES[b][0]))
    expect(o, 'not_valid_before', TIMES[a][1], rec)
    expect(o, 'not_valid_after', TIMES[b][1], rec)
    c = crl.CertificateList.load(pki.crl(None, [pki.revoked(3, date=TIMES[b][0])], this=TIMES[a][0], nxt=TIMES[b][0]))
    t = c['tbs_cert_list']
    if t['this_update'].native != TIMES[a][1] or t['next_update'].native != TIMES[b][1] or t['revoked_certificates'][0]['revocation_date'].native != TIMES[b][1]:
        return 'times of the CRL'
    rec.state(case)


# ------------------------------------------------------------------ distribution points and URLs
H, S, F, L = ('uri', 'http://example.com/a'), ('uri', 'HTTPS://example.com/b'), ('uri', 'ftp://example.com/c'), ('uri', 'ldap://example.com/d')
D, DIR = ('dns', 'example.com'), ('dir', pki.ISSUER)
# (encoding, listed, url or Exception or None)
DPS = [
    (pki.dp([H]), True, 'http://example.com/a'), (pki.dp([S]), True, 'https://example.com/b'), (pki.dp([F]), True, None), (pki.dp([L]), True, 'ldap://example.com/d'),
    (pki.dp([D]), False, None), (pki.dp([D, H]), True, 'http://example.com/a'), (pki.dp([H, S]), True, 'http://example.com/a'), (pki.dp([F, H, L], reasons=[1]), True, 'http://example.com/a'),
    (pki.dp(relative=pki.rdn(pki.atv(pki.CN, pki.utf8(u'x')))), False, ValueError), (pki.dp(issuer=[DIR]), False, None), (pki.dp([DIR], issuer=[DIR]), False, None), (pki.dp(), False, None), (pki.dp([]), False, None),
]


def gen_dps(tier):
    n = len(DPS)
    for r in range(0, 4 if tier == 'thorough' else 3):
        for l in itertools.product(range(n), repeat=r):
            yield l


def check_dps(case, rec):
    der = pki.seq(*[DPS[i][0] for i in case])
    want = [DPS[i][0] for i in case if DPS[i][1]]
    for which in ('crl_distribution_points', 'delta_crl_distribution_points', 'crl'):
        if which == 'crl':
            o = crl.CertificateList.load(pki.crl([pki.extension('2.5.29.46', der)]))
            a = 'delta_crl_distribution_points'
        else:
            # the other one is there, too
            o = x509.Certificate.load(pki.cert([pki.extension('2.5.29.31', der if which[0] == 'c' else pki.seq(pki.dp([H]))), pki.extension('2.5.29.46', der if which[0] == 'd' else pki.seq(pki.dp([L])))]))
            a = which
        for _ in (0, 1):
            rec.op()
            got = [d.dump() for d in getattr(o, a)]
            if got != want:
                return '%s are %s, expected %s' % (a, [g.hex() for g in got], [w.hex() for w in want])
        points = o.freshest_crl_value if which != 'crl_distribution_points' else o.crl_distribution_points_value
        for d, i in zip(points, case):
            for _ in (0, 1):
                rec.op()
                try:
                    u = d.url
                except ValueError as e:
                    u = ValueError
                if u != DPS[i][2]:
                    return 'url of %s is %r, expected %r' % (d.dump().hex(), u, DPS[i][2])
    rec.state(case)


OCSP, CA, TS = '1.3.6.1.5.5.7.48.1', '1.3.6.1.5.5.7.48.2', '1.3.6.1.5.5.7.48.3'
AIA = [(OCSP, ('uri', 'http://o/')), (OCSP, ('uri', 'HTTP://O/x')), (OCSP, ('uri', 'https://o/y')), (OCSP, ('uri', 'ldap://o/z')), (OCSP, ('uri', 'ftp://o/')), (OCSP, D), (OCSP, DIR), (CA, ('uri', 'http://c/')),
       (CA, ('uri', 'https://c/')), (CA, D), (TS, ('uri', 'http://t/')), ('1.2.3', ('uri', 'http://u/'))]


def gen_aia(tier):
    for r in range(0, 4 if tier == 'thorough' else 3):
        for l in itertools.product(range(len(AIA)), repeat=r):
            yield l


def check_aia(case, rec):
    der = pki.seq(*[pki.seq(ref.oid(AIA[i][0]), pki.general(*AIA[i][1])) for i in case])
    ext = [pki.extension('1.3.6.1.5.5.7.1.1', der)]

    def norm(u):
        # scheme and host are shown in lower case
        a, b = u.split('://')
        c, d = b.split('/', 1)
        return a.lower() + '://' + c.lower() + '/' + d
    urls = [norm(AIA[i][1][1]) for i in case if AIA[i][0] == OCSP and AIA[i][1][0] == 'uri' and AIA[i][1][1].split(':')[0].lower() in ('http', 'https', 'ldap')]
    cas = [AIA[i][1][1] for i in case if AIA[i][0] == CA and AIA[i][1][0] == 'uri' and AIA[i][1][1].startswith('http:')]
    c = x509.Certificate.load(pki.cert(ext))
    r = crl.CertificateList.load(pki.crl(ext))
    for _ in (0, 1):
        rec.op()
        if c.ocsp_urls != urls:
            return 'ocsp_urls is %r, expected %r' % (c.ocsp_urls, urls)
        if r.issuer_cert_urls != cas:
            return 'issuer_cert_urls is %r, expected %r' % (r.issuer_cert_urls, cas)
    rec.state(tuple(urls), tuple(cas))


# ------------------------------------------------------------------ CRLs and OCSP
REASONS = {0: 'unspecified', 1: 'key_compromise', 2: 'ca_compromise', 3: 'affiliation_changed', 4: 'superseded', 5: 'cessation_of_operation', 6: 'certificate_hold', 8: 'remove_from_crl',
           9: 'privilege_withdrawn', 10: 'aa_compromise'}
STATUSES = {0: 'successful', 1: 'malformed_request', 2: 'internal_error', 3: 'try_later', 5: 'sign_required', 6: 'unauthorized'}


def gen_misc(tier):
    for r in REASONS:
        yield ('reason', r)
    for s in STATUSES:
        yield ('status', s)
    for l in itertools.product((D, DIR, ('dir', OTHER), H), repeat=2):
        yield ('issuer', l)
    for l in (None, (), (D,), (DIR,)):
        yield ('issuer', l)
    for n in range(0, 4):
        yield ('crl', n)
    for st in ('good', 'revoked', 'unknown', 'reason'):
        for nxt in (None, '20220101000000Z'):
            for resp in ('name', 'key'):
                yield ('single', (st, nxt, resp))
    yield ('othertype', 0)
    for kid in AKI:
        yield ('aki', kid)


def check_misc(case, rec):
    k, v = case
    rec.op()
    rec.state(case)
    if k == 'reason':
        o = crl.RevokedCertificate.load(pki.revoked(5, [pki.extension('2.5.29.21', ref.u(10, bytes([v])))]))
        if o.crl_reason_value.native != REASONS[v] or not isinstance(o.crl_reason_value.human_friendly, str) or not o.crl_reason_value.human_friendly:
            return 'reason %d is %r' % (v, o.crl_reason_value.native)
        s = ocsp.SingleResponse.load(pki.single([pki.extension('2.5.29.21', ref.u(10, bytes([v])))], pki.revoked_status(v)))
        if s.crl_reason_value.native != REASONS[v] or s['cert_status'].chosen['revocation_reason'].native != REASONS[v]:
            return 'reason %d in an OCSP response' % v
        if len(set(crl.CRLReason(x).human_friendly for x in REASONS.values())) != len(REASONS):
            return 'two reasons read the same'
    elif k == 'status':
        for od in (0, 1):
            o = ocsp.OCSPResponse.load(pki.ocsp_response([pki.extension(*pki.RESPONSE_EXTS['nonce'], critical=True)], status=v))
            if o['response_status'].native != STATUSES[v]:
                return 'status %d is %r' % (v, o['response_status'].native)
            ok = v == 0
            tests = [('nonce_value', lambda x: x is not None and x.native == b'nonce'), ('extended_revoke_value', lambda x: not ok), ('basic_ocsp_response', lambda x: isinstance(x, ocsp.BasicOCSPResponse)),
                     ('response_data', lambda x: isinstance(x, ocsp.ResponseData)), ('critical_extensions', None)]
            for a, f in tests[::-1] if od else tests:
                got = getattr(o, a)
                if a == 'critical_extensions':
                    if got != (set(['nonce']) if ok else set()):
                        return '%s of a response with the status %d is %r' % (a, v, got)
                elif a == 'extended_revoke_value' and got is not None or a != 'extended_revoke_value' and (f(got) if ok else got is None) is not True:
                    return '%s of a response with the status %d is %r' % (a, v, got)
    elif k == 'issuer':
        o = crl.RevokedCertificate.load(pki.revoked(5, None if v is None else [pki.extension('2.5.29.29', pki.generals(*v), True)]))
        want = [x[1] for x in v or () if x[0] == 'dir']
        for _ in (0, 1):
            got = o.issuer_name
            if (got is None) != (not want) or want and got.untag().dump() != want[0]:
                return 'issuer_name of %r is %r' % (v, got)
    elif k == 'crl':
        d = pki.crl(None, None if v == 0 else [pki.revoked(i, [pki.extension(*pki.ENTRY_EXTS['crl_reason'])] if i == 1 else None) for i in range(v)], nxt=None if v == 1 else pki.utctime('220101000000Z'))
        for od in (0, 1):
            o = crl.CertificateList.load(d)
            sha1, sha256 = hashes(d)
            for a, w in ([('sha1', sha1), ('sha256', sha256), ('signature', b'sig'), ('authority_key_identifier', None), ('issuer_cert_urls', []), ('delta_crl_distribution_points', [])])[::-1 if od else 1]:
                expect(o, a, w, rec)
            if o.issuer.dump() != pki.ISSUER:
                return 'issuer'
            l = o['tbs_cert_list']['revoked_certificates']
            if v == 0:
                if l.native is not None:
                    return 'no revoked certificates read as %r' % l.native
            elif [(x['user_certificate'].native, x.crl_reason_value and x.crl_reason_value.native) for x in l] != [(i, 'key_compromise' if i == 1 else None) for i in range(v)]:
                return 'revoked certificates'
    elif k == 'single':
        st, nxt, resp = v
        status = {'good': pki.GOOD, 'unknown': pki.UNKNOWN, 'revoked': pki.revoked_status(), 'reason': pki.revoked_status(4)}[st]
        o = ocsp.OCSPResponse.load(pki.ocsp_response(None, [pki.single(None, status, nxt)], responder=ref.expl(2, ref.octets(b'kkk')) if resp == 'key' else None))
        s = o.response_data['responses'][0]
        want = {'good': 'good', 'unknown': 'unknown'}.get(st)
        got = s['cert_status'].native
        at = datetime.datetime(2021, 1, 1, tzinfo=UTC)
        if want is None:
            want = {'revocation_time': at, 'revocation_reason': 'superseded' if st == 'reason' else None}
        if got != want or s['cert_status'].name != ('revoked' if st == 'reason' else st):
            return 'cert_status is %r' % (got,)
        if s['next_update'].native != (None if nxt is None else datetime.datetime(2022, 1, 1, tzinfo=UTC)) or s['this_update'].native != at:
            return 'times'
        r = o.response_data['responder_id']
        if r.name != ('by_key' if resp == 'key' else 'by_name') or r.native != (b'kkk' if resp == 'key' else {'country_name': 'DE', 'common_name': 'issuer'}):
            return 'responder_id is %r' % (r.native,)
    elif k == 'othertype':
        o = ocsp.OCSPResponse.load(ref.seq(ref.u(10, b'\0'), ref.expl(0, ref.seq(ref.oid('1.2.3'), ref.octets(b'x')))))
        for a in ('basic_ocsp_response', 'response_data', 'nonce_value', 'extended_revoke_value'):
            if getattr(o, a) is not None:
                return '%s is %r' % (a, getattr(o, a))
    else:
        o = crl.CertificateList.load(pki.crl(None if AKI[v][0] is None else [pki.extension('2.5.29.35', AKI[v][0])]))
        expect(o, 'authority_key_identifier', AKI[v][1], rec)
    rec.outcome(k)


# ------------------------------------------------------------------ reading one attribute before another
def many(kind, own=None):
    own = own or {}
    return [pki.extension(o, own.get(n, d), k % 2 == 0) for k, (n, (o, d)) in enumerate(sorted(KINDS[kind][1].items()))]


OWN = {'subject_alt_name': pki.generals(('dns', 'a.example'), ('ip', b'\x0a\0\0\1'), ('dns', '*.b.example'), ('email', 'x@y.z'), ('ip', b'\0' * 15 + b'\1')),
       'issuer_alt_name': pki.generals(('dns', 'i.example'), ('ip', b'\x0a\0\0\2')),
       'crl_distribution_points': pki.seq(pki.dp([H]), pki.dp([DIR])), 'freshest_crl': pki.seq(pki.dp([L]), pki.dp([S])),
       'authority_information_access': pki.seq(*[pki.seq(ref.oid(AIA[i][0]), pki.generals(AIA[i][1])[2:]) for i in (0, 7, 2)])}
OBJECTS = {
    'cert': lambda: x509.Certificate.load(pki.cert(many('cert', OWN))),
    'cert self': lambda: x509.Certificate.load(pki.cert(many('cert', dict(OWN, key_identifier=ref.octets(b'aaa'), authority_key_identifier=pki.aki(b'aaa', [('dir', OTHER)], 7))), subject=pki.ISSUER)),
    'cert plain': lambda: x509.Certificate.load(pki.cert(None, subject=pki.name((pki.CN, u'host.example'), (pki.CN, u'*.x.example')))),
    'crl': lambda: crl.CertificateList.load(pki.crl(many('crl', OWN))),
    'crl plain': lambda: crl.CertificateList.load(pki.crl(None)),
}
for _k in ('entry', 'request', 'ocsprequest', 'single', 'response'):
    OBJECTS[_k] = lambda _k=_k: KINDS[_k][0](many(_k, OWN))
    OBJECTS[_k + ' plain'] = lambda _k=_k: KINDS[_k][0](None)
READS = {}


def reads(name):
    """names of everything that is derived: the properties of the class, and some ways to read it"""
    if name not in READS:
        o = OBJECTS[name]()
        READS[name] = sorted(a for a in dir(type(o)) if a[:1] != '_' and isinstance(getattr(type(o), a), property)) + ['dump', 'copy', 'is valid']
    return READS[name]


def plain(v):
    if isinstance(v, core.Asn1Value):
        return (type(v).__name__, v.dump(), repr(v.native))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [(k, plain(x)) for k, x in v.items()]
    return (type(v).__name__, v)


def read_one(o, a):
    if a == 'dump':
        return o.dump()
    if a == 'copy':
        return o.copy().dump()
    if a == 'is valid':
        return [o.is_valid_domain_ip(h) for h in (u'a.example', u'z.b.example', u'10.0.0.1', u'::1', u'host.example', u'i.example')] if isinstance(o, x509.Certificate) else None
    try:
        return plain(getattr(o, a))
    except (ValueError, TypeError) as e:
        return 'raises %s' % type(e).__name__


def gen_reads(tier):
    for name in OBJECTS:
        for a in reads(name):
            yield (name, a)
    if tier == 'thorough':
        for name in OBJECTS:
            for a in reads(name):
                for b in reads(name):
                    yield (name, a, b)


def check_reads(case, rec):
    name, before = case[0], case[1:]
    for b in reads(name):
        if (name, b) not in CACHE:
            CACHE[name, b] = read_one(OBJECTS[name](), b)
        o = OBJECTS[name]()
        for a in before:
            read_one(o, a)
        for what in ('', ' again', ' of a copy'):
            rec.op()
            got = read_one(o.copy() if what == ' of a copy' else o, b)
            if got != CACHE[name, b]:
                raise Violation('%s of %s%s is %r after reading %s, and %r alone' % (b, name, what, got, ', '.join(before), CACHE[name, b]))
        rec.state(name, b, before)
    rec.outcome(name)


CACHE = {}
SPACES = [
    Space('extensions', gen_ext, check_ext, '7 containers x all ordered subsets of up to 2 (3) extensions, known and unknown, and all but up to 2, x critical / not / explicitly not x orders of reading'),
    Space('certificates', gen_cert, check_cert, 'basic constraints x key identifier x authority key identifier x subject x order'),
    Space('reads', gen_reads, check_reads, '15 objects with every extension or none x all ordered pairs (triples) of attributes: each reads as it does alone'),
    Space('times', gen_times, check_times, 'pairs of times'),
    Space('points', gen_dps, check_dps, 'all lists of up to 2 (3) of 13 distribution points'),
    Space('access', gen_aia, check_aia, 'all lists of up to 2 (3) of 12 access descriptions'),
    Space('misc', gen_misc, check_misc, 'reasons, statuses, issuers of entries, CRLs'),
]


def run(argv):
    return main('C25', SPACES, ['no extension occurs twice', 'attributes are not read before the value is edited'], argv)
