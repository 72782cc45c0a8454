"""The modules: RFC 5280, 5755, 5652, 5083, 3274, 6960, 3161, 5544, 4998, 2986, 5208, 8017, 8018, 5915, 3279, 4055, 5084, 7292, 2634, 5035,
8551, 6211, 5940, 7906, 3739, 7633, X.411 and the TCG credential profile.  ROOTS maps the name of a class of the library to the type."""
from . import ref
from .std import *  # noqa
from .std import F, V, T, Inside, Lazy, Open, L, resolve, leaf, record, identifier, open_value

P9, P7, SMIME, PKIX, CE, ATT = '1.2.840.113549.1.9.', '1.2.840.113549.1.7.', '1.2.840.113549.1.9.16.', '1.3.6.1.5.5.7.', '2.5.29.', '2.5.4.'
SHA1, SHA256, SHA512 = '1.3.14.3.2.26', '2.16.840.1.101.3.4.2.1', '2.16.840.1.101.3.4.2.3'
RSA1 = '1.2.840.113549.1.1.'
AES = '2.16.840.1.101.3.4.1.'


def ALG(table, *more):
    """AlgorithmIdentifier"""
    return SEQ(F('algorithm', OIDS(*(list(more) or list(table) or ['1.2.3.4']))), F('parameters', Open('algorithm', table), o=True))


def alg_value(t, oid, inner=None):
    """an algorithm identifier"""
    ident = identifier(t.fields[1].type, t.fields[0].type, oid)
    given = {'algorithm': ident}
    if inner is not None:
        given['parameters'] = open_value(t.fields[1].type, ident, inner)
    return record(t, [], given)


PLAIN_ALG = SEQ(F('algorithm', OID), F('parameters', ANY, o=True))
DIGEST = ALG({SHA1: NULL, SHA256: NULL, SHA512: NULL, '2.16.840.1.101.3.4.2.2': NULL, '2.16.840.1.101.3.4.2.4': NULL})
HMAC = SEQ(F('algorithm', OIDS('1.2.840.113549.2.9', '1.2.840.113549.2.7', '1.2.3.4')), F('parameters', ANY, o=True))
MGF = ALG({RSA1 + '8': DIGEST})
SHA1_VALUE = lambda: alg_value(DIGEST, SHA1, leaf(NULL, b''))  # noqa
SHA256_VALUE = lambda: alg_value(DIGEST, SHA256, leaf(NULL, b''))  # noqa
MGF_SHA1 = lambda: alg_value(MGF, RSA1 + '8', SHA1_VALUE())  # noqa
PSS = SEQ(F('hash_algorithm', DIGEST, e=0, d=SHA1_VALUE), F('mask_gen_algorithm', MGF, e=1, d=MGF_SHA1), F('salt_length', POS, e=2, d=b'\x14'), F('trailer_field', NUM_(1, 2), e=3, d=b'\1'))
PSPEC = ALG({RSA1 + '9': OCT})
OAEP = SEQ(F('hash_algorithm', DIGEST, e=0, d=SHA1_VALUE), F('mask_gen_algorithm', MGF, e=1, d=MGF_SHA1), F('p_source_algorithm', PSPEC, e=2, d=lambda: alg_value(PSPEC, RSA1 + '9', leaf(OCT, b''))))
SIGALG = ALG({RSA1 + '11': NULL, RSA1 + '10': PSS, RSA1 + '13': NULL})
PBKDF2 = SEQ(F('salt', CHOICE(F('specified', OCT), F('other_source', PLAIN_ALG))), F('iteration_count', POS), F('key_length', POS, o=True),
             F('prf', HMAC, d=lambda: record(HMAC, [], {'algorithm': leaf(resolve(HMAC.fields[0].type), ref.oid_content([1, 2, 840, 113549, 2, 7]))})))
SCRYPT = SEQ(F('salt', OCT), F('cost_parameter', POS), F('block_size', POS), F('parallelization_parameter', POS), F('key_length', POS, o=True))
KDF = ALG({'1.2.840.113549.1.5.12': PBKDF2, '1.3.6.1.4.1.11591.4.11': SCRYPT})
PBE = SEQ(F('salt', OCT), F('iterations', POS))
CCM = SEQ(F('aes_nonce', OCT), F('aes_icvlen', L(2, 'int', b'\x0c', b'\x10')))
RC2 = SEQ(F('rc2_parameter_version', POS, o=True), F('iv', OCT))
RC5 = SEQ(F('version', NUM_(16)), F('rounds', POS), F('block_size_in_bits', POS), F('iv', OCT, o=True))
ENC_TABLE = {AES + '2': OCT, AES + '42': OCT, '1.2.840.113549.3.7': OCT, '1.3.14.3.2.7': OCT, AES + '3': OCT, AES + '7': CCM, AES + '47': CCM, '1.2.840.113549.3.2': RC2, '1.2.840.113549.3.9': RC5, RSA1 + '7': OAEP,
             RSA1 + '1': NULL, '1.2.840.113549.1.5.3': PBE, '1.2.840.113549.1.5.10': PBE, '1.2.840.113549.1.12.1.3': PBE, '1.2.840.113549.1.12.1.6': PBE}
ENC = ALG(ENC_TABLE)
PBES2 = SEQ(F('key_derivation_func', KDF), F('encryption_scheme', ENC))
ENC_TABLE['1.2.840.113549.1.5.13'] = PBES2
ENC_TABLE.update({AES + n: OCT for n in ('22', '23', '43')})
ENC_TABLE[AES + '27'] = CCM
ENC_TABLE.update({'1.2.840.113549.1.5.%d' % n: PBE for n in (1, 4, 6, 11)})
ENC_TABLE.update({'1.2.840.113549.1.12.1.%d' % n: PBE for n in (1, 2, 4, 5)})
PBMAC1 = SEQ(F('key_derivation_func', KDF), F('message_auth_scheme', HMAC))
MACALG = SEQ(F('algorithm', OIDS('1.2.840.113549.1.5.14')), F('parameters', Open('algorithm', {'1.2.840.113549.1.5.14': PBMAC1})))
DH = SEQ(F('p', POS), F('g', POS), F('private_value_length', POS, o=True))
KEYEX = ALG({'1.2.840.113549.1.3.1': DH})
DIGESTINFO = SEQ(F('digest_algorithm', DIGEST), F('digest', OCT))
DSASIG = SEQ(F('r', POS), F('s', POS))

# ------------------------------------------------------------------ keys (RFC 8017, 3279, 5915, 5480, 5208, 8410)
PRIMES = SEQOF(SEQ(F('prime', POS), F('exponent', POS), F('coefficient', POS)))
RSA_PRIVATE = SEQ(F('version', NUM_(0, 1)), *([F(n, POS) for n in 'modulus public_exponent private_exponent prime1 prime2 exponent1 exponent2 coefficient'.split()] + [F('other_prime_infos', PRIMES, o=True)]))
RSA_PUBLIC = SEQ(F('modulus', POS), F('public_exponent', POS))
DSA_PARAMS = SEQ(F('p', POS), F('q', POS), F('g', POS))
DSA_PRIVATE = SEQ(F('version', L(2, 'int', b'\0')), F('p', POS), F('q', POS), F('g', POS), F('public_key', POS), F('private_key', POS))
DOMAIN = SEQ(F('p', POS), F('g', POS), F('q', POS), F('j', POS, o=True), F('validation_params', SEQ(F('seed', BITS), F('pgen_counter', POS)), o=True))
PENTA = SEQ(F('k1', POS), F('k2', POS), F('k3', POS))
CHAR2 = SEQ(F('m', POS), F('basis', OIDS('1.2.840.10045.1.2.1.1')), F('parameters', Open('basis', {'1.2.840.10045.1.2.1.1': NULL, '1.2.840.10045.1.2.1.2': POS, '1.2.840.10045.1.2.1.3': PENTA}, unknown=False)))
FIELDID = SEQ(F('field_type', OIDS('1.2.840.10045.1.1')), F('parameters', Open('field_type', {'1.2.840.10045.1.1': POS, '1.2.840.10045.1.2': CHAR2}, unknown=False)))
CURVE = SEQ(F('a', OCT), F('b', OCT), F('seed', OBITS, o=True))
SPECIFIED = SEQ(F('version', NUM_(1, 2)), F('field_id', FIELDID), F('curve', CURVE), F('base', L(4, 'octets', b'\4\1\2', b'\2\1')), F('order', POS), F('cofactor', POS, o=True), F('hash', DIGEST, o=True))
ECPARAMS = CHOICE(F('named', OIDS('1.2.840.10045.3.1.7', '1.3.132.0.34')), F('specified', SPECIFIED), F('implicit_ca', NULL))
POINT = L(3, 'octetbits', b'\0\4\1\2', b'\0\2\1')
EC256 = CHOICE(F('named', OIDS('1.2.840.10045.3.1.7')), F('specified', SEQ(*[f if f.name != 'order' else F('order', L(2, 'int', b'\0\xff' + b'\x11' * 31, b'\x7f' * 32)) for f in SPECIFIED.fields])), F('implicit_ca', NULL))
EC_PRIVATE = SEQ(F('version', NUM_(1)), F('private_key', L(4, 'raw', b'\0' * 31 + b'\7', b'k' * 32)), F('parameters', EC256, o=True, e=0), F('public_key', POINT, o=True, e=1))
ATTR_ANY = SEQ(F('type', OID), F('values', SETOF(ANY)))
PUBALG_TABLE = {RSA1 + '1': NULL, RSA1 + '10': PSS, RSA1 + '7': OAEP, '1.2.840.10040.4.1': DSA_PARAMS, '1.2.840.10045.2.1': ECPARAMS, '1.2.840.10046.2.1': DOMAIN}
PUBALG = ALG(PUBALG_TABLE)
PRIVALG = ALG({k: PUBALG_TABLE[k] for k in (RSA1 + '1', RSA1 + '10', '1.2.840.10040.4.1', '1.2.840.10045.2.1')})


def keyed(alg, how, table, *fields):
    """a record whose key has a type decided by the algorithm inside another field: one record type for each algorithm"""
    out = []
    for oid, (params, key) in table.items():
        p = SEQ(F('algorithm', OIDS(oid)), *([F('parameters', params, o=True)] if params is not None else [])) if params is not None else SEQ(F('algorithm', OIDS(oid)))
        out.append((oid, fields_with(fields, p, key, how)))
    return out


def fields_with(fields, p, key, how):
    return SEQ(*[f if f.type not in ('ALG', 'KEY') else F(f.name, p if f.type == 'ALG' else (Inside(key, how) if how and not isinstance(key, Raw) else key.leaf if isinstance(key, Raw) else key)) for f in fields])


class Raw(object):
    def __init__(self, leaf_):
        self.leaf = leaf_


SPKI_TABLE = {RSA1 + '1': (NULL, RSA_PUBLIC), RSA1 + '10': (PSS, RSA_PUBLIC), '1.2.840.10040.4.1': (DSA_PARAMS, POS), '1.2.840.10046.2.1': (DOMAIN, POS), '1.2.840.10045.2.1': (ECPARAMS, Raw(POINT)),
              '1.3.101.110': (None, Raw(L(3, 'octetbits', b'\0' + b'p' * 32))), '1.3.101.112': (None, Raw(L(3, 'octetbits', b'\0' + b'p' * 32)))}
SPKIS = keyed(None, 'bits', SPKI_TABLE, F('algorithm', 'ALG'), F('public_key', 'KEY'))
SPKI = SPKIS[0][1]
P8_TABLE = {RSA1 + '1': (NULL, RSA_PRIVATE), '1.2.840.10040.4.1': (DSA_PARAMS, POS), '1.2.840.10045.2.1': (EC256, EC_PRIVATE), RSA1 + '10': (PSS, RSA_PRIVATE), '1.3.101.112': (None, OCT)}
P8S = keyed(None, 'octets', P8_TABLE, F('version', L(2, 'int', b'\0')), F('private_key_algorithm', 'ALG'), F('private_key', 'KEY'), F('attributes', SETOF(ATTR_ANY), o=True, i=0))
P8 = P8S[0][1]
EPKI = SEQ(F('encryption_algorithm', ENC), F('encrypted_data', OCT))

# ------------------------------------------------------------------ names (RFC 5280, X.520)
DIRSTRING = CHOICE(F('utf8_string', UTF8), F('printable_string', PRT), F('teletex_string', TTX), F('universal_string', UNI), F('bmp_string', BMP))
NAME_TABLE = {ATT + str(n): DIRSTRING for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17, 41, 42, 43, 44, 46, 65)}
NAME_TABLE.update({ATT + '20': PRT, ATT + '45': OBITS, P9 + '1': EMAIL, '0.9.2342.19200300.100.1.25': DNS, '0.9.2342.19200300.100.1.1': DIRSTRING,
                   '1.3.6.1.4.1.311.60.2.1.1': DIRSTRING, '1.3.6.1.4.1.311.60.2.1.2': DIRSTRING, '1.3.6.1.4.1.311.60.2.1.3': DIRSTRING})
NAME_TABLE.update({'0.2.262.1.10.7.20': DIRSTRING, ATT + '97': DIRSTRING, '2.23.133.2.1': UTF8, '2.23.133.2.2': UTF8, '2.23.133.2.3': UTF8, '2.23.133.2.4': UTF8, '2.23.133.2.5': UTF8, '2.23.133.2.6': UTF8})
ATV = SEQ(F('type', OIDS(ATT + '3')), F('value', Open('type', NAME_TABLE)))
RDN = SETOF(ATV, least=1)
NAME = CHOICE(F('', SEQOF(RDN)))
COUNTRY = CHOICE(F('x121_dcc_code', NUMS), F('iso_3166_alpha2_code', PRT), outer=(1, 1))
ADMD = CHOICE(F('numeric', NUMS), F('printable', PRT), outer=(1, 2))
PRMD = CHOICE(F('numeric', NUMS), F('printable', PRT))
PERSONAL = lambda s: SET(F('surname', s, i=0), F('given_name', s, i=1, o=True), F('initials', s, i=2, o=True), F('generation_qualifier', s, i=3, o=True))  # noqa
BSA = SEQ(F('country_name', COUNTRY, o=True), F('administration_domain_name', ADMD, o=True), F('network_address', NUMS, o=True, i=0), F('terminal_identifier', PRT, o=True, i=1),
          F('private_domain_name', PRMD, o=True, e=2), F('organization_name', PRT, o=True, i=3), F('numeric_user_identifier', NUMS, o=True, i=4), F('personal_name', PERSONAL(PRT), o=True, i=5),
          F('organizational_unit_names', SEQOF(PRT), o=True, i=6))
DDA = SEQOF(SEQ(F('type', PRT), F('value', PRT)))
PDS = SET(F('printable_string', PRT, o=True), F('teletex_string', TTX, o=True))
PSAP = SEQ(F('p_selector', OCT, o=True, e=0), F('s_selector', OCT, o=True, e=1), F('t_selector', OCT, o=True, e=2), F('n_addresses', SETOF(OCT), e=3))
XNA = CHOICE(F('e163_4_address', SEQ(F('number', NUMS, i=0), F('sub_address', NUMS, o=True, i=1))), F('psap_address', PSAP, i=0))
ORX = {1: PRT, 2: TTX, 3: TTX, 4: PERSONAL(TTX), 5: SEQOF(TTX), 6: SEQOF(SEQ(F('type', TTX), F('value', TTX))), 7: PRT, 8: CHOICE(F('x121_dcc_code', NUMS), F('iso_3166_alpha2_code', PRT)),
       9: CHOICE(F('numeric_code', NUMS), F('printable_code', PRT)), 16: SET(F('printable_address', SEQOF(PRT), o=True), F('teletex_string', TTX, o=True)), 22: XNA, 23: NUM_(3, 8)}
ORX.update({n: PDS for n in (10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21)})
ORXATTR = SEQ(F('extension_attribute_type', NUM_(1), i=0), F('extension_attribute_value', Open('extension_attribute_type', ORX, unknown=False), e=1))
ORADDRESS = SEQ(F('built_in_standard_attributes', BSA), F('built_in_domain_defined_attributes', DDA, o=True), F('extension_attributes', SETOF(ORXATTR), o=True))
OTHERNAME = SEQ(F('type_id', OID), F('value', ANY, e=0))
EDI = SEQ(F('name_assigner', DIRSTRING, o=True, e=0), F('party_name', DIRSTRING, e=1))
GN = CHOICE(F('rfc822_name', EMAIL, i=1), F('dns_name', DNS, i=2), F('uniform_resource_identifier', URI, i=6), F('other_name', OTHERNAME, i=0), F('x400_address', ORADDRESS, i=3), F('directory_name', NAME, e=4),
            F('edi_party_name', EDI, i=5), F('ip_address', IPADDR, i=7), F('registered_id', OID, i=8))
GNS = SEQOF(GN)

# ------------------------------------------------------------------ certificates and CRLs (RFC 5280)
TIME = CHOICE(F('utc_time', UTCT), F('general_time', GENT))
REASONS = L(3, 'named bits', b'\x06\x40', b'\x07\xff\x80', b'\0')
USAGE = L(3, 'named bits', b'\x07\x80', b'\x05\xa0', b'\x07\xff\x80', b'\0')
DPNAME = CHOICE(F('full_name', GNS, i=0), F('name_relative_to_crl_issuer', RDN, i=1))
DPS = SEQOF(SEQ(F('distribution_point', DPNAME, o=True, e=0), F('reasons', REASONS, o=True, i=1), F('crl_issuer', GNS, o=True, i=2)))
AKI = SEQ(F('key_identifier', OCT, o=True, i=0), F('authority_cert_issuer', GNS, o=True, i=1), F('authority_cert_serial_number', INT, o=True, i=2))
BC = SEQ(F('ca', BOOL, d=b'\0'), F('path_len_constraint', POS, o=True))
SUBTREES = SEQOF(SEQ(F('base', GN), F('minimum', POS, d=b'\0', i=0), F('maximum', POS, o=True, i=1)))
NC = SEQ(F('permitted_subtrees', SUBTREES, o=True, i=0), F('excluded_subtrees', SUBTREES, o=True, i=1))
DISPLAY = CHOICE(F('ia5_string', IA5), F('visible_string', VIS), F('bmp_string', BMP), F('utf8_string', UTF8))
NOTICE = SEQ(F('notice_ref', SEQ(F('organization', DISPLAY), F('notice_numbers', SEQOF(POS))), o=True), F('explicit_text', DISPLAY, o=True))
QUALIFIER = SEQ(F('policy_qualifier_id', OIDS(PKIX + '2.1')), F('qualifier', Open('policy_qualifier_id', {PKIX + '2.1': IA5, PKIX + '2.2': NOTICE})))
POLICIES = SEQOF(SEQ(F('policy_identifier', OIDS('2.5.29.32.0', '1.2.3.4')), F('policy_qualifiers', SEQOF(QUALIFIER), o=True)))
MAPPINGS = SEQOF(SEQ(F('issuer_domain_policy', OIDS('1.2.3.4')), F('subject_domain_policy', OIDS('1.2.3.5'))))
PCONS = SEQ(F('require_explicit_policy', POS, o=True, i=0), F('inhibit_policy_mapping', POS, o=True, i=1))
EKU = SEQOF(OIDS(PKIX + '3.1', PKIX + '3.2', '1.2.3.4'))
AIA = SEQOF(SEQ(F('access_method', OIDS(PKIX + '48.1', PKIX + '48.2')), F('access_location', GN)))
PKUP = SEQ(F('not_before', GENT, o=True, i=0), F('not_after', GENT, o=True, i=1))
URIREF = SEQ(F('uniform_resource_identifier', IA5), F('hash_algorithm', DIGEST, o=True), F('hash_value', BITS, o=True))
CCM_ = SEQ(F('version', IA5), F('assurance_level', ENUM(1, 7)), F('evaluation_status', ENUM(0, 2)), F('plus', BOOL, d=b'\0'), F('strengh_of_function', ENUM(0, 2), o=True, i=0), F('profile_oid', OID, o=True, i=1),
           F('profile_url', URIREF, o=True, i=2), F('target_oid', OID, o=True, i=3), F('target_uri', URIREF, o=True, i=4))
FIPS = SEQ(F('version', IA5), F('level', ENUM(1, 4)), F('plus', BOOL, d=b'\0'))
TPMSA = SEQ(F('version', NUM_(0, 1), d=b'\0'), F('field_upgradable', BOOL, d=b'\0'), F('ek_generation_type', ENUM(0, 3), o=True, i=0), F('ek_generation_location', ENUM(0, 2), o=True, i=1),
            F('ek_certificate_generation_location', ENUM(0, 2), o=True, i=2), F('cc_info', CCM_, o=True, i=3), F('fips_level', FIPS, o=True, i=4), F('iso_9000_certified', BOOL, d=b'\0', i=5), F('iso_9000_uri', IA5, o=True))
TPMSPEC = SEQ(F('family', UTF8), F('level', POS), F('revision', POS))
TCG = SEQ(F('version', SEQ(F('major_version', POS), F('minor_version', POS), F('revision', POS))), F('platform_class', OCT))
SUPPORTED = SEQ(F('algorithm_identifier', PLAIN_ALG), F('intended_usage', USAGE, o=True, e=0), F('intended_certificate_policies', POLICIES, o=True, e=1))
SDA_OPEN = Open('type', {'2.5.4.52': SETOF(SUPPORTED), '2.23.133.2.16': SETOF(TPMSPEC), '2.23.133.2.17': SETOF(TCG), '2.23.133.2.18': SETOF(TPMSA), PKIX + '9.1': SETOF(GENT), PKIX + '9.2': SETOF(DIRSTRING),
                         PKIX + '9.3': SETOF(PRT), PKIX + '9.4': SETOF(PRT), PKIX + '9.5': SETOF(PRT)}, unknown=False)
SDA = SEQOF(SEQ(F('type', OIDS(PKIX + '9.1')), F('values', SDA_OPEN)))
ENTRUST = SEQ(F('entrust_vers', GENS), F('entrust_info_flags', BITS))
ADOBE_TS = SEQ(F('version', INT), F('location', GN), F('requires_auth', BOOL, d=b'\0'))
ADOBE_ARI = SEQ(F('version', INT))
SCT = OCT
EXT_TABLE = {CE + '9': SDA, CE + '14': OCT, CE + '15': USAGE, CE + '16': PKUP, CE + '17': GNS, CE + '18': GNS, CE + '19': BC, CE + '30': NC, CE + '31': DPS, CE + '32': POLICIES, CE + '33': MAPPINGS, CE + '35': AKI,
             CE + '36': PCONS, CE + '37': EKU, CE + '46': DPS, CE + '54': POS, PKIX + '1.1': AIA, PKIX + '1.11': AIA, PKIX + '1.24': SEQOF(INT), PKIX + '48.1.5': NULL, '1.2.840.113533.7.65.0': ENTRUST,
             '2.16.840.1.113730.1.1': USAGE, '1.3.6.1.4.1.11129.2.4.2': SCT, '1.3.6.1.4.1.311.20.2': BMP, '1.2.840.113583.1.1.9.1': ADOBE_TS, '1.2.840.113583.1.1.9.2': ADOBE_ARI, '1.2.840.113583.1.1.10': NULL}


def EXT(table):
    return SEQ(F('extn_id', OIDS(list(table)[0])), F('critical', BOOL, d=b'\0'), F('extn_value', Open('extn_id', table, 'octets')))


EXTENSION = EXT(EXT_TABLE)
EXTS = SEQOF(EXTENSION)
VALIDITY = SEQ(F('not_before', TIME), F('not_after', TIME))
TBS = SEQ(F('version', NUM_(0, 1, 2), e=0, d=b'\0'), F('serial_number', INT), F('signature', SIGALG), F('issuer', NAME), F('validity', VALIDITY), F('subject', NAME), F('subject_public_key_info', SPKI),
          F('issuer_unique_id', OBITS, o=True, i=1), F('subject_unique_id', OBITS, o=True, i=2), F('extensions', EXTS, o=True, e=3))
CERT = SEQ(F('tbs_certificate', TBS), F('signature_algorithm', SIGALG), F('signature_value', OBITS))
AUX = SEQ(F('trust', EKU, o=True), F('reject', EKU, o=True, i=0), F('alias', UTF8, o=True), F('keyid', OCT, o=True), F('other', SEQOF(PLAIN_ALG), o=True, i=1))
REASON = ENUM(0, 1, 10)
CRLENT = EXT({CE + '21': REASON, CE + '23': OID, CE + '24': GENT, CE + '29': GNS})
REVOKED = SEQOF(SEQ(F('user_certificate', INT), F('revocation_date', TIME), F('crl_entry_extensions', SEQOF(CRLENT), o=True)))
IDP = SEQ(F('distribution_point', DPNAME, o=True, e=0), F('only_contains_user_certs', BOOL, d=b'\0', i=1), F('only_contains_ca_certs', BOOL, d=b'\0', i=2), F('only_some_reasons', REASONS, o=True, i=3),
          F('indirect_crl', BOOL, d=b'\0', i=4), F('only_contains_attribute_certs', BOOL, d=b'\0', i=5))
CRLEXT = EXT({CE + '18': GNS, CE + '20': POS, CE + '27': POS, CE + '28': IDP, CE + '35': AKI, CE + '46': DPS, PKIX + '1.1': AIA})
TBSCRL = SEQ(F('version', NUM_(1), o=True), F('signature', SIGALG), F('issuer', NAME), F('this_update', TIME), F('next_update', TIME, o=True), F('revoked_certificates', REVOKED, o=True), F('crl_extensions', SEQOF(CRLEXT), o=True, e=0))
CRL = SEQ(F('tbs_cert_list', TBSCRL), F('signature_algorithm', SIGALG), F('signature', OBITS))

# ------------------------------------------------------------------ requests (RFC 2986)
ANY_ATTR = lambda: SEQ(F('type', OID), F('values', SETOF(ANY)))  # noqa
CSP = SEQ(F('keyspec', INT), F('cspname', BMP), F('signature', BITS))
CLIENT = SEQ(F('clientid', INT), F('machinename', UTF8), F('username', UTF8), F('processname', UTF8))


def ATTRIBUTE(table, unknown=True, cls=Open):
    o = Open('type', table, unknown=unknown)
    o.wrap = True
    return SEQ(F('type', OIDS(list(table)[0])), F('values', o))


CRIATTR = ATTRIBUTE({P9 + '7': SETOF(DIRSTRING), P9 + '9': SETOF(ANY_ATTR()), P9 + '14': SETOF(EXTS), '1.3.6.1.4.1.311.13.2.2': SETOF(CSP), '1.3.6.1.4.1.311.13.2.3': SETOF(DIRSTRING), '1.3.6.1.4.1.311.21.20': SETOF(CLIENT)})
CRI = SEQ(F('version', NUM_(0)), F('subject', NAME), F('subject_pk_info', SPKI), F('attributes', SETOF(CRIATTR), o=True, i=0))
CSR = SEQ(F('certification_request_info', CRI), F('signature_algorithm', SIGALG), F('signature', OBITS))

# ------------------------------------------------------------------ OCSP (RFC 6960)
CERTID = SEQ(F('hash_algorithm', DIGEST), F('issuer_name_hash', OCT), F('issuer_key_hash', OCT), F('serial_number', INT))
LOCATOR = SEQ(F('issuer', NAME), F('locator', AIA, o=True))
REQUEST = SEQ(F('req_cert', CERTID), F('single_request_extensions', SEQOF(EXT({PKIX + '48.1.7': LOCATOR})), o=True, e=0))
PREFSIG = SEQOF(SEQ(F('sig_identifier', SIGALG), F('cert_identifier', PUBALG, o=True)))
TBSREQ_EXT = EXT({PKIX + '48.1.2': OCT, PKIX + '48.1.4': SEQOF(OIDS(PKIX + '48.1.1', '1.2.3.4')), PKIX + '48.1.8': PREFSIG})
TBSREQ = SEQ(F('version', NUM_(0, 1), d=b'\0', e=0), F('requestor_name', GN, o=True, e=1), F('request_list', SEQOF(REQUEST)), F('request_extensions', SEQOF(TBSREQ_EXT), o=True, e=2))
OSIG = SEQ(F('signature_algorithm', SIGALG), F('signature', OBITS), F('certs', SEQOF(CERT), o=True, e=0))
OREQ = SEQ(F('tbs_request', TBSREQ), F('optional_signature', OSIG, o=True, e=0))
CRLID = SEQ(F('crl_url', IA5, o=True, e=0), F('crl_num', POS, o=True, e=1), F('crl_time', GENT, o=True, e=2))
STATUS_NULL = L(5, 'ip', b'')
CERTSTATUS = CHOICE(F('good', STATUS_NULL, i=0), F('revoked', SEQ(F('revocation_time', GENT), F('revocation_reason', REASON, o=True, e=0)), i=1), F('unknown', STATUS_NULL, i=2))
SINGLE_EXT = EXT({PKIX + '48.1.3': CRLID, PKIX + '48.1.6': GENT, CE + '21': REASON, CE + '24': GENT, CE + '29': GNS, '1.3.6.1.4.1.11129.2.4.5': OCT})
SINGLE = SEQ(F('cert_id', CERTID), F('cert_status', CERTSTATUS), F('this_update', GENT), F('next_update', GENT, o=True, e=0), F('single_extensions', SEQOF(SINGLE_EXT), o=True, e=1))
RDATA_EXT = EXT({PKIX + '48.1.2': OCT, PKIX + '48.1.9': NULL})
RESPONDER = CHOICE(F('by_name', NAME, e=1), F('by_key', OCT, e=2))
RDATA = SEQ(F('version', NUM_(0, 1), d=b'\0', e=0), F('responder_id', RESPONDER), F('produced_at', GENT), F('responses', SEQOF(SINGLE)), F('response_extensions', SEQOF(RDATA_EXT), o=True, e=1))
BASIC = SEQ(F('tbs_response_data', RDATA), F('signature_algorithm', SIGALG), F('signature', OBITS), F('certs', SEQOF(CERT), o=True, e=0))
RBYTES = SEQ(F('response_type', OIDS(PKIX + '48.1.1')), F('response', Open('response_type', {PKIX + '48.1.1': BASIC}, 'octets')))
ORESP = SEQ(F('response_status', ENUM(0, 1, 2, 3, 5, 6)), F('response_bytes', RBYTES, o=True, e=0))

# ------------------------------------------------------------------ attribute certificates (RFC 5755, RFC 5652 version 1)
ISSERIAL = SEQ(F('issuer', GNS), F('serial', INT), F('issuer_uid', OBITS, o=True))
ODI = SEQ(F('digested_object_type', ENUM(0, 1, 2)), F('other_object_type_id', OID, o=True), F('digest_algorithm', DIGEST), F('object_digest', OBITS))
HOLDER = SEQ(F('base_certificate_id', ISSERIAL, o=True, i=0), F('entity_name', GNS, o=True, i=1), F('object_digest_info', ODI, o=True, i=2))
V2FORM = SEQ(F('issuer_name', GNS, o=True), F('base_certificate_id', ISSERIAL, o=True, i=0), F('object_digest_info', ODI, o=True, i=1))
ACISSUER = CHOICE(F('v1_form', GNS), F('v2_form', V2FORM, i=0))
IETF = SEQ(F('policy_authority', GNS, o=True, i=0), F('values', SEQOF(CHOICE(F('octets', OCT), F('oid', OID), F('string', UTF8)))))
ROLE = SEQ(F('role_authority', GNS, o=True, i=0), F('role_name', GN, e=1))
CLASSES = L(3, 'named bits', b'\x05\x20', b'\x01\x3e', b'\0')
UNCLASSIFIED = b'\x06\x40'
CLEARANCE = SEQ(F('policy_id', OID), F('class_list', CLASSES, d=UNCLASSIFIED), F('security_categories', SETOF(SEQ(F('type', OID, i=0), F('value', ANY, e=1))), o=True))
SVCE = SEQ(F('service', GN), F('ident', GN), F('auth_info', OCT, o=True))
BIGTIME = SEQ(F('major', INT), F('fractional_seconds', INT), F('sign', INT, o=True))
METRICS = SEQ(F('ntp_time', BIGTIME), F('offset', BIGTIME), F('delay', BIGTIME), F('expiration', BIGTIME), F('leap_event', SETOF(SEQ(F('leap_time', BIGTIME), F('action', INT))), o=True))
TPOLICY = SEQ(F('policy_id', SEQOF(OID)), F('max_offset', BIGTIME, o=True, e=0), F('max_delay', BIGTIME, o=True, e=1))
ACATTR = ATTRIBUTE({PKIX + '10.3': SETOF(IETF), PKIX + '10.4': SETOF(IETF), PKIX + '10.1': SETOF(SVCE), PKIX + '10.2': SETOF(SVCE), '2.5.4.72': SETOF(ROLE), '2.5.4.55': SETOF(CLEARANCE),
                    '1.3.6.1.4.1.601.10.4.1': SETOF(METRICS), '1.3.6.1.4.1.601.10.4.2': SETOF(TPOLICY)})
ACTIMES = SEQ(F('not_before_time', GENT), F('not_after_time', GENT))
AC2 = SEQ(F('version', NUM_(1)), F('holder', HOLDER), F('issuer', ACISSUER), F('signature', SIGALG), F('serial_number', INT), F('att_cert_validity_period', ACTIMES), F('attributes', SEQOF(ACATTR)), F('issuer_unique_id', OBITS, o=True), F('extensions', EXTS, o=True))
ACV2 = SEQ(F('ac_info', AC2), F('signature_algorithm', SIGALG), F('signature', OBITS))
AC1 = SEQ(F('version', NUM_(0), d=b'\0'), F('subject', CHOICE(F('base_certificate_id', ISSERIAL, e=0), F('subject_name', GNS, e=1))), F('issuer', GNS), F('signature', SIGALG), F('serial_number', INT), F('att_cert_validity_period', ACTIMES),
          F('attributes', SEQOF(ATTR_ANY)), F('issuer_unique_id', OBITS, o=True), F('extensions', EXTS, o=True))
ACV1 = SEQ(F('ac_info', AC1), F('signature_algorithm', SIGALG), F('signature', OBITS))

# ------------------------------------------------------------------ CMS (RFC 5652 and others)
CONTENT_TABLE = {}
ENCAP_TABLE = {}
CONTENTINFO = SEQ(F('content_type', OIDS(P7 + '1')), F('content', Open('content_type', CONTENT_TABLE), o=True, e=0))
ENCAP = SEQ(F('content_type', OIDS(P7 + '1')), F('content', Open('content_type', ENCAP_TABLE, 'octets'), o=True, e=0))
IASN = SEQ(F('issuer', NAME), F('serial_number', INT))
OKA = SEQ(F('key_attr_id', OID), F('key_attr', ANY, o=True))
RKI = SEQ(F('subject_key_identifier', OCT), F('date', GENT, o=True), F('other', OKA, o=True))
EXTCERT = SEQ(F('extended_certificate_info', SEQ(F('version', INT), F('certificate', CERT), F('attributes', SETOF(ATTR_ANY)))), F('signature_algorithm', SIGALG), F('signature', OBITS))
OTHERCERT = SEQ(F('other_cert_format', OID), F('other_cert', ANY))
CERTCHOICE = CHOICE(F('certificate', CERT), F('extended_certificate', EXTCERT, i=0), F('v1_attr_cert', ACV1, i=1), F('v2_attr_cert', ACV2, i=2), F('other', OTHERCERT, i=3))
SCVP = SEQ(F('request', CONTENTINFO, o=True, e=0), F('response', CONTENTINFO))
OTHERREV = SEQ(F('other_rev_info_format', OIDS(PKIX + '16.2')), F('other_rev_info', Open('other_rev_info_format', {PKIX + '16.2': ORESP, PKIX + '16.4': SCVP})))
REVCHOICE = CHOICE(F('crl', CRL), F('other', OTHERREV, i=1))
KEYENC = ALG({RSA1 + '1': NULL, RSA1 + '7': OAEP})
KEYENC.fields[1].type.table.pop(RSA1 + '1')
SIGNERID = CHOICE(F('issuer_and_serial_number', IASN), F('subject_key_identifier', OCT, i=0))
VERSION = NUM_(0, 1, 2, 3, 4)
KTRI = SEQ(F('version', VERSION), F('rid', SIGNERID), F('key_encryption_algorithm', KEYENC), F('encrypted_key', OCT))
ORIGINATOR = CHOICE(F('issuer_and_serial_number', IASN), F('subject_key_identifier', OCT, i=0), F('originator_key', SPKI, i=1))
KARI = SEQ(F('version', VERSION), F('originator', ORIGINATOR, e=0), F('ukm', OCT, o=True, e=1), F('key_encryption_algorithm', KEYENC),
           F('recipient_encrypted_keys', SEQOF(SEQ(F('rid', CHOICE(F('issuer_and_serial_number', IASN), F('r_key_id', RKI, i=0))), F('encrypted_key', OCT)))))
KEKRI = SEQ(F('version', VERSION), F('kekid', SEQ(F('key_identifier', OCT), F('date', GENT, o=True), F('other', OKA, o=True))), F('key_encryption_algorithm', KEYENC), F('encrypted_key', OCT))
PWRI = SEQ(F('version', VERSION), F('key_derivation_algorithm', KDF, o=True, i=0), F('key_encryption_algorithm', KEYENC), F('encrypted_key', OCT))
ORI = SEQ(F('ori_type', OID), F('ori_value', ANY))
RECIPIENT = CHOICE(F('ktri', KTRI), F('kari', KARI, i=1), F('kekri', KEKRI, i=2), F('pwri', PWRI, i=3), F('ori', ORI, i=4))
CMS_TIME = CHOICE(F('utc_time', UTCT), F('generalized_time', GENT))
ATTR_TABLE = {P9 + '3': SETOF(OIDS(P7 + '1', '1.2.3.4'))}
CMSATTR = ATTRIBUTE(ATTR_TABLE)
ATTRS = SETOF(CMSATTR)
SIGNER = SEQ(F('version', VERSION), F('sid', SIGNERID), F('digest_algorithm', DIGEST), F('signed_attrs', ATTRS, o=True, i=0), F('signature_algorithm', SIGALG), F('signature', OCT), F('unsigned_attrs', ATTRS, o=True, i=1))
CAP = SEQ(F('digest_algorithm', DIGEST), F('signature_algorithm', SIGALG, o=True, i=1), F('mac_algorithm', HMAC, o=True, i=2))
KEYPREF = CHOICE(F('issuer_and_serial_number', IASN, i=0), F('recipient_key_id', RKI, i=1), F('subject_alt_key_identifier', OCT, i=2))
CAPABILITIES = SEQOF(SEQ(F('capability_id', OIDS(AES + '42', '1.2.3.4')), F('parameters', ANY, o=True)))
ISSERIAL2 = SEQ(F('issuer', GNS), F('serial_number', INT))
SIGCERT = SEQ(F('certs', SEQOF(SEQ(F('cert_hash', OCT), F('issuer_serial', ISSERIAL2, o=True)))), F('policies', POLICIES, o=True))
SIGCERT2 = SEQ(F('certs', SEQOF(SEQ(F('hash_algorithm', DIGEST, d=SHA256_VALUE), F('cert_hash', OCT), F('issuer_serial', ISSERIAL2, o=True)))), F('policies', POLICIES, o=True))
OTHERREVINFO = SEQ(F('type', OID), F('value', OCT))
RIA = SEQ(F('crl', SEQOF(CRL), o=True, e=0), F('ocsp', SEQOF(ORESP), o=True, e=1), F('other_rev_info', SEQOF(OTHERREVINFO), o=True, e=2))
ATTR_TABLE.update({P9 + '4': SETOF(OCT), P9 + '5': SETOF(CMS_TIME), P9 + '6': SETOF(Lazy(lambda: SIGNER)), P9 + '15': SETOF(CAPABILITIES), SMIME + '2.11': SETOF(KEYPREF), SMIME + '2.14': SETOF(CONTENTINFO),
                   P9 + '52': SETOF(CAP), '1.3.6.1.4.1.311.2.4.1': SETOF(CONTENTINFO), '1.3.6.1.4.1.311.3.3.1': SETOF(CONTENTINFO), SMIME + '2.12': SETOF(SIGCERT), SMIME + '2.47': SETOF(SIGCERT2), '1.2.840.113583.1.1.8': SETOF(RIA)})
SIGNED = SEQ(F('version', NUM_(3, 4, 5)), F('digest_algorithms', SETOF(DIGEST)), F('encap_content_info', ENCAP), F('certificates', SETOF(CERTCHOICE), o=True, i=0), F('crls', SETOF(REVCHOICE), o=True, i=1), F('signer_infos', SETOF(SIGNER)))
PKCS7_SIGNED = SEQ(F('version', NUM_(1)), F('digest_algorithms', SETOF(DIGEST)), F('encap_content_info', CONTENTINFO), F('certificates', SETOF(CERTCHOICE), o=True, i=0), F('crls', SETOF(REVCHOICE), o=True, i=1), F('signer_infos', SETOF(SIGNER)))
ORIGIN = SEQ(F('certs', SETOF(CERTCHOICE), o=True, i=0), F('crls', SETOF(REVCHOICE), o=True, i=1))
ECI = SEQ(F('content_type', OIDS(P7 + '1', P7 + '2', '1.2.3.4')), F('content_encryption_algorithm', ENC), F('encrypted_content', OCT, o=True, i=0))
ENVELOPED = SEQ(F('version', VERSION), F('originator_info', ORIGIN, o=True, i=0), F('recipient_infos', SETOF(RECIPIENT)), F('encrypted_content_info', ECI), F('unprotected_attrs', ATTRS, o=True, i=1))
SIGNENV = SEQ(F('version', VERSION), F('recipient_infos', SETOF(RECIPIENT)), F('digest_algorithms', SETOF(DIGEST)), F('encrypted_content_info', ECI), F('certificates', SETOF(CERTCHOICE), o=True, i=0), F('crls', SETOF(CRL), o=True, i=1), F('signer_infos', SETOF(SIGNER)))
DIGESTED = SEQ(F('version', NUM_(0, 2)), F('digest_algorithm', DIGEST), F('encap_content_info', ENCAP), F('digest', OCT))
PKCS7_DIGESTED = SEQ(F('version', NUM_(1)), F('digest_algorithm', DIGEST), F('encap_content_info', CONTENTINFO), F('digest', OCT))
ENCRYPTED = SEQ(F('version', NUM_(0, 2)), F('encrypted_content_info', ECI), F('unprotected_attrs', ATTRS, o=True, i=1))
AUTHENTICATED = SEQ(F('version', VERSION), F('originator_info', ORIGIN, o=True, i=0), F('recipient_infos', SETOF(RECIPIENT)), F('mac_algorithm', HMAC), F('digest_algorithm', DIGEST, o=True, i=1), F('encap_content_info', ENCAP),
                    F('auth_attrs', ATTRS, o=True, i=2), F('mac', OCT), F('unauth_attrs', ATTRS, o=True, i=3))
AUTHENV = SEQ(F('version', VERSION), F('originator_info', ORIGIN, o=True, i=0), F('recipient_infos', SETOF(RECIPIENT)), F('auth_encrypted_content_info', ECI), F('auth_attrs', ATTRS, o=True, i=1), F('mac', OCT), F('unauth_attrs', ATTRS, o=True, i=2))
COMPRESSED = SEQ(F('version', NUM_(0)), F('compression_algorithm', SEQ(F('algorithm', OIDS(SMIME + '3.8')), F('parameters', ANY, o=True))), F('encap_content_info', ENCAP))

# ------------------------------------------------------------------ time stamps (RFC 3161, 5544, 4998)
IMPRINT = SEQ(F('hash_algorithm', DIGEST), F('hashed_message', OCT))
PLAINEXT = SEQ(F('extn_id', OID), F('critical', BOOL, d=b'\0'), F('extn_value', OCT))
TSREQ = SEQ(F('version', NUM_(1)), F('message_imprint', IMPRINT), F('req_policy', OID, o=True), F('nonce', POS, o=True), F('cert_req', BOOL, d=b'\0'), F('extensions', SEQOF(PLAINEXT), o=True, i=0))
ACCURACY = SEQ(F('seconds', POS, o=True), F('millis', POS, o=True, i=0), F('micros', POS, o=True, i=1))
TSTINFO = SEQ(F('version', NUM_(1)), F('policy', OID), F('message_imprint', IMPRINT), F('serial_number', INT), F('gen_time', GENT), F('accuracy', ACCURACY, o=True), F('ordering', BOOL, d=b'\0'), F('nonce', POS, o=True),
              F('tsa', GN, o=True, e=0), F('extensions', SEQOF(PLAINEXT), o=True, i=1))
PKISTATUS = SEQ(F('status', NUM_(0, 2, 5)), F('status_string', SEQOF(UTF8), o=True), F('fail_info', L(3, 'named bits', b'\x07\x80', b'\x05\x20'), o=True))
TSRESP = SEQ(F('status', PKISTATUS), F('time_stamp_token', CONTENTINFO, o=True))
META = SEQ(F('hash_protected', BOOL), F('file_name', UTF8, o=True), F('media_type', IA5, o=True), F('other_meta_data', SETOF(ATTR_ANY), o=True))
TSCRL = SEQ(F('time_stamp', CONTENTINFO), F('crl', CRL, o=True))
ATS = SEQ(F('digest_algorithm', DIGEST, o=True, i=0), F('attributes', SETOF(ATTR_ANY), o=True, i=1), F('reduced_hashtree', SEQOF(SEQOF(OCT)), o=True, i=2), F('time_stamp', CONTENTINFO))
EVIDENCE_RECORD = SEQ(F('version', NUM_(1)), F('digest_algorithms', SEQOF(DIGEST)), F('crypto_infos', SEQOF(ATTR_ANY), o=True, i=0), F('encryption_info', SEQ(F('encryption_info_type', OID), F('encryption_info_value', ANY)), o=True, i=1),
                      F('archive_time_stamp_sequence', SEQOF(SEQOF(ATS))))
EVIDENCE = CHOICE(F('tst_evidence', SEQOF(TSCRL), i=0), F('ers_evidence', EVIDENCE_RECORD, i=1), F('other_evidence', SEQ(F('oe_type', OID), F('oe_value', ANY)), i=2))
TSDATA = SEQ(F('version', NUM_(1)), F('data_uri', IA5, o=True), F('meta_data', META, o=True), F('content', OCT, o=True), F('temporal_evidence', EVIDENCE))
COMMON = {P7 + '2': SIGNED, P7 + '3': ENVELOPED, P7 + '4': SIGNENV, P7 + '5': DIGESTED, P7 + '6': ENCRYPTED, SMIME + '1.2': AUTHENTICATED, SMIME + '1.9': COMPRESSED, SMIME + '1.23': AUTHENV, SMIME + '1.31': TSDATA}
CONTENT_TABLE[P7 + '1'] = OCT
CONTENT_TABLE.update(COMMON)
ENCAP_TABLE.update(COMMON)
ENCAP_TABLE[SMIME + '1.4'] = TSTINFO

# ------------------------------------------------------------------ PKCS 12 (RFC 7292)
P12ATTR = ATTRIBUTE({P9 + '20': SETOF(BMP), P9 + '21': SETOF(OCT), '1.3.6.1.4.1.311.17.1': SETOF(BMP), '2.16.840.1.113894.746875.1.1': SETOF(OIDS('2.5.29.37.0', PKIX + '3.1'))})
BAGS = {}
SAFEBAG = SEQ(F('bag_id', OIDS('1.2.840.113549.1.12.10.1.5')), F('bag_value', Open('bag_id', BAGS), e=0), F('bag_attributes', SETOF(P12ATTR), o=True))
CERTBAG = SEQ(F('cert_id', OIDS(P9 + '22.1')), F('cert_value', Open('cert_id', {P9 + '22.1': CERT}, 'octets'), e=0))
CRLBAG = SEQ(F('crl_id', OID), F('crl_value', OCT, e=0))
SECRETBAG = SEQ(F('secret_type_id', OID), F('secret_value', OCT, e=0))
for n, t in enumerate([P8, EPKI, CERTBAG, CRLBAG, SECRETBAG, Lazy(lambda: SEQOF_BAG)]):
    BAGS['1.2.840.113549.1.12.10.1.%d' % (n + 1)] = t
SEQOF_BAG = SEQOF(SAFEBAG)
MACDATA = SEQ(F('mac', DIGESTINFO), F('mac_salt', OCT), F('iterations', POS, d=b'\1'))
PFX = SEQ(F('version', NUM_(3)), F('auth_safe', CONTENTINFO), F('mac_data', MACDATA, o=True))

ROOTS = {
    'algos.AlgorithmIdentifier': PLAIN_ALG, 'algos.DigestAlgorithm': DIGEST, 'algos.HmacAlgorithm': HMAC, 'algos.MaskGenAlgorithm': MGF, 'algos.RSASSAPSSParams': PSS, 'algos.RSAESOAEPParams': OAEP, 'algos.SignedDigestAlgorithm': SIGALG,
    'algos.Pbkdf2Params': PBKDF2, 'algos.ScryptParams': SCRYPT, 'algos.KdfAlgorithm': KDF, 'algos.EncryptionAlgorithm': ENC, 'algos.Pbes2Params': PBES2, 'algos.Pkcs5MacAlgorithm': MACALG, 'algos.KeyExchangeAlgorithm': KEYEX,
    'algos.DigestInfo': DIGESTINFO, 'algos.DSASignature': DSASIG, 'algos.PSourceAlgorithm': PSPEC,
    'keys.RSAPrivateKey': RSA_PRIVATE, 'keys.RSAPublicKey': RSA_PUBLIC, 'keys.DSAPrivateKey': DSA_PRIVATE, 'keys.DSAParams': DSA_PARAMS, 'keys.DomainParameters': DOMAIN, 'keys.FieldID': FIELDID, 'keys.SpecifiedECDomain': SPECIFIED,
    'keys.ECDomainParameters': ECPARAMS, 'keys.ECPrivateKey': EC_PRIVATE, 'keys.PublicKeyAlgorithm': PUBALG, 'keys.PrivateKeyAlgorithm': PRIVALG, 'keys.EncryptedPrivateKeyInfo': EPKI,
    'x509.Name': NAME, 'x509.GeneralName': GN, 'x509.GeneralNames': GNS, 'x509.ORAddress': ORADDRESS, 'x509.Extension': EXTENSION, 'x509.Extensions': EXTS, 'x509.TbsCertificate': TBS, 'x509.Certificate': CERT, 'x509.CertificateAux': AUX,
    'x509.DistributionPoint': DPS.child, 'x509.NameConstraints': NC, 'x509.CertificatePolicies': POLICIES, 'x509.UserNotice': NOTICE, 'x509.AuthorityKeyIdentifier': AKI, 'x509.TPMSecurityAssertions': TPMSA, 'x509.SupportedAlgorithm': SUPPORTED,
    'x509.SubjectDirectoryAttributes': SDA, 'x509.ExtensionAttribute': ORXATTR, 'x509.PresentationAddress': PSAP, 'x509.EDIPartyName': EDI, 'x509.CommonCriteriaMeasures': CCM_,
    'crl.CertificateList': CRL, 'crl.TbsCertList': TBSCRL, 'crl.IssuingDistributionPoint': IDP, 'crl.RevokedCertificate': REVOKED.child, 'crl.TBSCertListExtension': CRLEXT, 'crl.CRLEntryExtension': CRLENT,
    'csr.CertificationRequest': CSR, 'csr.CertificationRequestInfo': CRI, 'csr.CRIAttribute': CRIATTR,
    'ocsp.OCSPRequest': OREQ, 'ocsp.TBSRequest': TBSREQ, 'ocsp.OCSPResponse': ORESP, 'ocsp.BasicOCSPResponse': BASIC, 'ocsp.ResponseData': RDATA, 'ocsp.SingleResponse': SINGLE, 'ocsp.Request': REQUEST, 'ocsp.TBSRequestExtension': TBSREQ_EXT,
    'ocsp.SingleResponseExtension': SINGLE_EXT, 'ocsp.CertStatus': CERTSTATUS, 'ocsp.ResponseDataExtension': RDATA_EXT, 'ocsp.ResponseBytes': RBYTES, 'ocsp.RequestExtension': REQUEST.fields[1].type.child,
    'cms.AttributeCertificateV1': ACV1, 'cms.AttributeCertificateV2': ACV2, 'cms.AttributeCertificateInfoV1': AC1, 'cms.AttributeCertificateInfoV2': AC2, 'cms.AttCertAttribute': ACATTR, 'cms.Holder': HOLDER, 'cms.V2Form': V2FORM, 'cms.Clearance': CLEARANCE,
    'cms.ContentInfo': CONTENTINFO, 'cms.EncapsulatedContentInfo': ENCAP, 'cms.SignedData': SIGNED, 'cms.EnvelopedData': ENVELOPED, 'cms.SignedAndEnvelopedData': SIGNENV, 'cms.DigestedData': DIGESTED, 'cms.EncryptedData': ENCRYPTED,
    'cms.AuthenticatedData': AUTHENTICATED, 'cms.AuthEnvelopedData': AUTHENV, 'cms.CompressedData': COMPRESSED, 'cms.SignerInfo': SIGNER, 'cms.RecipientInfo': RECIPIENT, 'cms.CMSAttribute': CMSATTR, 'cms.CMSAttributes': ATTRS,
    'cms.CertificateChoices': CERTCHOICE, 'cms.RevocationInfoChoice': REVCHOICE, 'cms.KeyAgreeRecipientInfo': KARI, 'cms.KEKRecipientInfo': KEKRI, 'cms.CMSAlgorithmProtection': CAP, 'cms.SMIMEEncryptionKeyPreference': KEYPREF,
    'cms.OtherRevocationInfoFormat': OTHERREV, 'cms.IetfAttrSyntax': IETF, 'cms.KeyEncryptionAlgorithm': KEYENC,
    'tsp.TimeStampReq': TSREQ, 'tsp.TimeStampResp': TSRESP, 'tsp.TSTInfo': TSTINFO, 'tsp.TimeStampedData': TSDATA, 'tsp.EvidenceRecord': EVIDENCE_RECORD, 'tsp.Evidence': EVIDENCE, 'tsp.SigningCertificate': SIGCERT, 'tsp.SigningCertificateV2': SIGCERT2,
    'tsp.ArchiveTimeStamp': ATS, 'tsp.MetaData': META, 'tsp.PKIStatusInfo': PKISTATUS, 'tsp.Accuracy': ACCURACY,
    'pkcs12.Pfx': PFX, 'pkcs12.SafeBag': SAFEBAG, 'pkcs12.SafeContents': SEQOF_BAG, 'pkcs12.Attribute': P12ATTR, 'pkcs12.CertBag': CERTBAG, 'pkcs12.AuthenticatedSafe': SEQOF(CONTENTINFO),
    'pdf.RevocationInfoArchival': RIA,
}
# more than one type for a class
MORE = [('keys.PublicKeyInfo ' + o, 'keys.PublicKeyInfo', t) for o, t in SPKIS] + [('keys.PrivateKeyInfo ' + o, 'keys.PrivateKeyInfo', t) for o, t in P8S] + [
    ('cms.SignedData PKCS7', 'cms.SignedData', PKCS7_SIGNED), ('cms.DigestedData PKCS7', 'cms.DigestedData', PKCS7_DIGESTED)]
ALL = sorted([(k, k, t) for k, t in ROOTS.items()] + MORE, key=lambda x: x[0])
