"""Writes KNOWN_FINDINGS.json: fixed entries come from the fix: commits of /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = [  # commit subject prefix -> property
    ('the key length of RC2 is given in bytes', 'C27'), ('the salt of a PBES2 algorithm that uses scrypt', 'C27'), ('the properties of encryption algorithms without', 'C27'),
    ('an empty subject alternative name extension', 'C24'), ('an empty key identifier is compared', 'C25'), ('the Windows replacement of inet_pton', 'C22'),
    ('encoding an object identifier anew', 'C31'), ('the name of the CSP, whose', 'C31'), ('the identifiers of three Apple', 'C31'), ('the identifier of the local machine keyset', 'C31'),
    ('an EC private key that was decoded or copied', 'C26'), ('a private key that was tagged is wrapped', 'C26'), ('an EC private key that is widened', 'C26'),
    ('an RSASSA-PSS key can be wrapped', 'C26'), ('the size of an EC public key with a compressed', 'C26'), ('the size of a key of an algorithm without', 'C26'),
    ('the size of an EC private key includes', 'C26'), ('the size of a key, order or coordinate', 'C26'),
    ('the issuer and serial number of the issuing', 'C03'), ('the URL of a distribution point and the self-signed', 'C03'), ('a key of an unknown algorithm can be read', 'C03'),
    ('the application tags of CountryName', 'C33'), ('the fields of EDIPartyName', 'C33'), ('the issuer name of a revoked certificate is not', 'C03'),
    ('decoding an undefined Enumerated', 'C06'), ('ObjectIdentifier.set()', 'C07'), ('RelativeOid', 'C07'),
    ('a bit string without content', 'C08'), ('Null.set()', 'C05'), ('Castable.cast()', 'C16'), ('BitString.set()', 'C08'),
    ('ParsableOctetString.set()', 'C30'), ('an empty constructed bit', 'C08'), ('a string value that can not', 'C09'),
    ('a forced dump() that can not', 'C29'), ('the header of a definite', 'C04'), ('a Choice recomputes', 'C17'),
    ('Choice.validate() goes', 'C17'), ('a Choice whose chosen', 'C17'), ('a forced dump() of a Teletex', 'C09'), ('GeneralizedTime pads', 'C10'),
    ('UTCTime and GeneralizedTime refuse', 'C10'), ('a time whose fraction', 'C10'), ('copying a chunked', 'C10'),
    ('the default of a SEQUENCE field', 'C14'), ('a change of a nested value', 'C12'), ('a SET re-encodes after', 'C15'),
    ('a SET without a definition', 'C32'), ('a SET with two values', 'C15'), ('values that follow the last', 'C12'),
    ('an explicit tag that contains more', 'C16'), ('setting a child whose native', 'C29'), ('debug() of an octet', 'C04'),
    ('the native value of a copy follows', 'C18'), ('a SEQUENCE or SET constructed from an empty dict', 'C14'),
    ('a SEQUENCE OF or SET OF refuses a child without a value', 'C29'), ('an explicitly tagged value of any type is only decoded', 'C16'),
    ('values of the types without a Python implementation', 'C03'), ('an Any whose value can not be decoded without a spec', 'C30'),
    ('the explicit tag of an Any is encoded', 'C30'), ('an absent optional field of any type with an explicit tag', 'C14'),
    ('a Choice with more than one explicit tag', 'C17'), ('a field with more than one explicit tag', 'C16'),
    ('the chunks of a string are decoded with their universal tag', 'C16'),
    ('a Choice keeps the end of an explicit tag', 'C17'), ('a value with tags of its own can be unpickled', 'C18'),
    ('a copy of an IntegerOctetString', 'C18'), ('a forced dump() of an IntegerOctetString', 'C06'),
    ('a forced dump() or copy of an OctetBitString', 'C08'), ('a copy of a SEQUENCE OF or SET OF keeps', 'C18'),
    ('threads that use a type', 'C20'), ('extended_date and extended_datetime can be hashed', 'C11'),
    ('a change of the value that is contained', 'C30'), ('a change of the value in an Any', 'C30'),
    ('setting an IPAddress to text', 'C29'), ('dump() of a SEQUENCE or SET without', 'C29'),
    ('a timedelta and an extended_datetime', 'C11'), ('the sum of an extended_datetime', 'C11'),
    ('the names that asn1crypto.tsp and', 'C31'), ('AnyAlgorithmId can be set', 'C31'),
    ('the extensions and the response data of an OCSPResponse', 'C25'), ('the delta CRL distribution points of a CRL', 'C25'),
    ('a DistributionPoint without a name', 'C25'), ('a distribution point with more than one URI', 'C25'),
    ('the authority issuer and serial number', 'C25'), ('the URL of a distribution point that is relative', 'C25'),
    ('a name in a certificate that is not a domain name', 'C24'), ('the label of a wildcard domain is compared', 'C24'),
    ('an IP name in a certificate that is not one address', 'C24'), ('text that is neither a domain name nor', 'C24'),
    ('a label of a domain name that is no IDNA', 'C24'),
    ('a URI with an empty authority', 'C22'), ('the host of a URI that is an IPv6', 'C22'), ('an empty user name or password in a URI', 'C22'),
    ('percent-encoded octets', 'C22'), ('domain names are compared by their encoding', 'C22'), ('comparing email addresses', 'C22'),
    ('setting a chunked domain name', 'C22'), ('an IP address with a mask that is no CIDR', 'C22'), ('re-encoding or copying a domain name', 'C22'),
    ('the scheme of a URI may contain', 'C22'),
    ('variation selectors are ignored', 'C23'), ('names with a unique identifier of any octets', 'C23'), ('a name is compared by its current value', 'C23'),
    ('relative names with more than one value of a type', 'C23'), ('values of names that are not text are only equal', 'C23'),
    ('the human friendly form of a name with more than one value', 'C23'),
    ('a value in the indefinite form is equal', 'C19'), ('debug() of an octet or bit string', 'C19'), ('a slice of a decoded SEQUENCE OF', 'C19'), ('a list of names or URLs that could not be read', 'C19'),
    ('the requires_auth field', 'C33'), ('a version 1 attribute certificate without', 'C33'), ('the extension attributes of an X.400', 'C33'), ('the authenticated safe of a PFX', 'C33'), ('the attributes of time-stamped data', 'C33'), ('the attributes of an extended certificate', 'C33'), ('an archive time stamp sequence', 'C33'), ('the time stamp of a TimeStampAndCRL', 'C33'), ('a time stamp response that reports', 'C33'), ('the locator of an OCSP', 'C33'), ('the tags of the fields of V2Form', 'C33'), ('the subjectAltKeyIdentifier', 'C33'), ('the value of an OtherKeyAttribute', 'C33'),
    ('a value of a universal type with the wrong method', 'C32'), ('a copy of an INSTANCE OF or CHARACTER STRING', 'C32'),
    ('an element of another class', 'C32'),
    ('a CHOICE can be set as the value an octet', 'C28'), ('the type of a field of a SET can be', 'C28'),
]
path = os.path.join(HERE, 'KNOWN_FINDINGS.json')
data = json.load(open(path)) if os.path.exists(path) else {'findings': []}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    pid = [p for k, p in PROPS if s.startswith(k)]
    assert pid, s
    fixed.append('fixed: property=%s %s %s' % (pid[0], h, s))
data['fixed'] = fixed
json.dump(data, open(path, 'w'), indent=1)
print(len(fixed), 'fixed', len(data['findings']), 'findings')
