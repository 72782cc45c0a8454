"""Real-world encodings from the repository's fixtures, decoded from PEM without asn1crypto."""
import base64
import os
import re
from . import ref
from .common import REPO

FIX = os.path.join(REPO, 'tests', 'fixtures')
SPEC = [
    ('x509.Certificate', 'keys/test-der.crt keys/test-dsa-der.crt keys/test-ec-der.crt keys/test-ec-named-der.crt keys/test-inter-der.crt '
     'keys/test-third-der.crt keys/test-ed25519.crt keys/test-ed448.crt keys/test-rsapss.crt keys/test-validity.crt '
     'geotrust_certs/GeoTrust_EV_SSL_CA_-_G4.crt geotrust_certs/GeoTrust_Universal_CA.crt geotrust_certs/codex.crt '
     'geotrust_certs/Equifax_Secure_Certificate_Authority.crt lets_encrypt/isrgrootx1.pem lets_encrypt/letsencryptauthorityx1.pem '
     'globalsign_example_keys/IssuingCA-der.cer globalsign_example_keys/SSL1-der.cer globalsign_example_keys/SSL2-der.cer '
     'globalsign_example_keys/SSL3-der.cer chromium/ndn.ca.crt chromium/punycodetest.pem chromium/subjectAltName_sanity_check.pem '
     'DSAParametersInheritedCACert.crt 9999-years-rsa-cert.pem admin.ch.crt rfc3739.crt sender_dummycorp.com.crt ocsp-with-pkup.pem '
     'self-signed-repeated-subject-fields.der'),
    ('cms.ContentInfo', 'cms-compressed.der cms-digested.der cms-encrypted.der cms-enveloped.der cms-signed.der cms-signed-digested.der '
     'pkcs7-signed.der pkcs7-signed-digested.der mozilla-generated-by-openssl.pkcs7.der smime-signature-generated-by-thunderbird.p7s'),
    ('cms.AttributeCertificateV2', 'example-attr-cert.der'),
    ('keys.RSAPrivateKey', 'keys/test-der.key'),
    ('keys.DSAPrivateKey', 'keys/test-dsa-der.key'),
    ('keys.ECPrivateKey', 'keys/test-ec-der.key keys/test-ec-named-der.key'),
    ('keys.PrivateKeyInfo', 'keys/test-pkcs8-der.key keys/test-pkcs8-dsa-der.key keys/test-pkcs8-ec-der.key keys/test-pkcs8-ec-named-der.key '
     'keys/test-ed25519.key keys/test-ed448.key keys/test-rsapss-der.key'),
    ('keys.PublicKeyInfo', 'keys/test-public-der.key keys/test-public-dsa-der.key keys/test-public-ec-der.key '
     'keys/test-public-ec-named-der.key keys/test-public-rsapss-der.key'),
    ('keys.RSAPublicKey', 'keys/test-public-rsa-der.key'),
    ('csr.CertificationRequest', 'test-inter-der.csr test-third-der.csr test-windows-host.csr'),
    ('ocsp.OCSPRequest', 'ocsp_request'),
    ('ocsp.OCSPResponse', 'ocsp_response'),
    ('tsp.TimeStampReq', 'tsp_request'),
    ('tsp.TimeStampResp', 'tsp_response'),
    ('pkcs12.Pfx', 'test-tripledes.p12 keys/test-rc2.p12'),
    ('pkcs12.SafeBag', 'certbag.der'),
    ('algos.EncryptionAlgorithm', 'aesccm_algo.der rc2_algo.der rc5_algo.der'),
    ('algos.KdfAlgorithm', 'scrypt_algo.der'),
]


def read(rel):
    with open(os.path.join(FIX, rel), 'rb') as f:
        data = f.read()
    m = re.search(rb'-----BEGIN [A-Z0-9 ]+-----\s*?\n(.*?)-----END', data, re.S)
    if m:
        body = b'\n'.join(x for x in m.group(1).splitlines() if b':' not in x)
        data = base64.b64decode(body)
    _, end = ref.parse_one(data)
    return data[:end]


def entries():
    for cls, files in SPEC:
        for f in files.split():
            yield cls, f


def get_class(name):
    import importlib
    mod, c = name.split('.')
    return getattr(importlib.import_module('asn1crypto.' + mod), c)
