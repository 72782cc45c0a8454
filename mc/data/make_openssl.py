"""Writes openssl.json: the identifiers and the curves that OpenSSL 3.0 knows, an assignment independent of asn1crypto.

The file is committed; this is how it was made (needs the openssl command and CPython's _ssl)."""
import json, os, re, subprocess, _ssl

oids = {}
for nid in range(1, 1400):
    try:
        _, sn, ln, dotted = _ssl.nid2obj(nid)
    except ValueError:
        continue
    if dotted and dotted[0] in '012' and '.' in dotted:
        oids[dotted] = [sn, ln]
curves = {}
out = subprocess.run(['openssl', 'ecparam', '-list_curves'], stdout=subprocess.PIPE).stdout.decode()
for name in re.findall(r'^  *([A-Za-z0-9-]+) *:', out, re.M):
    text = subprocess.run(['openssl', 'ecparam', '-name', name, '-text', '-noout', '-param_enc', 'explicit'], stdout=subprocess.PIPE).stdout.decode()
    order = int(re.sub('[^0-9a-f]', '', re.search(r'Order: *\n((?: +[0-9a-f:]+\n)+)', text).group(1)), 16)
    try:
        dotted = _ssl.txt2obj(name, True)[3]
    except ValueError:
        continue
    m = re.search(r'(?:Prime|Polynomial): *\n((?: +[0-9a-f:]+\n)+)', text)
    field = int(re.sub('[^0-9a-f]', '', m.group(1)), 16)
    bits = field.bit_length() - ('Polynomial' in text)
    if not dotted:
        continue
    curves[dotted] = [name, order, bits]
json.dump({'oids': oids, 'curves': curves}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'openssl.json'), 'w'), indent=0, sort_keys=True)
print(len(oids), len(curves))
