"""Writes names.json: the name tables of asn1crypto as reviewed against OpenSSL (openssl.json) and the standards.

Prints the entries whose name is not that of OpenSSL, which were compared by hand, and those OpenSSL does not know,
which were compared with RFC 3279, 3447, 5084, 5280, 5480, 5652, 5755, 5940, 6277, 6960, 8018, BSI TR-03111, the TCG
profiles and the lists of Microsoft, Adobe and Apple as far as they are known to the author."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
from mc.common import bootstrap
bootstrap()
from mc import gen  # noqa
from asn1crypto import core

oids = json.load(open(os.path.join(HERE, 'openssl.json')))['oids']
norm = lambda s: re.sub('[^a-z0-9]', '', s.lower())
out = {}
for label, cls in gen.classes():
    m = getattr(cls, '_map', None)
    if not m:
        continue
    kind = 'oid' if issubclass(cls, core.ObjectIdentifier) else 'bits' if issubclass(cls, core.BitString) else 'enum' if issubclass(cls, core.Enumerated) else 'int'
    e = {'kind': kind, 'names': {str(k): v for k, v in m.items()}}
    dup = [n for n in m.values() if list(m.values()).count(n) > 1]
    cls()
    if dup:
        e['primary'] = {n: cls._reverse_map[n] for n in sorted(set(dup))}
    alias = {k: v for k, v in (cls._reverse_map or {}).items() if m.get(v) != k} if kind == 'oid' else {}
    if alias:
        e['alias'] = alias
    out[label] = e
    if kind == 'oid':
        for o, n in m.items():
            if o not in oids:
                print('not in OpenSSL', label, o, n)
            elif norm(n) not in [norm(x) for x in oids[o]]:
                print('other name', label, o, n, oids[o])
json.dump(out, open(os.path.join(HERE, 'names.json'), 'w'), indent=0, sort_keys=True)
