"""Encodings of every type of the library, made from the definitions of the types themselves (no oracle: only for injecting faults,
reading and copying).  Every registered identifier, alternative and optional field occurs in some encoding."""
import importlib
import inspect
from . import ref

MODULES = 'algos cms crl csr keys ocsp pdf pkcs12 tsp x509'.split()


def classes():
    from asn1crypto import core
    out = []
    for m in MODULES:
        mod = importlib.import_module('asn1crypto.' + m)
        for n, c in sorted(vars(mod).items()):
            if inspect.isclass(c) and c.__module__ == mod.__name__ and issubclass(c, (core.Asn1Value, core.Concat)):
                out.append(('%s.%s' % (m, n), c))
    return out


CONTENT = {1: b'\xff', 2: b'\x05', 3: b'\x05\xa0', 4: b'abcd', 5: b'', 6: b'\x2a\x03\x04', 10: b'\x00', 12: b'text', 13: b'\x08\x03', 18: b'123', 19: b'abc', 20: b'abc', 22: b'a@b.c', 23: b'200101000000Z',
           24: b'20200101000000Z', 25: b'abc', 26: b'abc', 27: b'V8.0', 28: b'\0\0\0a', 30: b'\0a\0b', 7: b'abc', 8: b'abc', 9: b'', 11: b'', 21: b'abc'}
DEPTH = 9


def headers(cls_tag, method, contents, params, own_explicit=None):
    """apply tagging parameters of a field: implicit and explicit, as (class, tag) pairs outermost first"""
    c, t = cls_tag
    explicit = list(own_explicit or ())
    if 'implicit' in params:
        c, t = pair(params['implicit'])
    if 'tag_type' in params:
        if params['tag_type'] == 'implicit':
            c, t = 2, params['tag']
        else:
            explicit = [(2, params['tag'])] + explicit
    if 'explicit' in params:
        e = params['explicit']
        explicit = ([pair(x) for x in e] if isinstance(e, (list, tuple)) and e and isinstance(e[0], (list, tuple)) else [pair(e)]) + explicit
    out = ref.tlv(c, method, t, contents)
    for c, t in explicit:
        out = ref.tlv(c, True, t, out)
    return out


CLASSES = {'universal': 0, 'application': 1, 'context': 2, 'private': 3, 0: 0, 1: 1, 2: 2, 3: 3}


def pair(x):
    if isinstance(x, (list, tuple)):
        return CLASSES[x[0]], x[1]
    return 2, x


def one(samples):
    return samples[0] if samples else None


def own_explicit(cls):
    e = cls.explicit or ()
    return (e,) if e and isinstance(e[0], int) else e


class Gen(object):
    def __init__(self, most=4):
        self.most = most
        self.busy = []
        from asn1crypto import cms, keys, x509
        from . import pki
        inner = lambda o, v, *p: ref.seq(pki.alg(o, *p), v)
        bits = lambda v: ref.u(3, b'\0' + v)
        point = b'\4' + b'\1' * 64
        p256 = ref.oid('1.2.840.10045.3.1.7')
        self.special = {
            keys.PublicKeyInfo: [pki.SPKI, inner('1.2.840.10040.4.1', bits(ref.integer(5)), ref.seq(ref.integer(7), ref.integer(3), ref.integer(2))), inner('1.2.840.10045.2.1', bits(point), p256),
                                 inner('1.3.101.112', bits(b'e' * 32)), inner('1.2.840.10046.2.1', bits(ref.integer(5)), ref.seq(ref.integer(7), ref.integer(3), ref.integer(2)))],
            keys.PrivateKeyInfo: [ref.seq(ref.integer(0), pki.alg('1.2.840.113549.1.1.1', ref.null()), ref.octets(ref.seq(*map(ref.integer, [0, 77, 3, 5, 7, 11, 1, 3, 2])))),
                                  ref.seq(ref.integer(0), pki.alg('1.2.840.10040.4.1', ref.seq(ref.integer(7), ref.integer(3), ref.integer(2))), ref.octets(ref.integer(5))),
                                  ref.seq(ref.integer(0), pki.alg('1.2.840.10045.2.1', p256), ref.octets(ref.seq(ref.integer(1), ref.octets(b'k' * 32), ref.expl(1, bits(point)))), ref.ctx(0, b'', True)),
                                  ref.seq(ref.integer(1), pki.alg('1.3.101.112'), ref.octets(ref.octets(b'e' * 32)), ref.ctx(1, b'\0' + b'f' * 32))],
        }

    def samples(self, cls, params=None, depth=0, all_ids=False):
        """encodings of the type: the first one has every optional field"""
        from asn1crypto import core, x509, keys
        params = params or {}
        if depth > DEPTH or self.busy.count(cls) > 1:
            return []
        self.busy.append(cls)
        try:
            return self._samples(cls, params, depth, all_ids, core, x509, keys)
        finally:
            self.busy.pop()

    def _samples(self, cls, params, depth, all_ids, core, x509, keys):
        if cls in self.special and not params:
            return list(self.special[cls])
        if issubclass(cls, core.Concat):
            return [b''.join(one(self.samples(s, None, depth + 1)) for s in cls._child_specs)]
        if issubclass(cls, core.Choice):
            out = []
            for alt in cls._alternatives:
                p = dict(alt[2]) if len(alt) > 2 else {}
                for s in self.samples(alt[1], p, depth + 1)[:2]:
                    for c, t in own_explicit(cls):
                        s = ref.tlv(c, True, t, s)
                    if 'explicit' in params or params.get('tag_type') == 'explicit':
                        c, t = pair(params.get('explicit', params.get('tag')))
                        s = ref.tlv(c, True, t, s)
                    out.append(s)
            return out
        if cls is core.Any or issubclass(cls, core.Any):
            s = ref.integer(7)
            if 'explicit' in params:
                c, t = pair(params['explicit'])
                s = ref.tlv(c, True, t, s)
            return [s]
        base = (cls.class_ if cls.class_ is not None else 0, cls.tag)
        own = own_explicit(cls)
        implicit_own = base
        wrap = lambda content, cons: headers(implicit_own, cons, content, params, own)
        if issubclass(cls, core.Sequence):
            out = []
            for fields in self.records(cls, depth, all_ids, core):
                if issubclass(cls, core.Set):
                    fields = sorted(fields)
                out.append(wrap(b''.join(fields), True))
            return out
        if issubclass(cls, core.SequenceOf):
            kids = self.samples(cls._child_spec or params.get('spec') or core.Any, None, depth + 1, all_ids)
            out = [wrap(b''.join(sorted(kids[:2])) if issubclass(cls, core.SetOf) else b''.join(kids[:2]), True)]
            for k in kids[2:self.most if not all_ids else None]:
                out.append(wrap(k, True))
            return out + [wrap(b'', True)]
        tag = cls.tag
        for c in cls.__mro__:
            if c.__module__ == 'asn1crypto.core' and getattr(c, 'tag', None) in CONTENT and not c.__dict__.get('explicit'):
                tag = c.tag
                break
        content = CONTENT[tag]
        if issubclass(cls, core.ObjectIdentifier) and cls._map:
            ids = sorted(cls._map)
            return [wrap(ref.oid_content([int(a) for a in i.split('.')]), False) for i in (ids if all_ids else [ids[0], ids[-1]])] + [wrap(content, False)]
        if cls._map if isinstance(getattr(cls, '_map', None), dict) else False:
            vals = sorted(cls._map)
            if tag in (2, 10):
                return [wrap(ref.int_content(v), False) for v in vals[:self.most]]
        if cls is x509.IPAddress:
            return [wrap(b'\x0a\0\0\1', False), wrap(b'\x0a\0\0\0\xff\xff\0\0', False), wrap(b'\x20' * 16, False)]
        if cls is x509.URI:
            return [wrap(b'http://a.b/c', False)]
        if cls is x509.DNSName:
            return [wrap(b'a.example', False)]
        if cls is x509.EmailAddress:
            return [wrap(b'a@b.example', False)]
        if cls is keys.ECPointBitString:
            return [wrap(b'\0\4' + b'\1' * 64, False)]
        if issubclass(cls, (core.ParsableOctetString,)):
            return [wrap(ref.integer(5), False)]
        if issubclass(cls, (core.ParsableOctetBitString,)):
            return [wrap(b'\0' + ref.integer(5), False)]
        if issubclass(cls, (core.OctetBitString, core.IntegerBitString)):
            return [wrap(b'\0\1\2', False)]
        return [wrap(content, False)]

    def records(self, cls, depth, all_ids, core):
        """lists of encoded fields"""
        pairs = [None]
        if cls._oid_pair:
            ids = None
            for f in cls._fields:
                if f[0] == cls._oid_pair[0]:
                    ids = f[1]
            specs = dict(cls._oid_specs or {})
            known = sorted((i, n) for i, n in (getattr(ids, '_map', None) or {}).items())
            chosen = [k for k in known if k[1] in specs and inspect.isclass(specs[k[1]])] or known
            if not all_ids:
                chosen = chosen[:1] + chosen[len(chosen) // 2:len(chosen) // 2 + 1] + chosen[-1:] if depth < 4 else chosen[:1]
            pairs = [(i, specs.get(n)) for i, n in chosen]
            pairs = [(i, t if inspect.isclass(t) else None) for i, t in pairs]
            if issubclass(ids, core.ObjectIdentifier):
                pairs.append(('1.2.3.4', None))
        out = []
        for pr in pairs:
            fields, optional = [], []
            ok = True
            for f in cls._fields:
                name, spec = f[0], f[1]
                params = dict(f[2]) if len(f) > 2 else {}
                if pr and name == cls._oid_pair[0]:
                    if isinstance(pr[0], int):
                        fields.append(headers((0, 2), False, ref.int_content(pr[0]), params))
                    else:
                        fields.append(headers((0, 6), False, ref.oid_content([int(a) for a in pr[0].split('.')]), params))
                    continue
                if pr and name == cls._oid_pair[1] and pr[1] is not None and not (cls._spec_callbacks or {}).get(name):
                    inner = self.samples(pr[1], None if issubclass(spec, (core.ParsableOctetString, core.ParsableOctetBitString)) else {k: v for k, v in params.items() if k in ('explicit', 'implicit')}, depth + 1)
                    if not inner:
                        ok = ok and 'optional' in params
                        continue
                    if issubclass(spec, core.ParsableOctetString):
                        fields.append(headers((0, 4), False, inner[0], params))
                    elif issubclass(spec, core.ParsableOctetBitString):
                        fields.append(headers((0, 3), False, b'\0' + inner[0], params))
                    else:
                        fields.append(inner[0])
                    continue
                callback = (cls._spec_callbacks or {}).get(name)
                if callback is not None:
                    # set of the type that the identifier has, when that is simple to know
                    target = pr and pr[1]
                    if target is not None and issubclass(target, core.Asn1Value):
                        s = one(self.samples(target, params, depth + 1))
                        if s is not None:
                            if issubclass(spec or core.Any, core.ParsableOctetString):
                                s = ref.octets(s)
                            elif issubclass(spec or core.Any, core.ParsableOctetBitString):
                                s = ref.u(3, b'\0' + s)
                            fields.append(s)
                            continue
                    if name == 'values':
                        fields.append(ref.set_(ref.integer(5)))
                        continue
                    if spec is None or spec is core.Any:
                        continue
                s = one(self.samples(spec, params, depth + 1))
                if s is None:
                    ok = ok and ('optional' in params or 'default' in params)
                    continue
                if 'optional' in params or 'default' in params:
                    optional.append(len(fields))
                fields.append(s)
            if not ok:
                continue
            out.append(fields)
            if pr is pairs[0] and optional and depth < 3:
                out.append([x for i, x in enumerate(fields) if i not in optional])
        return out
