"""C28: the identifier decides the type of an open field, in every structure that has one, whatever happened before.

The tables of types come from the transcribed modules (mc/modules.py).  Every pair of identifiers of every container is played as a history
on the real objects: start with a value under one identifier, change to the other, set its value, in every way."""
import itertools

from ..common import main, Space, bootstrap, check, attempt

bootstrap()

from asn1crypto import core  # noqa
from .. import ref, modules as m  # noqa
from ..std import V, Seq, Of, Choice, Any, Open, Inside, Leaf, resolve, values, encode, record, base, pick_open, key_of, open_value, identifier, NULL, with_tags  # noqa
from .c33 import cls_of, verify, build, completed  # noqa

UNKNOWN_OID = '1.2.3.4'
CONTAINERS = {
    'x509.Extension': m.EXTENSION, 'x509.NameTypeAndValue': m.ATV, 'x509.PolicyQualifierInfo': m.QUALIFIER, 'x509.ExtensionAttribute': m.ORXATTR, 'x509.SubjectDirectoryAttribute': m.SDA.child,
    'crl.CRLEntryExtension': m.CRLENT, 'crl.TBSCertListExtension': m.CRLEXT, 'csr.CRIAttribute': m.CRIATTR, 'ocsp.TBSRequestExtension': m.TBSREQ_EXT, 'ocsp.SingleResponseExtension': m.SINGLE_EXT,
    'ocsp.ResponseDataExtension': m.RDATA_EXT, 'ocsp.ResponseBytes': m.RBYTES, 'ocsp.RequestExtension': m.REQUEST.fields[1].type.child, 'cms.ContentInfo': m.CONTENTINFO, 'cms.EncapsulatedContentInfo': m.ENCAP,
    'cms.CMSAttribute': m.CMSATTR, 'cms.AttCertAttribute': m.ACATTR, 'cms.OtherRevocationInfoFormat': m.OTHERREV, 'cms.KeyEncryptionAlgorithm': m.KEYENC, 'pkcs12.SafeBag': m.SAFEBAG, 'pkcs12.Attribute': m.P12ATTR,
    'pkcs12.CertBag': m.CERTBAG, 'algos.EncryptionAlgorithm': m.ENC, 'algos.KdfAlgorithm': m.KDF, 'algos.MaskGenAlgorithm': m.MGF, 'algos.PSourceAlgorithm': m.PSPEC, 'algos.KeyExchangeAlgorithm': m.KEYEX,
    'algos.Pkcs5MacAlgorithm': m.MACALG, 'algos.SignedDigestAlgorithm': m.SIGALG, 'algos.DigestAlgorithm': m.DIGEST, 'keys.PublicKeyAlgorithm': m.PUBALG, 'keys.PrivateKeyAlgorithm': m.PRIVALG, 'keys.FieldID': m.FIELDID,
    'keys.CharacteristicTwo': m.CHAR2,
}


def identifiers(t):
    f, o = pick_open(t, t.fields)
    return list(o.table) + ([UNKNOWN_OID] if o.unknown else [])


def inner_values(t, key, depth):
    """the values of the open field under an identifier"""
    f, o = pick_open(t, t.fields)
    ident = identifier(o, [x for x in t.fields if x.name == o.by][0].type, key)
    if key not in o.table:
        return [open_value(o, ident, None)]
    return [open_value(o, ident, v) for v in values(o.table[key], depth)]


def whole(t, key, value):
    f, o = pick_open(t, t.fields)
    ident = identifier(o, [x for x in t.fields if x.name == o.by][0].type, key)
    return record(t, [x for x in t.fields if x.mandatory], {o.by: ident, f.name: value})


def plain(v):
    """no alternatives inside: the native value says everything"""
    if v.kind == 'choice' or v.kind == 'any':
        return False
    if v.kind == 'seq':
        # a default that is an algorithm identifier has NULL parameters, and None is absent
        return all(plain(x) for x in v.a.values() if x is not None) and not any(callable(f.d) for f in v.type.fields)
    if v.kind == 'of':
        return all(plain(x) for x in v.a)
    return v.type.kind not in ('ip', 'raw', 'null') if v.kind == 'leaf' else plain(v.b) if isinstance(v.b, V) else True


STARTS = ('decoded', 'read', 'parsed', 'forced', 'copied', 'constructed', 'reconstructed')


def start(cls, v, how):
    der = encode(v)
    if how == 'constructed':
        return build(cls.load(der), v)
    obj = cls.load(der)
    if how == 'reconstructed':
        return cls(dict((f.name, obj[f.name]) for f in v.type.fields if v.a.get(f.name) is not None))
    if how == 'read':
        obj.native
    elif how == 'parsed':
        f, o = pick_open(v.type, v.type.fields)
        x = obj[f.name]
        if hasattr(x, 'parsed'):
            x.parsed
    elif how == 'forced':
        obj.dump(force=True)
    elif how == 'copied':
        obj = obj.copy()
    return obj


def gen(tier):
    depth = 1 if tier == 'quick' else 2
    for label, t in CONTAINERS.items():
        ids = identifiers(t)
        for a, b in itertools.product(ids, ids):
            for n in range(len(inner_values(t, b, depth)) if tier != 'quick' or a == ids[0] or b == ids[0] or a == b else 1):
                yield (label, a, b, depth, n)


def check_pair(case, rec):
    label, a, b, depth, n = case
    cls, t = cls_of(label), CONTAINERS[label]
    f, o = pick_open(t, t.fields)
    old = whole(t, a, inner_values(t, a, 0)[0])
    value = inner_values(t, b, depth)[n]
    new = completed(whole(t, b, value))
    der = encode(new)
    want = cls.load(der)
    verify(want, new, label)
    names = [want[o.by].native]
    if not isinstance(names[0], int) and isinstance(want[o.by], core.ObjectIdentifier):
        names.append(want[o.by].dotted)
    forms = ['object', 'decoded', 'copied']
    if plain(new.a[f.name]) or value.kind == 'in' and not isinstance(value.b, V):
        forms.append('native')
    for how in STARTS:
        for id_form in names:
            for form in forms:
                obj = start(cls, old, how)
                what = '%s %s under %s, set to %s (%s)' % (label, how, a, b, form)
                obj[o.by] = id_form
                if form == 'object':
                    x = build(want[f.name], new.a[f.name])
                elif form == 'decoded':
                    x = cls.load(der)[f.name]
                elif form == 'copied':
                    x = want[f.name].copy()
                else:
                    x = want[f.name].native
                obj[f.name] = x
                rec.op(2)
                for f_ in t.fields:
                    if f_ is not f and f_.name != o.by and (old.a[f_.name] is None) != (new.a[f_.name] is None):
                        raise AssertionError('the harness: other fields')
                check(obj.dump() == der, '%s is encoded as %s, not %s', what, obj.dump().hex(), der.hex())
                verify(obj, new, what)
                check(obj.native == want.native, '%s reads %r, not %r', what, obj.native, want.native)
                check(obj.dump(force=True) == der, '%s is encoded anew as %s, not %s', what, obj.dump(force=True).hex(), der.hex())
                # and back
                obj[o.by] = cls.load(encode(old))[o.by].native
                obj[f.name] = cls.load(encode(old))[f.name]
                back = completed(old)
                check(obj.dump() in (encode(old), encode(back)), '%s and back is encoded as %s, not %s', what, obj.dump().hex(), encode(old).hex())
                verify(obj, old, what + ' and back')
                rec.op(2)
    rec.state(label, a, b, n)
    rec.outcome(label)


# ------------------------------------------------------------------ containers of one's own
class Ident(core.ObjectIdentifier):
    _map = {'1.2.1': 'num', '1.2.2': 'text', '1.2.3': 'rec', '1.2.4': 'list', '1.2.5': 'alt', '1.2.6': 'set'}


class Number(core.Integer):
    _map = {1: 'num', 2: 'text', 3: 'rec', 4: 'list', 5: 'alt', 6: 'set'}


class Enum(core.Enumerated):
    _map = {1: 'num', 2: 'text', 3: 'rec', 4: 'list', 5: 'alt', 6: 'set', 9: 'other'}


class Rec_(core.Sequence):
    _fields = [('a', core.Integer), ('b', core.UTF8String, {'optional': True, 'implicit': 0})]


class List(core.SequenceOf):
    _child_spec = core.Boolean


class SetList(core.SetOf):
    _child_spec = core.Integer


class Alt(core.Choice):
    _alternatives = [('x', core.Integer), ('y', core.OctetString), ('z', Rec_, {'explicit': 3})]


SPECS = {'num': core.Integer, 'text': core.UTF8String, 'rec': Rec_, 'list': List, 'alt': Alt, 'set': SetList}
KEYS = ['num', 'text', 'rec', 'list', 'alt', 'set', None]
REC = ref.seq(ref.integer(7), ref.ctx(0, b'hi'))
INNER = {'num': [(ref.integer(300), lambda: 300)], 'text': [(ref.u(12, b'text'), lambda: 'text'), (ref.u(12, b''), lambda: '')], 'rec': [(REC, lambda: {'a': 7, 'b': 'hi'}), (ref.seq(ref.integer(-1)), lambda: {'a': -1})],
         'list': [(ref.seq(ref.boolean(True), ref.boolean(False)), lambda: [True, False]), (ref.seq(), lambda: [])],
         'alt': [(ref.integer(5), lambda: Alt(name='x', value=5)), (ref.octets(b'q'), lambda: Alt(name='y', value=b'q')), (ref.expl(3, REC), lambda: Alt(name='z', value={'a': 7, 'b': 'hi'}))],
         'set': [(ref.set_(ref.integer(1), ref.integer(2)), lambda: [1, 2])]}
RAW = ref.seq(ref.octets(b'raw'), ref.null())
FIELDS = {'any': core.Any, 'octets': core.ParsableOctetString, 'bits': core.ParsableOctetBitString}
VIA = ('table', 'callback', 'tuple')
MEMO = {}


def own(kind, via, ident, tag, optional, set_):
    key = (kind, via, ident, tag, optional, set_)
    if key not in MEMO:
        idc = {'oid': Ident, 'int': Number, 'enum': Enum}[ident]
        params = {}
        if tag:
            params[tag] = 0
        if optional:
            params['optional'] = True
        field = FIELDS[kind]
        ns = {'_fields': [('id', idc), ('value', field, params), ('last', core.Null, {'optional': True, 'implicit': 9})]}
        if via == 'table':
            ns.update(_oid_pair=('id', 'value'), _oid_specs=SPECS)
        elif via == 'callback':
            ns['_spec_callbacks'] = {'value': lambda self: SPECS.get(self['id'].native)}
        else:
            ns['_spec_callbacks'] = {'value': lambda self: (field, SPECS.get(self['id'].native))}
        MEMO[key] = type('Own', (core.Set if set_ else core.Sequence,), ns)
    return MEMO[key]


def own_der(kind, ident, tag, set_, k, inner, last):
    i = ref.oid('1.2.%d' % (KEYS.index(k) + 1 if k else 77)) if ident == 'oid' else ref.u(2 if ident == 'int' else 10, ref.int_content(KEYS.index(k) + 1 if k else 9))
    if inner is None:
        parts = [i]
    else:
        v = inner if kind == 'any' else ref.octets(inner) if kind == 'octets' else ref.u(3, b'\0' + inner)
        if tag == 'implicit':
            (c, cons, t, h, body, trl), _ = ref.parse_one(v)
            v = ref.tlv(2, cons, 0, body)
        elif tag == 'explicit':
            v = ref.expl(0, v)
        parts = [i, v]
    if last:
        parts.append(ref.ctx(9, b''))
    if set_:
        parts.sort(key=lambda p: (p[0] & 0xc0, p[0] & 0x1f))
    return ref.u(17 if set_ else 16, b''.join(parts), True)


def gen_own(tier):
    for kind in FIELDS:
        for via in VIA:
            for ident in ('oid', 'int', 'enum'):
                for tag in (None, 'implicit', 'explicit'):
                    if kind == 'any' and tag == 'implicit':
                        continue
                    for optional in (False, True):
                        for set_ in (False, True):
                            if set_ and kind == 'any' and tag is None:
                                continue
                            for a in KEYS:
                                for b in KEYS:
                                    if tier == 'quick' and (ident == 'enum' or 'rec' not in (a, b) and a != b):
                                        continue
                                    yield (kind, via, ident, tag, optional, set_, a, b)


def look(x, k, inner, make, kind, what):
    """the open value reads as its type"""
    if k is None:
        if kind == 'any':
            check(x.untag().dump() == inner, '%s: the value is %s', what, x.dump().hex())
        else:
            check(bytes(x) == inner and x.native == inner, '%s: the value is %s', what, x.native)
        return
    if kind == 'any':
        got = x.parsed if isinstance(x, core.Any) else x
    else:
        got = x.parsed
        check(bytes(x) == inner, '%s: the octets are %s', what, bytes(x).hex())
    check(isinstance(got, SPECS[k]), '%s: the value is a %s', what, type(got).__name__)
    want = SPECS[k].load(inner)
    check(got.native == want.native, '%s: the value is %r', what, got.native)
    check(x.native == want.native, '%s: the value is %r', what, x.native)


def check_own(case, rec):
    kind, via, ident, tag, optional, set_, a, b = case
    cls = own(kind, via, ident, tag, optional, set_)
    name = {'oid': '1.2.77', 'int': 9, 'enum': 'other'}[ident]
    olds = INNER[a][:1] if a else [(RAW, None)]
    news = INNER[b] if b else [(RAW, None)]
    if optional:
        olds = olds + [(None, None)]
        news = news + [(None, None)]
    for old, make_old in olds:
        for last in (False, True) if kind != 'any' or tag or not optional else (False,):
            der0 = own_der(kind, ident, tag, set_, a, old, last)
            for how in ('decoded', 'read', 'parsed', 'forced', 'copied', 'reconstructed'):
                for new, make in news:
                    der1 = own_der(kind, ident, tag, set_, b, new, last)
                    forms = ['native', 'typed', 'decoded', 'copied'] if new is not None and b else ['decoded', 'copied'] if new is not None else ['none', 'deleted']
                    for form in forms:
                        obj = cls.load(der0)
                        what = '%s under %r, set to %s under %r (%s)' % (how, a, new and new.hex(), b, form)
                        if how == 'read':
                            obj.native
                        elif how == 'parsed':
                            if old is not None:
                                look(obj['value'], a, old, make_old, kind, what)
                        elif how == 'forced':
                            obj.dump(force=True)
                        elif how == 'copied':
                            obj = obj.copy()
                        elif how == 'reconstructed':
                            src, obj = obj, cls()
                            for f in ('id', 'value', 'last'):
                                if f == 'id' or f == 'last' and last or f == 'value' and old is not None:
                                    obj[f] = src[f]
                        obj['id'] = b if b else name
                        if form == 'native':
                            obj['value'] = make()
                        elif form == 'typed':
                            obj['value'] = SPECS[b](make()) if b != 'alt' else make()
                        elif form == 'decoded':
                            obj['value'] = cls.load(der1)['value']
                        elif form == 'copied':
                            obj['value'] = cls.load(der1)['value'].copy()
                        elif form == 'none':
                            obj['value'] = None
                        else:
                            del obj['value']
                        rec.op(3)
                        check(obj.dump() == der1, '%s is encoded as %s, not %s', what, obj.dump().hex(), der1.hex())
                        again = cls.load(der1)
                        for o in (obj, again, obj.copy()):
                            if new is not None:
                                look(o['value'], b, new, make, kind, what)
                            check(o.native == again.native, '%s reads %r', what, o.native)
                            check(o.dump(force=True) == der1, '%s is encoded anew as %s, not %s', what, o.dump(force=True).hex(), der1.hex())
                        rec.state(der1)
    rec.outcome(kind)


SPACES = [
    Space('pairs', gen, check_pair, 'every container of the standards (34) x every ordered pair of identifiers of its table and an unknown one x 7 ways to have the first value (decoded, read, parsed, encoded anew, copied, constructed, put together) x identifier by name and by dotted number x the new value as an object, decoded, copied, native; and back'),
    Space('own containers', gen_own, check_own, 'user-defined containers: Any, ParsableOctetString and ParsableOctetBitString x table, callback, callback with two types x OID, INTEGER and ENUMERATED identifiers x untagged, implicit, explicit x optional or not x SEQUENCE or SET x every ordered pair of identifiers x absent and present values x 6 starts x 4 forms'),
]


def run(argv):
    return main('C28', SPACES, ['oracle: the tables of types of the transcribed ASN.1 modules (mc/modules.py)'], argv)
