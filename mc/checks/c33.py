"""C33: the structures of the library are those of the standards.

The ASN.1 modules of the RFCs are transcribed by hand in mc/modules.py (field names, tags, optionality, defaults, CHOICE alternatives, the
types behind ANY DEFINED BY).  Every value of every type up to a depth is encoded by the model (presence subsets of the optional fields,
every alternative, every row of every table of open types, every sample of every leaf) and run through the real classes."""
import functools

from ..common import main, Space, bootstrap, check, attempt

bootstrap()

from asn1crypto import core, algos, keys, x509, crl, csr, ocsp, cms, tsp, pkcs12, pdf, pem  # noqa
from .. import ref, modules  # noqa
from ..std import V, Seq, Of, Choice, Any, Open, Inside, Leaf, resolve, values, encode, value_of, record, base, pick_open, key_of, open_value, NULL, mutations, encode_mutated, decode, Bad, Unsure  # noqa

MODULES = {m.__name__.split('.')[-1]: m for m in (core, algos, keys, x509, crl, csr, ocsp, cms, tsp, pkcs12, pdf)}
TYPES = {label: (cls, t) for label, cls, t in modules.ALL}
BY_CONTENTS = ('raw', 'named', 'named oid', 'named bits', 'ip')


def cls_of(name):
    m, c = name.split('.')
    return getattr(MODULES[m], c)


def contents_of(obj):
    """the contents octets of a primitive, whatever tagging"""
    return bytes(obj.contents)


def verify(obj, v, path):
    t = v.type
    if v.kind == 'leaf':
        check(contents_of(obj) == v.a, '%s has the contents %s, not %s', path, contents_of(obj).hex(), v.a.hex())
        got = obj.native
        if t.kind not in BY_CONTENTS:
            check(type(got) is type(v.b) or isinstance(got, int) and not isinstance(v.b, bool), '%s is a %s, not a %s', path, type(got).__name__, type(v.b).__name__)
            check(got == v.b, '%s has the value %r, not %r', path, got, v.b)
        elif t.tag != 5:
            check(got is not None, '%s has no value', path)
        return
    if v.kind == 'seq':
        check(isinstance(obj, (core.Sequence, core.Set)), '%s is a %s', path, type(obj).__name__)
        names = [f.name for f in t.fields]
        for f in t.fields:
            x = v.a.get(f.name)
            where = '%s.%s' % (path, f.name)
            sub = obj[f.name]
            if x is None and f.d is not None:
                x = value_of(f.type, f.d)
            if x is None:
                check(sub.native is None and isinstance(sub, core.Void), '%s is absent but reads %r', where, sub)
            else:
                verify(sub, x, where)
        got = obj.native
        check(list(got.keys())[:len(names)] == names, '%s has the fields %r, not %r', path, list(got.keys()), names)
        return
    if v.kind == 'of':
        check(isinstance(obj, (core.SequenceOf, core.SetOf)), '%s is a %s', path, type(obj).__name__)
        want = v.a
        if t.tag == 17:
            want = sorted(v.a, key=encode)
        check(len(obj) == len(want), '%s has %d elements, not %d', path, len(obj), len(want))
        for n, x in enumerate(want):
            verify(obj[n], x, '%s[%d]' % (path, n))
        check(len(obj.native) == len(want), '%s has %d native elements', path, len(obj.native))
        return
    if v.kind == 'choice':
        check(isinstance(obj, core.Choice), '%s is a %s', path, type(obj).__name__)
        check(obj.name == v.a, '%s is the alternative %r, not %r', path, obj.name, v.a)
        verify(obj.chosen, v.b, '%s:%s' % (path, v.a))
        return
    if v.kind == 'any':
        got = obj.parsed if isinstance(obj, core.Any) else obj
        check(got.untag().dump() == v.a, '%s is %s, not %s', path, got.dump().hex(), v.a.hex())
        return
    # 'in': a value inside octets, bits or of a type decided elsewhere
    inner = v.b
    raw = inner if isinstance(inner, bytes) else encode(inner)
    if v.a == 'any':
        if isinstance(inner, V) and inner.kind != 'any':
            got = obj.parsed if isinstance(obj, core.Any) else obj
            check(got.untag().dump() == raw, '%s is %s, not %s', path, got.dump().hex(), raw.hex())
            verify(got, inner, path)
        else:
            check(obj.dump()[-len(raw):] == raw, '%s is %s, not %s', path, obj.dump().hex(), raw.hex())
        return
    if isinstance(inner, V) and inner.kind != 'any':
        verify(obj.parsed, inner, path + '()')
        check(bytes(obj) == raw, '%s holds %s, not %s', path, bytes(obj).hex(), raw.hex())
    else:
        check(bytes(obj) == raw, '%s holds %s, not %s', path, bytes(obj).hex(), raw.hex())
        got = obj.native
        check(got == raw, '%s, of an unknown type, reads %r', path, got)


def gen(tier, quick=4, thorough=6):
    depth = quick if tier == 'quick' else thorough
    for label, cls, t in modules.ALL:
        for n in range(len(values(t, depth))):
            yield (label, depth, n)


def check_value(case, rec):
    label, depth, n = case
    cls, t = TYPES[label]
    v = values(t, depth)[n]
    der = encode(v)
    cls = cls_of(cls)
    for strict in (True, False):
        obj = cls.load(der, strict=strict)
        verify(obj, v, label)
        whole = obj.native
        check(obj.dump() == der, '%r was decoded and is encoded as %s, not %s', v, obj.dump().hex(), der.hex())
    again = cls.load(der)
    whole2 = again.native
    check(whole == whole2, '%r reads %r or %r', v, whole, whole2)
    check(obj.dump(force=True) == der, '%r is encoded anew as %s, not %s', v, obj.dump(force=True).hex(), der.hex())
    verify(obj, v, label + ' after a forced dump')
    fresh = cls.load(der)
    check(fresh.dump(force=True) == der, '%r, not read before, is encoded anew as %s, not %s', v, fresh.dump(force=True).hex(), der.hex())
    copied = cls.load(der).copy()
    verify(copied, v, label + ' copied')
    check(copied.dump() == der, 'a copy of %r is encoded as %s, not %s', v, copied.dump().hex(), der.hex())
    rec.op(8)
    rec.outcome(label)
    rec.state(der)


# ------------------------------------------------------------------ made from native values
def completed(v):
    """a value with the NULL parameters that the library adds to an algorithm identifier that is made anew"""
    if v.kind == 'seq':
        new = dict((k, completed(x) if x is not None else None) for k, x in v.a.items())
        opened = pick_open(v.type, v.type.fields)
        if opened and opened[0].name == 'parameters' and new[opened[0].name] is None and resolve(opened[1].table.get(key_of(new[opened[1].by]))) is NULL:
            new[opened[0].name] = open_value(opened[1], new[opened[1].by], None)
        for f in v.type.fields:
            if f.name == 'parameters' and resolve(f.type) is NULL and new[f.name] is None:
                new[f.name] = base(NULL)
        return V(v.type, 'seq', new)
    if v.kind == 'of':
        return V(v.type, 'of', [completed(x) for x in v.a])
    if v.kind in ('choice', 'in') and isinstance(v.b, V):
        return V(v.type, v.kind, v.a, completed(v.b))
    return v


def build(obj, v):
    """an object equal to the decoded obj, made from the native values of its leaves, its names of alternatives and of fields"""
    if v.kind == 'leaf':
        if v.type.kind == 'raw':
            return obj.copy()
        return type(obj)(obj.native)
    if v.kind == 'seq':
        return type(obj)(dict((f.name, build(obj[f.name], v.a[f.name])) for f in v.type.fields if v.a.get(f.name) is not None))
    if v.kind == 'of':
        order = v.a if v.type.tag == 16 else sorted(v.a, key=encode)
        return type(obj)([build(obj[n], x) for n, x in enumerate(order)], spec=obj._child_spec)
    if v.kind == 'choice':
        return type(obj)(name=v.a, value=build(obj.chosen, v.b))
    if v.kind == 'any':
        return core.Any(core.load(v.a))
    inner = v.b
    if isinstance(inner, V) and inner.kind != 'any':
        return build(obj.parsed if v.a != 'any' or isinstance(obj, core.Any) else obj, inner)
    raw = inner if isinstance(inner, bytes) else encode(inner)
    if v.a != 'any':
        return raw
    return core.Any(core.load(raw)) if isinstance(obj, core.Any) else obj.copy()


def check_built(case, rec):
    label, depth, n = case
    cls, t = TYPES[label]
    v = completed(values(t, depth)[n])
    der = encode(v)
    obj = build(cls_of(cls).load(der), v)
    verify(obj, v, label + ' constructed')
    check(obj.dump() == der, '%r is constructed as %s, not %s', v, obj.dump().hex(), der.hex())
    whole = cls_of(cls).load(der).native
    check(obj.native == whole, '%r is constructed as %r, not %r', v, obj.native, whole)
    # one field at a time
    if v.kind == 'seq':
        src = cls_of(cls).load(der)
        for order in (1, -1):
            fields = [f for f in v.type.fields if v.a.get(f.name) is not None]
            obj = cls_of(cls)() if fields else cls_of(cls)({})
            opened = [f for f in v.type.fields if isinstance(resolve(f.type), Open)]
            for f in sorted(fields[::order], key=lambda f: (f.name not in ('version', 'algorithm', 'private_key_algorithm'), f in opened)):
                obj[f.name] = build(src[f.name], v.a[f.name])
            check(obj.dump() == der, '%r, made one field at a time, is %s, not %s', v, obj.dump().hex(), der.hex())
            verify(obj, v, label + ' made one field at a time')
    rec.op(4)
    rec.outcome(label)
    rec.state(der)


# ------------------------------------------------------------------ octets that are not values
def gen_mutants(tier):
    return gen(tier, 2, 3)


def check_mutants(case, rec):
    label, depth, n = case
    cls, t = TYPES[label]
    v = values(t, depth)[n]
    for x, i, how in mutations(v):
        der = encode_mutated(v, x, i, how)
        try:
            want = decode(t, der)
        except Bad as e:
            want = e
        except Unsure as e:
            want = e
        except ref.Bad as e:
            want = Unsure(str(e))
        rec.op()

        def run():
            obj = cls_of(cls).load(der)
            return obj, obj.native
        how_, got = attempt(run)
        what = '%s with part %d of %r %s' % (der.hex(), i, x, {'drop': 'left out', 'swap': 'exchanged with the next', 'double': 'doubled', 'retag': 'tagged [30]', 'constructed': 'with the other method'}[how])
        if how_ == 'err':
            check(isinstance(got, ValueError), '%s raises %r', what, got)
            check(isinstance(want, (Bad, Unsure)), 'raises %r but it is %r: %s', got, want, what)
            rec.outcome('rejected')
        else:
            check(not isinstance(want, Bad), 'no value of the type (%s) but read: %s; %r', want, what, got[1] if how_ != 'err' else None)
            if isinstance(want, V):
                verify(got[0], want, label + ' ' + what)
            rec.outcome('accepted' if isinstance(want, V) else 'not claimed')


# ------------------------------------------------------------------ the authenticated safe of a PKCS 12 file
def gen_safes(tier):
    bags = len(values(modules.SEQOF_BAG, 2 if tier == 'quick' else 4))
    for version in ('data', 1, 3, 4):
        for n in range(bags):
            for many in ((1,) if n else (0, 1, 2)):
                yield (version, 2 if tier == 'quick' else 4, n, many)


def check_safe(case, rec):
    version, depth, n, many = case
    t = modules.SEQOF_BAG
    v = values(t, depth)[n]
    data = ref.oid('1.2.840.113549.1.7.1')
    contents = [encode(v)] * many
    safe = ref.seq(*[ref.seq(data, ref.expl(0, ref.octets(c))) for c in contents])
    if version == 'data':
        auth = ref.seq(data, ref.expl(0, ref.octets(safe)))
    else:
        auth = ref.seq(ref.oid('1.2.840.113549.1.7.2'), ref.expl(0, ref.seq(ref.integer(version), ref.set_(), ref.seq(data, ref.expl(0, ref.octets(safe))), ref.set_())))
    der = ref.seq(ref.integer(3), auth)
    pfx = pkcs12.Pfx.load(der)
    for again in range(2):
        got = pfx.authenticated_safe
        check(isinstance(got, pkcs12.AuthenticatedSafe) and got.dump() == safe, 'the authenticated safe is %r', got)
        check(len(got) == many, 'the authenticated safe has %d parts', len(got))
        for x in got:
            check(bytes(x['content']) == contents[0], 'a part holds %s', bytes(x['content']).hex())
            verify(pkcs12.SafeContents.load(bytes(x['content'])), v, 'safe contents')
    check(pfx.dump() == der, 'the file is encoded as %s', pfx.dump().hex())
    check(pfx.native['version'] == 'v3', 'the version is %r', pfx.native['version'])
    rec.op(3)
    rec.outcome(str(version))


SPACES = [
    Space('values', gen, check_value, 'every value of every type (119 types, 25 modules) up to a depth: every subset of up to five optional fields (and one or two present or absent of more), every alternative, every row of every table of open types, every sample of every leaf; decoded strictly and not, read in full, encoded, encoded anew, copied'),
    Space('constructed', gen, check_built, 'the same values made from the native values of their leaves, all at once and one field at a time, in both orders'),
    Space('mutants', gen_mutants, check_mutants, 'every value up to a smaller depth x every part of every record and list in it x left out, doubled, exchanged with the next, tagged otherwise, with the other method: accepted or rejected as the model decoder says, with the value it says'),
    Space('authenticated safes', gen_safes, check_safe, 'PKCS 12 files with data, PKCS 7 signed data and CMS signed data x 0, 1, 2 parts x every value of SafeContents up to a depth'),
]


def run(argv):
    return main('C33', SPACES, ['oracle: the ASN.1 modules of the RFCs, transcribed by hand (mc/modules.py), encoded by the reference encoder'], argv)
