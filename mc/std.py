"""The ASN.1 modules of the standards, transcribed by hand from the RFCs (not from the code under test), as data: the names of the fields
are those of the RFCs in lower case with underscores.  Values of each type are enumerated as trees, with their DER encoding.

Leaves are compared by their contents and, where the Python value is simple, by native value.  Named numbers and bits are not named
here (the tables of names are another check)."""
import datetime
import itertools
from . import ref

UTC = datetime.timezone.utc


class T(object):
    tag = None
    cons = False

    def __init__(self, name=None):
        self.name = name


class Leaf(T):
    def __init__(self, tag, samples, kind):
        self.tag, self.samples, self.kind = tag, samples, kind


class Seq(T):
    cons = True

    def __init__(self, fields, set_=False):
        self.fields = fields
        self.tag = 17 if set_ else 16


class Of(T):
    cons = True

    def __init__(self, child, set_=False, least=0):
        self.child, self.least = child, least
        self.tag = 17 if set_ else 16


class Choice(T):
    def __init__(self, alts, outer=None):
        self.alts = alts             # F without optionality
        self.outer = outer           # explicit (class, number) of the type itself


class Any(T):
    """a value of any type"""


class Open(T):
    """the type is decided by a field before; how: 'any', 'octets' (an OCTET STRING that contains it) or 'bits'"""

    def __init__(self, by, table, how='any', unknown=True):
        self.by, self.table, self.how, self.unknown = by, table, how, unknown


class Inside(T):
    """an OCTET STRING or BIT STRING ('octets', 'bits') that contains a value"""

    def __init__(self, inner, how):
        self.inner, self.how = inner, how


class Lazy(T):
    def __init__(self, f):
        self.f = f


class F(object):
    """a field: optional=True, default=the value, explicit or implicit tag"""

    def __init__(self, name, type, o=False, i=None, e=None, d=None):
        self.name, self.type, self.o, self.i, self.e, self.d = name, type, o, i, e, d

    @property
    def mandatory(self):
        return not self.o and self.d is None


def resolve(t):
    while isinstance(t, Lazy):
        t = t.f()
    return t


class V(object):
    """a value: kind 'leaf' (content, native), 'seq' (dict), 'of' (list), 'choice' (alt, value), 'any' (octets), 'in' (how, value)"""
    __slots__ = ('type', 'kind', 'a', 'b')

    def __init__(self, type, kind, a, b=None):
        self.type, self.kind, self.a, self.b = type, kind, a, b

    def __repr__(self):
        if self.kind == 'leaf':
            return self.a.hex()
        if self.kind == 'seq':
            return '{%s}' % ', '.join('%s: %r' % (k, v) for k, v in self.a.items() if v is not None)
        if self.kind == 'of':
            return repr(self.a)
        if self.kind == 'choice':
            return '%s: %r' % (self.a, self.b)
        if self.kind == 'in':
            return '%s(%r)' % (self.a, self.b)
        return self.a.hex()


def retag(der, n):
    (c, cons, t, h, content, trl), _ = ref.parse_one(der)
    return ref.tlv(2, cons, n, content)


def with_tags(der, f):
    if f.i is not None:
        der = retag(der, f.i)
    if f.e is not None:
        der = ref.expl(f.e, der)
    return der


def encode(v):
    t = v.type
    if v.kind == 'leaf':
        return ref.u(t.tag, v.a)
    if v.kind == 'any':
        return v.a
    if v.kind == 'in':
        d = encode(v.b) if isinstance(v.b, V) else v.b
        return ref.octets(d) if v.a == 'octets' else ref.u(3, b'\0' + d) if v.a == 'bits' else d
    if v.kind == 'choice':
        f = [x for x in t.alts if x.name == v.a][0]
        d = with_tags(encode(v.b), f)
        if t.outer:
            d = ref.tlv(t.outer[0], True, t.outer[1], d)
        return d
    if v.kind == 'of':
        parts = [encode(x) for x in v.a]
        return ref.u(t.tag, b''.join(sorted(parts, key=lambda p: p) if t.tag == 17 else parts), True)
    parts = []
    for f in t.fields:
        x = v.a.get(f.name)
        if x is None or (f.d is not None and encode(x) == encode(value_of(f.type, f.d))):
            continue
        parts.append(with_tags(encode(x), f))
    if t.tag == 17:
        parts.sort(key=lambda p: (p[0] & 0xc0, ref.parse_one(p)[0][2]))
    return ref.u(t.tag, b''.join(parts), True)


def value_of(t, d):
    """the value a default stands for: a V, or the contents of a leaf"""
    return d if isinstance(d, V) else d() if callable(d) else leaf(resolve(t), d)


def leaf(t, content):
    return V(t, 'leaf', content, NATIVE[t.kind](content))


# ------------------------------------------------------------------ leaves
def _bits(c):
    n = 8 * (len(c) - 1) - c[0]
    return tuple(int(b) for b in ''.join('{:08b}'.format(x) for x in c[1:])[:n])


def _oid(c):
    return '.'.join(map(str, ref.oid_arcs(c)))


def _time(c):
    s = c.decode('ascii')
    if len(s) == 13:
        s = ('19' if s[:2] >= '50' else '20') + s
    return datetime.datetime.strptime(s, '%Y%m%d%H%M%SZ').replace(tzinfo=UTC)


NATIVE = {
    'int': ref.int_value, 'named': lambda c: None, 'octets': lambda c: c, 'bool': lambda c: c == b'\xff', 'null': lambda c: None, 'oid': _oid, 'named oid': lambda c: None,
    'bits': _bits, 'octetbits': lambda c: c[1:], 'named bits': lambda c: None, 'utf8': lambda c: c.decode('utf-8'), 'latin': lambda c: c.decode('ascii'), 'bmp': lambda c: c.decode('utf-16-be'),
    'ucs4': lambda c: c.decode('utf-32-be'), 'time': _time, 'ip': lambda c: None, 'raw': lambda c: None,
}


def L(tag, kind, *samples):
    return Leaf(tag, samples, kind)


INT = L(2, 'int', b'\x05', b'\x00', b'\x7f', b'\x00\x80', b'\xff', b'\x01' + b'\0' * 8)
POS = L(2, 'int', b'\x05', b'\x7f', b'\x00\x80', b'\x01' + b'\0' * 8)
BIG = L(2, 'int', b'\x05', b'\x00\xff' + b'\x11' * 31)


def NUM_(*values):
    """an INTEGER with names: only its contents are compared"""
    return L(2, 'named', *[ref.int_content(v) for v in values])


def ENUM(*values):
    return L(10, 'named', *[ref.int_content(v) for v in values])


def OIDS(*ids):
    return L(6, 'named oid', *[ref.oid_content([int(a) for a in i.split('.')]) for i in ids])


OID = L(6, 'oid', b'\x2a\x03\x04', b'\x55\x04\x03', b'\x2b\x06\x01\x04\x01\x82\x37\x15\x14')
OCT = L(4, 'octets', b'abcd', b'', b'\x30\x03\x02\x01\x05', b'\xff' * 130)
BOOL = L(1, 'bool', b'\xff', b'\x00')
NULL = L(5, 'null', b'')
BITS = L(3, 'bits', b'\x05\xa0', b'\x00', b'\x00\x01\x80')
OBITS = L(3, 'octetbits', b'\0\1\2', b'\0', b'\0' + b'\xff' * 128)
UTF8 = L(12, 'utf8', b'text', b'', 'é漢𝄞'.encode('utf-8'))
PRT = L(19, 'latin', b'Abc 12', b'', b"x'()+,-./:=?")
IA5 = L(22, 'latin', b'abc', b'', b'a@b_~')
NUMS = L(18, 'latin', b'12 3', b'0')
TTX = L(20, 'latin', b'abc', b'')
VIS = L(26, 'latin', b'abc', b'~ ')
GENS = L(27, 'latin', b'V8.0', b'')
BMP = L(30, 'bmp', b'\0a\0b', b'', b'\x6f\x22')
UNI = L(28, 'ucs4', b'\0\0\0a', b'\0\1\xd1\x1e')
UTCT = L(23, 'time', b'200229235959Z', b'500101000000Z', b'491231235959Z')
GENT = L(24, 'time', b'20200229235959Z', b'19500101000000Z', b'20500101000000Z', b'99991231235959Z')
ANY = Any()
IPADDR = L(4, 'ip', b'\x0a\0\0\1', b'\x0a\0\0\0\xff\0\0\0', b'\x20' + b'\0' * 14 + b'\1', b'\x20' + b'\0' * 15 + b'\xff' * 16)
EMAIL = L(22, 'latin', b'a@b.example', b'x.y@example.com')
DNS = L(22, 'latin', b'a.example', b'*.example.com', b'.example.com')
URI = L(22, 'latin', b'http://a.example/b', b'ldap://h/cn=x?y')


def SEQ(*f):
    return Seq(f)


def SET(*f):
    return Seq(f, True)


def SEQOF(t, least=0):
    return Of(t, False, least)


def SETOF(t, least=0):
    return Of(t, True, least)


def CHOICE(*f, **k):
    return Choice(f, **k)


# ------------------------------------------------------------------ enumeration of values
def base(t, depth=0):
    t = resolve(t)
    if isinstance(t, Leaf):
        return leaf(t, t.samples[0])
    if isinstance(t, Any):
        return V(t, 'any', ref.octets(b'any'))
    if isinstance(t, Inside):
        return V(t, 'in', t.how, base(t.inner))
    if isinstance(t, Of):
        return V(t, 'of', [base(t.child, depth + 1)])
    if isinstance(t, Choice):
        return V(t, 'choice', t.alts[0].name, base(t.alts[0].type, depth + 1))
    return record(t, [f for f in t.fields if f.mandatory], {})


def pick_open(t, fields):
    """the open field of a record, or None"""
    for f in t.fields:
        x = resolve(f.type)
        if isinstance(x, Open):
            return f, x
    return None


def record(t, present, given, choice=None):
    """a value with these fields (base values, unless given); choice: which entry of the table of the open field"""
    out = {}
    opened = pick_open(t, t.fields)
    for f in t.fields:
        out[f.name] = None
        if f not in present and f.name not in given:
            continue
        if f.name in given:
            out[f.name] = given[f.name]
        elif opened and f is opened[0]:
            ident = out[opened[1].by]
            out[f.name] = open_value(opened[1], ident, None)
        elif opened and f.name == opened[1].by:
            out[f.name] = identifier(opened[1], f.type, simplest(opened[1]))
        elif f.d is not None:
            out[f.name] = other_than_default(f)
        else:
            out[f.name] = base(f.type)
    return V(t, 'seq', out)


def other_than_default(f):
    d = encode(value_of(f.type, f.d))
    for v in values(f.type, 1):
        if encode(v) != d:
            return v
    return values(f.type, 1)[0]


SIMPLE = {}


def simplest(o):
    """the identifier whose type is the least one"""
    for k in o.table:
        x = resolve(o.table[k])
        if isinstance(x, Leaf):
            return k
    for k in o.table:
        x = resolve(o.table[k])
        if isinstance(x, Of) and isinstance(resolve(x.child), Leaf):
            return k
    return list(o.table)[0] if not o.unknown else '1.2.3.4'


def identifier(o, t, key):
    t = resolve(t)
    if t.tag == 2:
        return leaf(t, ref.int_content(key))
    return leaf(t, ref.oid_content([int(a) for a in key.split('.')]))


def key_of(ident):
    return ref.int_value(ident.a) if ident.type.tag == 2 else _oid(ident.a)


UNKNOWN = ref.seq(ref.integer(7), ref.octets(b'x'))


def open_value(o, ident, inner):
    """the value of the open field under an identifier, with the inner value given or the base one"""
    key = key_of(ident)
    if key not in o.table:
        raw = UNKNOWN if getattr(o, 'wrap', None) is None else ref.set_(UNKNOWN)
        return V(o, 'in', o.how, raw if o.how != 'any' else V(ANY, 'any', raw))
    return V(o, 'in', o.how, inner if inner is not None else base(o.table[key]))


MEMO = {}


def values(t, depth):
    """the values of the type, the base value first"""
    t = resolve(t)
    key = (id(t), depth)
    if key not in MEMO:
        MEMO[key] = (t, list(_values(t, depth)))
    return MEMO[key][1]


def dedupe(vs):
    seen = set()
    for v in vs:
        e = encode(v)
        if e not in seen:
            seen.add(e)
            yield v


def _values(t, depth):
    if isinstance(t, Leaf):
        return [leaf(t, c) for c in (t.samples if depth > 0 else t.samples[:1])]
    if isinstance(t, Any):
        return [V(t, 'any', x) for x in (ref.octets(b'any'), ref.null(), UNKNOWN, ref.integer(-1), ref.set_(ref.integer(1)), ref.u(3, b'\5\xa0'))]
    if depth <= 0:
        return [base(t)]
    if isinstance(t, Inside):
        return [V(t, 'in', t.how, v) for v in values(t.inner, depth - 1)]
    if isinstance(t, Of):
        return list(dedupe(_of(t, depth)))
    if isinstance(t, Choice):
        return [V(t, 'choice', f.name, v) for f in t.alts for v in values(f.type, depth - (0 if len(t.alts) == 1 else 1) if isinstance(resolve(f.type), (Seq, Of, Choice)) else depth)]
    return list(dedupe(_seq(t, depth)))


def _of(t, depth):
    kids = values(t.child, depth - 1)
    yield V(t, 'of', [kids[0]])
    if not t.least:
        yield V(t, 'of', [])
    for k in kids[1:]:
        yield V(t, 'of', [k])
    for a, b in zip(kids, kids[1:] + kids[:1]):
        yield V(t, 'of', [a, b])
    yield V(t, 'of', list(kids[:3]))
    if t.tag == 17:
        yield V(t, 'of', list(kids[:3])[::-1])


def _seq(t, depth):
    need = [f for f in t.fields if f.mandatory]
    opt = [f for f in t.fields if not f.mandatory]
    opened = pick_open(t, t.fields)
    names = set()
    if opened:
        names = {opened[0].name, opened[1].by}
    yield record(t, need, {})
    yield record(t, t.fields, {})
    free = [f for f in opt if f.name not in names or True]
    if len(free) <= 5:
        for n in range(len(free) + 1):
            for c in itertools.combinations(free, n):
                yield record(t, need + list(c), {})
    else:
        for n in (1, 2):
            for c in itertools.combinations(free, n):
                yield record(t, need + list(c), {})
                yield record(t, need + [f for f in free if f not in c], {})
    for f in t.fields:
        if f.name in names:
            continue
        for v in values(f.type, depth - 1):
            yield record(t, need, {f.name: v})
    if opened:
        of, o = opened
        idf = [f for f in t.fields if f.name == o.by][0]
        keys = list(o.table) + (['1.2.3.4'] if o.unknown else [])
        for k in keys:
            ident = identifier(o, idf.type, k)
            if of.o:
                yield record(t, need, {o.by: ident})
            inner = values(o.table[k], depth - 1) if k in o.table else [None]
            for v in inner:
                yield record(t, need, {o.by: ident, of.name: open_value(o, ident, v)})
            yield record(t, t.fields, {o.by: ident, of.name: open_value(o, ident, inner[0])})


# ------------------------------------------------------------------ decoding, by the model
class Bad(Exception):
    """the octets are not a value of the type"""


class Unsure(Exception):
    """not claimed either way: elements after the last field, contents that the leaf does not have as a sample"""


def first(t):
    """the (class, tag) pairs a value of the type can start with, or None: anything"""
    t = resolve(t)
    if isinstance(t, Any) or isinstance(t, Open) and t.how == 'any':
        return None
    if isinstance(t, (Open, Inside)):
        return {(0, 4 if t.how == 'octets' else 3)}
    if isinstance(t, Choice):
        if t.outer:
            return {t.outer}
        out = set()
        for f in t.alts:
            x = first_field(f)
            if x is None:
                return None
            out |= x
        return out
    return {(0, t.tag)}


def first_field(f):
    n = f.e if f.e is not None else f.i
    return {(2, n)} if n is not None else first(f.type)


def accepts(f, head):
    x = first_field(f)
    return x is None or head in x


def elements(content):
    """[(class, tag), octets]"""
    out, pos = [], 0
    while pos < len(content):
        (c, cons, t, h, body, trl), end = ref.parse_one(content, pos)
        out.append(((c, t), content[pos:end]))
        pos = end
    return out


def decode_field(f, der, record_):
    if f.e is not None:
        (c, cons, t, h, body, trl), _ = ref.parse_one(der)
        inner = elements(body)
        if (c, t) != (2, f.e) or not cons or len(inner) != 1:
            raise Bad(f.name)
        der = inner[0][1]
    elif f.i is not None:
        (c, cons, t, h, body, trl), _ = ref.parse_one(der)
        x = resolve(f.type)
        if (c, t) != (2, f.i):
            raise Bad(f.name)
        der = ref.tlv(0, cons, x.tag if not isinstance(x, (Inside, Open)) else 4, body)
    return decode(f.type, der, record_)


def decode(t, der, record_=None):
    t = resolve(t)
    (c, cons, tag, h, body, trl), _ = ref.parse_one(der)
    x = first(t)
    if x is not None and (c, tag) not in x:
        raise Bad('tag')
    if isinstance(t, Any):
        if c or tag == 30 or cons != (tag in (16, 17)):
            raise Unsure('an element of another class')
        return V(t, 'any', der)
    if isinstance(t, (Open, Inside)):
        inner = t.inner if isinstance(t, Inside) else t.table.get(key_of(record_[t.by]))
        data = der
        if t.how != 'any':
            if cons:
                raise Bad('constructed')
            data = body if t.how == 'octets' else body[1:]
        if inner is None:
            return V(t, 'in', t.how, data if t.how != 'any' else V(ANY, 'any', data))
        if len(elements(data)) != 1:
            raise Bad('contents')
        return V(t, 'in', t.how, decode(inner, data))
    if isinstance(t, Choice):
        if t.outer:
            parts = elements(body)
            if len(parts) != 1 or not cons:
                raise Bad('outer')
            (head, der), = parts
        else:
            head = (c, tag)
        for f in t.alts:
            if accepts(f, head):
                return V(t, 'choice', f.name, decode_field(f, der, None))
        raise Bad('alternative')
    if isinstance(t, Leaf):
        if cons:
            raise Bad('constructed')
        if body not in t.samples:
            raise Unsure('contents')
        return leaf(t, body)
    if not cons:
        raise Bad('primitive')
    parts = elements(body)
    if isinstance(t, Of):
        return V(t, 'of', [decode(t.child, d) for _, d in parts])
    out = {}
    if t.tag == 17:
        for f in t.fields:
            mine = [d for head, d in parts if accepts(f, head)]
            if not mine and f.mandatory:
                raise Bad('missing ' + f.name)
            out[f.name] = decode_field(f, mine[0], out) if mine else None
        if len(parts) != len([x for x in out.values() if x is not None]):
            raise Unsure('more')
        return V(t, 'seq', out)
    n = 0
    for f in t.fields:
        out[f.name] = None
        if n < len(parts) and accepts(f, parts[n][0]):
            out[f.name] = decode_field(f, parts[n][1], out)
            n += 1
        elif f.mandatory:
            raise Bad('missing ' + f.name)
    if n < len(parts):
        raise Unsure('more')
    return V(t, 'seq', out)


# ------------------------------------------------------------------ octets that are almost a value
def nodes(v, seen=None):
    """the records and lists inside a value"""
    seen = {} if seen is None else seen
    if id(v) in seen:
        return seen
    if v.kind in ('seq', 'of'):
        seen[id(v)] = v
        for x in (v.a.values() if v.kind == 'seq' else v.a):
            if x is not None:
                nodes(x, seen)
    elif v.kind in ('choice', 'in') and isinstance(v.b, V):
        nodes(v.b, seen)
    return seen


def parts_of(v):
    if v.kind == 'of':
        return len(v.a)
    return len([f for f in v.type.fields if v.a.get(f.name) is not None])


def mutations(v):
    """(target, index, how)"""
    for x in nodes(v).values():
        k = parts_of(x)
        for i in range(k):
            for how in ('drop', 'retag', 'swap', 'double', 'constructed') if x.kind == 'seq' else ('retag', 'constructed'):
                if how == 'swap' and i + 1 == k:
                    continue
                yield x, i, how


def encode_mutated(v, target, i, how):
    t = v.type
    if v.kind in ('leaf', 'any'):
        return encode(v)
    again = lambda x: encode_mutated(x, target, i, how)  # noqa
    if v.kind == 'in':
        d = again(v.b) if isinstance(v.b, V) else v.b
        return ref.octets(d) if v.a == 'octets' else ref.u(3, b'\0' + d) if v.a == 'bits' else d
    if v.kind == 'choice':
        f = [x for x in t.alts if x.name == v.a][0]
        d = with_tags(again(v.b), f)
        return ref.tlv(t.outer[0], True, t.outer[1], d) if t.outer else d
    if v.kind == 'of':
        parts = [again(x) for x in v.a]
    else:
        parts = []
        for f in t.fields:
            x = v.a.get(f.name)
            if x is not None:
                parts.append(with_tags(again(x), f))
    if v is target:
        if how == 'drop':
            del parts[i]
        elif how == 'swap':
            parts[i], parts[i + 1] = parts[i + 1], parts[i]
        elif how == 'double':
            parts.insert(i, parts[i])
        elif how == 'retag':
            parts[i] = retag(parts[i], 30)
        else:
            (c, cons, tag, h, content, trl), _ = ref.parse_one(parts[i])
            parts[i] = ref.tlv(c, not cons, tag, content)
    if t.tag == 17:
        parts.sort()
    return ref.u(t.tag, b''.join(parts), True)
