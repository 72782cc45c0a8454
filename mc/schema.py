"""Schemas as data: for each type descriptor, the asn1crypto class it stands
for, the abstract values to try, the DER encoding and every BER encoding (an
independent encoder written from X.690), and the native value expected.

A node of an encoding has a list of forms, form 0 being DER.  BER variants are
enumerated by the number of nodes whose form is not 0 ("deviations")."""
import itertools
from collections import OrderedDict
from . import ref
from .common import bootstrap

bootstrap()
from asn1crypto import core  # noqa

CLASSES = {'universal': 0, 'application': 1, 'context': 2, 'private': 3}
NAMES = dict((v, k) for k, v in CLASSES.items())


# ------------------------------------------------------------------ nodes
class N(object):
    """one element: cls, tag, and content octets or child nodes"""

    def __init__(self, cls, tag, content=None, kids=None, kind='prim', omit=False, sort=None, decode=None):
        self.cls, self.tag, self.content, self.kids = cls, tag, content, kids
        self.kind, self.omit, self.sort, self.decode = kind, omit, sort, decode

    def forms(self):
        """names of the forms, DER first"""
        if self.kids is not None:
            out = ['min', 'pad1', 'indef', 'pad2']
            if self.sort == 'setof' and len(self.kids) > 1:
                out += ['rev', 'rot']
            elif self.sort == 'set' and len(self.kids) > 1:
                out += ['rev', 'rot']
        else:
            out = ['min', 'pad1', 'pad2']
            if self.kind == 'str':
                out += ['chunk1', 'chunk2', 'chunk3', 'chunk0']
            elif self.kind == 'bits':
                out += ['bchunk1', 'bchunk2']
            elif self.kind == 'bool' and self.content == b'\xff':
                out += ['true1', 'true128']
        if self.omit:
            out = ['absent'] + out
        return out

    def flat(self):
        out = [self]
        for k in self.kids or ():
            out += k.flat()
        return out

    def retag(self, cls, tag):
        n = N(self.cls, self.tag, self.content, self.kids, self.kind, self.omit, self.sort, self.decode)
        n.cls, n.tag = cls, tag
        return n


def encode(n, forms=None):
    """forms: dict id(node) -> form name"""
    f = (forms or {}).get(id(n)) or n.forms()[0]
    if f == 'absent':
        return b''
    if n.kids is not None:
        parts = [encode(k, forms) for k in n.kids]
        if n.sort == 'setof':
            parts.sort(key=lambda b: b)
        elif n.sort == 'set':
            parts = [p for _, p in sorted(((outer_id(p), p) for p in parts if p), key=lambda x: x[0])]
        if f == 'rev':
            parts.reverse()
        elif f == 'rot':
            parts = parts[1:] + parts[:1]
        body = b''.join(parts)
        cons = True
    else:
        body = n.content
        cons = False
    if f == 'true1':
        body = b'\x01'
    elif f == 'true128':
        body = b'\x80'
    if f == 'pad1' and len(body) < 256:
        return ref.ident(n.cls, cons, n.tag) + ref.length_padded(len(body), 1 if len(body) > 127 else 1) + body
    if f == 'pad2' or f == 'pad1':
        return ref.ident(n.cls, cons, n.tag) + ref.length_padded(len(body), 3) + body
    if f == 'indef':
        return ref.indef(n.cls, n.tag, body)
    univ = n.decode if n.decode is not None else n.tag
    if f == 'chunk0':
        return ref.indef(n.cls, n.tag, b'')
    if f == 'chunk1':
        return ref.indef(n.cls, n.tag, ref.u(univ, body))
    if f == 'chunk2':
        h = len(body) // 2
        return ref.indef(n.cls, n.tag, ref.u(univ, body[:h]) + ref.u(univ, body[h:]))
    if f == 'chunk3':
        h = len(body) // 2
        return ref.indef(n.cls, n.tag, ref.indef(0, univ, ref.u(univ, body[:h])) + ref.u(univ, body[h:]) + ref.u(univ, b''))
    if f == 'bchunk1':
        return ref.indef(n.cls, n.tag, ref.u(univ, body))
    if f == 'bchunk2':
        h = 1 + (len(body) - 1) // 2
        return ref.indef(n.cls, n.tag, ref.u(univ, b'\x00' + body[1:h]) + ref.u(univ, body[:1] + body[h:]))
    return ref.tlv(n.cls, cons, n.tag, body)


def outer_id(b):
    one, _ = ref.parse_one(b)
    return one[0], one[2]


def variant_forms(n, k):
    """all assignments of forms with at most k deviations from DER, fewest first"""
    nodes = n.flat()
    yield {}
    for d in range(1, k + 1):
        for which in itertools.combinations(range(len(nodes)), d):
            for fs in itertools.product(*[nodes[i].forms()[1:] for i in which]):
                fm = dict((id(nodes[i]), f) for i, f in zip(which, fs))
                if usable(n, fm):
                    yield fm


def usable(n, fm, gone=False):
    """deviations inside of an absent default would repeat other variants; chunk0 only for empty strings"""
    f = fm.get(id(n))
    here = gone or (f or n.forms()[0]) == 'absent'
    if gone and f:
        return False
    if f == 'chunk0' and n.content:
        return False
    if f == 'chunk2' and n.content is not None and len(n.content) < 2:
        return False
    return all(usable(k, fm, here) for k in n.kids or ())


def uses_indef(n, fm):
    return any(v == 'indef' or 'chunk' in v for v in fm.values())


# ------------------------------------------------------------------ types
class Ty(object):
    params = {}

    def native(self, v):
        return v

    def py(self, v):
        return v


class Prim(Ty):
    def __init__(self, name, cls, tag, values, content, kind='prim', native=None, py=None):
        self.name, self.cls, self.tag, self.values = name, cls, tag, values
        self._content, self.kind, self._native, self._py = content, kind, native, py

    def node(self, v):
        return N(0, self.tag, content=self._content(v), kind=self.kind, decode=self.tag)

    def native(self, v):
        return self._native(v) if self._native else v

    def py(self, v):
        return self._py(v) if self._py else v


class Named(core.Integer):
    _map = {0: 'zero', 1: 'one', 2: 'two'}


class En(core.Enumerated):
    _map = {0: 'red', 1: 'green'}


class Fl(core.BitString):
    _map = {0: 'a', 1: 'b', 9: 'j'}


def flags_content(v):
    top = max([{'a': 0, 'b': 1, 'j': 9}[x] for x in v] or [-1])
    return ref.bits_content([1 if {0: 'a', 1: 'b', 9: 'j'}.get(i) in v else 0 for i in range(top + 1)])


INT = Prim('INT', core.Integer, 2, [0, 127, -129], ref.int_content)
NINT = Prim('NINT', Named, 2, ['one', 5], lambda v: ref.int_content({'zero': 0, 'one': 1, 'two': 2}.get(v, v)))
BOOL = Prim('BOOL', core.Boolean, 1, [True, False], lambda v: b'\xff' if v else b'\x00', kind='bool')
NULL = Prim('NULL', core.Null, 5, [None], lambda v: b'')
OCT = Prim('OCT', core.OctetString, 4, [b'', b'ab\x00'], lambda v: v, kind='str')
UTF = Prim('UTF', core.UTF8String, 12, [u'', u'h\xe9'], lambda v: v.encode('utf-8'), kind='str')
IA5 = Prim('IA5', core.IA5String, 22, [u'xy'], lambda v: v.encode('ascii'), kind='str')
OID = Prim('OID', core.ObjectIdentifier, 6, [u'1.2.840', u'2.999.3'], lambda v: ref.oid_content([int(x) for x in v.split('.')]))
BITS = Prim('BITS', core.BitString, 3, [(), (1, 0, 1), (1,) * 17], ref.bits_content, kind='bits')
FLAGS = Prim('FLAGS', Fl, 3, [frozenset(), frozenset(['b', 'j'])], flags_content, kind='prim', native=set, py=set)
ENUM = Prim('ENUM', En, 10, [u'red', u'green'], lambda v: {'red': b'\x00', 'green': b'\x01'}[v])
OBITS = Prim('OBITS', core.OctetBitString, 3, [b'', b'\x01\x02'], lambda v: b'\x00' + v, kind='bits')
IOCT = Prim('IOCT', core.IntegerOctetString, 4, [0x0102, 255], lambda v: v.to_bytes((v.bit_length() + 7) // 8 or 1, 'big'), kind='str')
BMP = Prim('BMP', core.BMPString, 30, [u'a\u0394'], lambda v: v.encode('utf-16-be'), kind='str')
RELOID = Prim('RELOID', core.RelativeOid, 13, [u'8571.3'], lambda v: b''.join(ref.base128(int(x)) for x in v.split('.')))


def _cls(base, **d):
    return type('X', (base,), d)


class Field(object):
    """tag: None, ('i'|'e', class number, tag number);  opt: None, 'optional' or ('default', value)"""

    def __init__(self, name, ty, tag=None, opt=None):
        self.name, self.ty, self.tag, self.opt = name, ty, tag, opt

    def params(self):
        p = {}
        if self.tag:
            kind, c, num = self.tag
            p['implicit' if kind == 'i' else 'explicit'] = num if c == 2 else (NAMES[c], num)
        if self.opt == 'optional':
            p['optional'] = True
        elif self.opt:
            p['default'] = self.ty.py(self.opt[1])
        return p

    def node(self, v):
        n = apply_tag(self.ty.node(v), self.tag)
        if self.opt and self.opt != 'optional' and (self.opt[1] == v or not isinstance(self.ty, Prim) and der(self.ty, self.opt[1]) == der(self.ty, v)):
            n.omit = True
        return n


def apply_tag(n, tag):
    if not tag:
        return n
    kind, c, num = tag
    if kind == 'i':
        return n.retag(c, num)
    return N(c, num, kids=[n], kind='cons')


class Seq(Ty):
    tag, base, sort = 16, core.Sequence, None

    def __init__(self, fields, values=None, name='SEQ'):
        self.fields, self.name = fields, name
        self.cls = _cls(self.base, _fields=[(f.name, f.ty.cls, f.params()) for f in fields])
        self.values = values if values is not None else list(self.all_values())

    def all_values(self, per=2):
        """the first `per` values of each field, every presence subset"""
        opts = []
        for f in self.fields:
            vs = list(f.ty.values[:per])
            if f.opt == 'optional':
                vs = ['<absent>'] + vs[:1]
            elif f.opt:
                vs = [f.opt[1]] + [x for x in vs if x != f.opt[1]][:1]
            opts.append(vs)
        for combo in itertools.product(*opts):
            yield dict((f.name, v) for f, v in zip(self.fields, combo) if v != '<absent>')

    def node(self, v):
        kids = []
        for f in self.fields:
            if f.name in v:
                kids.append(f.node(v[f.name]))
            elif f.opt and f.opt != 'optional':
                kids.append(f.node(f.opt[1]))
            elif not f.opt:
                raise KeyError(f.name)
        return N(0, self.tag, kids=kids, kind='cons', sort=self.sort)

    def native(self, v):
        out = OrderedDict()
        for f in self.fields:
            if f.name in v:
                out[f.name] = f.ty.native(v[f.name])
            elif f.opt and f.opt != 'optional':
                out[f.name] = f.ty.native(f.opt[1])
            else:
                out[f.name] = None
        return out

    def py(self, v):
        return dict((f.name, f.ty.py(v[f.name])) for f in self.fields if f.name in v)


class SetT(Seq):
    tag, base, sort = 17, core.Set, 'set'


class SeqOf(Ty):
    tag, base, sort = 16, core.SequenceOf, None

    def __init__(self, ty, values=None, name='SEQOF'):
        self.ty, self.name = ty, name
        self.cls = _cls(self.base, _child_spec=ty.cls)
        vs = ty.values
        self.values = values if values is not None else [[], [vs[0]], [vs[-1], vs[0]], [vs[0], vs[-1], vs[0]]]

    def node(self, v):
        return N(0, self.tag, kids=[self.ty.node(x) for x in v], kind='cons', sort=self.sort)

    def native(self, v):
        return [self.ty.native(x) for x in v]

    def py(self, v):
        # a list of a choice type only takes Asn1Value objects
        if isinstance(self.ty, Choice):
            return [self.ty.cls(self.ty.py(x)) for x in v]
        return [self.ty.py(x) for x in v]


class Bag(list):
    """a list whose order is not defined"""


class SetOfT(SeqOf):
    tag, base, sort = 17, core.SetOf, 'setof'

    def native(self, v):
        return Bag(self.ty.native(x) for x in v)


class Choice(Ty):
    def __init__(self, alts, values=None, name='CHOICE'):
        """alts: list of Field without opt"""
        self.alts, self.name = alts, name
        self.cls = _cls(core.Choice, _alternatives=[(f.name, f.ty.cls, f.params()) for f in alts])
        self.values = values if values is not None else [(f.name, v) for f in alts for v in f.ty.values[:1]]

    def alt(self, name):
        return [f for f in self.alts if f.name == name][0]

    def node(self, v):
        return self.alt(v[0]).node(v[1])

    def native(self, v):
        return self.alt(v[0]).ty.native(v[1])

    def py(self, v):
        return (v[0], self.alt(v[0]).ty.py(v[1]))


def der(ty, v):
    return encode(ty.node(v))


def native_eq(a, b):
    """structural equality including types (OrderedDict order, set, tuple, list)"""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a.keys()) == list(b.keys()) and all(native_eq(a[k], b[k]) for k in b)
    if isinstance(b, Bag):
        rest = list(b)
        if not isinstance(a, list) or len(a) != len(b):
            return False
        for x in a:
            for i, y in enumerate(rest):
                if native_eq(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(native_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ a family of schemas
INNER = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='INNER')
CH = Choice([Field('n', INT), Field('s', UTF), Field('q', INNER), Field('t', INT, ('i', 2, 1)), Field('e', UTF, ('e', 2, 2))],
            name='CH')


def family():
    """name -> type, from primitives to three levels"""
    out = OrderedDict()
    for t in (INT, NINT, BOOL, NULL, OCT, UTF, IA5, OID, BITS, FLAGS, ENUM, OBITS, IOCT, BMP, RELOID):
        out[t.name] = t
    out['INNER'] = INNER
    out['CH'] = CH
    out['LIST'] = SeqOf(INT)
    out['SETOF'] = SetOfT(OCT, [[], [b'b'], [b'b', b'a'], [b'', b'aa', b'b']])
    out['SET'] = SetT([Field('b', UTF), Field('a', INT), Field('c', BOOL, ('i', 2, 0), 'optional')])
    out['SET2'] = SetT([Field('p', INT, ('e', 2, 3)), Field('q', INT, ('i', 1, 7), ('default', 5)), Field('r', OCT)])
    out['OPT'] = Seq([Field('a', INT, None, 'optional'), Field('b', OCT, None, ('default', b'zz')),
                      Field('c', UTF, ('i', 2, 0), 'optional'), Field('d', INNER, ('e', 2, 1), 'optional')])
    out['NEST'] = Seq([Field('i', INNER), Field('l', SeqOf(INT, [[], [1, 2]])), Field('c', CH)],
                      values=[dict(i={'x': 1}, l=[1, 2], c=('s', u'z')), dict(i={'x': 0, 'y': True}, l=[], c=('q', {'x': 2})),
                              dict(i={'x': 1}, l=[3], c=('e', u'z'))])
    out['CHLIST'] = SeqOf(CH, [[('n', 1), ('t', 2)], [('q', {'x': 1}), ('e', u'k')], []], name='CHLIST')
    out['ECH'] = Seq([Field('c', CH, ('e', 2, 0), 'optional'), Field('z', NULL)], name='ECH')
    out['TAGS'] = Seq([Field('a', INT, ('i', 1, 31)), Field('b', OCT, ('e', 3, 200)), Field('c', INNER, ('i', 2, 4)),
                       Field('d', BITS, ('i', 2, 5))], values=[dict(a=1, b=b'q', c={'x': 3}, d=(1, 0))], name='TAGS')
    out['DEF'] = Seq([Field('s', INNER, None, ('default', {'x': 4})), Field('n', NINT, ('e', 2, 0), ('default', 'two')),
                      Field('l', SeqOf(INT, [[], [7]]), ('i', 2, 1), ('default', [7]))], name='DEF')
    out['SETOFSEQ'] = SetOfT(INNER, [[{'x': 2}, {'x': 1}], [{'x': 1, 'y': True}, {'x': 1}]])
    out['DEEP'] = Seq([Field('a', Seq([Field('b', SeqOf(Seq([Field('c', OCT)]), [[{'c': b'k'}, {'c': b''}]]), ('e', 2, 0))]))],
                      values=[{'a': {'b': [{'c': b'k'}, {'c': b''}]}}], name='DEEP')
    return out


FAMILY = family()


class AnyT(Ty):
    """ANY: a value is (name of a type of FAMILY, value)"""
    name, cls = 'ANY', core.Any

    def __init__(self, values=None):
        self.values = values or [('UTF', u'h\xe9'), ('INT', 127), ('NULL', None)]

    def node(self, v):
        return FAMILY[v[0]].node(v[1])

    def native(self, v):
        return FAMILY[v[0]].native(v[1])

    def py(self, v):
        return FAMILY[v[0]].cls(FAMILY[v[0]].py(v[1]))


ANY = AnyT()
