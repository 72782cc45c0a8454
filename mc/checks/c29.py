"""C29 - an operation that fails changes nothing.

Nothing is predicted: for every history h and every operation f that raises after it, the object after h.f has to be
indistinguishable from the object after h - also for every operation v that follows, and for f itself."""
import collections
import datetime
import re
from .. import corpus, ref, ladder as L
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import core, x509, keys, algos, cms, util, crl, ocsp, csr, pkcs12, tsp  # noqa

UTC = util.timezone.utc


# ------------------------------------------------------------------ subjects
class Inner(core.Sequence):
    _fields = [('x', core.Integer), ('y', core.Boolean, {'default': False})]


class InnerList(core.SequenceOf):
    _child_spec = Inner


class IntList(core.SequenceOf):
    _child_spec = core.Integer


class OctSet(core.SetOf):
    _child_spec = core.OctetString


class Named(core.Integer):
    _map = {0: 'zero', 1: 'one', 2: 'two'}


class Enum(core.Enumerated):
    _map = {0: 'zero', 1: 'one', 2: 'two'}


class Flags(core.BitString):
    _map = {0: 'zero', 1: 'one', 5: 'five'}


class Oid(core.ObjectIdentifier):
    _map = {'1.2.3': 'one_two_three', '1.2.4': 'one_two_four'}


class Alt(core.Choice):
    _alternatives = [('n', core.Integer), ('s', core.UTF8String, {'implicit': 0}), ('i', Inner, {'explicit': 1}), ('l', IntList)]


class AltList(core.SequenceOf):
    _child_spec = Alt


class Rec(core.Sequence):
    _fields = [('a', core.Integer), ('i', Inner), ('l', IntList, {'implicit': 0, 'optional': True}), ('c', Alt, {'explicit': 1, 'optional': True}),
               ('d', Named, {'default': 'one'})]


class ASet(core.Set):
    _fields = [('a', core.Integer), ('b', core.OctetString), ('c', core.UTF8String, {'implicit': 3, 'optional': True})]


class Open(core.Sequence):
    _fields = [('type', Oid), ('value', core.Any, {'optional': True})]
    _oid_pair = ('type', 'value')
    _oid_specs = {'one_two_three': core.Integer, 'one_two_four': Inner}


class OpenOct(core.Sequence):
    _fields = [('type', Oid), ('value', core.ParsableOctetString)]
    _oid_pair = ('type', 'value')
    _oid_specs = {'one_two_three': core.Integer, 'one_two_four': Inner}


class Cat(core.Concat):
    _child_specs = [core.Integer, Inner]


RECDER = ref.seq(ref.integer(5), ref.seq(ref.integer(1)), ref.ctx(0, ref.integer(1) + ref.integer(2), True), ref.expl(1, ref.integer(9)))


def subjects():
    d = collections.OrderedDict()
    d['int'] = lambda: core.Integer(300)
    d['named'] = lambda: Named('two')
    d['intld'] = lambda: core.Integer.load(b'\x02\x02\x01\x2c')
    d['bool'] = lambda: core.Boolean(True)
    d['null'] = lambda: core.Null()
    d['enum'] = lambda: Enum('one')
    d['oct'] = lambda: core.OctetString(b'abc')
    d['octchunks'] = lambda: core.OctetString.load(ref.indef(0, 4, ref.u(4, b'a') + ref.u(4, b'bc')))
    d['ioct'] = lambda: core.IntegerOctetString(300)
    d['bits'] = lambda: core.BitString((1, 0, 1))
    d['flags'] = lambda: Flags(set(['one']))
    d['obits'] = lambda: core.OctetBitString(b'xy')
    d['ibits'] = lambda: core.IntegerBitString(77)
    d['poct'] = lambda: core.ParsableOctetString(ref.seq(ref.integer(1)))
    d['poctp'] = lambda: core.ParsableOctetString(parsed=Inner({'x': 1}))
    d['pbits'] = lambda: core.ParsableOctetBitString.load(ref.u(3, b'\0' + ref.seq(ref.integer(1))))
    d['oid'] = lambda: core.ObjectIdentifier('1.2.840.113549')
    d['oidm'] = lambda: Oid('one_two_three')
    d['utf8'] = lambda: core.UTF8String(u'h\xe9')
    d['printable'] = lambda: core.PrintableString(u'abc')
    d['ia5'] = lambda: core.IA5String(u'abc')
    d['bmp'] = lambda: core.BMPString(u'abc')
    d['univ'] = lambda: core.UniversalString(u'abc')
    d['teletex'] = lambda: core.TeletexString(u'abc')
    d['numeric'] = lambda: core.NumericString(u'123')
    d['utc'] = lambda: core.UTCTime(datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC))
    d['gen'] = lambda: core.GeneralizedTime(datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC))
    d['time'] = lambda: x509.Time({'utc_time': datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC)})
    d['inner'] = lambda: Inner({'x': 1, 'y': True})
    d['rec'] = lambda: Rec({'a': 5, 'i': {'x': 1}, 'l': [1, 2], 'c': Alt('n', 9)})
    d['recld'] = lambda: Rec.load(RECDER)
    d['set'] = lambda: ASet({'a': 1, 'b': b'q'})
    d['setld'] = lambda: ASet.load(ref.set_(ref.integer(1), ref.u(4, b'q')))
    d['ilist'] = lambda: IntList([1, 2])
    d['ilistld'] = lambda: IntList.load(ref.seq(ref.integer(1), ref.integer(2)))
    d['rlist'] = lambda: InnerList([{'x': 1}, {'x': 2, 'y': True}])
    d['octset'] = lambda: OctSet([b'b', b'a'])
    d['alt'] = lambda: Alt('n', 9)
    d['alts'] = lambda: Alt({'s': u'q'})
    d['alti'] = lambda: Alt.load(ref.expl(1, ref.seq(ref.integer(4))))
    d['altlist'] = lambda: AltList([Alt('n', 1)])
    d['any'] = lambda: core.Any(core.Integer(5))
    d['anyld'] = lambda: core.Any(Inner({'x': 1}))
    d['open'] = lambda: Open({'type': 'one_two_three', 'value': core.Integer(5)})
    d['openld'] = lambda: Open.load(ref.seq(ref.oid('1.2.4'), ref.seq(ref.integer(5))))
    d['openoct'] = lambda: OpenOct({'type': 'one_two_four', 'value': {'x': 5}})
    d['cat'] = lambda: Cat([core.Integer(1), Inner({'x': 1})])
    # values that can not be decoded: reading them is what fails
    d['badint'] = lambda: core.Integer.load(b'\x02\x00')
    d['badutf'] = lambda: core.UTF8String.load(b'\x0c\x01\xff')
    d['badrec'] = lambda: Rec.load(ref.seq(ref.integer(5), ref.u(4, b'zz')))
    d['badrec2'] = lambda: Rec.load(ref.seq(ref.integer(5), ref.seq(ref.u(4, b'q'))))
    d['badrec3'] = lambda: Rec.load(b'\x30\x05\x02\x01\x05\x30\x09')
    d['badlist'] = lambda: IntList.load(ref.seq(ref.integer(5), ref.u(4, b'zz')))
    d['badlist2'] = lambda: InnerList.load(ref.seq(ref.seq(ref.integer(5)), ref.seq(ref.u(4, b'zz'))))
    d['badset'] = lambda: ASet.load(ref.set_(ref.integer(1), ref.integer(2)))
    d['badutc'] = lambda: core.UTCTime.load(ref.u(23, b'209913010000Z'))
    d['badchoice'] = lambda: Alt.load(ref.expl(1, ref.seq(ref.u(4, b''))))
    d['badopen'] = lambda: Open.load(ref.seq(ref.oid('1.2.3'), ref.u(4, b'')))
    d['badoct'] = lambda: OpenOct.load(ref.seq(ref.oid('1.2.3'), ref.u(4, b'\x04\x00')))
    # the library's own
    d['name'] = lambda: x509.Name.build({'common_name': u'a', 'country_name': u'DE'})
    d['rdn'] = lambda: x509.NameTypeAndValue({'type': 'common_name', 'value': x509.DirectoryString('utf8_string', u'x')})
    d['general'] = lambda: x509.GeneralName('dns_name', u'example.com')
    d['ip'] = lambda: x509.IPAddress(u'10.0.0.0/8')
    d['uri'] = lambda: x509.URI(u'http://example.com/')
    d['email'] = lambda: x509.EmailAddress(u'a@example.com')
    d['dns'] = lambda: x509.DNSName(u'example.com')
    d['ext'] = lambda: x509.Extension({'extn_id': 'basic_constraints', 'critical': True, 'extn_value': {'ca': True, 'path_len_constraint': 3}})
    d['keyusage'] = lambda: x509.KeyUsage(set(['digital_signature']))
    d['alg'] = lambda: algos.DigestAlgorithm({'algorithm': 'sha256'})
    d['salg'] = lambda: algos.SignedDigestAlgorithm({'algorithm': 'rsassa_pss', 'parameters': algos.RSASSAPSSParams({'salt_length': 20})})
    d['ealg'] = lambda: algos.EncryptionAlgorithm({'algorithm': 'aes256_cbc', 'parameters': b'0' * 16})
    d['attr'] = lambda: cms.CMSAttribute({'type': 'message_digest', 'values': [b'abc']})
    d['content'] = lambda: cms.ContentInfo({'content_type': 'data', 'content': b'abc'})
    d['rsa'] = lambda: keys.RSAPrivateKey({'version': 0, 'modulus': 1, 'public_exponent': 2, 'private_exponent': 3, 'prime1': 4, 'prime2': 5,
                                            'exponent1': 6, 'exponent2': 7, 'coefficient': 8})
    d['pki'] = lambda: keys.PrivateKeyInfo.wrap(d['rsa'](), 'rsa')
    d['dsapub'] = lambda: keys.PublicKeyInfo({'algorithm': {'algorithm': 'dsa', 'parameters': {'p': 7, 'q': 3, 'g': 2}}, 'public_key': core.Integer(5)})
    d['ecpoint'] = lambda: keys.ECPointBitString.from_coords(5, 7)
    d['ecdomain'] = lambda: keys.ECDomainParameters('named', 'secp256r1')
    return d


SUBJECTS = subjects()

# ------------------------------------------------------------------ arguments (made anew for every call)
ARGS = collections.OrderedDict([
    ('none', lambda: None), ('object', object), ('zero', lambda: 0), ('minus', lambda: -129), ('big', lambda: 2 ** 70), ('true', lambda: True), ('float', lambda: 1.5),
    ('text', lambda: u'zz'), ('uni', lambda: u'h\xe9\U0001F600'), ('empty', lambda: u''), ('bytes', lambda: b'zz'), ('der', lambda: ref.seq(ref.integer(4))), ('badder', lambda: b'\x30\x05\x02'),
    ('list', lambda: []), ('ints', lambda: [3, 4]), ('mixed', lambda: [3, u'x', None]), ('objs', lambda: [core.Integer(3), core.OctetString(b'x')]),
    ('dict', lambda: {}), ('x', lambda: {'x': 8}), ('xbad', lambda: {'x': u'bad'}), ('xy', lambda: {'x': 8, 'y': object()}), ('extra', lambda: {'x': 8, 'nope': 1}),
    ('n', lambda: {'n': 3}), ('nbad', lambda: {'n': u'q'}), ('two', lambda: {'n': 1, 's': u'q'}), ('tuple', lambda: ('n', 3)), ('tuple2', lambda: ('nope', 3)), ('bits', lambda: (1, 0, 1, 1)), ('badbits', lambda: (1, 2)),
    ('set', lambda: set(['zero', 'five'])), ('badset', lambda: set(['zero', 'nope'])), ('name', lambda: u'one'), ('badname', lambda: u'nope'),
    ('oid', lambda: u'1.2.3'), ('badoid', lambda: u'9.9.x'), ('badoid2', lambda: u'1.2.-3'),
    ('naive', lambda: datetime.datetime(2021, 1, 1)), ('aware', lambda: datetime.datetime(2021, 1, 1, 5, tzinfo=UTC)), ('old', lambda: datetime.datetime(1850, 1, 1, tzinfo=UTC)), ('date', lambda: datetime.date(2021, 1, 1)),
    ('Int', lambda: core.Integer(6)), ('IntX', lambda: core.Integer(6, explicit=4)), ('Oct', lambda: core.OctetString(b'o')), ('Utf', lambda: core.UTF8String(u'u')), ('Null', core.Null), ('Inner', lambda: Inner({'x': 8})),
    ('InnerNew', lambda: Inner()), ('InnerBad', lambda: Inner.load(ref.seq(ref.u(4, b'')))), ('IntBad', lambda: core.Integer.load(b'\x02\x00')), ('ListBad', lambda: IntList.load(ref.seq(ref.u(4, b'')))), ('Alt', lambda: Alt('s', u'v')), ('AltNew', lambda: Alt('i', Inner())),
    ('NoVal', lambda: core.Integer()), ('class', lambda: core.Integer), ('Void', core.Void), ('Any', lambda: core.Any(core.Integer(3))), ('AnyNew', lambda: core.Any()), ('Self', None),
])
SMALL = ['none', 'object', 'zero', 'big', 'text', 'bytes', 'ints', 'mixed', 'x', 'xbad', 'xy', 'n', 'nbad', 'Int', 'Oct', 'Inner', 'InnerNew', 'InnerBad', 'IntBad', 'NoVal', 'aware', 'naive', 'badname', 'tuple', 'Alt', 'AltNew']

READS = collections.OrderedDict([
    ('native', lambda o: o.native), ('dump', lambda o: o.dump()), ('force', lambda o: o.dump(force=True)), ('len', len), ('iter', lambda o: [c for c in o]), ('str', str), ('repr', repr), ('hash', hash), ('parsed', lambda o: o.parsed),
    ('copy', lambda o: o.copy()), ('untag', lambda o: o.untag()), ('int', int), ('bytes', bytes), ('chosen', lambda o: o.chosen), ('contents', lambda o: o.contents), ('eq', lambda o: o == o.copy()), ('contains', lambda o: core.Integer(1) in o),
    ('parseInt', lambda o: o.parse(core.Integer)), ('parseInner', lambda o: o.parse(Inner)), ('parseInnerN', lambda o: o.parse(Inner).native), ('parseBad', lambda o: o.parse(core.Integer, {'explicit': 9})), ('castInt', lambda o: o.cast(core.Integer)), ('castOct', lambda o: o.cast(core.OctetString)),
    ('retag', lambda o: o.retag({'explicit': 5})), ('retagbad', lambda o: o.retag({'explicit': 'x'})), ('debug', None),
])


def menu(label):
    o = SUBJECTS[label]()
    # a bit string has a (zero) bit at every index: it can be indexed, not iterated
    out = [('read', k) for k in READS if k != 'debug' and not (isinstance(o, core.BitString) and k in ('iter', 'contains'))]
    if hasattr(o, 'set'):
        out += [('set', a) for a in ARGS]
    if isinstance(o, core.Sequence):
        names = [f[0] for f in o._fields]
        for n in names:
            out += [('get', n), ('del', n)]
            out += [('setitem', n, a) for a in SMALL]
            out += [('field', n, 'native'), ('field', n, 'set')]
        out += [('get', 'nope'), ('del', 'nope'), ('setitem', 'nope', 'zero'), ('get', 99), ('get', -99), ('setitem', 99, 'zero'), ('del', 99), ('get', 'slice')]
    elif isinstance(o, (core.SequenceOf, core.Concat)) and not isinstance(o, core.Sequence):
        for i in (0, 1, 2, -1, -9, 'nope'):
            out += [('get', i), ('del', i)]
            out += [('setitem', i, a) for a in (SMALL if i in (0, 2) else SMALL[:4])]
        out += [('get', 'slice')]
        if isinstance(o, core.SequenceOf):
            out += [('append', a) for a in ARGS if a != 'Self'] + [('extend', a) for a in ('ints', 'mixed', 'objs', 'none', 'zero', 'text')]
            out += [('insert', i, a) for i in (0, 9, -9) for a in SMALL]
            if label.startswith('bad'):
                out += [('field', 0, 'native'), ('field', 1, 'native')]
    elif isinstance(o, core.Choice):
        out += [('chosenset', a) for a in SMALL]
    return out


def apply(o, op):
    k = op[0]
    arg = lambda a: o if a == 'Self' else ARGS[a]()
    key = lambda i: slice(0, 1) if i == 'slice' else i
    if k == 'read':
        READS[op[1]](o)
    elif k == 'set':
        o.set(arg(op[1]))
    elif k == 'get':
        o[key(op[1])]
    elif k == 'del':
        del o[op[1]]
    elif k == 'setitem':
        o[op[1]] = arg(op[2])
    elif k == 'append':
        o.append(arg(op[1]))
    elif k == 'extend':
        o.extend(arg(op[1]))
    elif k == 'insert':
        o.insert(op[1], arg(op[2]))
    elif k == 'chosenset':
        o.chosen.set(arg(op[1]))
    elif k == 'field':
        c = o[op[1]]
        if op[2] == 'native':
            c.native
        else:
            c.set(object())
    else:
        raise AssertionError(op)


# ------------------------------------------------------------------ observation
def clean(e):
    return (type(e).__name__, re.sub(r'0x[0-9a-f]+|\b\d{9,}\b', '#', str(e)))


def value(v):
    if isinstance(v, core.Asn1Value) or isinstance(v, core.Concat):
        try:
            return (type(v).__name__, v.dump())
        except Exception as e:
            return (type(v).__name__,) + clean(e)
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(v))
    if isinstance(v, dict):
        return ('dict', [(k, value(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [value(x) for x in v])
    return (type(v).__name__, repr(v))


def ask(out, what, f):
    try:
        out.append((what, value(f())))
    except Exception as e:
        out.append((what, clean(e)))


def kids(o):
    if isinstance(o, core.Sequence):
        return [(f[0], lambda f=f: o[f[0]]) for f in o._fields]
    if isinstance(o, (core.SequenceOf, core.Concat)):
        return [(i, lambda i=i: o[i]) for i in range(len(o))]
    if isinstance(o, core.Choice):
        return [('chosen', lambda: o.chosen), ('name', lambda: o.name)]
    return []


def observe(o, which, depth=2):
    """everything a user can see, in two orders"""
    out = []
    dump = lambda: ask(out, 'dump', o.dump)
    native = lambda: ask(out, 'native', lambda: o.native)

    def rest():
        for a in ('class_', 'tag', 'method', 'implicit', 'explicit', 'contents'):
            if hasattr(type(o), a) or a in o.__dict__:
                ask(out, a, lambda: getattr(o, a))
        if isinstance(o, (core.OctetString, core.ParsableOctetString, core.OctetBitString)):
            ask(out, 'bytes', lambda: bytes(o))
        if isinstance(o, (core.ParsableOctetString, core.Any)):
            ask(out, 'parsed', lambda: o._parsed)
        ask(out, 'str', lambda: re.sub(r'\b\d{9,}\b', '#', str(o)))
        if isinstance(o, (core.SequenceOf, core.Sequence)):
            ask(out, 'len', lambda: len(o))

    def children():
        if depth:
            try:
                l = kids(o)
            except Exception as e:
                out.append(('kids', clean(e)))
                return
            for k, f in l:
                try:
                    c = f()
                except Exception as e:
                    out.append((k, clean(e)))
                    continue
                out.append((k, observe(c, which, depth - 1) if isinstance(c, core.Asn1Value) else value(c)))

    def copies():
        ask(out, 'copy', lambda: o.copy())
        ask(out, 'copyforce', lambda: o.copy().dump(force=True))
        ask(out, 'copynative', lambda: o.copy().native)

    for f in ([dump, native, rest, children, copies, dump] if which == 0 else [copies, children, rest, native, dump, native]):
        f()
    return out


def diff(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d/%d observations' % (path, len(a), len(b))
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y, path)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] and isinstance(a[1], (list, tuple)):
        return diff(a[1], b[1], '%s/%s' % (path, a[0]))
    return '%s: %r became %r' % (path, a, b)


def weak(obs):
    """without encodings: a failed forced dump may have normalised the parts before the one that can not be encoded"""
    return [(k, weak(v) if isinstance(v, list) else v) for k, v in obs if k in ('native', 'copynative', 'len', 'tag', 'class_', 'explicit', 'implicit', 'name', 'chosen') or isinstance(v, list)]


def play(label, ops):
    o = SUBJECTS[label]()
    for op in ops:
        try:
            apply(o, op)
        except Exception:
            pass
    return o


def fails(o, op):
    try:
        apply(o, op)
    except Exception as e:
        return clean(e)
    return None


def check(case, rec):
    label, first, deep, part = case
    ops = menu(label)
    h = () if first < 0 else (ops[first],)
    if h and fails(SUBJECTS[label](), h[0]) is not None:
        return
    base = [observe(play(label, h), w) for w in (0, 1)]
    rec.state(label, repr(base))
    twins = {}
    for f in ops if part is None else ops[part::16]:
        o = play(label, h)
        e = fails(o, f)
        rec.op()
        if e is None:
            continue
        rec.outcome(e[0])
        if e[0] not in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'OverflowError', 'OSError', 'UnicodeEncodeError', 'UnicodeDecodeError', 'NotImplementedError'):
            raise Violation('%s after %s raised %s' % (f, h, e))
        for w in (0, 1):
            t = o if w == 0 else play(label, h + (f,))
            got = observe(t, w)
            forced = f == ('read', 'force')
            if (weak(got) != weak(base[w])) if forced else got != base[w]:
                raise Violation('%s: %s after %s failed with %s, and left a change: %s' % (label, f, h, e, diff(base[w], got)))
        t = play(label, h + (f,))
        e2 = fails(t, f)
        if e2 != e:
            raise Violation('%s: %s after %s failed with %s, then with %s' % (label, f, h, e, e2))
        if not deep or f == ('read', 'force'):
            continue
        for v in ops if deep > 1 else ops[0:len(READS)] + [v for v in ops[len(READS):] if picked(v)]:
            if v not in twins:
                o = play(label, h)
                ev = fails(o, v)
                twins[v] = (ev, observe(o, 0))
            o = play(label, h + (f,))
            ev = fails(o, v)
            rec.op()
            if ev != twins[v][0]:
                raise Violation('%s: %s after %s has outcome %s, after the failed %s it is %s' % (label, v, h, twins[v][0], f, ev))
            got = observe(o, 0)
            if got != twins[v][1]:
                raise Violation('%s: %s after %s: when %s failed in between: %s' % (label, v, h, f, diff(twins[v][1], got)))


QUICK = ('zero', 'x', 'Inner', 'bytes', 'none', 'aware', 'uni', 'bits', 'IntBad')


def picked(op):
    return op[-1] not in ARGS or op[-1] in QUICK


def gen(tier):
    for label in SUBJECTS:
        ops = menu(label)
        for first in range(-1, len(ops)):
            if tier == 'quick' and first >= 0 and (len(ops) > 240 and first % 2 or len(ops) > 300 or not picked(ops[first])):
                continue
            deep = first < 0 and (tier == 'thorough' or len(ops) <= 300) or tier == 'thorough' and first >= 0 and len(ops) < 125 and picked(ops[first])
            if deep:
                for part in range(16):
                    yield (label, first, 1 if tier == 'quick' else 2, part)
            else:
                yield (label, first, 0, None)


SPACES = [
    Space('histories', gen, check, 'for 80 kinds of values: every operation that fails, first or after every other operation; every operation after it', cpu_limit=600),
    Space('sizes', lambda tier: L.edit_cases(L.LISTS + L.RECORDS, tier), L.check_refused, 'wide lists and records x state of decoding x source x refused edits at the ends and in the middle'),
]


def run(argv):
    return main('C29', SPACES, ['observable: encoding, forced encoding and native value of the object, of its copy and of its children, tags, contents, str(), parsed view'], argv)


