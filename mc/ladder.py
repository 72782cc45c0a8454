"""Values whose size is the parameter: lengths of contents, numbers of elements, fields, alternatives, arcs and bits, depth and tag numbers.

The other spaces enumerate all shapes up to a small size; this family has one regular shape per kind and climbs through sizes, every
small one and those around the powers of two at which an encoder or decoder could change its mind."""
from . import ref, schema as S
from .common import attempt
from .schema import Prim, Seq, SetT, SeqOf, SetOfT, Choice, Field, INT, INNER, OCT, UTF, BOOL, core

SHORT = list(range(0, 34)) + [40, 48, 56, 62, 63, 64, 65, 66, 75, 76, 77, 99, 100, 101, 120, 125, 126, 127, 128, 129, 130, 131, 254, 255, 256, 257, 258]
LONG = [300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65534,
        65535, 65536, 65537]
HUGE = [(1 << 20) - 1, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]

PRINT = Prim('PRINT', core.PrintableString, 19, [], lambda v: v.encode('ascii'), kind='str')
TELETEX = Prim('TELETEX', core.TeletexString, 20, [], lambda v: v.encode('latin-1'), kind='str')
UNIV = Prim('UNIV', core.UniversalString, 28, [], lambda v: v.encode('utf-32-be'), kind='str')


def text(n, alphabet=u'abcdefghijklmnopqrstuvwxyz 0123456789'):
    return (alphabet * (n // len(alphabet) + 1))[:n]


def octets(n):
    return (bytes(bytearray(range(251))) * (n // 251 + 1))[:n]


_wide = {}


def wide(kind, n):
    """a record with n fields (or a choice of n alternatives)"""
    if (kind, n) in _wide:
        return _wide[kind, n]
    fs = []
    for i in range(n):
        ty = (INT, OCT, UTF, BOOL)[i % 4]
        tag = ('ie'[i % 2], (2, 1, 3)[i % 3], i)
        if kind == 'seq':
            fs.append(Field('f%d' % i, ty))
        elif kind == 'opt':
            fs.append(Field('f%d' % i, ty, tag, 'optional'))
        elif kind == 'def':
            fs.append(Field('f%d' % i, INT, ('i', 2, i), ('default', i)))
        elif kind == 'set':
            fs.append(Field('f%d' % i, ty, ('i', 2, n - i)))
        else:
            fs.append(Field('f%d' % i, ty, tag))
    t = Choice(fs, values=[]) if kind == 'choice' else (SetT if kind == 'set' else Seq)(fs, values=[])
    _wide[kind, n] = t
    return t


def field_value(i, k=0):
    return (i + k, b'v%d' % (i + k), u'w%d' % (i + k), (i + k) % 8 == 3)[i % 4]


def deep(n, how):
    t, v = INT, 5
    for i in range(n):
        if how == 'list':
            t, v = SeqOf(t, values=[]), [v]
        elif how == 'set':
            t, v = SetOfT(t, values=[]), [v]
        else:
            t = Seq([Field('a', BOOL, None, 'optional'), Field('f', t, ('e', 2, i) if how == 'explicit' else None)], values=[])
            v = {'f': v} if i % 2 or how == 'seq' else {'a': True, 'f': v}
    return t, v


def _choice_deep(n):
    t, v = INT, 5
    for i in range(n):
        t = Choice([Field('z', UTF), Field('c', t, ('e', 2, i))], values=[])
        v = ('c', v)
    return t, v


def flags(n):
    cls = type('Flags', (core.BitString,), {'_map': dict((i, 'b%d' % i) for i in range(n))})
    return Prim('FLAGS', cls, 3, [], lambda v: ref.bits_content([1 if 'b%d' % i in v else 0 for i in range(max([int(x[1:]) for x in v] or [-1]) + 1)]),
                native=set, py=set)


def tagged(n, kind, cls):
    return Seq([Field('a', INT), Field('f', OCT, (kind, cls, n))], values=[])


KINDS = {
    # name: (which ladder, function of n giving (type, value), smallest n)
    'octets': ('long', lambda n: (OCT, octets(n)), 0),
    'zeros': ('long', lambda n: (OCT, b'\x00' * n), 0),
    'utf8': ('long', lambda n: (UTF, text(n)), 0),
    'utf8 two': ('long', lambda n: (UTF, u'\xe9' * (n // 2) + u'x' * (n % 2)), 0),
    'bmp': ('long', lambda n: (S.BMP, text(n // 2)), 0),
    'universal': ('long', lambda n: (UNIV, text(n // 4)), 0),
    'printable': ('long', lambda n: (PRINT, text(n)), 0),
    'ia5': ('long', lambda n: (S.IA5, text(n)), 0),
    'teletex': ('long', lambda n: (TELETEX, text(n)), 0),
    'positive': ('long', lambda n: (INT, (1 << (8 * n - 1)) - 1), 1),
    'high bit': ('long', lambda n: (INT, 1 << (8 * n - 1)), 1),
    'negative': ('long', lambda n: (INT, -(1 << (8 * n - 1))), 1),
    'lower': ('long', lambda n: (INT, -(1 << (8 * n - 1)) - 1), 1),
    'bits': ('long', lambda n: (S.BITS, tuple(int(i % 3 == 0) for i in range(n))), 0),
    'no bits': ('long', lambda n: (S.BITS, (0,) * n), 0),
    'bit octets': ('long', lambda n: (S.OBITS, octets(n)), 0),
    'integer octets': ('long', lambda n: (S.IOCT, (1 << (8 * n)) - 1), 1),
    'arcs': ('count', lambda n: (S.OID, '.'.join(['1', '2'] + [str(i * 37) for i in range(n)])), 0),
    'arc': ('count', lambda n: (S.OID, '2.%d.1.%d' % ((1 << n) - 1, 1 << n)), 0),
    'relative': ('count', lambda n: (S.RELOID, '.'.join([str(i * 37) for i in range(n)])), 1),
    'list': ('long', lambda n: (SeqOf(INT, values=[]), list(range(n))), 0),
    'records': ('count', lambda n: (SeqOf(INNER, values=[]), [{'x': i, 'y': i % 2 == 0} for i in range(n)]), 0),
    'choices': ('count', lambda n: (SeqOf(S.CH, values=[]), [[('n', i), ('s', u'x'), ('q', {'x': i}), ('t', i), ('e', u'')][i % 5] for i in range(n)]), 0),
    'set of': ('count', lambda n: (SetOfT(INT, values=[]), [(i * 83) % 257 for i in range(n)]), 0),
    'set of strings': ('count', lambda n: (SetOfT(OCT, values=[]), [octets((i * 29) % 131) for i in range(n)]), 0),
    'same': ('count', lambda n: (SetOfT(OCT, values=[]), [b'x'] * n), 0),
    'fields': ('count', lambda n: (wide('seq', n), dict(('f%d' % i, field_value(i)) for i in range(n))), 1),
    'all optional': ('count', lambda n: (wide('opt', n), dict(('f%d' % i, field_value(i)) for i in range(n))), 1),
    'every third': ('count', lambda n: (wide('opt', n), dict(('f%d' % i, field_value(i)) for i in range(0, n, 3))), 1),
    'only last': ('count', lambda n: (wide('opt', n), {'f%d' % (n - 1): field_value(n - 1)}), 1),
    'none': ('count', lambda n: (wide('opt', n), {}), 1),
    'defaults': ('count', lambda n: (wide('def', n), dict(('f%d' % i, i + (i % 3 == 1)) for i in range(n))), 1),
    'set fields': ('count', lambda n: (wide('set', n), dict(('f%d' % i, field_value(i)) for i in range(n))), 1),
    'last alternative': ('count', lambda n: (wide('choice', n), ('f%d' % (n - 1), field_value(n - 1))), 1),
    'middle alternative': ('count', lambda n: (wide('choice', n), ('f%d' % (n // 2), field_value(n // 2))), 1),
    'flags': ('count', lambda n: (flags(n), frozenset('b%d' % i for i in range(0, n, 2))), 1),
    'last flag': ('count', lambda n: (flags(n), frozenset(['b%d' % (n - 1)])), 1),
    'nested lists': ('depth', lambda n: deep(n, 'list'), 0),
    'nested sets': ('depth', lambda n: deep(n, 'set'), 0),
    'nested records': ('depth', lambda n: deep(n, 'seq'), 0),
    'nested tags': ('depth', lambda n: deep(n, 'explicit'), 0),
    'nested choices': ('depth', _choice_deep, 1),
    'implicit tag': ('tag', lambda n: (tagged(n, 'i', 2), {'a': 1, 'f': b'q'}), 0),
    'explicit tag': ('tag', lambda n: (tagged(n, 'e', 2), {'a': 1, 'f': b'q'}), 0),
    'application tag': ('tag', lambda n: (tagged(n, 'i', 1), {'a': 1, 'f': b'q'}), 0),
    'private tag': ('tag', lambda n: (tagged(n, 'e', 3), {'a': 1, 'f': b'q'}), 0),
}
DEPTH = list(range(0, 25)) + [32, 40]
TAGS = SHORT + [(1 << k) + d for k in (9, 10, 13, 14, 15, 16, 20, 21, 24, 28, 31, 32, 35, 63, 64) for d in (-1, 0, 1)]


def sizes(kind, tier, limit=None):
    which, _, low = KINDS[kind]
    if which == 'long':
        out = SHORT + LONG
        if tier == 'thorough':
            out = list(range(0, 530)) + LONG + ([] if kind == 'list' else HUGE[:2] if kind in ('bits', 'no bits') else HUGE)
    elif which == 'count':
        out = SHORT if tier == 'quick' else list(range(0, 300)) + [511, 512, 513, 1000]
    elif which == 'depth':
        out = DEPTH if tier == 'quick' else list(range(0, 61))
    else:
        out = TAGS if tier == 'quick' else sorted(set(TAGS) | set(range(0, 600)))
    if kind == 'list' and tier == 'quick':
        out = [x for x in out if x <= 4097]
    if kind in ('positive', 'high bit', 'negative', 'lower', 'arc'):
        out = [x for x in out if x <= 70000]
    return [n for n in sorted(set(out)) if n >= low and (limit is None or n <= limit)]


def cases(tier, limit=None):
    all_ = [(n, k) for k in KINDS for n in sizes(k, tier, limit)]
    return [(k, n) for n, k in sorted(all_, key=lambda x: x[0])]


def make(kind, n):
    return KINDS[kind][1](n)


FORMS = ['min', 'indef', 'pad2', 'chunk1', 'chunk2', 'chunk3', 'bchunk2']


def indefinite(n, fm):
    """the number of elements of indefinite length inside of each other: the library reads up to ten"""
    f = fm.get(id(n))
    own = 0 if f is None else 2 if f == 'chunk3' else 1 if f == 'indef' or 'chunk' in f else 0
    return own + max([indefinite(k, fm) for k in n.kids or ()] or [0])


def framings(n):
    """framings of the whole value: every element with one form where it has it, or one element alone"""
    nodes = n.flat()
    yield 'DER', {}
    for f in FORMS[1:]:
        fm = dict((id(x), f) for x in nodes if f in x.forms() and (not f.endswith('2') or f == 'pad2' or len(x.content) > 2))
        if fm and len(nodes) < 3000 and indefinite(n, fm) <= 9:
            yield 'all ' + f, fm
    if len(nodes) > 1:
        for j in sorted(set([0, 1, len(nodes) // 2, len(nodes) - 1])):
            for f in nodes[j].forms()[1:]:
                if f in ('indef', 'pad2', 'rev', 'rot', 'chunk1'):
                    yield '%d %s' % (j, f), {id(nodes[j]): f}


# ------------------------------------------------------------------ edits of wide values
LISTS = ('list', 'records', 'set of', 'set of strings', 'same')
RECORDS = ('fields', 'all optional', 'every third', 'only last', 'none', 'defaults', 'set fields')
PRIOR = ('none', 'native', 'force', 'one', 'last')


def places(n):
    return sorted(set(i for i in (0, 1, n // 2, n - 2, n - 1) if 0 <= i < n))


def new_element(kind, k):
    if kind == 'records':
        return {'x': 1000 + k, 'y': True}
    if kind in ('set of strings', 'same'):
        return b'new' * (40 * k + 1)
    return 100000 + k


def list_edits(kind, v):
    """(what, function that edits, the value after it)"""
    n = len(v)
    a, b = new_element(kind, 0), new_element(kind, 1)

    def assign(i, x):
        def f(o):
            o[i] = x
        return f

    def delete(i):
        def f(o):
            del o[i]
        return f

    def both(*fs):
        def f(o):
            for g in fs:
                g(o)
        return f

    def append(x):
        return lambda o: o.append(x)

    def put(i, x):
        w = list(v)
        w[i] = x
        return w

    yield 'append', append(a), v + [a]
    yield 'append twice', both(append(b), append(a)), v + [b, a]
    for i in places(n):
        yield 'set %d' % i, assign(i, a), put(i, a)
        yield 'delete %d' % i, delete(i), v[:i] + v[i + 1:]
        yield 'set %d, append' % i, both(assign(i, a), append(b)), put(i, a) + [b]
        yield 'append, delete %d' % i, both(append(a), delete(i)), v[:i] + v[i + 1:] + [a]
    if n:
        yield 'set -1', assign(-1, b), put(-1, b)
        yield 'set -n', assign(-n, b), put(0, b)
        yield 'delete -1', delete(-1), v[:-1]


def record_edits(ty, v):
    n = len(ty.fields)

    def assign(name, x):
        def f(o):
            o[name] = x
        return f

    def delete(name):
        def f(o):
            del o[name]
        return f

    def with_(x, **kw):
        w = dict(x)
        w.update(kw)
        return w

    for i in places(n):
        f = ty.fields[i]
        x = field_value(i, 4) if f.opt in (None, 'optional') else 1000
        yield 'set %d' % i, assign(f.name, x), with_(v, **{f.name: x})
        yield 'set %d by index' % i, assign(i, x), with_(v, **{f.name: x})
        if f.opt:
            w = dict((k, y) for k, y in v.items() if k != f.name)
            yield 'delete %d' % i, delete(f.name), w
            j = (i + n // 2) % n
            g = ty.fields[j]
            if j != i:
                y = field_value(j, 4) if g.opt == 'optional' else 2000
                yield 'delete %d, set %d' % (i, j), lambda o, f=f, g=g, y=y: (delete(f.name)(o), assign(g.name, y)(o)), with_(w, **{g.name: y})


def sources(ty, v, n):
    yield 'built', lambda: ty.cls(ty.py(v))
    der = S.encode(n)
    yield 'DER', lambda: ty.cls.load(der)
    ber = S.encode(n, dict((id(x), 'pad2') for x in n.flat()))
    yield 'BER', lambda: ty.cls.load(ber)
    if 'indef' in n.forms() or 'chunk1' in n.forms():
        ind = S.encode(n, {id(n): 'indef' if n.kids is not None else 'chunk1'})
        yield 'indefinite', lambda: ty.cls.load(ind)


def read(o, prior, n):
    if prior == 'native':
        o.native
    elif prior == 'force':
        o.dump(force=True)
    elif prior in ('one', 'last') and len(o):
        o[len(o) // 2 if prior == 'one' else len(o) - 1].native


EDIT_SIZES = list(range(0, 13)) + [15, 16, 17, 20, 31, 32, 33, 64, 65, 127, 128]


def edit_cases(kinds, tier):
    for n, k in sorted((n, k) for k in kinds for n in (EDIT_SIZES if tier == 'quick' else SHORT) if n >= KINDS[k][2]):
        for prior in PRIOR if tier == 'thorough' or n < 13 else PRIOR[:4:3] if n > 33 else PRIOR[:4]:
            yield (k, n, prior)


def check_edit(case, rec):
    kind, size, prior = case
    ty, v = make(kind, size)
    n = ty.node(v)
    rec.state(case)
    before = S.encode(n)
    for label, source in sources(ty, v, n):
        # the elements of a SET OF that was decoded are in the order of their encodings
        w = v if label == 'built' or not isinstance(ty, SetOfT) else sorted(v, key=lambda x: S.encode(ty.ty.node(x)))
        for what, edit, after in (list_edits(kind, w) if kind in LISTS else record_edits(ty, w)):
            der = S.encode(ty.node(after))
            want = ty.native(after)
            o = source()
            read(o, prior, size)
            copy = o.copy()
            edit(o)
            rec.op(6)
            rec.outcome(label)
            where = '%s of size %d, %s, read: %s, then %s' % (kind, size, label, prior, what)
            if label in ('built', 'DER') and o.dump() != der:
                return '%s: encodes as %s, expected %s' % (where, o.dump().hex()[:300], der.hex()[:300])
            if not S.native_eq(ty.cls.load(o.dump(), strict=True).native, want):
                return '%s: encodes as %s, which is another value than %.300r' % (where, o.dump().hex()[:300], want)
            if not S.native_eq(o.native, want):
                return '%s: reads as %.300r, expected %.300r' % (where, o.native, want)
            if kind in LISTS and len(o) != len(after):
                return '%s: has %d elements, expected %d' % (where, len(o), len(after))
            if o.dump(force=True) != der:
                return '%s: forced to %s, expected %s' % (where, o.dump().hex()[:300], der.hex()[:300])
            if copy.dump(force=True) != before or not S.native_eq(copy.native, ty.native(v)):
                return '%s: the copy that was made before encodes as %s, expected %s' % (where, copy.dump().hex()[:300], before.hex()[:300])


# ------------------------------------------------------------------ wide records, sets and choices
def patterns(n):
    """which of n optional fields are there"""
    yield 'none', ()
    yield 'all', tuple(range(n))
    yield 'odd', tuple(range(1, n, 2))
    yield 'half', tuple(range(n // 2))
    yield 'other half', tuple(range(n // 2, n))
    for i in places(n):
        yield 'only %d' % i, (i,)
        yield 'all but %d' % i, tuple(j for j in range(n) if j != i)


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def wide_cases(tier):
    for n in EDIT_SIZES if tier == 'quick' else SHORT:
        if n:
            yield (n,)


def check_wide_records(case, rec):
    n, = case
    rec.state(case)
    for kind in ('opt', 'def'):
        ty = wide(kind, n)
        for what, there in patterns(n):
            v = dict(('f%d' % i, field_value(i) if kind == 'opt' else i + 1000) for i in there)
            node = ty.node(v)
            der, want = S.encode(node), ty.native(v)
            where = '%d %s fields, %s present' % (n, kind, what)
            rec.op(6)
            rec.outcome(kind)
            for made in (ty.cls(v), ty.cls(dict(reversed(list(v.items())))), ty.cls.load(der, strict=True)):
                if made.dump() != der or made.dump(force=True) != der:
                    return '%s: encodes as %s, expected %s' % (where, made.dump().hex()[:300], der.hex()[:300])
                if not S.native_eq(made.native, want) or len(made) != n:
                    return '%s: reads as %.300r, expected %.300r' % (where, made.native, want)
            one = ty.cls()
            for k in reversed(list(v)):
                one[k] = v[k]
            if v and (one.dump() != der or not S.native_eq(one.native, want)):
                return '%s, set one by one: encodes as %s, expected %s' % (where, one.dump().hex()[:300], der.hex()[:300])
            if kind == 'def':
                # the default values are written down
                full = S.encode(node, dict((id(k), 'min') for k in node.kids))
                o = ty.cls.load(full)
                if not S.native_eq(o.native, want) or o.dump() != full or o.dump(force=True) != der:
                    return '%s, all written down: reads as %.300r and is forced to %s' % (where, o.native, o.dump().hex()[:300])
    ty = wide('seq', n)
    parts = [S.encode(f.ty.node(field_value(i))) for i, f in enumerate(ty.fields)]
    for i in places(n):
        raw = ref.tlv(0, True, 16, b''.join(parts[:i] + parts[i + 1:]))
        rec.op(2)
        if not refused(lambda: ty.cls.load(raw).native):
            return '%d required fields: %s, without number %d, is accepted' % (n, raw.hex()[:300], i)
        some = dict(('f%d' % j, field_value(j)) for j in range(n) if j != i)
        if not refused(lambda: ty.cls(some).dump()):
            return '%d required fields: dump() without number %d' % (n, i)


def check_wide_sets(case, rec):
    n, = case
    rec.state(case)
    ty = wide('set', n)
    v = dict(('f%d' % i, field_value(i)) for i in range(n))
    node = ty.node(v)
    der, want = S.encode(node), ty.native(v)
    parts = [S.encode(k) for k in node.kids]
    orders = {'written': parts, 'reversed': parts[::-1], 'rotated': parts[n // 2:] + parts[:n // 2], 'rotated back': parts[::-1][1:] + parts[:0:-1][:0] + parts[::-1][:1],
              'odd first': parts[1::2] + parts[::2]}
    for name, p in orders.items():
        raw = ref.tlv(0, True, 17, b''.join(p))
        rec.op(4)
        rec.outcome(name)
        for read in (False, True):
            o = ty.cls.load(raw, strict=True)
            if read and not S.native_eq(o.native, want):
                return 'SET of %d, %s: reads as %.300r, expected %.300r' % (n, name, o.native, want)
            if o.dump() != raw or o.copy().dump(force=True) != der or o.dump(force=True) != der:
                return 'SET of %d, %s: forced to %s, expected %s' % (n, name, o.dump().hex()[:300], der.hex()[:300])
            if not S.native_eq(o.native, want):
                return 'SET of %d, %s: reads as %.300r after forcing, expected %.300r' % (n, name, o.native, want)
    for keys in (list(v), list(v)[::-1]):
        o = ty.cls()
        for k in keys:
            o[k] = v[k]
        if o.dump() != der:
            return 'SET of %d, set one by one: encodes as %s, expected %s' % (n, o.dump().hex()[:300], der.hex()[:300])
    for i in places(n):
        rec.op(3)
        raw = ref.tlv(0, True, 17, b''.join(parts[:i] + parts[i + 1:]))
        if not refused(lambda: ty.cls.load(raw).native):
            return 'SET of %d: without number %d it is accepted' % (n, i)
        raw = ref.tlv(0, True, 17, b''.join(parts + parts[i:i + 1]))
        if not refused(lambda: ty.cls.load(raw).native):
            return 'SET of %d: with number %d twice it is accepted' % (n, i)
        raw = ref.tlv(0, True, 17, b''.join(parts[:i] + [ref.ctx(n + 1, b'\x05')] + parts[i:]))
        if not refused(lambda: ty.cls.load(raw).native):
            return 'SET of %d: with an unknown element before number %d it is accepted' % (n, i)


def check_wide_choices(case, rec):
    n, = case
    rec.state(case)
    ty = wide('choice', n)
    for i in range(n) if n < 40 else places(n):
        v = ('f%d' % i, field_value(i))
        der = S.encode(ty.node(v))
        for how, o in (('named', ty.cls(*v)), ('pair', ty.cls(v)), ('dict', ty.cls(dict([v]))), ('decoded', ty.cls.load(der, strict=True))):
            rec.op(3)
            rec.outcome(how)
            if o.name != v[0] or not S.native_eq(o.native, ty.native(v)) or o.dump() != der or o.copy().name != v[0] or type(o.chosen) is not ty.alts[i].ty.cls:
                return 'alternative %d of %d, %s: is %s, %.200r, %s, expected %s' % (i, n, how, o.name, o.native, o.dump().hex()[:200], der.hex()[:200])
        cls, tag = ty.alts[i].tag[1:]
        for c in range(4):
            for t in (tag, n, n + 1, tag + 32, tag + 128, tag + 256):
                if (c, t) == (cls, tag) or t < n and (c, t) == ty.alts[t].tag[1:]:
                    continue
                one = ref.parse_one(der)[0]
                raw = ref.tlv(c, bool(one[1]), t, one[4])
                rec.op()
                if not refused(lambda: ty.cls.load(raw)):
                    return 'choice of %d: %s is accepted' % (n, raw.hex()[:200])


def tag_cases(tier):
    for n in TAGS if tier == 'quick' else sorted(set(TAGS) | set(range(0, 600))):
        yield ('number', n)
    for n in range(1, 25 if tier == 'quick' else 61):
        yield ('stack', n)


def check_tags(case, rec):
    kind, n = case
    rec.state(case)
    params = []
    if kind == 'number':
        for c in (2, 1, 3):
            params.append((dict(implicit=(S.NAMES[c], n)), [('i', c, n)]))
            params.append((dict(explicit=(S.NAMES[c], n)), [('e', c, n)]))
    else:
        st = [((2, 1, 3)[i % 3], i * 7) for i in range(n)]
        params.append((dict(explicit=tuple((S.NAMES[c], t) for c, t in st)), [('e', c, t) for c, t in st]))
    for ty, v in ((OCT, b'q'), (INT, 300), (INNER, {'x': 1}), (SeqOf(INT, values=[]), [1, 2])):
        for p, tags in params:
            node = ty.node(v)
            for t in tags:
                node = S.apply_tag(node, t)
            der = S.encode(node)
            where = '%s with %r' % (ty.name, p)
            made = ty.cls(ty.py(v), **p)
            back = ty.cls.load(der, strict=True, **p)
            rec.op(4)
            rec.outcome(kind)
            for o in (made, back, made.copy(), back.copy(), ty.cls(ty.py(v)).retag(p)):
                if o.dump() != der or o.dump(force=True) != der or not S.native_eq(o.native, ty.native(v)):
                    return '%s: encodes as %s and reads as %.200r, expected %s' % (where, o.dump().hex(), o.native, der.hex())
                if o.untag().dump() != S.encode(ty.node(v)):
                    return '%s: without tags encodes as %s' % (where, o.untag().dump().hex())
            one = ref.parse_one(der)[0]
            for d in (1, 32, 128, 256, 1 << 32):
                raw = ref.tlv(one[0], bool(one[1]), n + d if kind == 'number' else one[2] + d, one[4])
                if not refused(lambda: ty.cls.load(raw, **p)):
                    return '%s: %s is accepted' % (where, raw.hex())
            if kind == 'stack' and n > 1:
                for bad in (one[4], ref.tlv(2, True, 0, der), ref.tlv(one[0], True, one[2], der)):
                    if not refused(lambda: ty.cls.load(bad, **p)):
                        return '%s: %s is accepted' % (where, bad.hex())


def bad_edits(kind, ty, n):
    def assign(k, x):
        def f(o):
            o[k] = x
        return f

    def delete(k):
        def f(o):
            del o[k]
        return f

    if kind in LISTS:
        bads = {'list': [u'text', [1]], 'set of': [u'text'], 'records': [5, {'x': u'bad'}, {'zz': 1}, {}], 'set of strings': [5, u'text'], 'same': [5]}[kind]
        for b in bads:
            for i in places(n):
                yield 'set %d to %r' % (i, b), assign(i, b)
            yield 'append %r' % (b,), lambda o, b=b: o.append(b)
        good = new_element(kind, 0)
        for i in (n, n + 1, -n - 1):
            if i != n:                                     # (that one is the new element)
                yield 'set %d' % i, assign(i, good)
            yield 'delete %d' % i, delete(i)
    else:
        for i in places(n):
            for b in ([1], object()) if ty.fields[i].ty is not BOOL else ():
                yield 'set %d to %r' % (i, b), assign('f%d' % i, b)
            if ty.fields[i].opt is None:
                yield 'delete %d' % i, delete('f%d' % i)
        yield 'set another', assign('f%d' % n, 1)
        yield 'set by number', assign(n, 1)
        yield 'delete another', delete('f%d' % n)


def check_refused(case, rec):
    kind, size, prior = case
    ty, v = make(kind, size)
    n = ty.node(v)
    der = S.encode(n)
    rec.state(case)
    for label, source in sources(ty, v, n):
        want = source().native
        raw = source().dump()
        for what, edit in bad_edits(kind, ty, size):
            if kind in RECORDS and kind != 'fields' and what.startswith('delete') and 'another' not in what:
                continue
            o = source()
            read(o, prior, size)
            k, e = attempt(lambda: edit(o))
            rec.op(3)
            rec.outcome(type(e).__name__ if k != 'ok' else 'accepted')
            where = '%s of size %d, %s, read: %s, then %s' % (kind, size, label, prior, what)
            if k == 'ok':
                return '%s: nothing is raised' % where
            now = der if prior == 'force' else raw
            if o.dump() != now or not S.native_eq(o.native, want):
                return '%s raises %r: encodes as %s and reads as %.300r, before as %s and %.300r' % (where, e, o.dump().hex()[:300], o.native, now.hex()[:300], want)
            if o.dump(force=True) != der:
                return '%s raises %r: forced to %s, expected %s' % (where, e, o.dump().hex()[:300], der.hex()[:300])
