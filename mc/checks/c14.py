"""C14 - optional and default fields are matched to the right elements, for every subset."""
import itertools
from .. import ref, schema as S, ladder as L
from ..common import Space, bootstrap, main, attempt
from ..schema import Field, Seq, SeqOf, Choice, INT, OCT, UTF, BOOL, NULL, NINT, ANY

bootstrap()

REC = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='REC')
CHO = Choice([Field('s', UTF), Field('t', INT, ('i', 2, 7)), Field('r', REC, ('e', 2, 8))], name='CHO')
# kind -> (type, values, default)
KINDS = {
    'I': (INT, [3, -129], 5),
    'O': (OCT, [b'k', b''], b'zz'),
    'R': (REC, [{'x': 1}, {'x': 2, 'y': True}], {'x': 4}),
    'L': (SeqOf(INT, [[], [7]]), [[], [1, 2]], [7]),
    'C': (CHO, [('s', u'v'), ('t', 6), ('r', {'x': 3})], None),
    'D': (Choice([Field('s', UTF), Field('n', INT), Field('r', REC)], name='CHO2'), [('s', u'v'), ('n', 6), ('r', {'x': 3})], None),
    'A': (ANY, [('UTF', u'a'), ('NULL', None)], None),
    'B': (BOOL, [True, False], False),
}


def field_options(pos, kinds, tags):
    for k in kinds:
        for opt in ('', 'o', 'd'):
            if opt == 'd' and KINDS[k][2] is None:
                continue
            for t in tags:
                if t[:1] in ('i', 'a') and k in 'CDA':
                    continue
                yield (k, opt, t)


_cache = {}


def make(desc):
    """desc: tuple of (kind, opt, tag); tag '' or e.g. 'i0' 'e1' (x: the position), 'a0' and 'A0': implicit and explicit, application class"""
    if desc not in _cache:
        if len(_cache) > 2000:
            _cache.clear()
        fields = []
        for i, (k, opt, t) in enumerate(desc):
            ty, vals, dflt = KINDS[k]
            tag = ({'a': 'i', 'A': 'e'}.get(t[0], t[0]), 2 if t[0] in 'ie' else 1, i if t[1] == 'x' else int(t[1])) if t else None
            fields.append(Field('f%d' % i, ty, tag, {'': None, 'o': 'optional', 'd': ('default', dflt)}[opt]))
        _cache[desc] = Seq(fields, values=[{}], name=repr(desc))
    return _cache[desc]


ABSENT = '<absent>'
UNKNOWN = '<unknown>'


def values_of(f, kind):
    vals = KINDS[kind][1]
    if f.opt == 'optional':
        return [ABSENT] + vals
    if f.opt:
        return [ABSENT, f.opt[1]] + vals[:1]
    return vals[:2]


def element(f, v):
    return S.encode(S.apply_tag(f.ty.node(v), f.tag))


# ------------------------------------------------------------------ reference matcher
def ids_of(f):
    """None: any element"""
    if f.tag:
        return {(f.tag[1], f.tag[2])}
    if f.ty is ANY:
        return None
    if isinstance(f.ty, Choice):
        return set(x for a in f.ty.alts for x in ids_of(a))
    n = f.ty.node(f.ty.values[0])
    return {(n.cls, n.tag)}


def match(fields, elements):
    """elements: list of ((cls, tag), tag of the thing for reporting).  -> (dict field index -> element index, extras) or None"""
    out, extras = {}, []
    fi = 0
    for ei, (eid, _) in enumerate(elements):
        while fi < len(fields):
            ids = ids_of(fields[fi])
            if ids is None or eid in ids:
                break
            if not fields[fi].opt:
                return None
            fi += 1
        if fi < len(fields):
            out[fi] = ei
            fi += 1
        else:
            extras.append(ei)
    for j in range(fi, len(fields)):
        if not fields[j].opt:
            return None
    return out, extras


FOREIGN = [('null', ref.u(5, b''), (0, 5)), ('ctx9', ref.tlv(2, False, 9, b'\x01'), (2, 9)), ('int', ref.u(2, b'\x09'), (0, 2)),
           ('ctx0', ref.tlv(2, False, 0, b'\x01'), (2, 0)), ('app0', ref.expl(0, ref.integer(9), 1), (1, 0)),
           ('ctx0c', ref.expl(0, ref.integer(9)), (2, 0))]


def gen(tier):
    two = list(field_options(0, 'IORLCAB', ('', 'ix', 'ex')))
    for a in two:
        yield (a,)
        for b in two:
            yield (a, b)
    # the same number in different classes
    same = list(field_options(0, 'ICDR', ('i0', 'e0', 'a0', 'A0')))
    for d in itertools.product(same, repeat=2):
        yield d
    # three fields
    kinds3, tags3 = ('IOC', ('', 'ix')) if tier == 'quick' else ('IORCA', ('', 'ix', 'ex'))
    three = list(field_options(0, kinds3, tags3))
    for d in itertools.product(three, repeat=3):
        if tier != 'quick' and sum(1 for x in d if x[2]) > 2:
            continue
        yield d
    if tier != 'quick':
        # four fields, all of them optional or default but one
        four = list(field_options(0, 'IO', ('', 'i0', 'ix')))
        for d in itertools.product(four, repeat=4):
            yield d


def check(desc, rec):
    ty = make(desc)
    fields = ty.fields
    combos = list(itertools.product(*[values_of(f, k[0]) for f, k in zip(fields, desc)]))
    if len(desc) > 2:
        # enough: each field absent / first value / second value, all subsets
        combos = list(itertools.product(*[values_of(f, k[0])[:2] + ([values_of(f, k[0])[2]] if f.opt and f.opt != 'optional' else [])
                                          for f, k in zip(fields, desc)]))
    for combo in combos:
        v = dict((f.name, x) for f, x in zip(fields, combo) if x != ABSENT)
        msg = one_value(ty, desc, v, rec)
        if msg:
            return '%r value %r: %s' % (desc, v, msg)
    return None


def one_value(ty, desc, v, rec):
    fields = ty.fields
    wire = []
    for i, f in enumerate(fields):
        if f.name in v:
            e = element(f, v[f.name])
            wire.append((S.outer_id(e), i, e, v[f.name]))
    # DER: values equal to the default are left out
    der = [w for w in wire if not is_default(fields[w[1]], w[3])]
    want = ref.u(16, b''.join(w[2] for w in der), True)
    # 1. built from a dict
    rec.op(2)
    o = ty.cls(ty.py(v))
    got = o.dump()
    if got != want:
        return 'encodes as %s instead of %s' % (got.hex(), want.hex())
    m = match(fields, [(w[0], None) for w in der])
    faithful = m is not None and m[0] == dict((w[1], n) for n, w in enumerate(der)) and not m[1]
    if faithful:
        msg = decode(ty, want, dict((w[1], w[3]) for w in der), [], rec)
        if msg:
            return msg
        if ty.cls.load(want).dump(force=True) != want:
            return '%s is re-encoded as %s' % (want.hex(), ty.cls.load(want).dump(force=True).hex())
        rec.outcome('round trip')
    # 2. element faults on the wire form (explicit defaults included)
    base = wire
    muts = [base]
    for i in range(len(base)):
        muts.append(base[:i] + base[i + 1:])
        muts.append(base[:i + 1] + base[i:])
        if i:
            muts.append(base[:i - 1] + [base[i], base[i - 1]] + base[i + 1:])
    for i in range(len(base) + 1):
        for name, raw, eid in FOREIGN:
            muts.append(base[:i] + [(eid, None, raw, None)] + base[i:])
    for mt in muts:
        msg = faulty(ty, mt, rec)
        if msg:
            return msg
    return None


def is_default(f, v):
    return bool(f.opt) and f.opt != 'optional' and S.der(f.ty, f.opt[1]) == S.der(f.ty, v)


def faulty(ty, wire, rec):
    fields = ty.fields
    m = match(fields, [(w[0], None) for w in wire])
    raw = ref.u(16, b''.join(w[2] for w in wire), True)
    if m is None:
        rec.outcome('refused')
        rec.op()
        k, e = attempt(lambda: ty.cls.load(raw).native)
        if k == 'ok':
            return 'the elements %s do not match the fields, they read as %r' % (raw.hex(), e)
        if not isinstance(e, (ValueError, TypeError)):
            return 'the elements %s raise %r' % (raw.hex(), e)
        # the refusal does not depend on what is read first
        k, e = attempt(lambda: deep_read(ty.cls.load(raw)))
        if k == 'ok':
            return 'the elements %s do not match the fields, all of them can be read' % raw.hex()
        return None
    assign, extras = m
    vals = {}
    for fi, ei in assign.items():
        w = wire[ei]
        if w[1] is None or (w[1] != fi and (fields[w[1]].ty is not fields[fi].ty or fields[w[1]].tag != fields[fi].tag)):
            # an element made for something else took the place: only claim which element it is
            vals[fi] = UNKNOWN
        else:
            vals[fi] = w[3]
    if UNKNOWN in vals.values():
        rec.op()
        rec.outcome('reassigned')
        o = ty.cls.load(raw)
        for fi, ei in assign.items():
            k, c = attempt(lambda: o[fields[fi].name])
            if k == 'ok' and c.dump() != wire[ei][2]:
                return 'in %s, field %d is %s instead of %s' % (raw.hex(), fi, c.dump().hex(), wire[ei][2].hex())
            if k == 'err' and not isinstance(c, (ValueError, TypeError)):
                return 'in %s, field %d raises %r' % (raw.hex(), fi, c)
        return None
    return decode(ty, raw, vals, [wire[e][2] for e in extras], rec)


def deep_read(o):
    for i in range(len(o)):
        o[i].native


def decode(ty, raw, vals, extras, rec):
    """raw decodes to exactly these fields"""
    rec.op(3)
    rec.state(raw, tuple(sorted(vals)))
    want = {}
    for i, f in enumerate(ty.fields):
        if i in vals:
            want[f.name] = f.ty.native(vals[i])
        elif f.opt and f.opt != 'optional':
            want[f.name] = f.ty.native(f.opt[1])
        else:
            want[f.name] = None
    # an element of another class that no field stands for can not be decoded, only kept
    opaque = any(x[:1] > b'\x3f' for x in extras)
    for order in (0, 1):
        o = ty.cls.load(raw)
        if order == 0 and not opaque:
            n = o.native
            if list(n)[:len(want)] != list(want) or len(n) != len(want) + len(extras):
                return '%s reads as %r' % (raw.hex(), n)
            for k in want:
                if not S.native_eq(n[k], want[k]):
                    return 'in %s, field %s reads as %r instead of %r' % (raw.hex(), k, n[k], want[k])
        for k in want:
            c = o[k].native
            if not S.native_eq(c, want[k]):
                return 'in %s, field %s is %r instead of %r' % (raw.hex(), k, c, want[k])
        for j, x in enumerate(extras if not opaque else ()):
            if o[len(want) + j].dump() != x:
                return 'in %s, the extra element %d is %s' % (raw.hex(), j, o[len(want) + j].dump().hex())
        if len(o) != len(want) + len(extras):
            return '%s has %d fields' % (raw.hex(), len(o))
        if o.dump() != raw:
            return '%s is dumped as %s' % (raw.hex(), o.dump().hex())
    rec.outcome('decoded')
    return None


SPACES = [Space('schemas', gen, check, 'all records of 1-3 (4) fields of 7 kinds x required/optional/default x tagging, every presence subset, built, '
                'decoded, and with every single removal, duplication, swap and insertion of an element'),
    Space('sizes', L.wide_cases, L.check_wide_records, 'records of 1-128 fields x 15 patterns of presence, built, set one by one, read; each of them missing or out of order'),
]


def run(argv):
    return main('C14', SPACES, ['fields are matched greedily in order (X.680 requires tags for which this is unambiguous)',
                                'elements after the last field are kept (the library supports extensible structures)'], argv)
