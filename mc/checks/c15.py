"""C15 - SET components are recognised in any order and encoded in canonical order."""
import itertools
from .. import ref, schema as S, ladder as L
from ..common import Space, bootstrap, main, attempt
from ..schema import Field, Seq, SetT, SeqOf, INT, OCT, UTF, BOOL, NULL, NINT

bootstrap()

REC = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='REC')
INSET = SetT([Field('p', UTF), Field('q', INT)], values=[{'p': u'k', 'q': 1}], name='INSET')

# components with pairwise distinct tags; sorted by tag they are b i o u r s a 0 1(e) 31 128 p
COMPS = {
    'b': (BOOL, None, [True, False], False),
    'i': (INT, None, [3, -200], 5),
    'o': (OCT, None, [b'k', b''], b'zz'),
    'u': (UTF, None, [u'v', u''], u'w'),
    'r': (REC, None, [{'x': 1}, {'x': 2, 'y': True}], {'x': 4}),
    's': (INSET, None, [{'p': u'k', 'q': 1}], None),
    'a': (INT, ('i', 1, 5), [1, 300], 0),
    '0': (OCT, ('i', 2, 0), [b'q', b''], b'd'),
    '1': (INT, ('e', 2, 1), [1, -1], 7),
    'h': (UTF, ('i', 2, 31), [u'h', u''], u'z'),
    'H': (INT, ('e', 2, 128), [8, 9], 9),
    'p': (INT, ('i', 3, 2), [2, 4], 4),
    'E': (REC, ('e', 3, 1), [{'x': 1}, {'x': 2, 'y': True}], {'x': 4}),
}
_cache = {}


def make(desc):
    if desc not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        fields = []
        for k, opt in desc:
            ty, tag, vals, dflt = COMPS[k]
            fields.append(Field('f' + k, ty, tag, {'': None, 'o': 'optional', 'd': ('default', dflt)}[opt]))
        _cache[desc] = SetT(fields, values=[{}], name=repr(desc))
    return _cache[desc]


def gen(tier):
    keys = list(COMPS)
    for n in (1, 2):
        for ks in itertools.permutations(keys, n):
            for opts in itertools.product(('', 'o', 'd'), repeat=n):
                if ok(ks, opts):
                    yield tuple(zip(ks, opts))
    pick = 'io1Hap' if tier == 'quick' else 'biors01hHapE'
    for ks in itertools.permutations(pick, 3):
        for opts in itertools.product(('', 'o', 'd'), repeat=3):
            if ok(ks, opts) and (tier != 'quick' or len(set(opts)) > 1 or opts[0] != ''):
                yield tuple(zip(ks, opts))
    for ks in itertools.permutations('u1ap' if tier == 'quick' else 'u1apr', 4):
        yield tuple(zip(ks, ('', 'o', 'd', '') if ks[2] != 's' else ('', '', '', '')))
    if tier != 'quick':
        for ks in itertools.permutations('ou1aH', 5):
            yield tuple(zip(ks, ('', 'o', 'd', 'o', '')))


def ok(ks, opts):
    return not any(o == 'd' and COMPS[k][3] is None for k, o in zip(ks, opts))


ABSENT = '<absent>'


def check(desc, rec):
    ty = make(desc)
    choices = []
    for (k, opt), f in zip(desc, ty.fields):
        vals = COMPS[k][2]
        if opt == 'o':
            choices.append([ABSENT] + vals[:2] if len(desc) < 3 else [ABSENT, vals[0]])
        elif opt == 'd':
            choices.append([ABSENT, f.opt[1], [v for v in vals if v != f.opt[1]][0]])
        else:
            choices.append(vals[:2] if len(desc) < 4 else vals[:1])
    for combo in itertools.product(*choices):
        v = dict((f.name, x) for f, x in zip(ty.fields, combo) if x != ABSENT)
        msg = one(ty, desc, v, rec)
        if msg:
            return '%r value %r: %s' % (desc, v, msg)


def enc(f, v):
    return S.encode(S.apply_tag(f.ty.node(v), f.tag))


def one(ty, desc, v, rec):
    fields = [f for f in ty.fields if f.name in v]
    wire = [(S.outer_id(enc(f, v[f.name])), f, enc(f, v[f.name])) for f in fields]
    der = [w for w in wire if not (w[1].opt and w[1].opt != 'optional' and S.der(w[1].ty, w[1].opt[1]) == S.der(w[1].ty, v[w[1].name]))]
    want = ref.u(17, b''.join(w[2] for w in sorted(der, key=lambda w: w[0])), True)
    nat = ty.native(v)
    # built, in each order of assignment
    for order in itertools.permutations(fields):
        rec.op()
        o = ty.cls(dict((f.name, f.ty.py(v[f.name])) for f in order))
        if o.dump() != want:
            return 'built in the order %s it encodes as %s instead of %s' % ([f.name for f in order], o.dump().hex(), want.hex())
        o = ty.cls()
        for f in order:
            o[f.name] = f.ty.py(v[f.name])
        if fields and o.dump() != want:
            return 'assigned in the order %s it encodes as %s instead of %s' % ([f.name for f in order], o.dump().hex(), want.hex())
        if fields and not S.native_eq(o.native, nat):
            return 'assigned in the order %s it reads as %r' % ([f.name for f in order], o.native)
    # decoded, in each order of the elements, explicit defaults included
    for perm in itertools.permutations(wire):
        raw = ref.u(17, b''.join(w[2] for w in perm), True)
        rec.op(4)
        rec.state(raw, desc)
        o = ty.cls.load(raw)
        if not S.native_eq(o.native, nat):
            return '%s reads as %r instead of %r' % (raw.hex(), o.native, nat)
        o = ty.cls.load(raw)
        for f in ty.fields:
            c = o[f.name]
            w = f.ty.native(v[f.name]) if f.name in v else (f.ty.native(f.opt[1]) if f.opt != 'optional' else None)
            if not S.native_eq(c.native, w):
                return 'in %s, %s is %r instead of %r' % (raw.hex(), f.name, c.native, w)
        if o.dump() != raw:
            return '%s is dumped as %s' % (raw.hex(), o.dump().hex())
        if o.dump(force=True) != want:
            return '%s is re-encoded as %s instead of %s' % (raw.hex(), o.dump().hex(), want.hex())
        # after a change and back
        for f in fields[:1]:
            o = ty.cls.load(raw)
            o[f.name] = f.ty.py(v[f.name])
            back = ty.cls.load(o.dump())
            if not S.native_eq(back.native, nat):
                return '%s after an assignment reads as %r' % (raw.hex(), back.native)
            if o.dump() != want:
                return '%s after an assignment encodes as %s instead of %s' % (raw.hex(), o.dump().hex(), want.hex())
        rec.outcome('decoded')
    # faults
    for perm in ([wire, wire[::-1]] if len(wire) > 1 else [wire]):
        for i in range(len(perm)):
            rec.op()
            f = perm[i][1]
            less = perm[:i] + perm[i + 1:]
            raw = ref.u(17, b''.join(w[2] for w in less), True)
            k, e = attempt(lambda: ty.cls.load(raw).native)
            if f.opt:
                v2 = dict((a, b) for a, b in v.items() if a != f.name)
                if k != 'ok' or not S.native_eq(e, ty.native(v2)):
                    return '%s reads as %r' % (raw.hex(), e)
                rec.outcome('absent')
            else:
                if k == 'ok' or not isinstance(e, (ValueError, TypeError)):
                    return '%s lacks %s, it reads as %r' % (raw.hex(), f.name, e)
                k, e = attempt(lambda: [ty.cls.load(raw)[x.name].native for x in ty.fields])
                if k == 'ok':
                    return '%s lacks %s, all fields can be read' % (raw.hex(), f.name)
                rec.outcome('missing')
            for j in range(len(perm) + 1):
                rec.op()
                dupe = perm[:j] + [perm[i]] + perm[j:]
                raw = ref.u(17, b''.join(w[2] for w in dupe), True)
                k, e = attempt(lambda: ty.cls.load(raw).native)
                if k == 'ok' or not isinstance(e, (ValueError, TypeError)):
                    return '%s has two values for %s, it reads as %r' % (raw.hex(), f.name, e)
                rec.outcome('duplicate')
        for j in range(len(perm) + 1):
            for foreign in FOREIGN:
                rec.op()
                if any(w[0] == S.outer_id(foreign) for w in perm) or any(S.outer_id(foreign) == x for x in ids(ty)):
                    continue
                raw = ref.u(17, b''.join(w[2] for w in perm[:j]) + foreign + b''.join(w[2] for w in perm[j:]), True)
                k, e = attempt(lambda: ty.cls.load(raw).native)
                if k == 'ok' or not isinstance(e, (ValueError, TypeError)):
                    return '%s has an unknown element, it reads as %r' % (raw.hex(), e)
                rec.outcome('unknown')


def ids(ty):
    for f in ty.fields:
        yield S.outer_id(enc(f, COMPS[f.name[1:]][2][0]))


FOREIGN = [ref.u(5, b''), ref.tlv(2, False, 2, b'\x01'), ref.tlv(2, False, 5, b'\x01'), ref.tlv(1, False, 2, b'\x01'), ref.tlv(3, True, 5, b''),
           ref.tlv(1, False, 0, b''), ref.tlv(2, False, 128, b'\x01')]

SPACES = [Space('sets', gen, check, 'all ordered selections of 1-4 (5) of 13 components (universal, application, context, private; low and high tag numbers; implicit '
                'and explicit) x required/optional/default x all presence subsets x all orders of assignment and of elements; removals, duplicates, unknown elements'),
    Space('sizes', L.wide_cases, L.check_wide_sets, 'sets of 1-128 components x 5 orders; each of them missing, twice, or unknown'),
]


def run(argv):
    return main('C15', SPACES, ['CHOICE components of a SET are not supported by the library and not claimed'], argv)
