"""C18 - a copy is equal to, and independent of, its original."""
import contextlib
import copy
import io
import itertools
import pickle
from .. import ref, schema as S, hist as H, corpus, ladder as L
from ..common import Space, bootstrap, main, attempt, Violation
from ..schema import Field, Seq, SetT, SeqOf, SetOfT, Choice, INT, OCT, UTF, BOOL, NULL, BITS
from . import c12, c13

bootstrap()
from asn1crypto import core  # noqa
import importlib  # noqa

TYPES = dict(S.FAMILY)
TYPES['ANY'] = S.ANY
TAGS = [(), (('i', 2, 0),), (('e', 1, 31),), (('e', 2, 0), ('e', 3, 200))]


def params(tags):
    if not tags:
        return {}
    t = tuple((S.NAMES[c], n) for _, c, n in tags)
    return {'implicit' if tags[0][0] == 'i' else 'explicit': t[0] if len(t) == 1 else t}


def walk(o):
    if isinstance(o, (core.Sequence, core.SequenceOf)):
        for i in range(len(o)):
            yield from walk(o[i])
    elif isinstance(o, core.Choice):
        yield from walk(o.chosen)
    yield o


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


READS = {
    'native': lambda o: o.native,
    'dump': lambda o: o.dump(),
    'force': lambda o: o.dump(force=True),
    'walk': lambda o: [x.native for x in walk(o)],
    'first': lambda o: o[0] if isinstance(o, (core.Sequence, core.SequenceOf)) and len(o) else None,
    'repr': lambda o: (repr(o), str(o)),
    'debug': lambda o: quiet(o.debug),
    'eq': lambda o: o == o,
    'copy': lambda o: o.copy(),
    'parsed': lambda o: o.parsed if hasattr(o, 'parsed') else None,
}
COPIES = {
    'copy()': lambda o: o.copy(),
    'deepcopy': copy.deepcopy,
    'deep2': lambda o: copy.deepcopy([o, o])[1],
    'copy.copy': copy.copy,
    'pickle': lambda o: PICKLED(o),
    'twice': lambda o: o.copy().copy(),
}


def PICKLED(o):
    return pickle.loads(pickle.dumps(o, 2))


class Reg(object):
    """classes made at run time must be found by pickle under a name of a module"""
    n = 0


def register(cls):
    import sys
    mod = sys.modules[__name__]
    if getattr(mod, cls.__name__, None) is cls and cls.__module__ == __name__:
        return cls
    Reg.n += 1
    cls.__module__ = __name__
    cls.__name__ = cls.__qualname__ = 'Dyn%d' % Reg.n
    setattr(mod, cls.__name__, cls)
    return cls


_done = set()


def reg_all(cls):
    if cls in _done:
        return
    _done.add(cls)
    if cls.__module__ in ('mc.schema', 'mc.ladder') and cls.__name__ in ('X', 'Flags'):
        register(cls)


def tags_of(o):
    if isinstance(o, core.Choice):
        return o.explicit
    return (o.class_, o.tag, o.implicit, o.explicit)


def gen_shapes(tier):
    k = 1 if tier == 'quick' else 2
    reads = [()] + [(r,) for r in READS] + ([] if tier == 'quick' else list(itertools.permutations(READS, 2)))
    for name in TYPES:
        for tags in TAGS:
            if tags and tags[0][0] == 'i' and isinstance(TYPES[name], (Choice, S.AnyT)):
                continue
            for rd in reads:
                yield (name, tags, rd, k if len(rd) < 2 else 1)


def check_shapes(case, rec):
    name, tags, reads, k = case
    ty = TYPES[name]
    p = params(tags)
    reg_all(ty.cls)
    for v in ty.values:
        n = ty.node(v)
        for t in tags:
            n = S.apply_tag(n, t)
        der = S.encode(n)
        nat = ty.native(v)
        sources = [('built', None, False)] + [(S.encode(n, fm), fm, S.uses_indef(n, fm)) for fm in S.variant_forms(n, k)]
        for raw, fm, indef in sources:
            for ck in COPIES:
                rec.op(6)
                o = ty.cls(ty.py(v), **dict(p)) if fm is None else ty.cls.load(raw, **dict(p))
                for r in reads:
                    READS[r](o)
                where = '%s %r tagged %r (%s) after %r' % (name, v, p, raw if fm is None else raw.hex(), reads)
                c = COPIES[ck](o)
                if c is o:
                    return '%s: %s is the same object' % (where, ck)
                if type(c) is not type(o) and not isinstance(ty, S.AnyT):
                    return '%s: %s is a %s' % (where, ck, type(c).__name__)
                if tags_of(c) != tags_of(o) and not isinstance(ty, S.AnyT):
                    return '%s: %s has the tags %r instead of %r' % (where, ck, tags_of(c), tags_of(o))
                if not S.native_eq(c.native, nat):
                    return '%s: %s reads as %r instead of %r' % (where, ck, c.native, nat)
                cd = c.dump()
                od = o.dump()
                if not S.native_eq(o.native, nat):
                    return '%s: the original reads as %r after %s' % (where, o.native, ck)
                if fm is None or not fm or 'force' in reads:
                    if cd != der or od != der:
                        return '%s: %s encodes as %s, the original as %s, DER is %s' % (where, ck, cd.hex(), od.hex(), der.hex())
                elif not indef and od != raw:
                    return '%s: the original encodes as %s after %s' % (where, od.hex(), ck)
                elif not indef and ref.parse_one(cd)[0][4] != ref.parse_one(raw)[0][4] and not tags and not isinstance(ty, Choice):
                    # the header may be written anew, the contents not
                    return '%s: %s encodes as %s' % (where, ck, cd.hex())
                if c.dump(force=True) != der:
                    return '%s: %s re-encodes as %s instead of %s' % (where, ck, c.dump().hex(), der.hex())
                if not S.native_eq(ty.cls.load(cd, strict=True, **dict(p)).native, nat):
                    return '%s: %s encodes as %s, which is another value' % (where, ck, cd.hex())
                rec.outcome(ck)
            rec.state(raw)
    return None


# ------------------------------------------------------------------ children of containers
def gen_kids(tier):
    for name in TYPES:
        for rd in [()] + [(r,) for r in READS]:
            yield (name, rd)


def paths(ty, v, here=()):
    yield here
    if isinstance(ty, Seq):
        for f in ty.fields:
            if f.name in v:
                yield from paths(f.ty, v[f.name], here + (f.name,))
    elif isinstance(ty, SeqOf):
        for i, x in enumerate(v):
            yield from paths(ty.ty, x, here + (i,))
    elif isinstance(ty, Choice):
        yield from paths(ty.alt(v[0]).ty, v[1], here + ('<chosen>',))


def step(o, path):
    for p in path:
        o = o.chosen if p == '<chosen>' else o[p]
    return o


def check_kids(case, rec):
    name, reads = case
    ty = TYPES[name]
    for v in ty.values:
        n = ty.node(v)
        der = S.encode(n)
        vv = H.resort(ty, H.norm(ty, v))
        for path in paths(ty, vv):
            if not path:
                continue
            for built in (0, 1):
                for ck in COPIES:
                    rec.op(3)
                    o = ty.cls(ty.py(v)) if built else ty.cls.load(der)
                    for r in reads:
                        READS[r](o)
                    child = step(o, path)
                    reg_all(type(child))
                    c = COPIES[ck](child)
                    if c.dump() != child.dump() or not S.native_eq(c.native, S_native(child)) or tags_of(c) != tags_of(child):
                        return '%s %r at %r after %r: %s is %s %r %r, the original %s %r %r' % (
                            name, v, path, reads, ck, c.dump().hex(), c.native, tags_of(c), child.dump().hex(), child.native, tags_of(child))
                    # put it back: nothing changes
                    par = step(o, path[:-1])
                    if path[-1] != '<chosen>':
                        par[path[-1]] = c
                        if o.dump() != der and not has_setof(ty):
                            return '%s %r at %r after %r: assigning %s of the value makes it %s' % (name, v, path, reads, ck, o.dump().hex())
                        if o.dump(force=True) != der:
                            return '%s %r at %r after %r: assigning %s of the value makes it %s' % (name, v, path, reads, ck, o.dump().hex())
                        if c.dump() != child.dump():
                            return '%s %r at %r: the copy is %s after it was assigned' % (name, v, path, c.dump().hex())
                    rec.outcome(ck)
            rec.state(name, path)


def S_native(o):
    return o.native


def has_setof(ty):
    if isinstance(ty, SetOfT):
        return True
    if isinstance(ty, Seq):
        return any(has_setof(f.ty) for f in ty.fields)
    if isinstance(ty, SeqOf):
        return has_setof(ty.ty)
    if isinstance(ty, Choice):
        return any(has_setof(f.ty) for f in ty.alts)
    return False


# ------------------------------------------------------------------ independence
MUT = ('set', 'setobj', 'del', 'append')


def systems():
    out = {}
    for name in c12.SCHEMAS:
        out[name] = (c12.SCHEMAS[name], dict(c12.inits(name)), c12.OPS[name])
    for name in c13.LISTS:
        out['L' + name] = (c13.LISTS[name][0], dict(x for x in c13.inits(name) if x[0] != 'none'), c13.ops(name))
    return out


SYSTEMS = systems()


def gen_indep(tier):
    pre = 1 if tier == 'quick' else 2
    for name, (ty, inits, ops) in SYSTEMS.items():
        for label in inits:
            if tier == 'quick' and label not in ('built1', 'der1', 'indef1', 'built0', 'der0', 'built2', 'der2'):
                continue
            menu = [i for i, o in enumerate(ops) if o[0] not in ('copy', 'bad', 'has')]
            yield (name, label, (), 2)
            for h in menu:
                yield (name, label, (h,), 1)
            if pre == 2:
                for h in itertools.product(menu, repeat=2):
                    yield (name, label, h, 1)


def check_indep(case, rec):
    name, label, hist, post = case
    ty, inits, ops = SYSTEMS[name]
    make = inits[label]
    muts = [i for i, o in enumerate(ops) if o[0] in MUT and o[1][:1] != ('<handle>',)] + [i for i, o in enumerate(ops) if o[0] in ('force', 'native', 'dump')]
    handles = [i for i, o in enumerate(ops) if o[0] in MUT and o[1][:1] == ('<handle>',)]

    def pair(deep):
        a = make()
        for i in hist:
            a.do(ops[i])
        if not H.complete(a.ty, a.m):
            raise H.NotEnabled()
        b = type(a)(ty, [lambda o: o.copy(), copy.deepcopy, lambda o: o.untag(), lambda o: o.retag({})][deep](a.obj), H.resort(ty, H.dup(a.m)), a.ber)
        return a, b
    try:
        pair(0)
    except H.NotEnabled:
        return None
    except Violation:
        return None  # reported by the checks of the histories
    seqs = []
    for d in range(1, post + 1):
        for sides in itertools.product((0, 1), repeat=d):
            for ms in itertools.product(muts + handles, repeat=d):
                seqs.append(tuple(zip(sides, ms)))
    for seq in seqs:
        for w in range(3 if len(seq) == 1 else 2):
            # untag() and retag() copy as well
            x = pair(w if w < 2 else 2 + len(hist) % 2)
            try:
                for side, i in seq:
                    x[side].do(ops[i])
                    rec.op()
            except H.NotEnabled:
                break
            for side in (1, 0) if w % 2 else (0, 1):
                try:
                    x[side].observe(w % 2)
                except Exception as e:
                    raise Violation('%s: the %s of %s %s after %r, then %r: %s: %s' % (
                        name, 'copy' if side else 'original', label, name, [ops[i] for i in hist],
                        [('copy' if s else 'original', ops[i]) for s, i in seq], type(e).__name__, e))
            rec.outcome(ops[seq[-1][1]][0])
    rec.state(name, label, hist)


# ------------------------------------------------------------------ primitives, and values with settings of their own
class Flags(core.BitString):
    _map = {0: 'a', 1: 'b', 9: 'j'}


class IntMap(core.Integer):
    _map = {1: 'one', 2: 'two'}


class OidMap(core.ObjectIdentifier):
    _map = {'1.2.3': 'x', '1.2.4': 'y'}


def wide_octets(v):
    o = core.IntegerOctetString(v)
    o.set_encoded_width(5)
    return o


def parsed_octets(cls, spec, v):
    o = cls(spec(v).dump())
    o.parse(spec)
    return o


def parsed_any(spec, v):
    o = wire_any(spec(v).dump())
    o.parse(spec)
    return o


class Cat(core.Concat):
    _child_specs = [core.Integer, S.INNER.cls]


class HasAny(core.Sequence):
    _fields = [('a', core.Any)]


def wire_any(der):
    return HasAny.load(ref.seq(der))['a']


def utc(s):
    return core.UTCTime.load(ref.u(23, s))


def chunked(cls, tag, *parts):
    return cls.load(ref.indef(0, tag, b''.join(ref.u(tag, p) for p in parts)))


import datetime  # noqa
DT = datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)
# name -> (makers, mutations)
PRIMS = {
    'Integer': ([lambda: core.Integer(5), lambda: core.Integer.load(b'\x02\x02\x00\x05')], [lambda o: o.set(300)]),
    'IntMap': ([lambda: IntMap('one'), lambda: IntMap.load(b'\x02\x01\x07')], [lambda o: o.set('two'), lambda o: o.set(9)]),
    'Enum': ([lambda: S.En('red'), lambda: S.En.load(b'\x0a\x01\x01')], [lambda o: o.set('green')]),
    'Boolean': ([lambda: core.Boolean(True), lambda: core.Boolean.load(b'\x01\x01\x01')], [lambda o: o.set(False)]),
    'Null': ([lambda: core.Null(), lambda: core.Null.load(b'\x05\x00')], []),
    'Oid': ([lambda: OidMap('x'), lambda: OidMap('1.2.4'), lambda: OidMap.load(b'\x06\x03\x2a\x03\x04')], [lambda o: o.set('y'), lambda o: o.set('2.999.1')]),
    'RelOid': ([lambda: core.RelativeOid('8571.3')], [lambda o: o.set('1.2')]),
    'Octets': ([lambda: core.OctetString(b'ab'), lambda: chunked(core.OctetString, 4, b'a', b'b', b'')], [lambda o: o.set(b'zz'), lambda o: o.set(b'')]),
    'IntOctets': ([lambda: core.IntegerOctetString(5), lambda: wide_octets(5), lambda: core.IntegerOctetString.load(b'\x04\x03\x00\x00\x05'),
                   lambda: chunked(core.IntegerOctetString, 4, b'\x00', b'\x05')], [lambda o: o.set(7), lambda o: o.set_encoded_width(9)]),
    'IntBits': ([lambda: core.IntegerBitString(5), lambda: core.IntegerBitString.load(b'\x03\x03\x04\x00\x50'),
                 lambda: chunked(core.IntegerBitString, 3, b'\x00\x01', b'\x04\x50')], [lambda o: o.set(7)]),
    'OctetBits': ([lambda: core.OctetBitString(b'ab'), lambda: chunked(core.OctetBitString, 3, b'\x00a', b'\x00b'), lambda: core.OctetBitString.load(b'\x03\x02\x05\xa0'),
                   lambda: chunked(core.OctetBitString, 3, b'\x00a', b'\x03\x68')], [lambda o: o.set(b'q')]),
    'Bits': ([lambda: core.BitString((1, 0, 1)), lambda: core.BitString.load(b'\x03\x02\x05\xa0'), lambda: chunked(core.BitString, 3, b'\x00\x01', b'\x04\x50')],
             [lambda o: o.set((1,)), lambda o: o.set(())]),
    'Flags': ([lambda: Flags(set(['b', 'j'])), lambda: Flags.load(b'\x03\x02\x05\xa0')], [lambda o: o.set(set(['a'])), lambda o: o.__setitem__('a', True), lambda o: o.__setitem__('b', False)]),
    'POctets': ([lambda: core.ParsableOctetString(b'\x02\x01\x05'), lambda: parsed_octets(core.ParsableOctetString, core.Integer, 5),
                 lambda: parsed_octets(core.ParsableOctetString, S.INNER.cls, {'x': 1}), lambda: core.ParsableOctetString(parsed=core.Integer(4)),
                 lambda: chunked(core.ParsableOctetString, 4, b'\x02', b'\x01\x05')],
                [lambda o: o.set(b'\x05\x00'), lambda o: o.parse(core.Integer), lambda o: mutate_parsed(o)]),
    'PBits': ([lambda: core.ParsableOctetBitString(b'\x02\x01\x05'), lambda: parsed_octets(core.ParsableOctetBitString, S.INNER.cls, {'x': 1})],
              [lambda o: o.set(b'\x05\x00'), lambda o: o.parse(core.Integer), lambda o: mutate_parsed(o)]),
    'Any': ([lambda: core.Any(core.Integer(5)), lambda: parsed_any(S.INNER.cls, {'x': 1}), lambda: wire_any(b'\x02\x01\x05'), lambda: core.Any(S.INNER.cls({'x': 1}))],
            [lambda o: o.parse(core.Integer), lambda o: mutate_parsed(o)]),
    'UTF8': ([lambda: core.UTF8String(u'h\xe9'), lambda: chunked(core.UTF8String, 12, b'h\xc3', b'\xa9')], [lambda o: o.set(u'')]),
    'Teletex': ([lambda: core.TeletexString(u'a'), lambda: core.TeletexString.load(b'\x14\x01a')], [lambda o: o.set(u'b')]),
    'BMP': ([lambda: core.BMPString(u'a')], [lambda o: o.set(u'b')]),
    'UTC': ([lambda: core.UTCTime(DT), lambda: utc(b'2001020304Z'), lambda: utc(b'200102030405+0130'), lambda: chunked(core.UTCTime, 23, b'200102', b'030405Z')],
            [lambda o: o.set(DT.replace(year=1999))]),
    'Gen': ([lambda: core.GeneralizedTime(DT), lambda: core.GeneralizedTime.load(ref.u(24, b'00000102030405Z')), lambda: core.GeneralizedTime.load(ref.u(24, b'2020010203.5+01'))],
            [lambda o: o.set(DT.replace(year=1999))]),
    'Void': ([lambda: core.Void()], []),
    'ListSpec': ([lambda: core.SequenceOf([1, 2], spec=core.Integer), lambda: core.SequenceOf.load(b'\x30\x03\x02\x01\x05', spec=core.Integer)],
                 [lambda o: o.append(7), lambda o: o.__setitem__(0, 9), lambda o: o.__delitem__(0)]),
    'SetOfSpec': ([lambda: core.SetOf([1, 2], spec=core.Integer), lambda: core.SetOf.load(b'\x31\x03\x02\x01\x05', spec=core.Integer)],
                  [lambda o: o.append(7), lambda o: o.__setitem__(0, 9), lambda o: o.__delitem__(0)]),
    'Seq': ([lambda: core.Sequence.load(b'\x30\x03\x02\x01\x05')], []),
    'Concat': ([lambda: Cat.load(b'\x02\x01\x05\x30\x03\x02\x01\x05'), lambda: Cat([core.Integer(5), S.INNER.cls({'x': 1})])],
               [lambda o: o.__setitem__(0, core.Integer(7))] ),
}


def mutate_parsed(o):
    x = o.parsed
    if isinstance(x, core.Integer):
        x.set(77)
    elif isinstance(x, core.Sequence) and len(x) and x._fields:
        x['x'] = 99
    o.dump(force=True)


def snap(o):
    """everything there is to see"""
    out = [attempt(lambda: o.dump())]
    if not isinstance(o, core.Concat):
        out += [attempt(lambda: o.native), tags_of(o), o.contents if not isinstance(o, core.Any) else None]
    else:
        out += [[x.native for x in o]]
    for a in ('dotted', 'unused_bits', 'name'):
        if hasattr(type(o), a):
            out.append(attempt(getattr, o, a))
    if isinstance(o, (core.SequenceOf, core.Concat)):
        out.append([x.native for x in o])
    if isinstance(o, core.SequenceOf):
        out.append(o.spec())
    if hasattr(type(o), '__int__'):
        out.append(int(o))
    if isinstance(o, (core.OctetString, core.OctetBitString)) and not isinstance(o, core.Concat):
        out.append(bytes(o))
    return [str(x) if isinstance(x, tuple) and x[:1] == ('err',) else x for x in out]


def more(o):
    """what forced re-encoding and further use say"""
    if isinstance(o, core.Void):
        return None
    out = [o.dump(force=True)]
    if isinstance(o, (core.SequenceOf,)):
        o.append(3)
        out.append(o.dump())
    if isinstance(o, core.IntegerOctetString):
        o.set(6)
        out.append(o.dump())
    return out


def gen_prims(tier):
    for name in PRIMS:
        makers, muts = PRIMS[name]
        for i in range(len(makers)):
            for rd in [()] + [(r,) for r in READS] + list(itertools.permutations(['native', 'dump', 'force', 'parsed', 'repr'], 2)):
                yield (name, i, rd)


def check_prims(case, rec):
    name, i, reads = case
    makers, muts = PRIMS[name]

    def make():
        o = makers[i]()
        if name == 'Concat':
            return o
        for r in reads:
            READS[r](o)
        return o
    if name == 'Concat' and reads:
        return None
    kinds = dict(COPIES)
    if name in ('POctets', 'PBits', 'Any', 'ListSpec', 'SetOfSpec', 'IntOctets', 'Void', 'Concat', 'IntBits', 'Bits', 'Octets', 'OctetBits', 'UTF8', 'UTC'):
        # the encoding is all that pickling keeps
        kinds.pop('pickle')
    for ck, f in kinds.items():
        o = make()
        before = snap(make())
        c = f(o)
        rec.op(3)
        if snap(c) != before:
            return '%s %d after %r: %s is %r instead of %r' % (name, i, reads, ck, snap(c), before)
        if snap(o) != before:
            return '%s %d after %r: the original is %r after %s instead of %r' % (name, i, reads, snap(o), ck, before)
        if ck not in ('pickle', 'copy.copy'):
            a, b = more(f(make())), more(make())
            if a != b:
                return '%s %d after %r: %s re-encodes as %r instead of %r' % (name, i, reads, ck, a, b)
        rec.outcome(ck)
        if ck in ('copy.copy',):
            continue
        for k, m in enumerate(muts):
            for side in (0, 1):
                o = make()
                c = f(o)
                x, y = (o, c) if side else (c, o)
                want = make()
                if ck == 'pickle':
                    want = f(want)
                kk, e = attempt(m, want)
                # pickling drops what an object was told about its value
                kk2, e2 = attempt(m, x)
                rec.op(4)
                if kk != kk2:
                    return '%s %d after %r and %s: mutation %d of the %s gives %r instead of %r' % (name, i, reads, ck, k, 'original' if side else 'copy', e2, e)
                if snap(x) != snap(want):
                    return '%s %d after %r and %s: mutation %d makes the %s %r instead of %r' % (name, i, reads, ck, k, 'original' if side else 'copy', snap(x), snap(want))
                if snap(y) != before:
                    return '%s %d after %r: mutation %d of the %s changes the other from %r to %r' % (name, i, reads, k, 'original' if side else 'copy', before, snap(y))
        rec.state(name, i, ck)


# ------------------------------------------------------------------ the structures of the library
def gen_lib(tier):
    for cls, f in corpus.entries():
        for state in ('fresh', 'native', 'walk', 'props'):
            for ck in ('copy()', 'copy.copy', 'pickle', 'untag()'):
                yield (cls, f, state, ck)


def props(o):
    for a in sorted(dir(type(o))):
        if not a.startswith('_') and isinstance(getattr(type(o), a), property):
            attempt(getattr, o, a)


def lib_walk(o, f, depth=0):
    if depth > 30:
        return
    f(o)
    if isinstance(o, (core.Sequence, core.SequenceOf)):
        for i in range(len(o)):
            lib_walk(o[i], f, depth + 1)
    elif isinstance(o, core.Choice):
        lib_walk(o.chosen, f, depth + 1)
    elif isinstance(o, (core.Any, core.ParsableOctetString)) and getattr(o, '_parsed', None) is not None:
        lib_walk(o.parsed, f, depth + 1)


def scramble(o, depth=0):
    """changes something in every part of the object; returns how much"""
    n = 0
    if isinstance(o, core.SequenceOf):
        for i in range(len(o)):
            n += scramble(o[i], depth + 1)
        if len(o):
            k, _ = attempt(o.__delitem__, len(o) - 1)
            n += k == 'ok'
    elif isinstance(o, core.Sequence):
        for i in range(len(o)):
            n += scramble(o[i], depth + 1)
            k, _ = attempt(o.__delitem__, i)
            n += k == 'ok'
    elif isinstance(o, core.Choice):
        n += scramble(o.chosen, depth + 1)
    elif isinstance(o, core.Any) or isinstance(o, core.ParsableOctetString):
        if getattr(o, '_parsed', None) is not None:
            n += scramble(o.parsed, depth + 1)
    elif isinstance(o, core.Integer):
        k, _ = attempt(o.set, 1234567)
        n += k == 'ok'
    elif isinstance(o, core.OctetString):
        k, _ = attempt(o.set, b'changed')
        if k != 'ok':
            k, _ = attempt(o.set, u'10.9.8.7')
        n += k == 'ok'
    elif isinstance(o, core.AbstractString) and not isinstance(o, core.AbstractTime):
        k, _ = attempt(o.set, u'changed')
        n += k == 'ok'
    elif isinstance(o, core.ObjectIdentifier):
        o.set(u'1.2.3.4.5.6')
        n += 1
    return n


def check_lib(case, rec):
    cn, f, state, ck = case
    raw = corpus.read(f)
    cls = corpus.get_class(cn)
    fresh = cls.load(raw)

    def make():
        o = cls.load(raw)
        if state == 'native':
            attempt(lambda: o.native)
        elif state == 'walk':
            lib_walk(o, lambda x: None)
        elif state == 'props':
            lib_walk(o, props)
        return o
    nat = attempt(lambda: fresh.native)
    o = make()
    COPIES = dict(globals()['COPIES'], **{'untag()': lambda x: x.untag()})
    c = COPIES[ck](o)
    # indefinite lengths are not kept
    der = ref.indef_depth(raw) == 0
    if der and (c.dump() != raw or o.dump() != raw):
        return '%s: %s is %s' % (f, ck, c.dump().hex())
    if type(c) is not cls:
        return '%s: %s is a %s' % (f, ck, type(c))
    if nat[0] == 'ok' and (c.native != nat[1] or o.native != nat[1]):
        return '%s: %s reads as %r' % (f, ck, c.native)
    rec.op(4)
    a, b = [], []
    lib_walk(COPIES[ck](make()), lambda x: a.append((type(x).__name__, x.dump())))
    lib_walk(make() if ck != 'pickle' else cls.load(raw), lambda x: b.append((type(x).__name__, x.dump())))
    rec.op(len(a))
    # wrapped values are parsed as soon as they are read: compare what both have parsed
    if der and len(a) == len(b) and a != b:
        d = [(x, y) for x, y in zip(a, b) if x != y][0]
        return '%s: %s has the part %r instead of %r' % (f, ck, d[0], d[1])
    if ck == 'copy.copy':
        return None
    for side in (0, 1):
        o = make()
        c = COPIES[ck](o)
        x, y = (o, c) if side else (c, o)
        n = scramble(x)
        attempt(x.dump, force=True)
        rec.op(n)
        rec.outcome('scrambled')
        if der and y.dump() != raw or nat[0] == 'ok' and y.native != nat[1]:
            return '%s (%s): changing the %s changes the other to %s' % (f, state, 'original' if side else 'copy', y.dump().hex())
        y2 = []
        lib_walk(y, lambda z: y2.append((type(z).__name__, z.dump())))
        if [z for z in y2 if z[0] in ('Integer',)] != [z for z in b if z[0] in ('Integer',)] and len(y2) == len(b):
            return '%s (%s): changing the %s changes parts of the other' % (f, state, 'original' if side else 'copy')
        if attempt(y.dump, force=True) != attempt(lambda: cls.load(raw).dump(force=True)) and state == 'fresh':
            return '%s (%s): changing the %s changes the other to %s' % (f, state, 'original' if side else 'copy', y.dump().hex())
    rec.state(f, state)


def gen_sizes(tier):
    for kind, n in L.cases(tier, None if tier == 'thorough' else 4097):
        if tier == 'thorough' or n < 34 or n > 62:
            yield (kind, n)


def check_sizes(case, rec):
    kind, size = case
    ty, v = L.make(kind, size)
    reg_all(ty.cls)
    n = ty.node(v)
    der = S.encode(n)
    nat = ty.native(v)
    rec.state(case)
    for label, source in L.sources(ty, v, n):
        raw = source().dump()
        for r in (None, 'native', 'walk') if size < 300 else (None, 'native'):
            for ck in COPIES if size < 34 else ('copy()', 'deepcopy', 'pickle'):
                o = source()
                if r:
                    READS[r](o)
                c = COPIES[ck](o)
                rec.op(4)
                rec.outcome(ck)
                where = '%s of size %d, %s, read: %s: %s' % (kind, size, label, r, ck)
                if c is o or type(c) is not type(o) or tags_of(c) != tags_of(o):
                    return '%s is a %s with tags %r' % (where, type(c).__name__, tags_of(c))
                if label in ('built', 'DER') and c.dump() != der:
                    return '%s encodes as %s, expected %s' % (where, c.dump().hex()[:300], der.hex()[:300])
                if not S.native_eq(c.native, nat) or not S.native_eq(o.native, nat):
                    return '%s reads as %.300r, the original as %.300r, expected %.300r' % (where, c.native, o.native, nat)
                if o.dump() != raw:
                    return '%s: the original encodes as %s, expected %s' % (where, o.dump().hex()[:300], raw.hex()[:300])
                if c.dump(force=True) != der or o.dump(force=True) != der:
                    return '%s re-encodes as %s, the original as %s, expected %s' % (where, c.dump().hex()[:300], o.dump().hex()[:300], der.hex()[:300])


SPACES = [
    Space('shapes', gen_shapes, check_shapes, '34 types x 4 taggings x values x framings with <= 1 (2) deviations x 0-1 (2) reads before x 6 ways to copy'),
    Space('children', gen_kids, check_kids, 'every element of every value x reads before x ways to copy, and assigned back'),
    Space('independence', gen_indep, check_indep, 'histories of <= 1 (2) operations, then a copy, then every operation on either side (every pair of operations '
          'for an untouched original): both sides equal their own model'),
    Space('primitives', gen_prims, check_prims, '27 kinds of values with settings (width, parsed view, element type) x 0-2 reads x ways to copy x mutations of either side'),
    Space('library', gen_lib, check_lib, '72 real structures x 4 lazy states x 3 ways to copy; every part of one side is changed'),
    Space('sizes', gen_sizes, check_sizes, '%d kinds of values over a ladder of sizes x 4 sources x reads x ways to copy' % len(L.KINDS)),
]


def run(argv):
    return main('C18', SPACES, ['copy.copy() is documented as shallow: independence is claimed for copy() and copy.deepcopy()'], argv)
