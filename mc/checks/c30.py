"""C30 - parsed views of wrapped values always describe the current octets."""
import itertools
from .. import ref, schema as S, hist as H
from ..common import Space, bootstrap, main, attempt, Violation
from ..schema import Field, Seq, SeqOf, SetOfT, Choice, INT, OCT, UTF, BOOL

bootstrap()
from asn1crypto import core  # noqa

REC = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='REC')
LST = SeqOf(INT, [[], [1]], name='LST')
DEEP = Seq([Field('r', REC), Field('l', LST, None, 'optional')], name='DEEP')
ALT = Choice([Field('r', REC), Field('n', INT)], name='ALT')
TYPES = {'REC': REC, 'LST': LST, 'DEEP': DEEP, 'INT': INT, 'ALT': ALT}
# views: (type, parameters of parse, tag)
VIEWS = {
    'REC': (REC, None, None), 'LST': (LST, None, None), 'DEEP': (DEEP, None, None), 'INT': (INT, None, None), 'ALT': (ALT, None, None),
    'TAGGED': (INT, {'implicit': 0}, ('i', 2, 0)),
}
REC1 = {'x': 1, 'y': False}
DATA = [
    S.der(REC, REC1),
    S.der(REC, {'x': 300, 'y': True}),
    S.der(LST, [1, 2]),
    S.der(DEEP, {'r': REC1, 'l': [4]}),
    ref.integer(7),
    ref.ctx(0, b'\x05', False),
]
BER = ref.indef(0, 16, ref.tlv(0, False, 2, b'\x01') + ref.u(1, b'\x00'))          # REC1 as BER, with the default value in it
GENERIC = ref.seq(ref.integer(1), ref.u(1, b'\0'))
JUNK = [b'', b'\x30', b'\x02\x05\x01', b'\xff\xff']


def decode(view, octets):
    """reference: what the octets are as that type; raises ValueError"""
    if view is None:
        return ('generic', octets)
    ty, _, tag = VIEWS[view]
    return (view, value(ty, octets, tag))


def value(ty, octets, tag=None):
    (cls, cons, num, hdr, content, trl), end = ref.parse_one(octets)
    want = ty.tag if tag is None and not isinstance(ty, Choice) else None
    if isinstance(ty, Choice):
        for f in ty.alts:
            if (cls, num) == (0, f.ty.tag):
                return [f.name, value(f.ty, octets)]
        raise ValueError('no alternative')
    if (cls, num) != ((0, want) if tag is None else tag[1:]):
        raise ValueError('tag')
    if isinstance(ty, S.Prim):
        if cons or ty is INT and not content:
            raise ValueError('prim')
        return ref.int_value(content) if ty is INT else content != b'\x00'
    if not cons:
        raise ValueError('cons')
    kids = []
    pos = 0
    while pos < len(content):
        one, nxt = ref.parse_one(content, pos)
        kids.append(content[pos:nxt])
        pos = nxt
    if isinstance(ty, SeqOf):
        return [value(ty.ty, k) for k in kids]
    out, i = {}, 0
    for f in ty.fields:
        k = kids[i] if i < len(kids) else None
        if k is not None and ref.parse_one(k)[0][0:3:2] == (0, f.ty.tag):
            out[f.name] = value(f.ty, k)
            i += 1
        elif f.opt == 'optional':
            pass
        elif f.opt:
            out[f.name] = f.opt[1]
        else:
            raise ValueError('missing')
    if i < len(kids):
        raise Unclaimed('extra')
    return out


class Unclaimed(ValueError):
    """whether octets after the last field are accepted is not the subject"""


class Slot(object):
    """octets; the view of them that was asked for last: None or [name, model]; whether the view was changed"""

    def __init__(self, octets):
        self.octets, self.view, self.viewer = octets, None, None

    def key(self):
        return (self.octets, self.view and (self.view[0], H.freeze(self.view[1])), self.viewer)


MUT = {
    'REC': [('x', 9), ('y', True), ('y', None)],
    'LST': ['append', 'del0'],
    'DEEP': [('r.x', -1), ('l.append', 3), ('l', None)],
    'ALT': [('r.x', 8)],
}


def mutate(view, op, obj, m):
    """the same change of the real view and of its model"""
    if view == 'LST':
        if op == 'append':
            obj.append(5)
            m.append(5)
        else:
            if not m:
                raise H.NotEnabled()
            del obj[0]
            del m[0]
        return
    k, v = op
    if view == 'ALT':
        if m[0] != 'r':
            raise H.NotEnabled()
        obj.chosen['x'] = v
        m[1]['x'] = v
    elif k == 'r.x':
        obj['r']['x'] = v
        m['r']['x'] = v
    elif k == 'l.append':
        if 'l' not in m:
            raise H.NotEnabled()
        obj['l'].append(v)
        m['l'].append(v)
    elif v is None:
        if view == 'DEEP':
            obj['l'] = None
            m.pop('l', None)
        else:
            del obj['y']
            m['y'] = False
    else:
        obj[k] = v
        m[k] = v


class Cls(core.Sequence):
    _fields = [('a', core.Any), ('s', core.ParsableOctetString), ('b', core.ParsableOctetBitString), ('e', core.Any, {'explicit': 3, 'optional': True}),
               ('t', core.ParsableOctetString, {'implicit': 4, 'optional': True})]


KIND = {'a': 'any', 's': 'oct', 'b': 'bit', 'e': 'any', 't': 'oct'}


def frame(slot, octets):
    if slot == 'a':
        return octets
    if slot == 'e':
        return ref.expl(3, octets)
    if slot == 's':
        return ref.u(4, octets)
    if slot == 't':
        return ref.ctx(4, octets, False)
    return ref.u(3, b'\0' + octets)


class Sys(object):
    def __init__(self, slots, obj):
        self.m, self.obj = dict((k, Slot(v)) for k, v in slots.items()), obj
        self.held = None       # (slot, view object, its model, its name): kept by the user

    def key(self):
        h = self.held
        # is the kept object still the view of its slot?
        live = h and any(s.view is not None and s.view[1] is h[2] for s in self.m.values())
        return (H.canon(self.obj, h and h[1]), tuple((k, s.key()) for k, s in sorted(self.m.items())), h and (h[0], h[3], H.freeze(h[2]), live))

    def slot(self, k):
        if k not in self.m:
            raise H.NotEnabled()
        return self.m[k], self.obj[k]

    def do(self, op):
        k = op[0]
        if k == 'copy':
            self.obj = self.obj.copy()
            self.held = None
            # the fields of a copied record are decoded anew when they are read
            for s in self.m.values():
                s.view = None
            return
        if k in ('reload', 'forcereload'):
            d = self.obj.dump(force=k == 'forcereload')
            self.check_dump(d, k == 'forcereload')
            self.obj = Cls.load(d)
            self.held = None
            for s in self.m.values():
                if k == 'forcereload':
                    self.canonical(s)
                s.view = None
            return
        if k == 'dump':
            self.check_dump(self.obj.dump(), False)
            return
        if k == 'force':
            d = self.obj.dump(force=True)
            self.check_dump(d, True)
            for s in self.m.values():
                self.canonical(s)
            return
        if k == 'set':
            slot, i = op[1:]
            if slot not in self.m and slot not in ('e', 't'):
                raise H.NotEnabled()
            data = DATA[i]
            if KIND[slot] == 'any':
                ty = {0: REC, 1: REC, 2: LST, 3: DEEP, 4: INT}[i]
                self.obj[slot] = ty.cls(ty.py(value(ty, data)))
                self.m[slot] = Slot(data)
                self.m[slot].view = [ty.name, value(ty, data)]
            else:
                self.obj[slot] = data
                self.m[slot] = Slot(data)
            return
        if k == 'setparsed':
            slot, i = op[1:]
            ty = {0: REC, 2: LST, 3: DEEP}[i]
            cls = {'oct': core.ParsableOctetString, 'bit': core.ParsableOctetBitString}[KIND[slot]]
            v = ty.cls(ty.py(value(ty, DATA[i])))
            self.obj[slot] = cls(parsed=v)
            self.m[slot] = Slot(DATA[i])
            self.m[slot].view = [ty.name, value(ty, DATA[i])]
            return
        if k == 'del':
            s, o = self.slot(op[1])
            del self.obj[op[1]]
            del self.m[op[1]]
            return
        s, o = self.slot(op[1])
        if k == 'parse':
            self.parse(op[1], s, o, op[2])
            if s.view is not None and s.view[0] == 'broken':
                # not a value: there is nothing more to say about it
                raise H.NotEnabled()
        elif k == 'parsed':
            if s.view is None:
                self.parse(op[1], s, o, None, prop=True)
            else:
                self.same(op[1], s, o.parsed)
        elif k == 'native':
            self.native(op[1], s, o)
        elif k == 'mutate':
            if s.view is None or s.view[0] != op[2]:
                raise H.NotEnabled()
            mutate(op[2], op[3], o.parsed, s.view[1])
            self.encode(s)
        elif k == 'hold':
            if s.view is None or not isinstance(s.view[1], (dict, list)):
                raise H.NotEnabled()
            self.held = (op[1], o.parsed, s.view[1], s.view[0])
        elif k == 'slotdump':
            self.check_slot(op[1], s, o.dump(), False)
        elif k == 'slotforce':
            self.check_slot(op[1], s, o.dump(force=True), True)
            self.canonical(s)
        elif k == 'slotcopy':
            c = o.copy()
            self.check_slot(op[1], s, c.dump(), False)
            if s.view is not None and s.view[0] != 'generic':
                self.same(op[1], s, c.parsed)
        elif k == 'bytes':
            if KIND[op[1]] == 'any':
                raise H.NotEnabled()
            if bytes(o) != s.octets:
                raise Violation('bytes of %s are %s, expected %s' % (op[1], bytes(o).hex(), s.octets.hex()))
        else:
            raise AssertionError(op)

    def encode(self, s):
        """the octets after a change of the view"""
        ty, _, tag = VIEWS[s.view[0]]
        s.octets = S.encode(S.apply_tag(self.node(ty, s.view[1]), tag))

    def node(self, ty, m):
        return ty.node(m)

    def canonical(self, s):
        """a forced dump encodes the view, if there is one, as DER"""
        if s.view is not None and s.view[0] != 'generic':
            self.encode(s)

    def parse(self, k, s, o, view, prop=False):
        unclaimed = False
        try:
            want = decode(view, s.octets) if view is not None or self.generic_ok(s) else None
            if want is None:
                raise ValueError('generic')
        except (ValueError, ref.Bad) as e:
            want, unclaimed = None, isinstance(e, Unclaimed)
        if view is None and prop:
            kk, v = attempt(lambda: o.parsed)
        elif view is None:
            kk, v = attempt(o.parse)
        else:
            ty, params, tag = VIEWS[view]
            kk, v = attempt(lambda: o.parse(ty.cls, params) if params else o.parse(ty.cls))
        if want is None:
            if kk == 'ok':
                # containers are decoded when they are read
                kk, v = attempt(lambda: v.native)
                if kk == 'ok' and not unclaimed:
                    raise Violation('%s, which is %s, was parsed as %s: %r' % (k, s.octets.hex(), view, v))
                s.view = ['broken', None]
            if kk != 'ok' and not isinstance(v, (ValueError, TypeError)):
                raise Violation('parsing raised %r' % v)
            return
        if kk != 'ok':
            raise Violation('%s, which is %s, can not be parsed as %s: %r' % (k, s.octets.hex(), view, v))
        if s.view is None or s.view[0] != want[0]:
            s.view = [want[0], want[1]]
        self.same(k, s, v)
        # the same question has the same answer
        again = o.parsed
        if again is not v:
            raise Violation('parsed is another object than the one parse() returned')

    def generic_ok(self, s):
        return s.octets[:1] != b'\x80'

    def same(self, k, s, v):
        """is v the current view of the slot?"""
        name = s.view[0]
        if name == 'generic':
            want = core.load(s.octets)
            if v.native != want.native:
                raise Violation('%s reads as %r, its octets as %r' % (k, v.native, want.native))
        else:
            ty = VIEWS[name][0]
            if not isinstance(v, ty.cls) or not S.native_eq(v.native, ty.native(s.view[1])):
                raise Violation('%s as %s reads as %r, the model is %r' % (k, name, v, s.view[1]))

    def native(self, k, s, o):
        if s.view is None and KIND[k] == 'any':
            if not self.generic_ok(s):
                if attempt(lambda: o.native)[0] == 'ok':
                    raise Violation('%s can be read without a type' % k)
                return
            s.view = ['generic', s.octets]
        got = o.native
        if s.view is None:
            if got != s.octets or type(got) is not bytes:
                raise Violation('%s reads as %r, expected %r' % (k, got, s.octets))
        elif s.view[0] == 'generic':
            self.same(k, s, o.parsed)
            if got != o.parsed.native:
                raise Violation('native of %s is %r, that of its view %r' % (k, got, o.parsed.native))
        elif not S.native_eq(got, VIEWS[s.view[0]][0].native(s.view[1])):
            raise Violation('%s as %s reads as %r, the model is %r' % (k, s.view[0], got, s.view[1]))

    def after(self, s, force):
        """octets expected in a dump"""
        if force and s.view is not None and s.view[0] != 'generic':
            ty, _, tag = VIEWS[s.view[0]]
            return S.encode(S.apply_tag(ty.node(s.view[1]), tag))
        return s.octets

    def check_slot(self, k, s, d, force):
        want = frame(k, self.after(s, force))
        if d != want:
            raise Violation('dump(force=%s) of %s is %s, expected %s' % (force, k, d.hex(), want.hex()))

    def check_dump(self, d, force):
        want = ref.seq(*[frame(k, self.after(self.m[k], force)) for k in 'asbet' if k in self.m])
        if d != want:
            raise Violation('dump(force=%s) is %s, expected %s' % (force, d.hex(), want.hex()))

    def observe(self, which):
        ks = [k for k in 'asbet' if k in self.m]
        if which == 0:
            self.check_dump(self.obj.dump(), False)
        for k in ks if which < 2 else reversed(ks):
            s, o = self.slot(k)
            if KIND[k] != 'any' and bytes(o) != s.octets:
                raise Violation('bytes of %s are %s, expected %s' % (k, bytes(o).hex(), s.octets.hex()))
            if s.view is not None:
                self.same(k, s, o.parsed)
            self.native(k, s, o)
            self.check_slot(k, s, o.dump(), False)
        if which == 1:
            # every other view of the octets, on a copy
            for k in ks:
                for view in views(k):
                    s = Slot(self.m[k].octets)
                    s.view = self.m[k].view and [self.m[k].view[0], H.dup(self.m[k].view[1])]
                    c = self.obj[k].copy()
                    self.parse(k, s, c, view)
                    self.check_slot(k, s, c.dump(), False)
                if self.m[k].view is None:
                    continue
                # a change of a copy shows in the copy alone
                for op in MUT.get(self.m[k].view[0], ()):
                    s = Slot(self.m[k].octets)
                    s.view = [self.m[k].view[0], H.dup(self.m[k].view[1])]
                    c = self.obj[k].copy()
                    try:
                        mutate(s.view[0], op, c.parsed, s.view[1])
                    except H.NotEnabled:
                        continue
                    self.encode(s)
                    self.check_slot(k, s, c.dump(), False)
                    self.same(k, s, c.parsed)
                    self.same(k, self.m[k], self.obj[k].parsed)
                    self.check_slot(k, self.m[k], self.obj[k].dump(), False)
        self.check_dump(self.obj.dump(), False)
        self.check_dump(self.obj.dump(force=True), True)
        if self.held is not None:
            slot, o, m, name = self.held
            if not S.native_eq(o.native, VIEWS[name][0].native(m)):
                raise Violation('the view that was kept reads as %r, the model is %r' % (o.native, m))


def views(slot):
    # parameters with an explicit and an implicit tag mean the explicit tag only
    return [v for v in VIEWS if slot != 'e' or v != 'TAGGED']


def ops(slot):
    out = [('parse', slot, v) for v in views(slot)] + [('parse', slot, None), ('parsed', slot), ('native', slot)]
    for v, l in MUT.items():
        out += [('mutate', slot, v, m) for m in l]
    out += [('slotdump', slot), ('slotforce', slot), ('slotcopy', slot), ('dump',), ('force',), ('copy',), ('reload',), ('forcereload',), ('hold', slot)]
    out += [('set', slot, i) for i in (1, 2, 4)]
    if KIND[slot] != 'any':
        out += [('bytes', slot), ('setparsed', slot, 0), ('setparsed', slot, 2)]
    if slot in 'et':
        out.append(('del', slot))
    return out


def start(slot, i):
    """the record with the data in that slot, simple values in the required others"""
    vals = {'a': ref.integer(1), 's': b'', 'b': b'z'}
    vals[slot] = DATA[i]
    return vals


def inits(slot):
    out = []
    for i in range(len(DATA)):
        vals = start(slot, i)
        raw = ref.seq(*[frame(k, vals[k]) for k in 'asbet' if k in vals])
        out.append(('der%d' % i, lambda vals=vals, raw=raw: Sys(vals, Cls.load(raw))))
        if i in (0, 3):
            if KIND[slot] != 'any':
                def built(vals=vals):
                    o = Cls({'a': core.Integer(1), 's': vals['s'], 'b': vals['b']})
                    if slot not in 'sb':
                        o[slot] = vals[slot]
                    return Sys(vals, o)
                out.append(('built%d' % i, built))
            else:
                def built(vals=vals, i=i):
                    ty = {0: REC, 3: DEEP}[i]
                    v = ty.cls(ty.py(value(ty, DATA[i])))
                    o = Cls({'a': core.Integer(1) if slot != 'a' else v, 's': b'', 'b': b'z'})
                    if slot == 'e':
                        o['e'] = v
                    s = Sys(vals, o)
                    s.m[slot].view = [ty.name, value(ty, DATA[i])]
                    return s
                out.append(('built%d' % i, built))
    if KIND[slot] != 'any':
        # constructed, with the octets in two chunks: the view is of all of them
        vals = start(slot, 0)
        n, d = (4, 4) if slot in 'st' else (3, 3)
        h = len(vals[slot]) // 2
        parts = [vals[slot][:h], vals[slot][h:]]
        inner = b''.join(ref.u(d, (b'\0' if d == 3 else b'') + p) for p in parts)
        chunked = ref.indef(2, 4, inner) if slot == 't' else ref.indef(0, n, inner)
        raw = ref.seq(*[chunked if k == slot else frame(k, vals[k]) for k in 'asbet' if k in vals])
        out.append(('chunked', lambda vals=vals, raw=raw: Chunked(vals, Cls.load(raw))))
    return out


class Chunked(Sys):
    """dump() of a container that was decoded from chunks keeps them until it is changed or forced: only forced dumps are compared"""

    def check_dump(self, d, force):
        if not force:
            o = Cls.load(d)
            for k in self.m:
                if KIND[k] != 'any' and bytes(o[k]) != self.m[k].octets:
                    raise Violation('dump() is %s, the octets of %s are %s' % (d.hex(), k, self.m[k].octets.hex()))
            return
        Sys.check_dump(self, d, force)

    def check_slot(self, k, s, d, force):
        # the value itself never dumps chunks
        Sys.check_slot(self, k, s, d, force)


def gen(tier):
    for slot in 'asbet':
        for label, _ in inits(slot):
            for first in range(len(ops(slot))):
                yield (slot, label, first, 3 if tier == 'quick' else 4)


def check(case, rec):
    slot, label, first, depth = case
    H.search(dict(inits(slot))[label], ops(slot), depth, rec, observers=3 if depth < 4 else 2, first=first)


# ------------------------------------------------------------------ octets that are no encoding, and BER inside
def gen_junk(tier):
    seqs = [('parse', v) for v in list(VIEWS) + [None]] + [('parsed',), ('native',), ('dump',), ('force',), ('copy',), ('bytes',)]
    for kind in ('oct', 'bit', 'any'):
        for i in range(len(JUNK) + 1):
            for p in itertools.product(seqs, repeat=3):
                yield (kind, i, p)


def check_junk(case, rec):
    kind, i, prog = case
    octets = JUNK[i] if i < len(JUNK) else BER
    if kind == 'any':
        if i != len(JUNK):
            return
        o = core.Sequence.load(ref.seq(octets))
        o = CAny.load(ref.seq(octets))[0]
    else:
        o = (core.ParsableOctetString if kind == 'oct' else core.ParsableOctetBitString)(octets)
    slot = {'oct': 's', 'bit': 'b', 'any': 'a'}[kind]
    sys = Sys({slot: octets}, {slot: o})
    s = sys.m[slot]
    for op in prog:
        rec.op()
        o = sys.obj[slot]
        if op[0] == 'parse' or op[0] == 'parsed':
            view = op[1] if op[0] == 'parse' else None
            try:
                ref.parse_one(s.octets)
                ok = True
            except (ValueError, ref.Bad):
                ok = False
            if op[0] == 'parsed' and s.view is not None:
                sys.same(slot, s, o.parsed)
            elif not ok:
                for _ in range(2):
                    k, v = attempt(lambda: o.parse(VIEWS[view][0].cls) if view else o.parse() if op[0] == 'parse' else o.parsed)
                    if k == 'ok' or not isinstance(v, (ValueError, TypeError)):
                        return '%s parsed as %s: %r' % (s.octets.hex(), view, v)
            else:
                sys.parse(slot, s, o, view, prop=op[0] == 'parsed')
                if s.view is not None and s.view[0] == 'broken':
                    return
        elif op[0] == 'native':
            sys.native(slot, s, o)
        elif op[0] == 'bytes' and kind != 'any':
            if bytes(o) != s.octets:
                return 'bytes %r' % bytes(o)
        elif op[0] == 'dump':
            got = o.dump()
            if kind == 'any':
                if ref.tree(got) != ref.tree(s.octets) and got not in (S.der(REC, REC1), s.octets):
                    back = REC.cls.load(got)
                    if not S.native_eq(back.native, REC.native(REC1)):
                        return 'dump %s' % got.hex()
            elif got != frame(slot, s.octets):
                return 'dump %s of %s after %s' % (got.hex(), s.octets.hex(), prog)
        elif op[0] == 'force':
            got = o.dump(force=True)
            if kind != 'any' or s.view is not None and s.view[0] != 'generic':
                if s.view is not None and s.view[0] == 'generic':
                    # forced, the generic view is encoded: the same value as DER, the default value stays since the type is not known
                    s.octets = core.load(s.octets).dump(force=True)
                want = frame(slot, sys.after(s, True))
                if got != want:
                    return 'forced dump %s, expected %s' % (got.hex(), want.hex())
                s.octets = sys.after(s, True)
            else:
                s.octets = got
                if s.view is None:
                    s.view = ['generic', got]
        elif op[0] == 'copy':
            sys.obj[slot] = o.copy()
            if kind == 'any':
                k = s.octets
                s.octets = sys.obj[slot].dump()
                if not S.native_eq(REC.cls.load(s.octets).native, REC.native(REC1)):
                    return 'the copy encodes as %s' % s.octets.hex()
        if kind == 'any':
            # values of indefinite length are encoded as DER when they are dumped, or parsed with another spec
            got = sys.obj[slot].dump()
            if got not in (s.octets, GENERIC, S.der(REC, REC1)):
                return 'dump %s of %s after %s' % (got.hex(), s.octets.hex(), prog)
            s.octets = got
    rec.outcome(prog[-1][0])
    rec.state(kind, s.octets, s.view and s.view[0])


class CAny(core.SequenceOf):
    _child_spec = core.Any


SPACES = [
    Space('histories', gen, check, 'all histories of length <= 3 (4) of parsing with 6 types, reading, setting, changing the view, dumping, copying and reloading, for each of 5 kinds of slots and 7-9 initial states', cpu_limit=600),
    Space('junk', gen_junk, check_junk, 'all sequences of 3 operations on octets that are not an encoding, or one that is BER'),
]


def run(argv):
    return main('C30', SPACES, ['parse() and parsed change what native shows: the view that was asked for last'], argv)
