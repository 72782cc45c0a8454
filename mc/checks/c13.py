"""C13 - a list under any editing history stays equal to the model list."""
import itertools
from .. import ref, schema as S, hist as H, ladder as L
from ..common import Space, bootstrap, main, attempt
from ..schema import Field, Seq, SeqOf, SetOfT, Choice, INT, OCT, UTF, BOOL, NULL

bootstrap()

IN = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='IN')
ALT = Choice([Field('n', INT), Field('q', IN), Field('e', UTF, ('e', 2, 2)), Field('l', SeqOf(INT, [[], [1]]), ('i', 2, 3))], name='ALT')

# name -> (type, start values, element values a b c, bad elements)
LISTS = {
    'INTS': (SeqOf(INT, [[], [1, 2, 1]]), [1, 300, -1], [u'text', [], (1,)]),
    'OCTS': (SetOfT(OCT, [[], [b'b', b'a', b'bb']]), [b'b', b'', b'aaa'], [5, u'text', None]),
    'INTSET': (SetOfT(INT, [[], [-1, 1]]), [1, 128, -1], [u'text', []]),
    'RECS': (SeqOf(IN, [[], [{'x': 1}, {'x': 2, 'y': True}]]), [{'x': 1}, {'x': 5, 'y': True}], [5, {'x': u'b'}, {'zz': 1}]),
    'RECSET': (SetOfT(IN, [[], [{'x': 2}, {'x': 1, 'y': True}]]), [{'x': 1}, {'x': 500}], [5, {'x': u'b'}]),
    'CHOS': (SeqOf(ALT, [[], [('n', 1), ('q', {'x': 1})]]), [('n', 7), ('q', {'x': 2}), ('e', u'v'), ('l', [3])], [5, None, ('n', 1)]),
    'LISTS': (SeqOf(SeqOf(INT, [[], [1, 2]]), [[], [[1], []]]), [[], [4]], [5, [u'bad']]),
}
for _n, _t in LISTS.items():
    _t[0].name = _n


def ops(name):
    ty, els, bad = LISTS[name]
    out = []
    for e in els:
        out.append(('append', (), e))
    for e in els[:2]:
        out += [('set', (), 0, e), ('set', (), 1, e), ('set', (), -1, e)]
    if not isinstance(ty.ty, Choice):
        out.append(('setobj', (), 0, els[-1]))
    out += [('del', (), 0), ('del', (), 1), ('del', (), -1)]
    out += [('native', ()), ('dump', ()), ('force', ()), ('fields', ()), ('has',), ('copy',), ('reload',), ('reloadforce',)]
    for b in bad:
        out.append(('bad', (), 'append', b))
        out.append(('bad', (), 'setitem', 0, b))
    out += [('bad', (), 'setitem', 99, els[0] if not isinstance(ty.ty, Choice) else None), ('bad', (), 'delitem', 99), ('bad', (), 'getitem', 99),
            ('bad', (), 'setitem', -99, els[0] if not isinstance(ty.ty, Choice) else None)]
    if name in ('RECS', 'RECSET'):
        out += [('set', (0,), 'x', 9), ('set', (0,), 'y', True), ('del', (0,), 'y'), ('set', (1,), 'x', -7), ('dump', (0,)), ('native', (0,)),
                ('hold', (0,)), ('set', ('<handle>',), 'x', 33), ('bad', (0,), 'setitem', 'x', u'bad')]
    if name == 'CHOS':
        out += [('set', (1, '<chosen>'), 'x', 9), ('append', (1, '<chosen>'), 9), ('append', (0, '<chosen>'), 9), ('dump', (1,)), ('native', (1,)),
                ('hold', (1, '<chosen>')), ('set', ('<handle>',), 'x', 33)]
    if name == 'LISTS':
        out += [('append', (0,), 9), ('set', (0,), 0, 8), ('del', (0,), 0), ('append', (1,), 7), ('dump', (0,)), ('native', (0,)),
                ('hold', (0,)), ('append', ('<handle>',), 5)]
    return out


class ListSys(H.Sys):
    def py(self, ty, v):
        return ty.cls(ty.py(v)) if isinstance(ty, Choice) else ty.py(v)

    def do(self, op):
        if op[0] == 'has':
            return self.members()
        return H.Sys.do(self, op)

    def members(self):
        t = self.ty.ty
        if not isinstance(t, S.Prim):
            raise H.NotEnabled()
        for e in t.values + LISTS[self.ty.name][1]:
            got = t.cls(t.py(e)) in self.obj
            H.S.ref
            if got is not (e in self.m):
                raise H.Violation('%r in the list is %r, the model is %r' % (e, got, self.m))
        if None in self.obj:
            raise H.Violation('None is in the list')

    def observe(self, which):
        H.Sys.observe(self, which)
        if isinstance(self.ty.ty, S.Prim):
            self.members()
        n = len(self.m)
        for i in range(-n, n):
            c = self.obj[i]
            if not isinstance(self.ty, S.SetOfT) and isinstance(self.ty.ty, S.Prim) and c.native != self.m[i]:
                raise H.Violation('element %d reads as %r, the model is %r' % (i, c.native, self.m))
        k, e = attempt(lambda: self.obj[n])
        if k == 'ok':
            raise H.Violation('element %d of %d reads as %r' % (n, n, e))


def inits(name):
    ty = LISTS[name][0]
    out = []
    for vi, v in enumerate(ty.values):
        out.append(('built%d' % vi, lambda v=v: ListSys(ty, ty.cls(ty.py(v)), H.norm(ty, v))))
        n = ty.node(v)
        # (the wire order of a SET OF whose elements are BER is not that of their DER encodings)
        nodes = [n] if isinstance(ty, S.SetOfT) else n.flat()
        for lab, raw in [('der', S.encode(n)),
                         ('indef', S.encode(n, dict((id(x), 'indef') for x in nodes if x.kids is not None))),
                         ('pad', S.encode(n, dict((id(x), 'pad1') for x in nodes)))]:
            out.append((lab + str(vi), lambda raw=raw, v=v, ber=lab != 'der': ListSys(ty, ty.cls.load(raw), H.resort(ty, H.norm(ty, v)), ber)))
    out.append(('default', lambda v=ty.values[1]: ListSys(ty, ty.cls(default=ty.py(v)), H.norm(ty, v))))
    # no value at all: becomes a list with the first element that is added
    out.append(('none', lambda: ListSys(ty, ty.cls(None), NoneYet())))
    return out


class NoneYet(list):
    """a list object that was never given a value: it has no encoding until an element is added"""


def gen(tier):
    for name in LISTS:
        for label, _ in inits(name):
            if label == 'none':
                continue
            for first in range(len(ops(name))):
                if tier == 'quick':
                    d = 3 if label in ('built1', 'der1') else 2
                else:
                    d = 4 if label in ('built1', 'der1') else 3
                yield (name, label, first, d)


def check(case, rec):
    name, label, first, depth = case
    make = dict(inits(name))[label]
    H.search(make, ops(name), depth, rec, observers=3 if depth < 4 else 2, first=first)


# ------------------------------------------------------------------ order of SET OF
ORDER = dict((k, v[0]) for k, v in LISTS.items())
# elements of different tags: a smaller tag goes first whatever the length, and
# classes and constructed bits take part in the order as octets
ORDER['CHOSET'] = SetOfT(Choice([Field('o', OCT), Field('n', INT), Field('q', IN), Field('e', UTF, ('e', 2, 2)), Field('i', OCT, ('i', 2, 3)),
                                 Field('a', INT, ('i', 1, 40)), Field('p', INT, ('i', 3, 0))], name='ALT7'), [[]])
ORDER['ANYSET'] = SetOfT(S.ANY, [[]])
for _n in ('CHOSET', 'ANYSET'):
    ORDER[_n].name = _n
ALPHA = {
    'CHOSET': [('o', b''), ('o', b'z' * 130), ('n', 70000), ('n', 1), ('q', {'x': 1}), ('e', u''), ('e', u'abc'), ('i', b'\xff\xff'), ('a', 1), ('a', 1 << 70), ('p', 5)],
    'ANYSET': [('OCT', b''), ('OCT', b'ab\x00'), ('INT', 70000), ('INT', 1), ('NULL', None), ('UTF', u'y' * 128), ('UTF', u''), ('BOOL', True), ('BITS', (1,) * 17)],
    'OCTS': [b'', b'\x00', b'\x01', b'\xff', b'\x00\x00', b'\x00\x01', b'\x01\x00', b'x' * 127, b'x' * 128, b'w' * 128 + b'a'],
    'INTSET': [0, 1, -1, 127, 128, -128, -129, 255, 256, 65536, 1 << 1023, -(1 << 1023)],
    'RECSET': [{'x': 0}, {'x': 0, 'y': True}, {'x': -1}, {'x': 128}, {'x': 127, 'y': True}],
}


def gen_order(tier):
    for name in ALPHA:
        k = (4 if tier == 'quick' else 5) if name != 'RECSET' else 5
        for n in range(0, k + 1):
            for combo in itertools.product(range(len(ALPHA[name])), repeat=n):
                if n == k and tier == 'quick' and len(set(combo)) < 2:
                    continue
                yield (name, combo)


def check_order(case, rec):
    name, combo = case
    ty = ORDER[name]
    vals = [ALPHA[name][i] for i in combo]
    want = S.der(ty, vals)
    parts = [S.der(ty.ty, v) for v in vals]
    rec.op(3)
    rec.state(name, want)
    rec.outcome(len(vals))
    a = ty.cls(ty.py(vals)).dump()
    if a != want:
        return 'SET OF %r encodes as %s instead of %s' % (vals, a.hex()[:400], want.hex()[:400])
    # the same elements on the wire in this order
    raw = ref.tlv(0, True, 17, b''.join(parts))
    o = ty.cls.load(raw)
    if o.dump() != raw:
        return 'untouched SET OF %s dumps as %s' % (raw.hex()[:400], o.dump().hex()[:400])
    if not S.native_eq(o.native, ty.native(vals)) or not S.native_eq(list(o.native), [ty.ty.native(v) for v in vals]):
        return 'SET OF %s reads as %r' % (raw.hex()[:400], o.native)
    f = o.dump(force=True)
    if f != want:
        return 'SET OF %s re-encodes as %s instead of %s' % (raw.hex()[:400], f.hex()[:400], want.hex()[:400])
    if vals:
        rec.op()
        o = ty.cls.load(raw)
        del o[0]
        if o.dump() != S.der(ty, vals[1:]):
            return 'SET OF %s without its first element encodes as %s' % (raw.hex()[:400], o.dump().hex()[:400])


SPACES = [
    Space('histories', gen, check, 'all operation histories of length <= 3 (4) from 9 initial states of 7 list types, deduplicated on the graph of the real objects'),
    Space('set-of-order', gen_order, check_order, 'all tuples of <= 4 (5) elements of an alphabet of boundary encodings, built and on the wire'),
    Space('sizes', lambda tier: L.edit_cases(L.LISTS, tier), L.check_edit, 'wide lists: every number of elements up to 33 and around powers of two, x state of '
          'decoding x source x single and double edits at the ends and in the middle'),
]


def run(argv):
    return main('C13', SPACES, ['states are merged when the whole graph of attributes of the real objects (with aliasing) and the model are equal'], argv)
