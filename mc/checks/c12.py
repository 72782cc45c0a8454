"""C12 - a record under any editing history stays equal to the model of its fields."""
from .. import ref, schema as S, hist as H, ladder as L
from ..common import Space, bootstrap, main, Violation
from ..schema import Field, Seq, SetT, SeqOf, SetOfT, Choice, INT, OCT, UTF, BOOL, NINT

bootstrap()

IN = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], name='IN')
ALT = Choice([Field('n', INT), Field('q', IN), Field('e', UTF, ('e', 2, 2)), Field('l', SeqOf(INT, [[], [1]]), ('i', 2, 3))], name='ALT')
LIST = SeqOf(INT, [[], [7]])

SCHEMAS = {
    # scalars: required, optional, default, tagged
    'FLAT': Seq([Field('a', INT), Field('o', OCT, ('i', 2, 0), 'optional'), Field('d', INT, ('e', 2, 1), ('default', 5)),
                 Field('u', NINT, ('i', 1, 2), ('default', 'two'))], values=[{'a': 1}, {'a': 1, 'o': b'k', 'd': 6, 'u': 5}], name='FLAT'),
    # nested record, optional; nested list with a default
    'NEST': Seq([Field('a', INT), Field('n', IN, ('i', 2, 2), 'optional'), Field('l', LIST, ('i', 2, 3), ('default', [7]))],
                values=[{'a': 1}, {'a': 1, 'n': {'x': 3}, 'l': [1, 2]}], name='NEST'),
    'NESTE': Seq([Field('a', INT), Field('n', IN, ('e', 2, 2), ('default', {'x': 4})), Field('l', LIST, ('e', 1, 3), 'optional')],
                 values=[{'a': 1}, {'a': 1, 'n': {'x': 3, 'y': True}, 'l': [1]}], name='NESTE'),
    # choices
    'CHO': Seq([Field('c', ALT), Field('z', ALT, ('e', 2, 9), 'optional')],
               values=[{'c': ('n', 1)}, {'c': ('q', {'x': 1}), 'z': ('l', [1])}], name='CHO'),
    # sets
    'SETF': SetT([Field('u', UTF), Field('a', INT), Field('o', OCT, ('i', 2, 0), 'optional'), Field('d', INT, ('e', 2, 1), ('default', 5)),
                  Field('n', IN, ('i', 1, 4), 'optional')],
                 values=[{'u': u'z', 'a': 1}, {'u': u'z', 'a': 1, 'o': b'k', 'd': 6, 'n': {'x': 3}}], name='SETF'),
    # three levels
    'DEEP': Seq([Field('p', Seq([Field('r', SeqOf(IN, [[], [{'x': 1}]])), Field('s', SetOfT(OCT, [[]]), None, 'optional')]), ('e', 2, 0))],
                values=[{'p': {'r': [{'x': 1}]}}, {'p': {'r': [], 's': [b'b', b'a']}}], name='DEEP'),
}

COMMON = [('native', ()), ('dump', ()), ('force', ()), ('fields', ()), ('copy',), ('reload',), ('reloadforce',)]
OPS = {
    'FLAT': [('set', (), 'a', 2), ('setobj', (), 'a', -129), ('set', (), 'o', b'oo'), ('set', (), 'o', None), ('del', (), 'o'),
             ('setobj', (), 'o', b''), ('set', (), 'd', 5), ('set', (), 'd', 9), ('setobj', (), 'd', 9), ('del', (), 'd'), ('set', (), 'd', None),
             ('set', (), 'u', 'two'), ('set', (), 'u', 77), ('del', (), 'u'),
             ('bad', (), 'setitem', 'a', u'text'), ('bad', (), 'setitem', 'nope', 1), ('bad', (), 'delitem', 'a'), ('bad', (), 'delitem', 'nope'),
             ('bad', (), 'setitem', 'a', None), ('bad', (), 'setobj', 'o', 'Integer', 1), ('bad', (), 'getitem', 'nope'), ('bad', (), 'getitem', 9),
             ('bad', (), 'setitem', 'u', 'unknown')] + COMMON,
    'NEST': [('set', (), 'a', 2), ('set', (), 'n', {'x': 8}), ('setobj', (), 'n', {'x': 8, 'y': True}), ('del', (), 'n'), ('set', ('n',), 'x', 9),
             ('set', ('n',), 'y', True), ('del', ('n',), 'y'), ('set', (), 'l', [7]), ('setobj', (), 'l', [3, 4]), ('set', (), 'l', []), ('del', (), 'l'), ('append', ('l',), 6),
             ('set', ('l',), 0, 7), ('del', ('l',), 0), ('native', ('n',)), ('dump', ('n',)), ('dump', ('l',)), ('native', ('l',)), ('force', ('n',)),
             ('hold', ('n',)), ('hold', ('l',)), ('set', ('<handle>',), 'x', 11), ('append', ('<handle>',), 12),
             ('bad', (), 'setitem', 'n', {'x': u'bad'}), ('bad', ('n',), 'setitem', 'x', u'bad'), ('bad', ('l',), 'append', u'bad'), ('bad', (), 'setitem', 'l', [u'bad']),
             ('bad', (), 'setitem', 'n', {'x': 1, 'zz': 1}), ('bad', (), 'setitem', 'n', {}), ('bad', ('n',), 'delitem', 'x')] + COMMON,
    'CHO': [('set', (), 'c', ('n', 2)), ('set', (), 'c', ('q', {'x': 2})), ('setobj', (), 'c', ('e', u'v')), ('set', (), 'c', ('l', [2])),
            ('set', (), 'z', ('n', 2)), ('setobj', (), 'z', ('q', {'x': 2})), ('set', (), 'z', ('e', u'v')), ('set', (), 'z', ('l', [])), ('del', (), 'z'),
            ('set', ('c', '<chosen>'), 'x', 9), ('set', ('z', '<chosen>'), 'x', 9), ('append', ('c', '<chosen>'), 4), ('append', ('z', '<chosen>'), 4),
            ('native', ('c',)), ('native', ('z',)), ('dump', ('c',)), ('dump', ('z',)), ('force', ('c', '<chosen>')), ('dump', ('z', '<chosen>')),
            ('hold', ('c', '<chosen>')), ('hold', ('z', '<chosen>')), ('set', ('<handle>',), 'x', 13), ('append', ('<handle>',), 14),
            ('bad', (), 'setitem', 'c', 1), ('bad', (), 'setitem', 'c', ('nope', 1)), ('bad', (), 'setobj', 'c', 'OctetString', b''),
            ('bad', (), 'setitem', 'z', ('n', u'bad')), ('bad', (), 'delitem', 'c')] + COMMON,
    'SETF': [('set', (), 'u', u'y'), ('set', (), 'a', 2), ('set', (), 'o', b'oo'), ('del', (), 'o'), ('set', (), 'd', 5), ('setobj', (), 'd', 9), ('del', (), 'd'),
             ('set', (), 'n', {'x': 8}), ('setobj', (), 'n', {'x': 8, 'y': True}), ('del', (), 'n'), ('set', ('n',), 'x', 9), ('del', ('n',), 'y'), ('set', ('n',), 'y', True),
             ('native', ('n',)), ('dump', ('n',)), ('hold', ('n',)), ('set', ('<handle>',), 'x', 11),
             ('bad', (), 'setitem', 'a', u'text'), ('bad', (), 'delitem', 'u'), ('bad', ('n',), 'setitem', 'x', u'bad'), ('bad', (), 'setitem', 'nope', 1)] + COMMON,
    'DEEP': [('set', ('p', 'r', 0), 'x', 5), ('set', ('p', 'r', 0), 'y', True), ('append', ('p', 'r'), {'x': 2}), ('del', ('p', 'r'), 0), ('set', ('p', 'r'), 1, {'x': 6}),
             ('setobj', ('p', 'r'), 0, {'x': 7, 'y': True}), ('set', ('p',), 'r', []), ('set', ('p',), 's', [b'd', b'c']), ('append', ('p', 's'), b'a'), ('del', ('p',), 's'),
             ('set', (), 'p', {'r': [{'x': 1}], 's': []}), ('dump', ('p',)), ('native', ('p', 'r')), ('dump', ('p', 'r', 0)), ('native', ('p',)), ('force', ('p', 'r')),
             ('hold', ('p',)), ('hold', ('p', 'r')), ('hold', ('p', 'r', 0)), ('set', ('<handle>',), 'x', 3), ('append', ('<handle>',), {'x': 21}), ('set', ('<handle>',), 'r', [{'x': 4}]),
             ('bad', ('p', 'r'), 'append', {'x': u'bad'}), ('bad', ('p', 'r', 0), 'setitem', 'x', u'bad'), ('bad', (), 'setitem', 'p', {'r': [{}]})] + COMMON,
}
OPS['NESTE'] = OPS['NEST']


def inits(name):
    """(label, maker)"""
    ty = SCHEMAS[name]
    out = []
    for vi, v in enumerate(ty.values):
        out.append(('built%d' % vi, lambda v=v: H.Sys(ty, ty.cls(ty.py(v)), H.norm(ty, v))))
        n = ty.node(v)
        nodes = n.flat()
        raws = [('der', S.encode(n))]
        raws.append(('indef', S.encode(n, dict((id(x), 'indef') for x in nodes if x.kids is not None))))
        raws.append(('pad', S.encode(n, dict((id(x), 'pad1') for x in nodes))))
        for lab, raw in raws:
            m = H.resort(ty, H.norm(ty, v))
            out.append((lab + str(vi), lambda raw=raw, m=m, ber=lab != 'der': H.Sys(ty, ty.cls.load(raw), H.dup(m), ber)))
    out.append(('empty', lambda: H.Sys(ty, ty.cls(), H.norm(ty, {}))))
    return out


def gen(tier):
    for name in SCHEMAS:
        for label, _ in inits(name):
            if tier == 'quick':
                depth = 3 if label in ('built1', 'der1') else 2
            else:
                depth = 4 if label == 'der1' else 3
            for first in range(len(OPS[name])):
                yield (name, label, first, depth)


def check(case, rec):
    name, label, first, depth = case
    make = dict(inits(name))[label]
    H.search(make, OPS[name], depth, rec, observers=3 if depth < 4 else 2, first=first)
    return None


# elements that follow the last field: (octets, DER)
UNKNOWN = [('8501aa', '8501aa'), ('0c0161', '0c0161'), ('a58003020105' '0000', 'a503020105'[:0] + 'a503020105'), ('a5810302' '0105', 'a503020105'), ('2480040161' '0000', '040161'), ('3080' '020105' '3080' '0000' '0000', '30050201053000'),
           ('05820000', '0500')]
EDITS = [('set', 'a', 2), ('set', 'a', -129), ('set', 'o', b'oo'), ('del', 'o'), ('set', 'd', 9), ('del', 'd'), ('set', 'u', 77), ('del', 'u')]
READS = [('none',), ('native',), ('dump',), ('force',), ('len',), ('iter',), ('copy',)]


def gen_unknown(tier):
    n = len(UNKNOWN)
    some = [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(n)]
    for vi in range(2):
        for form in ('der', 'pad1', 'indef'):
            for us in some:
                for e in range(len(EDITS)):
                    for r in range(len(READS)):
                        if len(us) == 1 or r < (7 if tier == 'thorough' else 3):
                            yield (vi, form, us, e, r)


def same(got, us, known):
    """the known fields in DER and the unknown elements in some framing"""
    one, end = ref.parse_one(got)
    if end != len(got) or not one[4].startswith(known):
        return False
    rest = ref.parse_all(one[4][len(known):])
    return len(rest) == len(us) and all(ref._tree(g) in [ref.tree(bytes.fromhex(x)) for x in UNKNOWN[i]] for g, i in zip(rest, us))


def check_unknown(case, rec):
    """a record followed by elements of a newer version: an edit leaves them as they are"""
    vi, form, us, e, r = case
    ty = SCHEMAS['FLAT']
    v = dict(ty.values[vi])
    body = [S.encode(x) for x in ty.node(v).kids if not x.omit]
    inner = b''.join(body) + b''.join(bytes.fromhex(UNKNOWN[i][0]) for i in us)
    head = {'der': b'\x30' + ref.length(len(inner)), 'pad1': b'\x30\x82' + len(inner).to_bytes(2, 'big'), 'indef': b'\x30\x80'}[form]
    raw = head + inner + (b'\x00\x00' if form == 'indef' else b'')
    o = ty.cls.load(raw)

    def read(what):
        nonlocal o
        rec.op()
        if what == 'native':
            o.native
        elif what == 'dump':
            o.dump()
        elif what == 'force':
            o.dump(force=True)
        elif what == 'len':
            len(o)
        elif what == 'iter':
            list(o)
        elif what == 'copy':
            o = o.copy()
    read(READS[r][0])
    ed = EDITS[e]
    if ed[0] == 'set':
        o[ed[1]] = ed[2]
        v[ed[1]] = ed[2]
    else:
        del o[ed[1]]
        v.pop(ed[1], None)
    rec.op(3)
    known = b''.join(S.encode(x) for x in ty.node(v).kids if not x.omit)
    exact = known + b''.join(bytes.fromhex(UNKNOWN[i][0]) for i in us)
    plain = known + b''.join(bytes.fromhex(UNKNOWN[i][1]) for i in us)
    exact, plain = [b'\x30' + ref.length(len(x)) + x for x in (exact, plain)]
    got = o.dump()
    rec.state(got)
    if got != exact and not (READS[r][0] not in ('none', 'dump', 'len') and same(got, us, known)):
        raise Violation('after %r, %r of %s the record with unknown fields is %s instead of %s' % (READS[r], ed, raw.hex(), got.hex(), exact.hex()))
    again = o.dump(force=True)
    if not same(again, us, known):
        raise Violation('after %r, %r of %s the forced encoding is %s instead of %s' % (READS[r], ed, raw.hex(), again.hex(), plain.hex()))
    back = ty.cls.load(again)
    if back['a'].native != v['a'] or back['o'].native != v.get('o'):
        raise Violation('fields of %s after %r' % (again.hex(), ed))
    return None


SPACES = [Space('unknown', gen_unknown, check_unknown, 'records followed by 1-2 unknown elements of every framing x a read before x every edit: the edited fields and the same elements'),
          Space('histories', gen, check, 'all operation histories of length <= 3 (4) from 9 initial states (built, DER, BER, empty) of 6 schemas, deduplicated '
                'on the graph of the real objects; each state observed in three orders on fresh replays'),
    Space('sizes', lambda tier: L.edit_cases(L.RECORDS, tier), L.check_edit, 'wide records: every number of elements up to 33 and around powers of two, x state of '
          'decoding x source x single and double edits at the ends and in the middle'),
]


def run(argv):
    return main('C12', SPACES, ['states are merged when the whole graph of attributes of the real objects (with aliasing) and the model are equal'], argv)
