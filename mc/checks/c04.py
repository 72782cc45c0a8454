"""C04 - an untouched decoded value re-encodes to the octets it was decoded from."""
import contextlib
import io
import itertools
from .. import ref, schema as S, corpus, ladder as L
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core  # noqa


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def first_child(o):
    if isinstance(o, (core.Sequence, core.SequenceOf)):
        return o[0] if len(o) else None
    if isinstance(o, core.Choice):
        return o.chosen
    return None


def deep(o):
    for c in children(o):
        deep(c)


def children(o):
    if isinstance(o, core.Sequence):
        return [o[i] for i in range(len(o))]
    if isinstance(o, core.SequenceOf):
        return list(o)
    if isinstance(o, core.Choice):
        return [o.chosen]
    if isinstance(o, (core.ParsableOctetString, core.ParsableOctetBitString, core.Any)):
        k, p = attempt(lambda: o.parsed)
        return [p] if k == 'ok' else []
    return []


OPS = [
    ('native', lambda o, m: o.native),
    ('repr', lambda o, m: repr(o)),
    ('eq', lambda o, m: (o == o, o == m)),
    ('len', lambda o, m: len(o) if hasattr(o, '__len__') else 0),
    ('iter', lambda o, m: list(o) if hasattr(o, '__iter__') else 0),
    ('first', lambda o, m: first_child(o)),
    ('deep', lambda o, m: deep(o)),
    ('childnative', lambda o, m: [c.native for c in children(o)]),
    ('childdump', lambda o, m: [c.dump() for c in children(o)]),
    ('copy', lambda o, m: o.copy().dump()),
    ('debug', lambda o, m: quiet(o.debug)),
    ('contents', lambda o, m: o.contents),
    ('str', lambda o, m: attempt(lambda: str(o))),
]


def chain_indef(n, fm):
    """does the element itself use the indefinite length (its tag chain)?"""
    return any('indef' == v or 'chunk' in v for v in [fm.get(id(n), '')])


def gen(tier):
    for name, ty in S.FAMILY.items():
        for vi, v in enumerate(ty.values):
            n = ty.node(v)
            nodes = n.flat()
            for fm in S.variant_forms(n, 2 if tier == 'thorough' else 1):
                fl = tuple((j, fm[id(x)]) for j, x in enumerate(nodes) if id(x) in fm)
                for extra in ((0, 1, 2) if isinstance(ty, S.Seq) and not isinstance(ty, S.SetT) and ty.fields[-1].opt is None else (0,)):
                    for d in range(0, 3 if tier == 'thorough' or not fl else 2):
                        for ops in itertools.product(range(len(OPS)), repeat=d):
                            yield (name, vi, fl, extra, ops)


EXTRA = [b'', ref.integer(3), ref.ctx(9, b'\x00\x01') + ref.u(4, b'')]


def check(case, rec):
    name, vi, fl, extra, ops = case
    ty = S.FAMILY[name]
    v = ty.values[vi]
    n = ty.node(v)
    nodes = n.flat()
    fm = dict((id(nodes[j]), f) for j, f in fl)
    if extra:
        body = b''.join(S.encode(k, fm) for k in n.kids) + EXTRA[extra]
        f = fm.get(id(n), 'min')
        if f not in ('min', 'indef'):
            return None
        raw = ref.tlv(n.cls, True, n.tag, body) if f == 'min' else ref.indef(n.cls, n.tag, body)
    else:
        raw = S.encode(n, fm)
    o = ty.cls.load(raw)
    m = ty.cls.load(raw)
    for i in ops:
        rec.op()
        if extra == 2 and OPS[i][0] not in ('len', 'first', 'copy', 'repr', 'contents', 'eq'):
            attempt(OPS[i][1], o, m)
            continue
        OPS[i][1](o, m)
    return verify(ty, n, fm, o, raw, rec, top=True, extra=extra)


def verify(ty, n, fm, o, raw, rec, top=False, extra=0, wrapped=False):
    """o.dump() is raw, and so for each element inside of it"""
    rec.op()
    rec.outcome(type(ty).__name__)
    own = n
    indef = chain_indef(own, fm)
    while own.kids is not None and own.kind == 'cons' and len(own.kids) == 1 and own.cls != 0 and not indef:
        own = own.kids[0]
        indef = chain_indef(own, fm)
    got = o.dump()
    if got != raw:
        if not indef:
            return '%s decoded from %s dumps as %s' % (ty.name, raw.hex(), got.hex())
        if not extra and got != S.encode(n, {id(n): 'min'}):
            return '%s decoded from %s (indefinite) dumps as %s, DER is %s' % (ty.name, raw.hex(), got.hex(), S.encode(n, {id(n): 'min'}).hex())
        return None
    rec.state(ty.name, raw)
    inner = n
    if isinstance(ty, S.Choice):
        # find the alternative by name
        alt = ty.alt(o.name)
        c = o.chosen
        if wrapped:
            n = n.kids[0]
            raw = S.encode(n, fm)
        return verify(alt.ty, n, fm, c, raw, rec)
    while inner.kids is not None and len(inner.kids) == 1 and not is_body(ty, inner):
        inner = inner.kids[0]
    if isinstance(ty, S.Seq):
        present = [k for k in inner.kids]
        pos = 0
        for f in ty.fields:
            c = o[f.name]
            if isinstance(c, core.Void):
                if c.dump() != b'':
                    return 'absent field dumps as %r' % c.dump()
                continue
            k = present[pos]
            pos += 1
            kraw = S.encode(k, fm)
            if kraw == b'':
                continue
            msg = verify(f.ty, k, fm, c, kraw, rec, wrapped=f.tag is not None and f.tag[0] == 'e')
            if msg:
                return 'field %s: %s' % (f.name, msg)
    elif isinstance(ty, S.SetOfT):
        raws = sorted(S.encode(k, fm) for k in inner.kids)
        if not any('indef' in x or 'chunk' in x for x in fm.values()):
            if sorted(c.dump() for c in o) != raws:
                return 'elements of a SET OF dump as %r' % [c.dump() for c in o]
    elif isinstance(ty, S.SeqOf):
        for k, c in zip(inner.kids, o):
            msg = verify(ty.ty, k, fm, c, S.encode(k, fm), rec)
            if msg:
                return 'element: ' + msg
    if o.dump() != raw:
        return 'dump() changed to %s after the elements of it were dumped' % o.dump().hex()
    return None


def is_body(ty, n):
    """is this node the element of the type, not an explicit wrapper?  (a wrapper has exactly one kid and kind cons)"""
    return n.sort is not None or getattr(ty, 'tag', None) == n.tag and n.cls == 0 or not (len(n.kids) == 1 and n.kids[0].cls == 0 and
                                                                                         n.kids[0].tag == getattr(ty, 'tag', None))


def gen_real(tier):
    for cls, f in corpus.entries():
        for i in range(len(OPS)):
            yield (cls, f, (i,))
        if tier == 'thorough':
            for a in range(len(OPS)):
                for b in range(len(OPS)):
                    yield (cls, f, (a, b))


def check_real(case, rec):
    cls, f, ops = case
    raw = corpus.read(f)
    c = corpus.get_class(cls)
    o = c.load(raw, strict=True)
    m = c.load(raw)
    for i in ops:
        rec.op()
        OPS[i][1](o, m)
    one, _ = ref.parse_one(raw)
    indef = one[3][-1:] == b'\x80'
    # an element that itself uses the indefinite length is documented to be normalised
    want = raw if not indef else c.load(raw).dump()
    if o.dump() != want:
        return '%s %s dumps differently' % (cls, f)
    msg = walk(o, rec)
    if msg:
        return msg
    if o.dump() != want:
        return '%s %s dumps differently after its elements were dumped' % (cls, f)
    rec.state(f)
    rec.outcome(cls)


def walk(o, rec):
    """the contents of a container are the concatenation of the dumps of its elements"""
    rec.op()
    kids = children(o)
    if isinstance(o, core.Void):
        return None
    d = o.dump()
    one, end = ref.parse_one(d)
    if end != len(d):
        return '%r dumps more than one element' % o
    if isinstance(o, (core.Sequence, core.SequenceOf)):
        pos = 0
        body = o.contents
        for i, k in enumerate(kids):
            kd = k.dump()
            if kd and body[pos:pos + len(kd)] == kd:
                pos += len(kd)
            elif kd and isinstance(o, core.Sequence) and 'default' in o._fields[i][2]:
                pass
            elif kd:
                # indefinite-length elements are normalised by dump()
                one, nxt = ref.parse_one(body, pos)
                if one[3][-1:] != b'\x80':
                    return 'element %d of %r dumps as %s, in the contents it is %s' % (i, type(o), kd.hex()[:200], body[pos:].hex()[:200])
                pos = nxt
        if pos != len(body):
            return 'the elements of %r make up %d of %d octets' % (type(o), pos, len(body))
    for k in kids:
        msg = walk(k, rec)
        if msg:
            return msg
    return None


def gen_sizes(tier):
    for kind, n in L.cases(tier):
        yield (kind, n)


def check_sizes(case, rec):
    kind, size = case
    ty, v = L.make(kind, size)
    n = ty.node(v)
    der = S.encode(n)
    rec.state(case)
    for name, fm in L.framings(n):
        raw = S.encode(n, fm)
        # an element of indefinite length (its explicit tags are part of it) is documented to be normalised by dump()
        own = n
        while own.kids is not None and len(own.kids) == 1 and own.cls != 0 and fm.get(id(own)) != 'indef':
            own = own.kids[0]
        want = (raw, der) if chain_indef(own, fm) else (raw,)
        for i, (op, f) in enumerate(OPS):
            if size > 300 and i > 6:
                break
            o = ty.cls.load(raw, strict=True)
            m = ty.cls.load(raw)
            f(o, m)
            rec.op(2)
            got = o.dump()
            if got not in want:
                return '%s of size %d, framing %r, after %s: dumps as %s, was %s' % (kind, size, name, op, got.hex()[:300], raw.hex()[:300])
            rec.outcome(op)


SPACES = [
    Space('variants', gen, check, 'all values of the schema family x BER framings with <= 1 (2) deviations x unknown trailing fields x '
          'read histories of length <= 2'),
    Space('real', gen_real, check_real, 'the certificates, keys, CRLs, messages of the fixtures x read histories of length 1 (2)'),
    Space('sizes', gen_sizes, check_sizes, '%d kinds of values over a ladder of sizes x framings x one read' % len(L.KINDS)),
]


def run(argv):
    return main('C04', SPACES, ['an element that itself uses the indefinite length is documented to be normalised by dump(); for it the '
                                'result must be its octets or its DER encoding'], argv)
