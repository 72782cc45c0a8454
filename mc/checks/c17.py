"""C17 - a CHOICE always holds exactly the alternative its tag selects."""
import itertools
from .. import ref, schema as S, hist as H, ladder as L
from ..common import Space, bootstrap, main, attempt
from ..schema import Field, Seq, SetT, SeqOf, SetOfT, Choice, N, INT, OCT, UTF, BOOL, NULL, BITS, OID, ENUM, NINT

bootstrap()
from asn1crypto import core  # noqa

REC = Seq([Field('x', INT), Field('y', BOOL, None, ('default', False))], values=[{'x': 1}, {'x': 2, 'y': True}], name='REC')
LIST = SeqOf(INT, [[], [7, 8]])
IN = Choice([Field('n', INT), Field('r', REC), Field('t', OCT, ('i', 2, 0))], name='IN')

# alternatives with pairwise distinct outermost tags
ALTS = {
    'n': Field('n', INT), 's': Field('s', UTF), 'o': Field('o', OCT), 'q': Field('q', REC), 'z': Field('z', NULL), 'b': Field('b', BITS),
    'm': Field('m', NINT, ('i', 2, 6)),
    'st': Field('st', SetOfT(OCT, [[], [b'b', b'a']])),
    't': Field('t', INT, ('i', 2, 1)), 'e': Field('e', UTF, ('e', 2, 2)), 'r': Field('r', REC, ('i', 2, 3)), 'x': Field('x', REC, ('e', 2, 5)),
    'l': Field('l', LIST, ('i', 1, 1)), 'c': Field('c', IN, ('e', 2, 4)), 'h': Field('h', OCT, ('i', 2, 31)), 'p': Field('p', INT, ('e', 3, 200)),
    'c0': Field('c0', IN, ('e', 2, 0)),
}


class Tagged(S.Ty):
    """a type with explicit tags in the class"""

    def __init__(self, ty, tags):
        self.ty, self.tags, self.name = ty, tags, 'T' + ty.name
        self.cls = type('T', (ty.cls,), {'explicit': tuple((c, n) for _, c, n in tags)})
        self.values = ty.values

    def node(self, v):
        n = self.ty.node(v)
        for t in self.tags:
            n = S.apply_tag(n, t)
        return n

    def native(self, v):
        return self.ty.native(v)

    def py(self, v):
        return self.ty.py(v)


_cache = {}


def chty(names):
    if names not in _cache:
        _cache[names] = Choice([ALTS[n] for n in names], name='C')
        _cache[names].values = [(n, v) for n in names for v in ALTS[n].ty.values]
    return _cache[names]


TAGS = [(), (('e', 2, 0),), (('e', 1, 31),), (('e', 2, 2), ('e', 2, 4)), (('e', 3, 0), ('e', 2, 1), ('e', 1, 2))]


def params(tags):
    if not tags:
        return {}
    t = tuple((S.NAMES[c], n) for _, c, n in tags)
    return {'explicit': t[0] if len(t) == 1 else t}


def wrap(n, tags):
    for t in tags:
        n = S.apply_tag(n, t)
    return n


# ------------------------------------------------------------------ positions: (class, node of the whole, path to the choice)
def top(cls, tags):
    return (lambda n: n), (lambda raw: cls.load(raw, strict=True, **params(tags))), (lambda o: o), (lambda v: cls(v, **params(tags)))


def position(pos, cls, tags):
    """-> node builder, loader, getter, constructor from an object or python value"""
    p = params(tags)
    if pos == 'top':
        return (lambda n: n), (lambda raw: cls.load(raw, strict=True, **dict(p))), (lambda o: o), (lambda v: v if isinstance(v, cls) else cls(v, **dict(p)))
    if pos == 'field':
        k = type('R', (core.Sequence,), {'_fields': [('a', core.Boolean), ('f', cls, dict(p)), ('g', core.BMPString)]})
        return ((lambda n: N(0, 16, kids=[BOOL.node(True), n, S.BMP.node(u'k')])), (lambda raw: k.load(raw, strict=True)), (lambda o: o['f']),
                (lambda v: k({'a': True, 'f': v, 'g': u'k'})))
    if pos == 'optional':
        k = type('R', (core.Sequence,), {'_fields': [('f', cls, dict(p, optional=True)), ('g', core.BMPString)]})
        return ((lambda n: N(0, 16, kids=[n, S.BMP.node(u'k')])), (lambda raw: k.load(raw, strict=True)), (lambda o: (o['g'].native, o['f'])[1]),
                (lambda v: k({'f': v, 'g': u'k'})))
    if pos in ('list', 'setof'):
        # lists take objects of a choice
        base, num = (core.SequenceOf, 16) if pos == 'list' else (core.SetOf, 17)
        kid = cls if not tags else type('T', (cls,), {'explicit': tuple((c, n) for _, c, n in tags)})
        k = type('L', (base,), {'_child_spec': kid})
        return ((lambda n: N(0, num, kids=[n])), (lambda raw: k.load(raw, strict=True)), (lambda o: o[0]),
                (lambda v: k([v if isinstance(v, kid) else kid(v)])))
    if pos == 'choice':
        k = type('K', (core.Choice,), {'_alternatives': [('w', core.BMPString), ('f', cls, dict(params(tags or (('e', 2, 9),))))]})
        return ((lambda n: n if tags else S.apply_tag(n, ('e', 2, 9))), (lambda raw: k.load(raw, strict=True)), (lambda o: o.chosen), (lambda v: k('f', v)))
    raise AssertionError(pos)


POS = ['top', 'field', 'optional', 'list', 'setof', 'choice']


def subsets(tier):
    names = [n for n in ALTS if n != 'c0']
    yield tuple(names)
    yield tuple(reversed(names))
    sizes = (1, 2) if tier == 'quick' else (1, 2, 3)
    for k in sizes:
        for c in itertools.combinations(names, k):
            yield c
            if k == 2:
                yield (c[1], c[0])


def gen(tier):
    for names in subsets(tier):
        for tags in TAGS:
            if len(names) == 2 and tier == 'quick' and len(tags) == 3:
                continue
            for pos in POS:
                if len(names) > 1 and pos in ('setof', 'choice', 'optional') and len(names) < 10 and tier == 'quick':
                    continue
                yield (names, tags, pos)


def same(o, name, field, v, nat, n, where):
    """all views of a choice describe one alternative; n is the node of the alternative"""
    if o.name != name:
        return '%s: name is %r instead of %r' % (where, o.name, name)
    if not S.native_eq(o.native, nat) or not S.native_eq(o.chosen.native, nat):
        return '%s: native is %r, chosen.native is %r instead of %r' % (where, o.native, o.chosen.native, nat)
    if not isinstance(o.chosen, field.ty.cls):
        return '%s: chosen is a %s' % (where, type(o.chosen).__name__)
    if n is not None and o.chosen.dump() != n:
        return '%s: chosen encodes as %s instead of %s' % (where, o.chosen.dump().hex(), n.hex())
    if o.chosen is not o.chosen:
        return '%s: chosen is another object each time' % where


def check(case, rec):
    names, tags, pos = case
    ty = chty(names)
    whole, load, get, make = position(pos, ty.cls, tags)
    for name, v in ty.values:
        f = ALTS[name]
        nat = f.ty.native(v)
        alt = f.node(v)
        cn = wrap(alt, tags)
        full = whole(cn)
        want = S.encode(full)
        altder = S.encode(alt)
        # built in every way
        py = f.ty.py(v)
        builds = [lambda: (name, py), lambda: {name: py}, lambda: ty.cls(name, py), lambda: ty.cls({name: py}), lambda: ty.cls((name, py)),
                  lambda: ty.cls(name, f.ty.cls(py)), lambda: ty.cls(name, f.ty.cls(py, **dict(f.params()))),
                  lambda: ty.cls(name, py, **dict(params(tags)))]
        for k, b in enumerate(builds):
            if pos in ('top', 'list', 'setof') and tags and 2 <= k <= 6:
                continue
            if pos in ('list', 'setof') and tags and k == 7:
                continue
            if pos == 'top' and k in (2, 3, 4, 5, 6, 7) or k < 2 or pos != 'top':
                rec.op(2)
                o = make(b())
                if o.dump() != want:
                    return '%s built in way %d encodes as %s instead of %s' % (name, k, o.dump().hex(), want.hex())
                e = same(get(o), name, f, v, nat, altder, 'built in way %d' % k)
                if e:
                    return e
        # decoded from every framing
        for fm in S.variant_forms(full, 1 if len(names) > 1 else 2):
            raw = S.encode(full, fm)
            rec.op(4)
            o = load(raw)
            indef = S.uses_indef(full, fm)
            e = same(get(o), name, f, v, nat, None if indef else S.encode(alt, fm), 'decoded from %s' % raw.hex())
            if e:
                return e
            if not indef and o.dump() != raw:
                return '%s dumps as %s' % (raw.hex(), o.dump().hex())
            if indef and not S.native_eq(get(load(o.dump())).native, nat):
                return '%s dumps as %s' % (raw.hex(), o.dump().hex())
            for k in range(2):
                o = load(raw)
                if k == 0:
                    o = o.copy()
                    # the header of a copy is written anew
                    e = same(get(o), name, f, v, nat, None if fm else altder, 'a copy of %s' % raw.hex())
                    if e:
                        return e
                if o.dump(force=True) != want:
                    return '%s is re-encoded (%d) as %s instead of %s' % (raw.hex(), k, o.dump().hex(), want.hex())
                e = same(get(o), name, f, v, nat, altder, 're-encoded from %s' % raw.hex())
                if e:
                    return e
        rec.state(want)
        rec.outcome(name)
    return None


# ------------------------------------------------------------------ wrong tags
def gen_wrong(tier):
    sets = [('n',), ('q',), ('t',), ('c',), ('n', 's'), ('t', 'e'), ('c', 'q'), ('n', 's', 'q', 't', 'c'), ('l', 'h', 'p'), ('m', 'z', 'b', 'st', 'r', 'x')]
    for names in sets:
        for tags in TAGS:
            for pos in POS:
                yield (names, tags, pos)


def wrong_nodes():
    """elements of many classes and tags"""
    for f in ALTS.values():
        for v in f.ty.values[:1]:
            yield f.name, f.node(v)
    for c in (0, 1, 2, 3):
        for num in (0, 1, 2, 3, 4, 5, 6, 9, 12, 16, 17, 30, 31, 32, 200):
            if (c, num) == (0, 0):
                continue
            yield None, N(c, num, content=b'')
            yield None, N(c, num, content=b'\x01')
            yield None, N(c, num, kids=[INT.node(1)])
            yield None, N(c, num, kids=[])


def check_wrong(case, rec):
    names, tags, pos = case
    ty = chty(names)
    whole, load, get, make = position(pos, ty.cls, tags)
    ids = dict()
    for n in names:
        nd = ALTS[n].node(ALTS[n].ty.values[0])
        ids[(nd.cls, nd.tag)] = n
    seen = set()
    variants = [tags] + [t for t in TAGS if t != tags]
    variants += [tags + (('e', 2, 0),), tags + (('e', 2, 9),)]
    variants += [tags[:i] + ((k, c, n + 1),) + tags[i + 1:] for i, (k, c, n) in enumerate(tags)]
    variants += [tags[:i] + ((k, c % 3 + 1, n),) + tags[i + 1:] for i, (k, c, n) in enumerate(tags)]
    variants += [tags[:i] + tags[i + 1:] for i in range(len(tags))]
    for name, nd in wrong_nodes():
        for wt in variants:
            inner = wrap(nd, wt)
            # what this is for a reader of the right specification
            cur = inner
            ok = True
            for kind, c, num in reversed(tags):
                if (cur.cls, cur.tag) != (c, num) or cur.kids is None or len(cur.kids) != 1:
                    ok = False
                    break
                cur = cur.kids[0]
            valid = ids.get((cur.cls, cur.tag)) if ok else None
            raw = S.encode(whole(inner))
            if raw in seen:
                continue
            seen.add(raw)
            if pos in ('optional', 'choice') and (inner.cls, inner.tag) == (0, 30):
                # the other field, or alternative
                continue
            rec.op()
            if pos == 'top':
                o = ty.cls(**params(tags))
                k, e = attempt(lambda: (o.validate(inner.cls, inner.tag, ref.parse_one(raw)[0][4]), o.name)[1])
                if k == 'err' and not isinstance(e, ValueError) or (e if k == 'ok' else None) != valid:
                    return 'validate() of the class, tag and contents of %s: %r' % (raw.hex(), e)
            k, e = attempt(lambda: get(load(raw)))
            if k == 'ok':
                if isinstance(e, core.Void):
                    return '%s: the element is skipped' % raw.hex()
                if valid is None:
                    k, e = attempt(lambda: (e.name, e.native))
                    return '%s was decoded as %r' % (raw.hex(), e)
                if e.name != valid:
                    return '%s was decoded as %r instead of %r' % (raw.hex(), e.name, valid)
                k, e2 = attempt(lambda: e.native)
                if k == 'err' and not isinstance(e2, (ValueError, TypeError)):
                    return '%s: native raises %r' % (raw.hex(), e2)
                if e.chosen.dump() != S.encode(cur):
                    return '%s: the chosen value is %s' % (raw.hex(), e.chosen.dump().hex())
                rec.outcome('accepted')
            else:
                if not isinstance(e, (ValueError, TypeError)):
                    return '%s raises %r' % (raw.hex(), e)
                if valid is not None and name == valid and wt == tags:
                    return '%s is refused: %r' % (raw.hex(), e)
                rec.outcome('refused')
    rec.state(names, tags, pos)
    # building something else
    full = ty.cls
    for bad in [('nope', 1), {'nope': 1}, {}, {'n': 1, 's': u'x'}, ('n',), ('n', 1, 2), 'nope', 5]:
        rec.op()
        k, e = attempt(full, bad)
        if k == 'ok':
            return '%r was accepted' % (bad,)
        if not isinstance(e, (ValueError, TypeError)):
            return '%r raises %r' % (bad, e)
    k, e = attempt(full, names[0], ALTS[names[0]].ty.py(ALTS[names[0]].ty.values[0]), implicit=1)
    if k == 'ok' or not isinstance(e, (ValueError, TypeError)):
        return 'an implicit tag was accepted: %r' % (e,)
    return None


# ------------------------------------------------------------------ histories
CH = Choice([Field('n', INT), Field('q', REC), Field('e', UTF, ('e', 2, 2)), Field('l', LIST, ('i', 2, 3)), Field('c', Choice(
    [Field('k', INT), Field('r', REC)], name='CC'), ('e', 2, 4))], name='CH')
CH.values = [('q', {'x': 1}), ('l', [7, 8]), ('c', ('r', {'x': 3, 'y': True})), ('e', u'w')]
HSYS = {
    'plain': CH, 'tagged': None, 'tagged2': None,
    'field': Seq([Field('f', CH, ('e', 1, 31)), Field('g', CH, None, 'optional')],
                 values=[{'f': v, 'g': v} for v in CH.values], name='F'),
    'list': SeqOf(CH, [[v, v] for v in CH.values]),
}


class TaggedChoice(Choice):
    def __init__(self, base, tags):
        self.alts, self.name, self.tags = base.alts, 'TC', tags
        ex = tuple((c, n) for _, c, n in tags)
        self.cls = type('T', (base.cls,), {'explicit': ex if len(ex) > 1 else ex[0]})
        self.values = base.values

    def node(self, v):
        return wrap(Choice.node(self, v), self.tags)


HSYS['tagged'] = TaggedChoice(CH, (('e', 2, 0),))
HSYS['tagged2'] = TaggedChoice(CH, (('e', 2, 0), ('e', 1, 40)))
ROOTS = {'plain': [()], 'tagged': [()], 'tagged2': [()], 'field': [('f',), ('g',)], 'list': [(0,), (1,)]}


def hops(name):
    out = [('native', ()), ('dump', ()), ('force', ()), ('fields', ()), ('copy',), ('reload',), ('reloadforce',)]
    for r in ROOTS[name]:
        c = r + ('<chosen>',)
        out += [('set', c, 'x', 9), ('set', c, 'y', True), ('del', c, 'y'), ('append', c, 200), ('del', c, 0), ('set', c, 0, 7), ('hold', c),
                ('set', c + ('<chosen>',), 'x', 5), ('native', c), ('force', c), ('hold', c + ('<chosen>',))]
        if r:
            out += [('native', r), ('dump', r), ('force', r), ('hold', r)]
    if name == 'field':
        for v in CH.values + [('n', 5)]:
            out += [('set', (), 'f', v), ('setobj', (), 'g', v)]
        out += [('del', (), 'g')]
    if name == 'list':
        for v in CH.values[:3]:
            out += [('set', (), 0, v)]
        out += [('del', (), 1)]
    out += [('set', ('<handle>',), 'x', 130), ('append', ('<handle>',), 11), ('set', ('<handle>', '<chosen>'), 'x', 131)]
    return out


OPS = dict((k, hops(k)) for k in HSYS)


def hinits(name):
    ty = HSYS[name]
    out = []
    for vi, v in enumerate(ty.values):
        def built(v=v):
            if isinstance(ty, Choice):
                o = ty.cls(*ty.py(v))
            else:
                o = ty.cls(ty.py(v))
            return H.Sys(ty, o, H.norm(ty, v))
        out.append(('built%d' % vi, built))
        n = ty.node(v)
        for lab, fm in (('der', {}), ('indef', dict((id(x), 'indef') for x in n.flat() if x.kids is not None)), ('pad', dict((id(x), 'pad1') for x in n.flat()))):
            raw = S.encode(n, fm)
            out.append((lab + str(vi), lambda raw=raw, v=v, lab=lab: H.Sys(ty, ty.cls.load(raw), H.resort(ty, H.norm(ty, v)), lab != 'der')))
    return out


def gen_hist(tier):
    for name in HSYS:
        for label, _ in hinits(name):
            if name in ('field', 'list'):
                depth = 2 if tier == 'quick' else 3
            else:
                depth = 3 if tier == 'quick' else 4
            for first in range(len(OPS[name])):
                yield (name, label, first, depth)


def check_hist(case, rec):
    name, label, first, depth = case
    H.search(dict(hinits(name))[label], OPS[name], depth, rec, observers=3 if depth < 4 else 2, first=first)


SPACES = [
    Space('alternatives', gen, check, 'all sets of 1-2 (3) of 16 alternatives and all of them (universal, tagged implicitly and explicitly, records, lists, nested choices), '
          '5 taggings of the choice, 6 positions: every value built in every way, decoded from every framing with <= 1 (2) deviations, copied and re-encoded'),
    Space('wrong', gen_wrong, check_wrong, '10 choices x 5 taggings x 6 positions x ~250 elements x every wrong tagging'),
    Space('histories', gen_hist, check_hist, 'all histories of operations on the chosen value, the choice and its container to depth 3 (4), or 2 (3) inside of containers'),
    Space('sizes', L.wide_cases, L.check_wide_choices, 'choices of 1-128 alternatives: each of them, and elements of other classes and numbers'),
]


def run(argv):
    return main('C17', SPACES, ['an untagged CHOICE as alternative of another CHOICE is not supported by the library and not claimed',
                                'states are merged when the whole graph of attributes of the real objects (with aliasing) and the model are equal'], argv)
