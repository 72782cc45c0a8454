"""C03 - faults in encodings of every type: only ValueError and TypeError, always an answer, and the same one again."""
import itertools
from .. import corpus, gen, pki, ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import core, x509, keys, cms, crl, ocsp, csr, pkcs12, tsp, algos  # noqa
from asn1crypto._errors import APIException  # noqa
from . import c19  # noqa

CLS = dict(gen.classes())
OK = (ValueError, TypeError, APIException)       # the last says that a property has moved to another package


def load(cls, data, strict=False):
    if issubclass(cls, core.Concat):
        return cls(contents=data, strict=strict)
    return cls.load(data, strict=strict)


FULL = set()
BASES = []          # (label of the type, encoding)


def bases():
    if not BASES:
        g = gen.Gen(most=6)
        seen = set()
        for label, cls in sorted(CLS.items()):
            if not hasattr(cls, 'load') and not issubclass(cls, core.Concat):
                continue
            for d in g.samples(cls, all_ids=len(getattr(cls, '_oid_pair', None) or ()) > 0 or not issubclass(cls, (core.Sequence, core.SequenceOf, core.Choice))):
                kind = cls if issubclass(cls, (core.Sequence, core.SequenceOf, core.Choice)) else (getattr(cls, 'tag', cls), tuple(b for b in cls.__mro__ if b.__module__ == 'asn1crypto.core'))
                if (kind, d) not in seen:
                    seen.add((kind, d))
                    BASES.append((label, d))
        for label in ('full certificate', 'full crl', 'full ocsp request', 'full ocsp response', 'csr'):
            cls, d = c19.ENC[label]
            FULL.add(len(BASES))
            BASES.append((['x509.Certificate', 'crl.CertificateList', 'ocsp.OCSPRequest', 'ocsp.OCSPResponse', 'csr.CertificationRequest'][['full certificate', 'full crl', 'full ocsp request', 'full ocsp response', 'csr'].index(label)], d))
        for cls, f in corpus.entries():
            d = corpus.read(f)
            if len(d) < 700:
                BASES.append((cls, d))
    return BASES


PROPS = {}


def props(cls):
    if cls not in PROPS:
        out = []
        for c in cls.__mro__:
            if c.__module__ != 'asn1crypto.core':
                out += [k for k, v in vars(c).items() if isinstance(v, property) and not k.startswith('_') and k not in out]
        PROPS[cls] = out
    return PROPS[cls]


def ask(f, what, again=True):
    try:
        return True, f()
    except OK as e:
        first = type(e)
    except RecursionError:
        raise Violation('%s: RecursionError' % what)
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
    if again:
        try:
            f()
        except OK as e:
            if type(e) is not first:
                raise Violation('%s raised %s, and %s when it was done again' % (what, first.__name__, type(e).__name__))
        except Exception as e:
            raise Violation('%s raised %s, and %s when it was done again' % (what, first.__name__, type(e).__name__))
        else:
            raise Violation('%s raised %s, and succeeded when it was done again' % (what, first.__name__))
    return False, first


def walk(o, what, rec, depth=0):
    """children first, then everything that can be read of the value itself"""
    if not isinstance(o, (core.Asn1Value, core.Concat)) or depth > 14:
        return
    kids = []
    if isinstance(o, core.Sequence):
        kids = [f[0] for f in o._fields]
    elif isinstance(o, (core.SequenceOf, core.Concat)):
        ok, n = ask(lambda: len(o), what + ' len')
        if ok:
            kids = list(range(n))[:12]
    elif isinstance(o, core.Choice):
        ok, c = ask(lambda: o.chosen, what + ' chosen')
        if ok:
            walk(c, what + '.chosen', rec, depth + 1)
    elif isinstance(o, (core.ParsableOctetString, core.ParsableOctetBitString, core.Any)) and getattr(o, '_parsed', None) is not None:
        ok, c = ask(lambda: o.parsed, what + ' parsed')
        if ok:
            walk(c, what + '.parsed', rec, depth + 1)
    for k in kids:
        ok, c = ask(lambda: o[k], '%s[%r]' % (what, k))
        if ok:
            walk(c, '%s[%r]' % (what, k), rec, depth + 1)
    for p in props(type(o)):
        ask(lambda: getattr(o, p), '%s.%s' % (what, p))
    if isinstance(o, core.Asn1Value):
        ask(lambda: o.native, what + ' native')


def whole(cls, data, rec, deep=True):
    """returns whether the octets are a value of the type"""
    rec.op()
    what = cls.__name__
    ok, o = ask(lambda: load(cls, data), what + ' load')
    if not ok:
        return False
    if isinstance(o, core.Concat):
        walk(o, what, rec)
        return True
    ok, n = ask(lambda: o.native, what + ' native')
    ask(o.dump, what + ' dump')
    if deep:
        f = load(cls, data)
        ask(lambda: f.dump(force=True), what + ' forced dump', again=False)
        w = load(cls, data)
        walk(w, what, rec)
        ask(lambda: w.copy().native, what + ' copy')
        ask(lambda: str(w), what + ' str')
        ask(lambda: w == f, what + ' eq', again=False)
        ok2, n2 = ask(lambda: w.native, what + ' native')
        if ok2 != ok:
            raise Violation('%s: reading it natively %s at first, and %s after its parts were read' % (what, ok, ok2))
    return ok


# ------------------------------------------------------------------ truncation
def gen_truncate(tier):
    for i in range(len(bases())):
        yield (i,)


def check_truncate(case, rec):
    label, data = bases()[case[0]]
    cls = CLS[label]
    for n in range(len(data)):
        cut = data[:n]
        rec.op()
        for strict in (False, True):
            if issubclass(cls, core.Concat):
                ask(lambda: load(cls, cut, strict), label)
                continue
            ok, o = ask(lambda: load(cls, cut, strict), '%s of %d octets of %s' % (label, n, data.hex()))
            if ok:
                raise Violation('%s of %d octets of %s is accepted' % (label, n, data.hex()))
    ok, o = ask(lambda: load(cls, data + b'\0', True), label)
    if ok and not issubclass(cls, core.Concat):
        raise Violation('%s followed by an octet is accepted by a strict load' % label)
    rec.state(label, data)


# ------------------------------------------------------------------ one octet
def octets_for(b, tier):
    vals = [0, 0x80, 0xff, b ^ 1] if tier == 'quick' else [0, 0x30, 0x7f, 0x80, 0x84, 0xa0, 0xff, b ^ 1, b ^ 32, b ^ 64, (b + 1) % 256]
    return sorted(set(vals) - set([b]))


CHUNK = 24


def quick_bases():
    """in the quick tier: the first encodings of every type, without those that are long"""
    count = {}
    for i, (label, data) in enumerate(bases()):
        count[label] = count.get(label, 0) + 1
        if i in FULL or count[label] <= (2 if len(data) < 60 else 1 if len(data) < 200 else 0) or count[label] <= 1 and label in ('x509.Certificate', 'crl.CertificateList', 'ocsp.OCSPResponse', 'ocsp.OCSPRequest', 'cms.ContentInfo', 'pkcs12.Pfx', 'tsp.TSTInfo') and len(data) < 500:
            yield i


def gen_octet(tier):
    for i in quick_bases() if tier == 'quick' else range(len(bases())):
        for p in range(0, len(bases()[i][1]), CHUNK):
            yield (i, p, tier)


def check_octet(case, rec):
    i, start, tier = case
    label, data = bases()[i]
    cls = CLS[label]
    for p in range(start, min(start + CHUNK, len(data))):
        for b in octets_for(data[p], tier):
            bad = data[:p] + bytes([b]) + data[p + 1:]
            try:
                rec.outcome('read' if whole(cls, bad, rec) else 'refused')
            except Violation as e:
                raise Violation('%s with octet %d of %s set to %02x: %s' % (label, p, data.hex(), b, e))
    rec.state(label, data, start)


# ------------------------------------------------------------------ elements
def nodes(t, path=()):
    yield path
    if isinstance(t[3], list):
        for k, c in enumerate(t[3]):
            for x in nodes(c, path + (k,)):
                yield x


def enc(t):
    c = t[3]
    return ref.tlv(t[0], t[1], t[2], b''.join(enc(x) for x in c) if isinstance(c, list) else c)


def change(t, path, f):
    """the tree with the node at the path replaced by the nodes of f(node)"""
    if not path:
        return f(t)
    out = []
    for k, c in enumerate(t[3]):
        out += change(c, path[1:], f) if k == path[0] else [c]
    return [t[:3] + (out,)]


def at(t, path):
    for k in path:
        t = t[3][k]
    return t


def faults(t, tier):
    cls, cons, tag, content = t
    leaf = not isinstance(content, list)
    flat = content if leaf else b''.join(enc(c) for c in content)
    yield 'removed', []
    yield 'twice', [t, t]
    yield 'empty', [(cls, cons, tag, b'')]
    yield 'method', [(cls, not cons, tag, flat)]
    for c, g in ((0, 2), (0, 5), (0, 12), (0, 16), (2, 0), (2, 1), (1, tag), (0, 31), (2, tag + 1)):
        if (c, g) != (cls, tag):
            yield 'tag', [(c, cons, g, content)]
    yield 'wrapped', [(2, True, 0, [t])]
    yield 'wrapped', [(0, True, 16, [t])]
    yield 'unknown', [t, (2, False, 30, b'x')]
    if leaf:
        for v in (b'\0', b'\xff', flat + b'\0', flat[:-1], b'\0' + flat, b'\x80' * 3, flat * 40, b'\x7f' + b'\xff' * 20, b'\x30\x80\0\0', b'99' + flat[2:]):
            if v != flat:
                yield 'content %s' % v[:8].hex(), [(cls, cons, tag, v)]
    else:
        yield 'reversed', [(cls, cons, tag, content[::-1])]
        yield 'junk inside', [(cls, cons, tag, flat + b'\xff')]
        yield 'cut inside', [(cls, cons, tag, flat[:-1])]
        yield 'primitive of nulls', [(cls, cons, tag, b'\5\0' * 3)]


def gen_node(tier):
    for i in quick_bases() if tier == 'quick' else range(len(bases())):
        try:
            t = ref.tree(bases()[i][1])
        except ref.Bad:
            continue
        for path in nodes(t):
            yield (i, path, tier)


def check_node(case, rec):
    i, path, tier = case
    label, data = bases()[i]
    cls = CLS[label]
    t = ref.tree(data)
    for what, new in faults(at(t, path), tier):
        bad = b''.join(enc(n) for n in change(t, path, lambda n: new))
        try:
            rec.outcome('read' if whole(cls, bad, rec) else 'refused')
        except Violation as e:
            raise Violation('%s, element %s of %s %s (%s): %s' % (label, path, data.hex(), what, bad.hex()[:2000], e))
    rec.state(label, data, path)


SPACES = [
    Space('truncation', gen_truncate, check_truncate, 'every prefix of encodings of every type'),
    Space('octets', gen_octet, check_octet, 'every octet of encodings of every type replaced by 4 (26) others', cpu_limit=300),
    Space('elements', gen_node, check_node, 'every element of encodings of every type: removed, repeated, emptied, retagged, wrapped, with other contents', cpu_limit=300),
]


def run(argv):
    return main('C03', SPACES, ['oracle: exception types, determinism of failures, refusal of every proper prefix'], argv)
