"""C19 - reading never changes what a value is.

Nothing is predicted: the result of every read on a fresh object is its result after every other read(s)."""
import collections
import contextlib
import copy
import io
import pickle
import re
from .. import corpus, pki, ref
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import core, x509, keys, algos, cms, crl, ocsp, csr, pkcs12, tsp  # noqa
from . import c29  # noqa
from .c29 import clean  # noqa


# ------------------------------------------------------------------ subjects: label -> (encoding or None, maker)
def encodings():
    d = collections.OrderedDict()
    every = [pki.extension(*CE, critical=i % 2 == 1) for i, CE in enumerate(pki.CERT_EXTS.values())]
    d['full certificate'] = (x509.Certificate, pki.cert(every))
    d['bare certificate'] = (x509.Certificate, pki.cert())
    d['unknown extensions'] = (x509.Certificate, pki.cert([pki.extension(*e, critical=True) for e in pki.UNKNOWN_EXTS.values()]))
    d['self-issued certificate'] = (x509.Certificate, pki.cert([pki.extension(*pki.CERT_EXTS['key_identifier'])], subject=pki.ISSUER))
    d['bad extension'] = (x509.Certificate, pki.cert([pki.extension('2.5.29.19', b'\x30\x03\x04\x01\x00'), pki.extension(*pki.CERT_EXTS['key_usage'])]))
    d['bad name'] = (x509.Certificate, pki.cert(subject=ref.seq(ref.set_(ref.seq(ref.oid(pki.CN), ref.u(12, b'\xff'))))))
    entries = [pki.revoked(5, [pki.extension(*e) for e in pki.ENTRY_EXTS.values()]), pki.revoked(6)]
    d['full crl'] = (crl.CertificateList, pki.crl([pki.extension(*e) for e in pki.CRL_EXTS.values()], entries))
    d['bare crl'] = (crl.CertificateList, pki.crl())
    d['crl entry'] = (crl.RevokedCertificate, entries[0])
    d['full ocsp request'] = (ocsp.OCSPRequest, pki.ocsp_request([pki.extension(*e) for e in pki.OCSPREQ_EXTS.values()], [pki.request([pki.extension(*e) for e in pki.REQUEST_EXTS.values()])]))
    d['bare ocsp request'] = (ocsp.OCSPRequest, pki.ocsp_request())
    d['ocsp single request'] = (ocsp.Request, pki.request([pki.extension(*e) for e in pki.REQUEST_EXTS.values()]))
    singles = [pki.single([pki.extension(*e) for e in pki.SINGLE_EXTS.values()], pki.revoked_status(1), '20210201000000Z'), pki.single()]
    d['full ocsp response'] = (ocsp.OCSPResponse, pki.ocsp_response([pki.extension(*e) for e in pki.RESPONSE_EXTS.values()], singles))
    d['failed ocsp response'] = (ocsp.OCSPResponse, pki.ocsp_response(status=2))
    d['ocsp single response'] = (ocsp.SingleResponse, singles[0])
    d['csr'] = (csr.CertificationRequest, pki.csr())
    for o, (oid, value) in pki.CERT_EXTS.items():
        d['extension ' + o] = (x509.Extension, pki.extension(oid, value))
    # encodings that are not DER
    d['indefinite certificate'] = (x509.Certificate, ref.indef(0, 16, pki.tbs() + pki.SHA256RSA + ref.u(3, b'\0sig')))
    d['chunked extension'] = (x509.Extension, ref.seq(ref.oid('2.5.29.19'), ref.indef(0, 4, ref.u(4, b'\x30\x03\x01') + ref.u(4, b'\x01\xff'))))
    d['chunks'] = (core.OctetString, ref.indef(0, 4, ref.u(4, b'ab') + ref.indef(0, 4, ref.u(4, b'c'))))
    d['text chunks'] = (core.UTF8String, ref.indef(0, 12, ref.u(12, b'ab') + ref.u(12, b'c')))
    d['bit chunks'] = (core.BitString, ref.indef(0, 3, ref.u(3, b'\0a') + ref.u(3, b'\4\xf0')))
    d['int bit chunks'] = (core.IntegerBitString, ref.indef(0, 3, ref.u(3, b'\0a') + ref.u(3, b'\4\xf0')))
    d['octet bit chunks'] = (core.OctetBitString, ref.indef(0, 3, ref.u(3, b'\0a') + ref.u(3, b'\0b')))
    d['int octet chunks'] = (core.IntegerOctetString, ref.indef(0, 4, ref.u(4, b'\0a') + ref.u(4, b'\0b')))
    d['parsable chunks'] = (core.ParsableOctetString, ref.indef(0, 4, ref.u(4, b'\x02') + ref.u(4, b'\x01\5')))
    d['parsable bit chunks'] = (core.ParsableOctetBitString, ref.indef(0, 3, ref.u(3, b'\0\x02') + ref.u(3, b'\0\x01\5')))
    d['indefinite record'] = (c29.Rec, ref.indef(0, 16, ref.integer(5) + ref.indef(0, 16, ref.integer(1)) + ref.indef(2, 0, ref.integer(1)) + ref.indef(2, 1, ref.integer(9))))
    d['long lengths'] = (c29.Rec, b'\x30\x81\x08\x02\x01\x05\x30\x81\x03\x02\x01\x01' .replace(b'\x30\x81\x08', b'\x30\x81\x09') )
    d['unsorted set'] = (c29.ASet, ref.tlv(0, True, 17, ref.u(4, b'q') + ref.integer(1)))
    d['unsorted set of'] = (c29.OctSet, ref.tlv(0, True, 17, ref.u(4, b'q') + ref.u(4, b'a')))
    d['explicit default'] = (c29.Inner, ref.seq(ref.integer(1), ref.boolean(False)))
    d['trailing field'] = (c29.Inner, ref.seq(ref.integer(1), ref.boolean(True), ref.null()))
    d['boolean 1'] = (core.Boolean, b'\x01\x01\x01')
    d['time with offset'] = (core.GeneralizedTime, ref.u(24, b'20200101000000.50+0100'))
    d['utc with offset'] = (core.UTCTime, ref.u(23, b'2001010000-0130'))
    d['padded integer'] = (core.Integer, b'\x02\x02\x00\x05')
    d['empty choice'] = (c29.Alt, ref.expl(1, ref.seq()))
    return d


ENC = encodings()
LIB = [(cls, f) for cls, f in corpus.entries()]
OWN = [l for l in c29.SUBJECTS]


def tables():
    d = collections.OrderedDict()
    for l in OWN:
        d['own ' + l] = c29.SUBJECTS[l]
    for l, (cls, der) in ENC.items():
        d[l] = lambda cls=cls, der=der: cls.load(der)
    for cls, f in LIB:
        if cls == 'crl.CertificateList':
            continue
        d[f] = lambda cls=cls, f=f: corpus.get_class(cls).load(corpus.read(f))
    return d


MAKE = tables()
FILES = set(f for cls, f in LIB)

# ------------------------------------------------------------------ reads
MASK = re.compile(r'0x[0-9a-f]+|\b\d{9,}\b')


def debugged(o):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        o.debug()
    # the header of a value that was constructed is only shown once it has been encoded
    return '\n'.join(l for l in MASK.sub('#', out.getvalue()).splitlines() if 'Header: #' not in l)


GENERIC = collections.OrderedDict([
    ('native', lambda o, m: o.native), ('dump', lambda o, m: o.dump()), ('len', lambda o, m: len(o)), ('iter', lambda o, m: [c for c in o]), ('bytes', lambda o, m: re.sub(rb'\b\d{9,}\b', b'#', bytes(o))), ('int', lambda o, m: int(o)),
    ('bool', lambda o, m: bool(o)), ('str', lambda o, m: MASK.sub('#', str(o))), ('repr', lambda o, m: MASK.sub('#', repr(o))), ('debug', lambda o, m: debugged(o)), ('copy', lambda o, m: o.copy()),
    ('copyforce', lambda o, m: o.copy().dump(force=True)), ('copynative', lambda o, m: o.copy().native), ('deepcopy', lambda o, m: copy.deepcopy(o)), ('shallow', lambda o, m: copy.copy(o)),
    ('pickle', lambda o, m: pickle.loads(pickle.dumps(o)).dump()),
    ('untag', lambda o, m: o.untag()), ('retag', lambda o, m: o.retag({'explicit': 5})), ('eq', lambda o, m: (o == m(), m() == o, o != m(), o == None)), ('contains', lambda o, m: core.Integer(1) in o),  # noqa
    ('contents', lambda o, m: o.contents), ('chosen', lambda o, m: o.chosen), ('name', lambda o, m: o.name), ('tags', lambda o, m: (o.class_, o.tag, o.method, o.implicit, o.explicit)),
    ('domain', lambda o, m: [o.is_valid_domain_ip(h) for h in (u'example.com', u'10.0.0.1', u'other.example')]), ('keys', lambda o, m: [k for k in o]), ('slice', lambda o, m: o[0:1]), ('nokey', lambda o, m: o['nope']), ('last', lambda o, m: o[-1]),
])
EXCLUDED = set(['parsed', 'native', 'contents', 'chosen', 'name', 'unwrap'])


def properties(cls):
    out = []
    for c in cls.__mro__:
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith('_') and k not in EXCLUDED and k not in out:
                out.append(k)
    return sorted(out)


def applicable(o, k):
    if isinstance(o, core.BitString) and k in ('iter', 'contains', 'keys', 'slice', 'last'):
        return False                                     # every index is a bit: it can be indexed, not iterated
    if isinstance(o, core.Concat) and k in ('tags', 'retag', 'untag'):
        return False
    if isinstance(o, core.Any) and k in ('tags', 'contents', 'debug'):
        return False                                     # documented: the parsed value takes them over
    if k in ('domain',):
        return isinstance(o, x509.Certificate)
    if k in ('len', 'iter', 'contains', 'keys', 'slice', 'last', 'nokey'):
        return hasattr(o, '__len__') or hasattr(o, '__getitem__')
    if k == 'int':
        return hasattr(o, '__int__')
    if k == 'bytes':
        return isinstance(o, (core.OctetString, core.OctetBitString, core.IntegerOctetString, core.IntegerBitString, core.ParsableOctetString, core.ParsableOctetBitString, core.BitString))
    if k in ('chosen', 'name'):
        return isinstance(o, core.Choice)
    return True


def node_paths(o, depth, limit):
    """paths of the values inside of o, breadth first"""
    out, level = [], [((), o)]
    for d in range(depth + 1):
        nxt = []
        for p, v in level:
            out.append((p, v))
            if len(out) >= limit:
                return out
            if isinstance(v, core.Asn1Value) or isinstance(v, core.Concat):
                try:
                    l = c29.kids(v)
                except Exception:
                    continue
                for k, f in l:
                    try:
                        nxt.append((p + (k,), f()))
                    except Exception:
                        nxt.append((p + (k,), None))
        level = nxt
    return out


def walk(o, path):
    for k in path:
        o = getattr(o, k) if isinstance(o, core.Choice) else o[k]
    return o


def build_reads(label, tier):
    own = label.startswith('own ') or len(MAKE[label]().dump()) < 120
    o = MAKE[label]()
    reads = []
    # a value in the indefinite form becomes DER when it is encoded: its octets and method are those of the one or the other, and the framing of its copies
    indefinite = 'chunk' in label or 'indefinite' in label or label in FILES and ref.indef_depth(corpus.read(label)) > 0
    for path, v in node_paths(MAKE[label](), 3 if own else 4, 40 if own else 90 if tier == 'quick' else 400):
        if path and not isinstance(v, core.Asn1Value):
            reads.append((path, 'get'))
            continue
        if not path or own:
            ks = [k for k in GENERIC if applicable(v, k)]
            if path:
                ks = [k for k in ks if k in ('native', 'dump', 'iter', 'copy', 'debug', 'contents', 'eq', 'str', 'int', 'bytes', 'chosen')]
        else:
            ks = ['native', 'dump']
            if isinstance(v, core.Choice):
                ks.append('chosen')
        reads += [(path, k) for k in ks if not indefinite or k not in ('debug', 'contents', 'tags', 'copy', 'deepcopy', 'shallow', 'pickle', 'untag', 'retag')]
        reads += [(path, '.' + k) for k in properties(type(v))]
    return reads


READS = {}


def reads_of(label, tier):
    if (label, tier) not in READS:
        READS[label, tier] = build_reads(label, tier)
    return READS[label, tier]


def play(o, read, make):
    path, k = read
    v = walk(o, path)
    if k == 'get':
        return v
    if k[0] == '.':
        return getattr(v, k[1:])
    return GENERIC[k](v, (lambda: walk(make(), path)))


def value(v):
    if isinstance(v, (core.Asn1Value, core.Concat)):
        try:
            return (type(v).__name__, v.dump())
        except Exception as e:
            return (type(v).__name__,) + clean(e)
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    if isinstance(v, dict):
        return (type(v).__name__, [(k, value(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [value(x) for x in v])
    if hasattr(v, 'isoformat'):
        return (type(v).__name__, v.isoformat())
    return (type(v).__name__, repr(v) if not isinstance(v, (bytes, str, int)) else v)


def result(o, read, make):
    try:
        return value(play(o, read, make))
    except Exception as e:
        return clean(e)


BASES = {}


def bases(label, tier):
    """what each read gives on a fresh object"""
    if (label, tier) not in BASES:
        BASES.clear()
        make = MAKE[label]
        BASES[label, tier] = [result(make(), r, make) for r in reads_of(label, tier)]
    return BASES[label, tier]


def compare(label, o, history, reads, base, order, rec):
    make = MAKE[label]
    done = []
    for i in order:
        got = result(o, reads[i], make)
        rec.op()
        if got != base[i]:
            raise Violation('%s: %s is %s on a fresh value, after %s and then %s it is %s' % (label, reads[i], repr(base[i])[:300], history, [reads[j] for j in done[-3:]], repr(got)[:300]))
        done.append(i)


def check(case, rec):
    label, tier, hist = case
    make = MAKE[label]
    reads = reads_of(label, tier)
    base = bases(label, tier)
    for backwards in (False, True):
        o = make()
        for i in hist:
            got = result(o, reads[i], make)
            if got != base[i]:
                raise Violation('%s: %s is %r, after %s it is %r' % (label, reads[i], base[i], [reads[j] for j in hist], got))
        order = range(len(reads))
        compare(label, o, [reads[j] for j in hist], reads, base, reversed(order) if backwards else order, rec)
        # and once more: the same read gives the same value
        if not hist or tier == 'thorough':
            compare(label, o, 'everything', reads, base, order, rec)
    # each read directly after the history
    if len(hist) == 1 and len(reads) < (60 if tier == 'quick' else 10 ** 6):
        for i in range(len(reads)):
            o = make()
            result(o, reads[hist[0]], make)
            got = result(o, reads[i], make)
            rec.op()
            if got != base[i]:
                raise Violation('%s: %s is %s on a fresh value, directly after %s it is %s' % (label, reads[i], repr(base[i])[:300], reads[hist[0]], repr(got)[:300]))
    rec.state(label, hist)


def gen_single(tier):
    for label in MAKE:
        yield (label, tier, ())
        n = len(reads_of(label, tier))
        for i in range(0, n, 1 if tier == 'thorough' or n < 100 else 4):
            yield (label, tier, (i,))


def gen_pairs(tier):
    for label in MAKE:
        n = len(reads_of(label, tier))
        if n > (42 if tier == 'quick' else 70):
            continue
        for i in range(n):
            for j in range(n):
                if i != j:
                    yield (label, tier, (i, j))


SPACES = [
    Space('single', gen_single, check, 'every read first, then all reads forwards and backwards, on every kind of value; each pair of reads', cpu_limit=600),
    Space('pairs', gen_pairs, check, 'every two reads first, then all reads forwards and backwards', cpu_limit=600),
]


def run(argv):
    return main('C19', SPACES, ['oracle: the result of the same read on a fresh object (differential)'], argv)
