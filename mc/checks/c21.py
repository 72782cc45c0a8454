"""C21 - PEM armor and unarmor are inverse and unarmor finds every block."""
import base64
import itertools
import re
from collections import OrderedDict
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import pem  # noqa


def payload(kind, n):
    if kind == 'zeros':
        return b'\0' * n
    if kind == 'ones':
        return b'\xff' * n
    return bytes((i * 37 + (i >> 3) + n) & 255 for i in range(n))


def wrap(b):
    t = base64.b64encode(b)
    return [t[i:i + 64] for i in range(0, len(t), 64)]


def reference(name, b, headers, nl=b'\n'):
    lines = [b'-----BEGIN ' + name + b'-----']
    if headers:
        lines += [k.encode() + b': ' + v.encode() for k, v in headers] + [b'']
    lines += wrap(b) + [b'-----END ' + name + b'-----']
    return b''.join(x + nl for x in lines)


HEADERS = [(), (('Proc-Type', '4,ENCRYPTED'),), (('Proc-Type', '4,ENCRYPTED'), ('DEK-Info', 'AES-128-CBC,00FF')),
           (('Comment', '"a:b: c"'),), (('Empty', ''),), (('a b', '-----BEGIN X-----'), ('X', 'y')), (('B', '1'), ('A', '2'), ('C', '3'))]
NAMES = ['CERTIFICATE', 'A', 'RSA PRIVATE KEY', 'X509 CRL', 'PKCS7', '1', 'A  B', 'PRIVATE KEY', 'BEGIN', 'END', 'E N D', 'X' * 90]


def gen_round(tier):
    top = 400 if tier == 'quick' else 1700
    for n in range(top):
        for kind in ('zeros', 'ones', 'mixed'):
            yield ('CERTIFICATE', kind, n, ())
    for n in list(range(0, 5)) + [46, 47, 48, 49, 95, 96, 97, 143, 144, 145]:
        for name in NAMES:
            for h in HEADERS:
                yield (name, 'mixed', n, h)
    for n in (1 << 16, 1000000) if tier == 'quick' else (1 << 16, 1000000, 12000001):
        yield ('CERTIFICATE', 'mixed', n, ())


def check_round(case, rec):
    name, kind, n, headers = case
    b = payload(kind, n)
    want = reference(name.encode(), b, headers)
    got = pem.armor(name, b, headers=OrderedDict(headers) if headers else None)
    rec.op(8)
    rec.outcome(n % 48)
    rec.state(name, n, len(headers))
    if got != want:
        return 'armor gives %r instead of %r' % (got[:500], want[:500])
    if pem.armor(name.lower(), b, OrderedDict(headers)) != want:
        return 'armor with a lower case name differs'
    if not pem.detect(got):
        return 'detect() does not see the block'
    for nl in (b'\n', b'\r\n', b'\r'):
        text = reference(name.encode(), b, headers, nl)
        for t in (text, text.rstrip()):
            k, v = attempt(pem.unarmor, t)
            if k != 'ok' or v != (name, dict(headers), b) or not isinstance(v[0], str) or not isinstance(v[2], bytes):
                return 'unarmor of %r gives %r' % (t[:500], str(v)[:500])
            if list(v[1].items()) != list(headers) or any(not isinstance(x, str) for p in v[1].items() for x in p):
                return 'headers %r' % (v[1],)
    k, v = attempt(lambda: list(pem.unarmor(got, multiple=True)))
    if k != 'ok' or v != [(name, dict(headers), b)]:
        return 'unarmor(multiple) of %r gives %r' % (got[:500], str(v)[:500])


# ------------------------------------------------------------------ documents as sequences of lines
LINES = [
    b'-----BEGIN A B-----', b'-----END A B-----', b'-----BEGIN C-----', b'-----END C-----', b'---- BEGIN D ----', b'---- END D ----',
    b'k: v', b'Q: a:b', b'QUJD', b'ZGVmZw==', b'', b'some text', b' -----BEGIN C-----']
BEGIN = {0: 'A B', 2: 'C', 4: 'D'}
END = {1: 'A B', 3: 'C', 5: 'D'}
HEAD = {6: ('k', 'v'), 7: ('Q', 'a:b')}


def classify(seq):
    """list of blocks if the text is well-formed, 'none' if it has no block at all, 'broken' otherwise"""
    blocks, i, n = [], 0, len(seq)
    while i < n:
        x = seq[i]
        i += 1
        if x not in BEGIN:
            continue
        name, headers, data = BEGIN[x], OrderedDict(), b''
        while i < n and (seq[i] in HEAD or seq[i] == 10):
            if seq[i] in HEAD:
                k, v = HEAD[seq[i]]
                headers[k] = v
            i += 1
        while i < n and seq[i] in (8, 9, 10):
            if data.endswith(b'=') and seq[i] != 10:
                return 'broken'
            data += LINES[seq[i]]
            i += 1
        if i == n:
            return 'broken' if blocks else 'none'
        if END.get(seq[i]) != name:
            return 'broken'
        i += 1
        blocks.append((name, dict(headers), base64.b64decode(data)))
    return blocks or 'none'


def gen_lines(tier):
    depth = 6 if tier == 'quick' else 7
    for n in range(0, depth):
        for p in itertools.product(range(len(LINES)), repeat=min(n, 2)):
            yield (n, p)


def check_lines(case, rec):
    n, prefix = case
    for rest in itertools.product(range(len(LINES)), repeat=n - len(prefix)):
        seq = prefix + rest
        want = classify(seq)
        rec.op()
        rec.outcome(want if isinstance(want, str) else '%d blocks' % len(want))
        rec.state(str(want), seq[-1:])
        for nl in (b'\n', b'\r\n') if n < 4 else (b'\n',):
            text = nl.join(LINES[i] for i in seq)
            for t in (text, text + nl):
                k, v = attempt(lambda: list(pem.unarmor(t, multiple=True)))
                k1, v1 = attempt(pem.unarmor, t)
                for kk, vv in ((k, v), (k1, v1)):
                    if kk == 'err' and not isinstance(vv, ValueError):
                        return 'unarmor of %r raises %r' % (t, vv)
                if want == 'none':
                    if k != 'err' or k1 != 'err':
                        return 'unarmor of %r, which has no complete block, gives %r' % (t, v)
                elif want != 'broken':
                    if k != 'ok' or v != want:
                        return 'unarmor of %r gives %r instead of %r' % (t, v, want)
                    if k1 != 'ok' or v1 != want[0]:
                        return 'unarmor (first) of %r gives %r instead of %r' % (t, v1, want[0])
                    if not pem.detect(t):
                        return 'detect() does not see the block of %r' % t


# ------------------------------------------------------------------ bundles: blocks, text between and around them
SEPS = [b'', b'\n', b'text\n', b'Key: value\n', b'subject=/CN=x\nissuer=/CN=y\n', b'\n\n  \n\t\n', b'-----END X-----\n', b'# -----BEGIN X-----\n', b'QUJD\n', b'\xff\xfe\x00\n', b'-----BEGIN x-----\n', b'----BEGIN X----\n', b'=\n']
BLOCKS = [('A', b'', ()), ('B C', b'abc', ()), ('K', b'k' * 49, HEADERS[2]), ('A', b'\xff' * 144, ()), ('K', b'', HEADERS[1])]


def gen_bundle(tier):
    k = 2 if tier == 'quick' else 3
    for n in range(1, k + 1):
        for bs in itertools.product(range(len(BLOCKS)), repeat=n):
            for seps in itertools.product(range(len(SEPS)), repeat=n + 1):
                yield (bs, seps)


def check_bundle(case, rec):
    bs, seps = case
    out = SEPS[seps[0]]
    for b, s in zip(bs, seps[1:]):
        name, data, headers = BLOCKS[b]
        out += reference(name.encode(), data, headers) + SEPS[s]
    want = [(BLOCKS[b][0], dict(BLOCKS[b][2]), BLOCKS[b][1]) for b in bs]
    rec.op(2)
    rec.state(bs, seps)
    rec.outcome(len(bs))
    for t in (out, out.replace(b'\n', b'\r\n')):
        k, v = attempt(lambda: list(pem.unarmor(t, multiple=True)))
        if k != 'ok' or v != want:
            return 'unarmor of %r gives %r instead of %r' % (t, v, want)
        if pem.unarmor(t) != want[0]:
            return 'unarmor (first) of %r' % t
    # consumed one by one, a block that was given out does not change any more
    g = pem.unarmor(out, multiple=True)
    kept = []
    for x in g:
        kept.append(x)
        x[1]['added'] = 'by the caller'
    if [(a, {k: v for k, v in h.items() if k != 'added'}, d) for a, h, d in kept] != want:
        return 'blocks share state: %r' % kept


# ------------------------------------------------------------------ bodies: every line length, and faults
def gen_body(tier):
    for n in range(0, 100):
        for width in (1, 2, 3, 4, 5, 63, 64, 65, 76, 1000):
            yield ('width', n, width)
    for n in (1, 2, 3, 48, 49, 50, 100):
        for cut in range(0, 140):
            yield ('cut', n, cut)
    for bad in ('str', 'none', 'int'):
        yield ('type', 0, bad)


def check_body(case, rec):
    kind, n, x = case
    rec.op()
    rec.outcome(kind)
    rec.state(case)
    if kind == 'type':
        v = {'str': u'-----BEGIN A-----', 'none': None, 'int': 5}[x]
        for f in (pem.unarmor, pem.detect, lambda v: list(pem.unarmor(v, multiple=True)), lambda v: pem.armor('A', v)):
            k, e = attempt(f, v)
            if k == 'ok' or not isinstance(e, TypeError):
                return '%r for %r' % (e, v)
        k, e = attempt(pem.armor, b'A', b'abc')
        if k == 'ok' or not isinstance(e, TypeError):
            return 'type name as octets: %r' % (e,)
        return
    b = payload('mixed', n)
    t = base64.b64encode(b)
    if kind == 'width':
        body = b'\n'.join(t[i:i + x] for i in range(0, len(t), x))
        want = ('A', {}, b)
    else:
        if x >= len(t):
            return
        # cut in the middle: not an encoding unless at a multiple of four
        body = t[:x]
        want = ('A', {}, base64.b64decode(body)) if x % 4 == 0 else None
    text = b'-----BEGIN A-----\n' + body + b'\n-----END A-----\n'
    k, v = attempt(pem.unarmor, text)
    if want is None:
        if k == 'ok' or not isinstance(v, ValueError):
            return 'unarmor of the truncated %r gives %r' % (text, v)
    elif k != 'ok' or v != want:
        return 'unarmor of %r gives %r instead of %r' % (text, v, want)


SPACES = [
    Space('round-trip', gen_round, check_round, 'every payload length 0..399 (1699), lengths around line boundaries x type names x header sets, large payloads; three line endings'),
    Space('line-sequences', gen_lines, check_lines, 'every document of up to 5 (6) lines over 13 kinds of lines vs a reference grammar'),
    Space('bundles', gen_bundle, check_bundle, 'every arrangement of 1-2 (3) blocks with 13 kinds of text around them'),
    Space('bodies', gen_body, check_body, 'every line width and every truncation of the base64 body, wrong argument types'),
]


def run(argv):
    return main('C21', SPACES, ['of texts that are not well-formed (a begin line inside of a block, other text in the body, end lines of another type) only the absence of other errors than ValueError is claimed'], argv)
