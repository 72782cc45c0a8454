"""A boring, independent reference model of X.690 (BER/DER), written from the
standard and not from the code under test.  Only Python 3 builtins."""


class Bad(Exception):
    """The reference says: this is not acceptable input."""


# ------------------------------------------------------------------ encoding
def ident(cls, cons, tag):
    lead = cls * 64 + (32 if cons else 0)
    if tag < 31:
        return bytes([lead + tag])
    digits = []
    t = tag
    while True:
        digits.append(t % 128)
        t //= 128
        if t == 0:
            break
    digits.reverse()
    return bytes([lead + 31] + [d + 128 for d in digits[:-1]] + [digits[-1]])


def length(n):
    if n < 128:
        return bytes([n])
    digits = []
    while n:
        digits.append(n % 256)
        n //= 256
    digits.reverse()
    return bytes([128 + len(digits)] + digits)


def length_padded(n, k):
    """BER long form using k octets"""
    return bytes([128 + k]) + n.to_bytes(k, 'big')


def tlv(cls, cons, tag, content):
    return ident(cls, cons, tag) + length(len(content)) + content


def u(tag, content, cons=False):
    return tlv(0, cons, tag, content)


def seq(*parts):
    return tlv(0, True, 16, b''.join(parts))


def set_(*parts):
    return tlv(0, True, 17, b''.join(parts))


def ctx(tag, content, cons=False):
    return tlv(2, cons, tag, content)


def expl(tag, inner, cls=2):
    return tlv(cls, True, tag, inner)


def indef(cls, tag, content):
    return ident(cls, True, tag) + b'\x80' + content + b'\x00\x00'


def int_content(n):
    """minimal two's complement"""
    k = 1
    while not (-(1 << (8 * k - 1)) <= n < (1 << (8 * k - 1))):
        k += 1
    return (n % (1 << (8 * k))).to_bytes(k, 'big')


def int_value(content):
    v = 0
    for b in content:
        v = v * 256 + b
    if content and content[0] >= 128:
        v -= 1 << (8 * len(content))
    return v


def integer(n):
    return u(2, int_content(n))


def boolean(b):
    return u(1, b'\xff' if b else b'\x00')


def null():
    return u(5, b'')


def octets(b):
    return u(4, b)


def base128(n):
    out = [n % 128]
    n //= 128
    while n:
        out.append(n % 128 + 128)
        n //= 128
    return bytes(reversed(out))


def oid_content(arcs):
    return b''.join(base128(x) for x in [arcs[0] * 40 + arcs[1]] + list(arcs[2:]))


def oid(dotted):
    return u(6, oid_content([int(x) for x in dotted.split('.')]))


def subids(content):
    out, cur, start = [], 0, True
    for b in content:
        if start and b == 0x80:
            raise Bad('padded sub-identifier')
        start = False
        cur = cur * 128 + b % 128
        if b < 128:
            out.append(cur)
            cur, start = 0, True
    if not start:
        raise Bad('truncated sub-identifier')
    return out


def oid_arcs(content):
    ids = subids(content)
    if not ids:
        raise Bad('empty')
    f = ids[0]
    if f < 40:
        head = [0, f]
    elif f < 80:
        head = [1, f - 40]
    else:
        head = [2, f - 80]
    return head + ids[1:]


def bits_content(bits):
    bits = list(bits)
    unused = (-len(bits)) % 8
    padded = bits + [0] * unused
    out = [unused]
    for i in range(0, len(padded), 8):
        v = 0
        for b in padded[i:i + 8]:
            v = v * 2 + b
        out.append(v)
    return bytes(out)


def bitstring(bits):
    return u(3, bits_content(bits))


# ------------------------------------------------------------------ decoding
def parse_header(data, pos, end):
    """returns cls, cons, tag, length or None, position of the content"""
    def need(k):
        if pos + k > end:
            raise Bad('truncated')
    need(1)
    b = data[pos]
    pos += 1
    cls, cons, tag = b // 64, b // 32 % 2, b % 32
    if tag == 31:
        tag = 0
        first = True
        while True:
            need(1)
            b = data[pos]
            pos += 1
            if first and b == 0x80:
                raise Bad('non-minimal tag')
            first = False
            tag = tag * 128 + b % 128
            if b < 128:
                break
        if tag < 31:
            raise Bad('non-minimal tag')
    need(1)
    b = data[pos]
    pos += 1
    if b < 128:
        return cls, cons, tag, b, pos
    if b == 128:
        if not cons:
            raise Bad('primitive indefinite')
        return cls, cons, tag, None, pos
    k = b - 128
    need(k)
    n = 0
    for b in data[pos:pos + k]:
        n = n * 256 + b
    return cls, cons, tag, n, pos + k


def parse_one(data, pos=0, end=None):
    """returns (cls, cons, tag, header, content, trailer), position after"""
    if end is None:
        end = len(data)
    start = pos
    cls, cons, tag, n, pos = parse_header(data, pos, end)
    header = data[start:pos]
    if n is not None:
        if pos + n > end:
            raise Bad('truncated')
        return (cls, cons, tag, header, data[pos:pos + n], b''), pos + n
    cstart = pos
    while True:
        if data[pos:min(pos + 2, end)] == b'\x00\x00':
            return (cls, cons, tag, header, data[cstart:pos], b'\x00\x00'), pos + 2
        _, pos = parse_one(data, pos, end)


def indef_depth(data, pos=0, end=None):
    """deepest nesting of elements met while scanning indefinite lengths"""
    end = len(data) if end is None else end
    cls, cons, tag, n, p = parse_header(data, pos, end)
    if n is not None:
        return 0
    best = 0
    while data[p:p + 2] != b'\x00\x00':
        best = max(best, 1 + indef_depth(data, p, end))
        _, p = parse_one(data, p, end)
    return best


def parse_all(data):
    out, pos = [], 0
    while pos < len(data):
        one, pos = parse_one(data, pos)
        out.append(one)
    return out


def tree(data):
    """full recursive decode of exactly one element"""
    one, end = parse_one(data)
    if end != len(data):
        raise Bad('trailing data')
    return _tree(one)


def _tree(one):
    cls, cons, tag, header, content, trailer = one
    if cons:
        return (cls, 1, tag, [_tree(x) for x in parse_all(content)])
    return (cls, 0, tag, content)


def untree(t):
    cls, cons, tag, c = t
    if cons:
        return tlv(cls, 1, tag, b''.join(untree(x) for x in c))
    return tlv(cls, 0, tag, c)


def is_minimal_der_framing(data):
    """definite, minimal lengths everywhere"""
    try:
        return untree(tree(data)) == data
    except Bad:
        return False
