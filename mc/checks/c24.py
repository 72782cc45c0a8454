"""C24 - is_valid_domain_ip() against a reference matcher over octets and labels."""
import ipaddress
import itertools
import re
from .. import pki
from ..common import Space, bootstrap, main, Violation

bootstrap()
from asn1crypto import x509, util  # noqa

# ------------------------------------------------------------------ reference
ULABEL = {u'b\xfccher': 'xn--bcher-kva', u'B\xdcCHER': 'xn--bcher-kva', u'\u4f8b': 'xn--fsq', u'stra\xdfe': 'strasse'}


def alabels(host):
    return [ULABEL.get(l, l).lower() for l in host.split('.')]


def one(pattern, labels):
    """pattern: ASCII text of a dNSName or a common name"""
    pl = pattern.lower().split('.')
    if '' in pl or any(len(l) > 63 for l in pl):
        return False                                       # not a DNS name
    if len(pl) != len(labels) or pl[1:] != labels[1:]:
        return False
    p, h = pl[0], labels[0]
    if p == h:
        return True
    if pattern.count('*') != 1 or '*' not in p or p.startswith('xn--'):
        return False
    pre, post = p.split('*')
    return len(h) >= len(pre) + len(post) and h.startswith(pre) and h.endswith(post)


def looks_like_domain(cn):
    labels = cn[2:].split('.') if cn.startswith('*.') else cn.split('.')
    if len(labels) < 2 or not re.fullmatch('[a-zA-Z]{2,}', labels[-1]):
        return False
    return all(re.fullmatch('[a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9-]*[a-zA-Z0-9]', l) for l in labels[:-1])


def names_of(san, cns):
    if san is not None:
        return [v for k, v in san if k == 'dns']
    return [c for c in cns if looks_like_domain(c)]


def valid(san, cns, query):
    kind, text = query
    if kind == 'ip':
        try:
            octets = ipaddress.ip_address(text).packed
        except ValueError:
            return False
        return san is not None and any(k == 'ip' and v == octets for k, v in san)
    return any(one(n, alabels(text)) for n in names_of(san, cns))


# ------------------------------------------------------------------ execution
def build(san, cns, how):
    rdns = [(pki.C, u'DE')] + [(pki.CN, c) for c in cns]
    if how == 1 and cns:
        # all of the common names in one relative name
        rdns = [pki.rdn(*[pki.atv(pki.CN, pki.utf8(c)) for c in cns] + [pki.atv(pki.O, pki.utf8(u'www.org'))])]
    exts = [pki.extension(*pki.CERT_EXTS['key_usage']), pki.extension('2.5.29.18', pki.generals(('dns', 'issuer.alt')))]
    if san is not None:
        exts.append(pki.extension('2.5.29.17', pki.generals(*san)))
    return x509.Certificate.load(pki.cert(exts, subject=pki.name(*rdns)))


def outcome(c, text):
    try:
        return c.is_valid_domain_ip(text)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:80])


def judge(san, cns, how, queries, rec):
    c = build(san, cns, how)
    for rnd in (0, 1):
        for q in queries if rnd == 0 else queries[::-1]:
            rec.op()
            got, want = outcome(c, q[1]), valid(san, cns, q)
            if got is not want:
                raise Violation('is_valid_domain_ip(%r) is %r, expected %r; subject alternative names %r, common names %r' % (q[1], got, want, san, cns))
            rec.outcome('valid' if want else 'not valid')
        if rnd == 0:
            got, want = set(c.valid_domains), set(names_of(san, cns))
            plain = set(n for n in want if 'xn--' not in n)
            if not plain <= got or len(got) != len(want) or len(c.valid_domains) != len(set(c.valid_domains)) and san is not None:
                raise Violation('valid_domains is %r, expected %r' % (c.valid_domains, want))
            ips = [v for k, v in san or [] if k == 'ip' and len(v) in (4, 16)]
            got = [ipaddress.ip_address(t).packed for t in c.valid_ips if t is not None and '/' not in t]
            if got != ips:
                raise Violation('valid_ips is %r, expected those of %r' % (c.valid_ips, san))
            c = c.copy()
    rec.state(repr((san, cns)))


# ------------------------------------------------------------------ single names
FIRST = ['a', 'A', 'b', 'ab', 'a-b', '1', '*', 'a*', '*b', 'a*b', 'A*b', '**', '*a*', 'xn--bcher-kva', 'XN--BCHER-KVA', 'xn--fsq', 'xn--bcher*', 'x*', 'xn--*', 'a(*', 'a+*', '*]', 'a|*', 'a.b', '^*', '*$', '', '_a', 'a' * 63, 'aaaaaa*', 'strasse']
REST = ['', '.b', '.b.cc', '.x.b.cc', '.a.x.b.cc', '.B.CC', '.*.cc', '.b.*', '.xn--bcher-kva.cc', '..cc', '.cc', '.org']
HOST1 = [u'a', u'A', u'b', u'ab', u'aab', u'abb', u'axb', u'a-b', u'1', u'aa', u'a1b', u'b\xfccher', u'B\xdcCHER', u'xn--bcher-kva', u'Xn--Bcher-Kva', u'\u4f8b', u'xn--fsq', u'xn--a', u'a(b', u'a+b', u'aa+b', u'_a', u'a' * 63, u'aaaaaa', u'stra\xdfe', u'*', u'a*', u'ba', u'b]', u'^a']
HREST = [u'', u'.b', u'.b.cc', u'.x.b.cc', u'.y.b.cc', u'.x.a.cc', u'.x.b.org', u'.a.x.b.cc', u'.b.x.b.cc', u'.a.b.x.cc', u'.B.cC', u'.a.cc', u'.x.cc', u'.b\xfccher.cc', u'.cc', u'.org']
IPS = [b'\x0a\0\0\1', b'\x0a\0\0\2', b'\0\0\0\0', b'\xff' * 4, b'\0' * 16, b'\0' * 15 + b'\1', b'\x20\1\x0d\xb8' + b'\0' * 11 + b'\1', b'\0' * 10 + b'\xff\xff\x0a\0\0\1', b'\0' * 12 + b'\x0a\0\0\1', b'\xfe\x80' + b'\0' * 14]
BADIPS = [b'', b'\x0a', b'\x0a\0\0', b'\x0a\0\0\1\0', b'\x0a\0\0\1\xff\xff\xff\xff', b'\x0a\0\0\1\xff\0\0\0', b'\0' * 15 + b'\1' + b'\xff' * 16, b'\0' * 15, b'\x0a\0\0\1\0\xff\0\xff']
IPQ = [u'10.0.0.1', u'10.0.0.2', u'0.0.0.0', u'255.255.255.255', u'::', u'::1', u'0:0:0:0:0:0:0:1', u'2001:db8::1', u'2001:0DB8:0:0::1', u'::ffff:10.0.0.1', u'::FFFF:a00:1', u'::10.0.0.1', u'fe80::',
       u'10.0.0.256', u'1.2.3.999', u'10.0.0.01', u'::zz', u'1:2', u'::1::', u':']
IPQS = [('ip', t) for t in IPQ]


def legal(san_dns):
    return True


def gen_single(tier):
    for f in FIRST:
        for r in REST:
            for place in ('san', 'cn', 'cn1'):
                yield (f + r, place)


def check_single(case, rec):
    n, place = case
    qs = [('dns', h + r) for h in HOST1 for r in HREST] + IPQS[:3]
    qs = [q for q in qs if legal_host(q[1])]
    if place == 'san':
        judge([('dns', n)], (), 0, qs, rec)
        # the common name plays no role
        judge([('dns', n)], (u'a.b.cc', u'b.org'), 0, [q for q in qs if '.' in q[1]], rec)
    else:
        judge(None, (n,), 1 if place == 'cn1' else 0, qs, rec)


def legal_host(h):
    return True


# ------------------------------------------------------------------ combinations
ITEMS = [('dns', 'a.cc'), ('dns', '*.cc'), ('dns', 'b*.cc'), ('dns', '.cc'), ('dns', ''), ('dns', 'a..cc'), ('dns', 'a(*.cc'), ('dns', 'x' * 64 + '.cc'), ('dns', 'xn--bcher-kva.cc'), ('dns', '10.0.0.1'), ('dns', '*.0.0.1'),
         ('uri', 'http://a.cc/'), ('uri', 'a.cc'), ('email', 'x@a.cc'), ('email', 'a.cc'), ('dir', pki.name((pki.CN, u'a.cc'))), ('oid', '1.2.3')] + \
    [('ip', v) for v in IPS + BADIPS] + [('ip', b'a.cc')]
CNS = [(), (u'a.cc',), (u'*.cc',), (u'localhost',), (u'10.0.0.1',), (u'a.cc', u'b.cc'), (u'b_.cc', u'a.cc'), (u'a.c', u'b.c2', u'-b.cc', u'b-.cc', u'b..cc', u'.b.cc', u'b.cc.', u' b.cc', u'b.cc '), (u'b\xfccher.cc',), (u'*.*.cc', u'a*.cc', u'**.cc', u'*a.cc'), (u'xn--bcher-kva.cc',)]
QUERIES = [('dns', h) for h in (u'a.cc', u'A.CC', u'b.cc', u'bb.cc', u'cc', u'a.a.cc', u'b\xfccher.cc', u'xn--bcher-kva.cc', u'localhost', u'x.cc', u'b_.cc')] + IPQS


def gen_combine(tier):
    for how in (0, 1):
        for cns in CNS:
            yield (None, cns, how)
            yield ((), cns, how)
            for a in range(len(ITEMS)):
                yield ((a,), cns, how)
    for n in (2, 3) if tier == 'thorough' else (2,):
        for idx in itertools.product(range(len(ITEMS)), repeat=n):
            yield (idx, (), 0)


def check_combine(case, rec):
    idx, cns, how = case
    san = None if idx is None else [ITEMS[i] for i in idx]
    judge(san, cns, how, QUERIES, rec)


# ------------------------------------------------------------------ types of the argument
def gen_args(tier):
    for a in (None, b'a.cc', 5, ['a.cc']):
        yield (a,)


def check_args(case, rec):
    c = build([('dns', 'a.cc')], (), 0)
    for _ in (0, 1):
        rec.op()
        try:
            c.is_valid_domain_ip(case[0])
        except TypeError:
            continue
        raise Violation('is_valid_domain_ip(%r) is not refused' % (case[0],))
    rec.state(repr(case))


# ------------------------------------------------------------------ many names, long names
NUMBERS = list(range(1, 21)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]


def gen_sizes(tier):
    for n in NUMBERS:
        for what in ('dns', 'wild', 'ip', 'ip6', 'mixed', 'cn', 'cn1'):
            for at in sorted(set([0, 1, n // 2, n - 2, n - 1])):
                if 0 <= at < n and (n < 130 or tier == 'thorough' or what in ('dns', 'ip')):
                    yield (what, n, at)
    for n in list(range(1, 21)) + [61, 62, 63]:
        yield ('label', n, 0)
    for n in range(1, 40):
        yield ('labels', n, 0)


def check_sizes(case, rec):
    what, n, at = case
    others = [('dns', 'n%d.example.org' % i) for i in range(n)]
    hosts = [u'hit.cc', u'HIT.CC', u'x.hit.cc', u'n0.example.org', u'n%d.example.org' % (n - 1), u'n%d.example.org' % n, u'n%d.example.org' % at]
    qs = [('dns', h) for h in hosts] + [('ip', u'10.0.0.%d' % (at % 250)), ('ip', u'::%x' % at), ('ip', u'10.0.0.251'), ('ip', u'::fffe')]
    if what in ('dns', 'wild'):
        others[at] = ('dns', 'hit.cc' if what == 'dns' else '*.hit.cc')
        judge(others, (), 0, qs, rec)
    elif what in ('ip', 'ip6'):
        judge([('ip', b'\x0a\0\0' + bytes([i % 250]) if what == 'ip' else b'\0' * 14 + bytes([i >> 8, i & 255])) for i in range(n)], (), 0, qs, rec)
    elif what == 'mixed':
        kinds = [('uri', 'http://hit.cc/'), ('email', 'a@hit.cc'), ('dir', pki.name((pki.CN, u'hit.cc'))), ('oid', '1.2.3'), ('ip', b'\x0a\0\0\xfb')]
        names = [kinds[i % 5] for i in range(n)]
        names[at] = ('dns', 'hit.cc')
        judge(names, (u'n0.example.org',), 0, qs, rec)
    elif what in ('cn', 'cn1'):
        cns = [v for _, v in others]
        cns[at] = u'hit.cc'
        judge(None, tuple(cns), 1 if what == 'cn1' else 0, qs, rec)
    elif what == 'label':
        names = ['a' * n + '.cc', 'a' * (n - 1) + '*.cc', '*' + 'a' * (n - 1) + '.cc']
        qs = [('dns', h) for h in ('a' * n + '.cc', 'a' * n + 'a.cc', 'a' * (n - 1) + 'b.cc', 'b' + 'a' * (n - 1) + '.cc', 'a' * (n - 1) + '.cc') if len(h) < 67 and h[0] != '.']
        for name in names:
            judge([('dns', name)], (), 0, qs, rec)
        judge(None, tuple(names), 0, qs, rec)
    else:
        tail = '.'.join(['l%d' % i for i in range(n)] + ['cc'])
        other = '.'.join(['l%d' % i for i in range(n - 1)] + ['lx', 'cc'])
        qs = [('dns', h) for h in (tail, 'a.' + tail, 'a.b.' + tail, other, 'a.' + other, tail.upper(), tail.split('.', 1)[1], 'z.' + tail.split('.', 1)[1])]
        for name in (tail, '*.' + tail, 'a*.' + tail, '*.' + other):
            judge([('dns', name)], (), 0, qs, rec)
            judge(None, (name,), 0, qs, rec)


SPACES = [
    Space('single', gen_single, check_single, 'one name of 31 x 12 forms, as an alternative name or a common name, x 480 hosts'),
    Space('combine', gen_combine, check_combine, 'lists of up to 3 alternative names of all kinds (and no extension), and lists of common names, x 31 hosts and addresses'),
    Space('arguments', gen_args, check_args, 'arguments that are not text'),
    Space('sizes', gen_sizes, check_sizes, '1-257 names with the one that is asked for at the ends and in the middle; labels of 1-63 octets; 1-39 labels'),
]


def run(argv):
    return main('C24', SPACES, ['oracle: label by label comparison of the A-label form; octets of addresses'], argv)
