"""C10 - UTCTime / GeneralizedTime: grammar, instants, canonical encoding."""
import itertools
from datetime import datetime, timedelta, timezone
from fractions import Fraction
from .. import ref
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import core, util  # noqa

UTC = timezone.utc
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days(y, m, d):
    """days since 0000-03-01-style epoch, proleptic Gregorian, any year >= 0"""
    n = y * 365 + (y + 3) // 4 - (y + 99) // 100 + (y + 399) // 400
    n += sum(DIM[:m - 1]) + (1 if m > 2 and leap(y) else 0) + d - 1
    return n


def digits(s):
    return s != '' and all(c in '0123456789' for c in s)


def ref_time(s, utc):
    """(naive?, local instant in microseconds as Fraction since year 0, offset minutes or None) or Bad"""
    n = 2 if utc else 4
    base = s[:n + 8] if not utc else s[:10]
    pos = n + 6
    head = s[:pos]
    if len(head) < pos or not digits(head):
        raise ref.Bad('head')
    y, mo, d, h = int(head[:n]), int(head[n:n + 2]), int(head[n + 2:n + 4]), int(head[n + 4:n + 6])
    if utc:
        y += 2000 if y < 50 else 1900
    mi = se = None

    def two():
        v = s[pos:pos + 2]
        return int(v) if len(v) == 2 and digits(v) else None
    mi = two()
    if mi is not None:
        pos += 2
        se = two()
        if se is not None:
            pos += 2
    elif utc:
        raise ref.Bad('minute')
    frac = Fraction(0)
    if not utc and s[pos:pos + 1] in ('.', ',') and pos < len(s):
        q = pos + 1
        while q < len(s) and s[q] in '0123456789':
            q += 1
        if q == pos + 1:
            raise ref.Bad('fraction')
        frac = Fraction(int(s[pos + 1:q]), 10 ** (q - pos - 1))
        pos = q
    unit = 3600 if mi is None else 60 if se is None else 1
    off = None
    rest = s[pos:]
    if rest == 'Z':
        off = 0
    elif rest[:1] in ('+', '-') and rest:
        r = rest[1:]
        if not digits(r) or len(r) not in ((4,) if utc else (2, 4)):
            raise ref.Bad('offset')
        off = int(r[:2]) * 60 + int(r[2:] or 0)
        if off >= 24 * 60:
            raise ref.Bad('offset range')
        if int(r[2:] or 0) > 59:
            raise Skip()
        if rest[0] == '-':
            off = -off
    elif rest:
        raise ref.Bad('rest')
    elif utc:
        raise ref.Bad('no zone')
    if not 1 <= mo <= 12 or not 1 <= d <= DIM[mo - 1] + (mo == 2 and leap(y)):
        raise ref.Bad('date')
    if h > 23 or (mi or 0) > 59 or (se or 0) > 59:
        raise ref.Bad('time')
    us = Fraction(days(y, mo, d) * 86400 + h * 3600 + (mi or 0) * 60 + (se or 0)) * 1000000 + frac * unit * 1000000
    return y, us, off


class Skip(Exception):
    pass


END = (days(9999, 12, 31) + 1) * 86400 * 1000000


def micros(v):
    """microseconds of a datetime-like object on the reference scale (local reading)"""
    return (days(v.year, v.month, v.day) * 86400 + v.hour * 3600 + v.minute * 60 + v.second) * 1000000 + v.microsecond


def offset(v):
    o = v.utcoffset()
    return None if o is None else int(o.total_seconds() // 60)


def canonical(us, utc):
    """DER string of a UTC instant given in microseconds"""
    us = int(us)
    sec, frac = divmod(us, 1000000)
    dn, sec = divmod(sec, 86400)
    y = dn * 400 // 146097
    while days(y + 1, 1, 1) <= dn:
        y += 1
    while days(y, 1, 1) > dn:
        y -= 1
    rem = dn - days(y, 1, 1)
    m = 1
    while rem >= DIM[m - 1] + (m == 2 and leap(y)):
        rem -= DIM[m - 1] + (m == 2 and leap(y))
        m += 1
    s = '%02d%02d%02d%02d%02d' % (m, rem + 1, sec // 3600, sec // 60 % 60, sec % 60)
    if utc:
        return '%02d%sZ' % (y % 100, s), y
    f = ('.%06d' % frac).rstrip('0') if frac else ''
    return '%04d%s%sZ' % (y, s, f), y


def decide(kind, s, rec):
    cls, tag = (core.UTCTime, 23) if kind == 'U' else (core.GeneralizedTime, 24)
    d = ref.u(tag, s.encode('latin1'))
    rec.op(3)
    try:
        want = ref_time(s, kind == 'U')
    except ref.Bad:
        want = None
    except Skip:
        return None
    o = cls.load(d)
    k, v = attempt(lambda: o.native)
    if want is None:
        rec.outcome(kind + ' reject')
        if k == 'ok' or not isinstance(v, ValueError):
            return '%s %r is not a valid time but decoded as %r' % (kind, s, v)
        if o.dump() != d:
            return 'octets changed'
        return None
    y, us, off = want
    if k != 'ok':
        if isinstance(v, ValueError) and us >= END - 1:
            rec.outcome(kind + ' beyond 9999')
            return None
        return '%s %r refused: %r' % (kind, s, v)
    rec.outcome('%s ok %s%s' % (kind, 'naive' if off is None else 'aware', ' year0' if v.year == 0 else ''))
    rec.state(kind, us, off)
    if offset(v) != off:
        return '%s %r: zone offset %r expected %r' % (kind, s, offset(v), off)
    if abs(micros(v) - us) >= 1:
        return '%s %r decoded as %s (off by %s us)' % (kind, s, v, micros(v) - us)
    if not isinstance(v, util.extended_datetime if v.year == 0 else datetime):
        return 'native type %r' % type(v)
    if o.dump() != d:
        return 'dump of untouched %r' % o.dump()
    # forced DER
    k, f = attempt(o.dump, force=True)
    if off is None:
        if k == 'ok' and f != d:
            return 'a local time was re-encoded as %r' % f
        if k == 'err' and (not isinstance(f, ValueError) or o.dump() != d):
            return 'local time, forced dump: %r' % f
        return None
    uus = micros(v) - off * 60000000
    if uus < 0 or uus >= END or (kind == 'U' and not 1950 <= canonical(uus, True)[1] <= 2049):
        rec.outcome('utc instant not representable')
        if k == 'ok' and f != d:
            return 'unrepresentable instant re-encoded as %r' % f
        return None
    if off and 0 < uus // 86400000000 - days(1, 1, 1) + 1 <= 0:
        return None
    exp, yy = canonical(uus, kind == 'U')
    if k != 'ok':
        # instants of year 0 reached from year 1 are outside of the datetime type
        if (y == 1 and yy == 0) or isinstance(f, OverflowError):
            if o.dump() != d:
                return 'octets changed'
            return None
        return 'forced dump of %r failed: %r' % (s, f)
    if f != ref.u(tag, exp.encode()):
        return 'forced dump of %r: %r expected %r' % (s, f, exp)
    w = cls.load(f).native
    if micros(w) != uus or offset(w) != 0 or o.native != w:
        return 'native after forced dump %s / %s' % (w, o.native)
    return None


YEARS = ['0000', '0001', '0004', '0100', '0999', '1900', '1949', '1950', '2000', '2049', '2050', '9999']
MD = ['0101', '0228', '0229', '0230', '0301', '0431', '1231', '1301', '0001', '0100']
HH = ['00', '09', '23', '24']
MM = ['', '00', '59', '60']
SS = ['', '00', '59', '60']
FR = ['', '.', '.0', '.5', ',25', '.000001', '.9999996', '.123456789', '.00']
TZ = ['', 'Z', '+00', '+0000', '-0530', '+2359', '+2400', '-23', 'z', '+5', '+0100']


def gen_gen(tier):
    for y in YEARS if tier == 'thorough' else YEARS:
        for md in MD:
            for h in HH:
                for m in MM:
                    for s in (SS if m else ['']):
                        for f in FR:
                            for z in TZ:
                                yield y + md + h + m + s + f + z


def gen_utc(tier):
    for y in ['%02d' % i for i in range(100)]:
        for md in MD if y in ('00', '49', '50', '99') else ('0101', '0229', '1231'):
            for h in HH:
                for m in MM:
                    for s in SS if m else ['']:
                        for z in TZ:
                            for f in ('', '.5') if z == 'Z' else ('',):
                                yield y + md + h + m + s + f + z


def gen_zones(tier):
    for sign in '+-':
        for h in range(26):
            for m in [''] + ['%02d' % i for i in range(60)]:
                z = '%s%02d%s' % (sign, h, m)
                for b in ('20200229235959', '00000101000000', '99991231235959', '2020063012.5'):
                    yield ('G', b + z)
                if m:
                    for b in ('500101000000', '491231235959', '0002291200'):
                        yield ('U', b + z)
    if tier == 'thorough':
        for us in range(0, 1000000, 7):
            yield ('G', '20200229235959.%06dZ' % us)
        for d in range(10000):
            for u in ('235959', '2359', '23'):
                yield ('G', '20200229%s.%04d-0001' % (u, d))


SEEDS = ['20200229235959Z', '20200229235959.5Z', '2020022923+0130', '202002292359,25-05', '00000101000000Z', '99991231235959.999Z']
USEEDS = ['200229235959Z', '2002292359Z', '500101000000+0130', '491231235959-0500']
CH = '0159Z+-., \n:a/\x00\xb2'


def edits(s):
    for i in range(len(s) + 1):
        yield s[:i]
        yield s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
        for c in CH:
            yield s[:i] + c + s[i:]
            if i < len(s):
                yield s[:i] + c + s[i + 1:]


def gen_edit(tier):
    for kind, seeds in (('G', SEEDS), ('U', USEEDS)):
        for s in seeds:
            for t in edits(s):
                yield (kind, t)
        if tier == 'thorough':
            for s in seeds:
                for t in edits(s):
                    for v in edits(t):
                        yield (kind, v)


OFFS = [0, 60, -60, 330, -570, 1439, -1439, 1]


def gen_set(tier):
    for y in range(0, 10000):
        for md in ((1, 1), (2, 28), (12, 31)):
            yield (y, md[0], md[1], 23, 59, 59, 0, 0)
        if y < 3 or y > 9997 or y in (999, 1000, 1949, 1950, 2049, 2050) or (tier == 'thorough' and y % 7 == 0):
            for md in ((1, 1), (2, 28), (3, 1), (12, 31)):
                for hms in ((0, 0, 0), (12, 30, 1), (23, 59, 59)):
                    for us in (0, 1, 10, 500000, 999999, 120000):
                        for off in OFFS:
                            yield (y,) + md + hms + (us, off)
    for m in range(1, 13):
        for d in range(1, DIM[m - 1] + 1 + (m == 2)):
            for off in OFFS:
                yield (0, m, d, 1, 2, 3, 4, off)
                yield (2000, m, d, 22, 2, 3, 0, off)


def check_set(case, rec):
    y, mo, d, h, mi, s, us, off = case
    tz = timezone(timedelta(minutes=off))
    v = (util.extended_datetime if y == 0 else datetime)(y, mo, d, h, mi, s, us, tzinfo=tz)
    uus = (days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s) * 1000000 + us - off * 60000000
    rec.op(3)
    if 0 <= uus < END and not (y == 1 and uus < days(1, 1, 1) * 86400000000):
        exp, yy = canonical(uus, False)
        o = core.GeneralizedTime(v)
        if o.dump() != ref.u(24, exp.encode()):
            return 'GeneralizedTime(%s): %r expected %r' % (v, o.dump(), exp)
        n = o.native
        if micros(n) != uus or offset(n) != 0 or not (n == v):
            return 'GeneralizedTime(%s).native %s' % (v, n)
        if core.GeneralizedTime.load(o.dump()).native != n or o.dump(force=True) != o.dump():
            return 'GeneralizedTime round trip of %s' % v
        rec.outcome('G ok')
    else:
        k, r = attempt(core.GeneralizedTime, v)
        rec.outcome('G out of range')
        if k == 'ok':
            return 'GeneralizedTime(%s) = %r' % (v, r.dump())
        yy = -1
    rec.state(uus, off)
    if y:
        k, o = attempt(core.UTCTime, v)
        if 1950 <= yy <= 2049:
            exp, yy = canonical(uus, True)
            if k != 'ok' or o.dump() != ref.u(23, exp.encode()):
                return 'UTCTime(%s): %r expected %r' % (v, o, exp)
            if micros(o.native) != uus // 1000000 * 1000000:
                return 'UTCTime(%s).native = %s' % (v, o.native)
            rec.outcome('U ok')
        else:
            rec.outcome('U out of range')
            if k == 'ok' or not isinstance(o, (ValueError, OverflowError)):
                return 'UTCTime(%s) outside of 1950-2049: %r' % (v, o)
    if off == 0:
        for cls in (core.GeneralizedTime, core.UTCTime):
            k, r = attempt(cls, v.replace(tzinfo=None))
            if k == 'ok' or not isinstance(r, (ValueError, TypeError)):
                return '%s accepted a naive time: %r' % (cls.__name__, r)


HOPS = [('dt', 2020), ('dt', 2049), ('dt', 1999), ('str', 'A'), ('str', 'B'), 'bad', 'native', 'dump', 'force', 'copy', 'reload',
        'str']
STRS = {'G': {'A': '20200101000000.50+0100', 'B': '2021010100Z'}, 'U': {'A': '2001010000+0100', 'B': '210101000000Z'}}


def gen_hist(tier):
    for kind in 'GU':
        for start in ('new', 'load', 'chunks'):
            for n in range(0, 5 if tier == 'thorough' else 4):
                for ops in itertools.product(range(len(HOPS)), repeat=n):
                    yield (kind, start, ops)


def check_hist(case, rec):
    kind, start, ops = case
    utc = kind == 'U'
    cls, tag = (core.UTCTime, 23) if utc else (core.GeneralizedTime, 24)
    s = STRS[kind]['A']
    if start == 'new':
        o = cls(s)
    elif start == 'load':
        o = cls.load(ref.u(tag, s.encode()))
    else:
        o = cls.load(ref.indef(0, tag, ref.u(tag, s[:5].encode()) + ref.u(tag, s[5:].encode())))

    def instant(t):
        y, us, off = ref_time(t, utc)
        return us - off * 60000000
    for i in ops:
        op = HOPS[i]
        rec.op()
        if op == 'bad':
            k, r = attempt(o.set, datetime(2020, 1, 1))
            if k == 'ok':
                return 'naive accepted'
        elif op == 'native':
            if micros(o.native) - offset(o.native) * 60000000 != instant(s):
                return 'native %s of %r' % (o.native, s)
        elif op == 'dump':
            if start == 'chunks' and o.dump()[1:2] == b'\x80':
                return 'indefinite length kept'
            start = 'x'
            if o.dump() not in (ref.u(tag, s.encode()), ref.u(tag, canonical(instant(s), utc)[0].encode())):
                return 'dump %r of %r' % (o.dump(), s)
            s = o.contents.decode()
        elif op == 'force':
            s = canonical(instant(s), utc)[0]
            if o.dump(force=True) != ref.u(tag, s.encode()):
                return 'force %r expected %r' % (o.dump(), s)
            start = 'x'
        elif op == 'copy':
            p = o.copy()
            if start == 'chunks':
                # a copy of a chunked value is definite
                if instant(p.contents.decode()) != instant(s):
                    return 'copy of chunks %r' % p.contents
                s = p.contents.decode()
                start = 'x'
            o.set(datetime(2011, 1, 1, tzinfo=UTC))
            o = p
        elif op == 'reload':
            d = o.dump()
            s = ref.parse_one(d)[0][4].decode()
            start = 'x'
            o = cls.load(d, strict=True)
        elif op == 'str':
            if str(o) != s:
                return 'str %r expected %r' % (str(o), s)
        elif op[0] == 'dt':
            v = datetime(op[1], 6, 30, 1, 2, 3, tzinfo=timezone(timedelta(hours=2)))
            o.set(v)
            s = canonical(micros(v) - 120 * 60000000, utc)[0]
            start = 'x'
        else:
            s = STRS[kind][op[1]]
            o.set(s)
            start = 'x'
    rec.state(kind, s)
    rec.outcome(kind)
    n = o.native
    if micros(n) - offset(n) * 60000000 != instant(s):
        return 'final native %s of %r' % (n, s)
    if start != 'chunks' and o.dump() != ref.u(tag, s.encode()):
        return 'final dump %r of %r' % (o.dump(), s)


SPACES = [
    Space('generalized', gen_gen, lambda s, rec: decide('G', s, rec), 'product of boundary years, dates, hours, minutes, '
          'seconds, fractions and zones'),
    Space('utc', gen_utc, lambda s, rec: decide('U', s, rec), 'every two-digit year x boundary fields x zones'),
    Space('zones', gen_zones, lambda c, rec: decide(c[0], c[1], rec), 'every zone offset of both types at the ends of the '
          'ranges (thorough: fractions of four and six digits)'),
    Space('edits', gen_edit, lambda c, rec: decide(c[0], c[1], rec), 'all single (double) character edits of valid times'),
    Space('set', gen_set, check_set, 'every year 0-9999, every day of years 0 and 2000, offsets and microseconds at boundaries'),
    Space('histories', gen_hist, check_hist, 'set/observe/copy/reload histories of length <= 3 (4)'),
]


def run(argv):
    return main('C10', SPACES, ['dates are checked with an independent proleptic Gregorian day count',
                                'zone offsets with a minute field above 59 are not judged'], argv)
