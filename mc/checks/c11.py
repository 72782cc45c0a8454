"""C11 - year-zero dates behave like dates."""
import copy
import itertools
import pickle
from datetime import date, datetime, time, timedelta, timezone
from ..common import Space, bootstrap, main, attempt

bootstrap()
from asn1crypto import util  # noqa
ED, EDT = util.extended_date, util.extended_datetime

MDAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
DAY_NAMES = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
DAYS = [(m + 1, d + 1) for m in range(12) for d in range(MDAYS[m])]
ZONES = [None, 0, 60, -60, 330, -1, 1, 1439, -1439, 840, -720]
TIMES = [(0, 0, 0, 0), (0, 0, 0, 1), (12, 34, 56, 500000), (23, 59, 59, 999999), (23, 0, 0, 0)]
US_DAY = 86400 * 10 ** 6


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before_year(y):
    """days from 0000-01-01 to the first of January of the year y"""
    return 365 * y + (y + 3) // 4 - (y + 99) // 100 + (y + 399) // 400


def day_number(y, m, d):
    n = days_before_year(y) + d - 1
    for k in range(m - 1):
        n += MDAYS[k] - (1 if k == 1 and not leap(y) else 0)
    return n


def micros(f):
    """fields (y, m, d, H, M, S, us, zone in minutes) -> microseconds since 0000-01-01T00:00Z (local time if naive)"""
    n = day_number(*f[:3]) * US_DAY + ((f[3] * 60 + f[4]) * 60 + f[5]) * 10 ** 6 + f[6]
    return n - (f[7] or 0) * 60 * 10 ** 6


def fields_of(us, zone):
    us += (zone or 0) * 60 * 10 ** 6
    n, r = divmod(us, US_DAY)
    y = n * 400 // 146097 - 1
    while days_before_year(y + 1) <= n:
        y += 1
    n -= days_before_year(y)
    m = 1
    while True:
        k = MDAYS[m - 1] - (1 if m == 2 and not leap(y) else 0)
        if n < k:
            break
        n -= k
        m += 1
    r, us = divmod(r, 10 ** 6)
    return (y, m, n + 1, r // 3600, r // 60 % 60, r % 60, us, zone)


def tz(zone):
    return None if zone is None else util.create_timezone(timedelta(minutes=zone))


def make(f):
    return (EDT if f[0] == 0 else datetime)(*(f[:7] + (tz(f[7]),)))


def got_fields(x):
    off = x.utcoffset()
    return (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, None if off is None else int(off.total_seconds() // 60))


def iso_offset(zone, colon=True):
    if zone is None:
        return ''
    return '%s%02d%s%02d' % ('-' if zone < 0 else '+', abs(zone) // 60, ':' if colon else '', abs(zone) % 60)


def formats(f):
    """expected output of every strftime directive that C89 and POSIX define without a locale, except those of the ISO week-year and the epoch"""
    y, m, d, H, M, S, us, zone = f
    wd = (day_number(y, m, d) + 5) % 7        # 0000-01-01 was a Saturday
    yd = day_number(y, m, d) - days_before_year(y)
    out = {
        '%a': DAY_NAMES[wd][:3], '%A': DAY_NAMES[wd], '%b': MONTHS[m - 1][:3], '%B': MONTHS[m - 1], '%d': '%02d' % d, '%m': '%02d' % m,
        '%e': '%2d' % d, '%y': '%02d' % (y % 100), '%Y': '%04d' % y, '%C': '%02d' % (y // 100), '%H': '%02d' % H, '%I': '%02d' % ((H + 11) % 12 + 1), '%p': 'AM' if H < 12 else 'PM',
        '%M': '%02d' % M, '%S': '%02d' % S, '%f': '%06d' % us, '%j': '%03d' % (yd + 1), '%w': str((wd + 1) % 7), '%u': str(wd + 1),
        '%U': '%02d' % ((yd + 7 - (wd + 1) % 7) // 7), '%W': '%02d' % ((yd + 7 - wd) // 7), '%%': '%', '%z': iso_offset(zone, False),
        '%D': '%02d/%02d/%02d' % (m, d, y % 100), '%F': '%04d-%02d-%02d' % (y, m, d), '%T': '%02d:%02d:%02d' % (H, M, S), '%R': '%02d:%02d' % (H, M),
        '%Y%m%d%H%M%SZ': '%04d%02d%02d%02d%02d%02dZ' % (y, m, d, H, M, S), '%y%m%d%H%M%SZ': '%02d%02d%02d%02d%02d%02dZ' % (y % 100, m, d, H, M, S),
        '2%Y4': '2%04d4' % y, '24 %d 2000-4000': '24 %02d 2000-4000' % d, '': '', 'plain': 'plain', '%Y%Y': '%04d%04d' % (y, y), u'\xe9%Y': u'\xe9%04d' % y,
        '%d.%m.%Y': '%02d.%02d.%04d' % (d, m, y), '%x': '%02d/%02d/%02d' % (m, d, y % 100), '%X': '%02d:%02d:%02d' % (H, M, S),
        '%c': '%s %s %2d %02d:%02d:%02d %04d' % (DAY_NAMES[wd][:3], MONTHS[m - 1][:3], d, H, M, S, y),
    }
    return out


def gen_single(tier):
    for md in DAYS:
        for t in TIMES:
            for z in ZONES:
                yield (0,) + md + t + (z,)


def check_single(f, rec):
    x = make(f)
    rec.op(20)
    rec.state(f)
    rec.outcome((f[1], f[7]))
    if got_fields(x) != f:
        return 'fields %r' % (got_fields(x),)
    z = tz(f[7])
    if x.tzinfo is not z or x.utcoffset() != (None if f[7] is None else timedelta(minutes=f[7])):
        return 'tzinfo %r utcoffset %r' % (x.tzinfo, x.utcoffset())
    if x.time() != time(*f[3:7]):
        return 'time() is %r' % x.time()
    d = x.date()
    if type(d) is not ED or (d.year, d.month, d.day) != f[:3]:
        return 'date() is %r' % d
    iso = '%04d-%02d-%02dT%02d:%02d:%02d' % f[:6] + ('.%06d' % f[6] if f[6] else '') + iso_offset(f[7])
    for got, want in ((x.isoformat(), iso), (x.isoformat(' '), iso.replace('T', ' ')), (x.isoformat(sep=u'_'), iso.replace('T', '_')), (str(x), iso.replace('T', ' ')),
                      (d.isoformat(), iso[:10]), (str(d), iso[:10])):
        if got != want or type(got) is not str:
            return 'formatted as %r instead of %r' % (got, want)
    if f[3:7] in TIMES[2:4]:
        for fmt, want in formats(f).items():
            if x.strftime(fmt) != want:
                return 'strftime(%r) of %s is %r instead of %r' % (fmt, iso, x.strftime(fmt), want)
            # the model itself against CPython, with a year of the same calendar
            g = (2000,) + f[1:]
            if make(g).strftime(fmt) != formats(g)[fmt]:
                return 'harness: %r %r' % (fmt, make(g).strftime(fmt))
        for fmt, want in formats((0,) + f[1:3] + (0, 0, 0, 0, None)).items():
            if d.strftime(fmt) != want:
                return 'strftime(%r) of the date %s is %r instead of %r' % (fmt, d, d.strftime(fmt), want)
    if f[7] is not None:
        want = (micros(f) - day_number(1970, 1, 1) * US_DAY) / 1e6
        if abs(x.timestamp() - want) > 1e-4:
            return 'timestamp() is %r instead of %r' % (x.timestamp(), want)
    for y in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x)), make(f), x.replace(), x.replace(year=0), x + timedelta(0), x - timedelta(0)):
        if not (y == x) or y != x or hash(y) != hash(x) or got_fields(y) != f or type(y) is not EDT:
            return 'equal to its copy? %r %r' % (y, x)
    # the same instant in every other zone
    if f[7] is not None:
        for z in ZONES[1:]:
            want = fields_of(micros(f), z)
            k, y = attempt(x.astimezone, tz(z))
            if want[0] < 0:
                if k == 'ok' or not isinstance(y, (ValueError, OverflowError)):
                    return 'astimezone(%r) of %s gives %r, which is before the year 0' % (z, iso, y)
                continue
            if k != 'ok' or got_fields(y) != want or isinstance(y, EDT) != (want[0] == 0):
                return 'astimezone(%r) of %s gives %r instead of %r' % (z, iso, y, want)
            if not x == y or hash(x) != hash(y) or x < y or x > y or x - y != timedelta(0):
                return '%s is not equal to %s' % (x, y)


# ------------------------------------------------------------------ relations
EDGE0 = [(0, m, d) + t + (z,) for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)] for t in TIMES[:4] for z in (None, 0, 330, -60, 1439, -1439)]
EDGE1 = [(y, m, d) + t + (z,) for (y, m, d) in [(1, 1, 1), (1, 1, 2), (4, 2, 29), (1970, 1, 1), (2000, 1, 1), (2000, 12, 31), (4000, 2, 29), (9999, 12, 31)] for t in TIMES[:4] for z in (None, 0, 330, -60)]


def gen_pairs(tier):
    for a in EDGE0:
        for b in EDGE0 + EDGE1:
            yield (a, b)


def check_pairs(case, rec):
    fa, fb = case
    a, b = make(fa), make(fb)
    rec.op(16)
    if (fa[7] is None) != (fb[7] is None):
        rec.outcome('mixed')
        if a == b or b == a or not a != b or not b != a:
            return '%s and %s are equal' % (a, b)
        for op in ('__lt__', '__le__', '__gt__', '__ge__'):
            for x, y in ((a, b), (b, a)):
                k, e = attempt(compare, op, x, y)
                if k == 'ok' or not isinstance(e, TypeError):
                    return '%s %s %s gives %r' % (x, op, y, e)
        for x, y in ((a, b), (b, a)):
            k, e = attempt(lambda: x - y)
            if k == 'ok' or not isinstance(e, TypeError):
                return '%s - %s gives %r' % (x, y, e)
        return
    ua, ub = micros(fa), micros(fb)
    rec.state(ua, ub)
    rec.outcome((ua > ub) - (ua < ub))
    for x, y, ux, uy in ((a, b, ua, ub), (b, a, ub, ua)):
        for op, want in (('__lt__', ux < uy), ('__le__', ux <= uy), ('__gt__', ux > uy), ('__ge__', ux >= uy), ('__eq__', ux == uy), ('__ne__', ux != uy)):
            got = compare(op, x, y)
            if got is not want:
                return '%s %s %s is %r' % (x, op, y, got)
        if x - y != timedelta(microseconds=ux - uy) or type(x - y) is not timedelta:
            return '%s - %s is %r' % (x, y, x - y)
        # (a datetime.datetime cannot be moved before the year 1)
        if isinstance(y, EDT) and fields_of(ux, (fa if y is a else fb)[7])[0] in range(0, 10000) and y + (x - y) != x:
            return '%s + (%s - itself) is %s' % (y, x, y + (x - y))
        if ux == uy and hash(x) != hash(y):
            return '%s and %s are equal but have different hashes' % (x, y)


def compare(op, x, y):
    return {'__lt__': lambda: x < y, '__le__': lambda: x <= y, '__gt__': lambda: x > y, '__ge__': lambda: x >= y,
            '__eq__': lambda: x == y, '__ne__': lambda: x != y}[op]()


DELTAS = [0, 1, 999999, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6 - 1, US_DAY - 1, US_DAY, US_DAY + 1, 28 * US_DAY, 365 * US_DAY, 366 * US_DAY, 366 * US_DAY - 1, 731 * US_DAY, 146097 * US_DAY, 730485 * US_DAY, 3652058 * US_DAY]
OTHERS = [5, 1.5, 'x', None, date(1, 1, 1), ED(0, 1, 1), object(), (0, 1, 1)]


def gen_delta(tier):
    for f in EDGE0:
        for d in DELTAS:
            for s in (1, -1):
                yield (f, s * d)
        for i in range(len(OTHERS)):
            yield (f, 'other%d' % i)


def check_delta(case, rec):
    f, d = case
    x = make(f)
    rec.op(3)
    if isinstance(d, str):
        o = OTHERS[int(d[5:])]
        rec.outcome('other type')
        if x == o or not x != o or o == x:
            return '%s == %r' % (x, o)
        for g in (lambda: x < o, lambda: x <= o, lambda: x > o, lambda: x >= o, lambda: o < x, lambda: o >= x, lambda: x - o, lambda: o - x, lambda: x + o, lambda: o + x, lambda: x + x):
            k, e = attempt(g)
            if k == 'ok' or not isinstance(e, TypeError):
                return '%s with %r gives %r' % (x, o, e)
        return
    td = timedelta(microseconds=d)
    # arithmetic is on the local fields
    want = fields_of(micros(f[:7] + (None,)) + d, None)[:7] + (f[7],)
    rec.state(f, d)
    rec.outcome('before' if want[0] < 0 else 'zero' if want[0] == 0 else 'after' if want[0] < 10000 else 'beyond')
    for k, y in (attempt(lambda: x + td), attempt(lambda: td + x), attempt(lambda: x - (-td))):
        if want[0] < 0 or want[0] > 9999:
            if k == 'ok' or not isinstance(y, (ValueError, OverflowError)):
                return '%s + %s gives %r' % (x, td, y)
        elif k != 'ok' or got_fields(y) != want or type(y) is not (EDT if want[0] == 0 else datetime) or y.tzinfo is not x.tzinfo:
            return '%s + %s gives %r instead of %r' % (x, td, y, want)


# ------------------------------------------------------------------ construction and replacement
VALS = [(-1, 0, 1, 400, 2000, 2001, 9999, 10000), (0, 1, 2, 12, 13), (0, 1, 28, 29, 30, 31, 32), (-1, 0, 23, 24), (-1, 0, 59, 60), (-1, 0, 59, 60), (-1, 0, 999999, 1000000)]


def valid(f):
    y, m, d, H, M, S, us = f
    return 0 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= MDAYS[m - 1] - (1 if m == 2 and not leap(y) else 0) and 0 <= H < 24 and 0 <= M < 60 and 0 <= S < 60 and 0 <= us < 10 ** 6


def gen_replace(tier):
    for ymd in itertools.product(*VALS[:3]):
        for rest in [(0, 0, 0, 0), (23, 59, 59, 999999)]:
            yield ymd + rest
    for H, M, S, us in itertools.product(*VALS[3:]):
        yield (0, 2, 29, H, M, S, us)


def check_replace(f, rec):
    rec.op(4)
    ok = valid(f)
    rec.outcome((ok, f[0] == 0))
    rec.state(f)
    if f[0] <= 0:
        for args, kw in ((f, {}), (f[:3], dict(zip(('hour', 'minute', 'second', 'microsecond'), f[3:])))):
            k, x = attempt(EDT, *args, **kw)
            if ok != (k == 'ok') or not ok and not isinstance(x, ValueError):
                return 'extended_datetime%r gives %r' % (args, x)
        if f[3:] == (0, 0, 0, 0):
            k, x = attempt(ED, *f[:3])
            if ok != (k == 'ok') or not ok and not isinstance(x, ValueError):
                return 'extended_date%r gives %r' % (f[:3], x)
    elif attempt(EDT, *f)[0] == 'ok' or attempt(ED, *f[:3])[0] == 'ok':
        return 'an extended object was created for the year %d' % f[0]
    for z in (None, 330):
        x = make((0, 1, 1, 1, 2, 3, 4, z))
        for k, y in (attempt(x.replace, *f), attempt(x.replace, **dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), f)))):
            if not ok:
                if k == 'ok' or not isinstance(y, ValueError):
                    return 'replace%r gives %r' % (f, y)
            elif k != 'ok' or got_fields(y) != f + (z,) or type(y) is not (EDT if f[0] == 0 else datetime):
                return 'replace%r gives %r' % (f, y)
    if f[3:] == (0, 0, 0, 0):
        x = ED(0, 1, 1)
        for k, y in (attempt(x.replace, *f[:3]), attempt(x.replace, **dict(zip(('year', 'month', 'day'), f)))):
            if not ok:
                if k == 'ok' or not isinstance(y, ValueError):
                    return 'date replace%r gives %r' % (f[:3], y)
            elif k != 'ok' or (y.year, y.month, y.day) != f[:3] or type(y) is not (ED if f[0] == 0 else date):
                return 'date replace%r gives %r' % (f[:3], y)
        # single fields
        base = (0, 2, 29, 5, 6, 7, 8)
        for i, n in enumerate(('year', 'month', 'day')):
            g = base[:i] + (f[i],) + base[i + 1:]
            k, y = attempt(make(base + (None,)).replace, **{n: f[i]})
            kd, yd = attempt(ED(0, 2, 29).replace, **{n: f[i]})
            if valid(g):
                if k != 'ok' or got_fields(y)[:7] != g or kd != 'ok' or (yd.year, yd.month, yd.day) != g[:3]:
                    return 'replace(%s=%r) gives %r, %r' % (n, f[i], y, yd)
            elif k == 'ok' or kd == 'ok':
                return 'replace(%s=%r) gives %r, %r' % (n, f[i], y, yd)


# ------------------------------------------------------------------ dates
ORD = [(1, 1, 1), (1, 12, 31), (1970, 1, 1), (2000, 1, 1), (2000, 2, 29), (4000, 1, 1), (9999, 12, 31)]


def gen_dates(tier):
    for a in DAYS:
        yield a


def check_dates(a, rec):
    x = ED(0, *a)
    for b in [(0,) + d for d in DAYS] + ORD:
        y = ED(*b) if b[0] == 0 else date(*b)
        ux, uy = day_number(0, *a), day_number(*b)
        rec.op(12)
        rec.state(ux, uy)
        for p, q, up, uq in ((x, y, ux, uy), (y, x, uy, ux)):
            for op, want in (('__lt__', up < uq), ('__le__', up <= uq), ('__gt__', up > uq), ('__ge__', up >= uq), ('__eq__', up == uq), ('__ne__', up != uq)):
                if compare(op, p, q) is not want:
                    return '%s %s %s is %r' % (p, op, q, not want)
        if ux == uy and hash(x) != hash(y):
            return 'hashes of equal dates %s' % x
    for o in (5, 'x', None, make((0, 1, 1, 0, 0, 0, 0, None)), object()):
        if x == o or not x != o or o == x:
            return '%s == %r' % (x, o)
        for g in (lambda: x < o, lambda: x >= o, lambda: o > x):
            k, e = attempt(g)
            if k == 'ok' or not isinstance(e, TypeError):
                return '%s compared with %r gives %r' % (x, o, e)
    for y in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x)), x.replace()):
        if y != x or hash(y) != hash(x):
            return 'copy %r' % y
    rec.outcome('date')


def gen_zone(tier):
    for m in range(-1500, 1501):
        yield m


def check_zone(m, rec):
    k, z = attempt(util.create_timezone, timedelta(minutes=m))
    rec.op()
    rec.state(m)
    rec.outcome(k)
    if abs(m) >= 1440:
        return 'offset of %d minutes is accepted' % m if k == 'ok' else None if isinstance(z, ValueError) else 'raises %r' % z
    if k != 'ok' or z.utcoffset(None) != timedelta(minutes=m) or z is not util.create_timezone(timedelta(minutes=m)) or z != timezone(timedelta(minutes=m)):
        return 'create_timezone(%d minutes) gives %r' % (m, z)
    u = datetime(2024, 2, 29, 12, 0, tzinfo=util.utc_with_dst)
    if u.astimezone(z) != u or u.astimezone(z).utcoffset() != timedelta(minutes=m) or u.astimezone(z).astimezone(util.utc_with_dst) != u:
        return 'astimezone %r' % z
    if util.utc_with_dst.utcoffset(u) != timedelta(0) or util.utc_with_dst.dst(u) != timedelta(0) or util.utc_with_dst.tzname(u) != 'UTC':
        return 'utc_with_dst'


SPACES = [
    Space('datetimes', gen_single, check_single, 'every day of the year 0 x 5 times x 11 zones: fields, formats, every strftime directive, equality, hash, every zone conversion'),
    Space('pairs', gen_pairs, check_pairs, 'all pairs of boundary datetimes of the year 0 with each other and with boundary datetimes of other years: order, equality, hash, difference'),
    Space('deltas', gen_delta, check_delta, 'boundary datetimes x boundary deltas of either sign, and operands of other types'),
    Space('fields', gen_replace, check_replace, 'products of boundary fields, for the constructor and for replace()'),
    Space('dates', gen_dates, check_dates, 'all pairs of days of the year 0, and with boundary dates of other years'),
    Space('zones', gen_zone, check_zone, 'every offset of -1500..1500 minutes'),
]


def run(argv):
    return main('C11', SPACES, ['the C locale', 'strftime directives of the ISO 8601 week-based year and of the epoch are not claimed; naive objects have no time stamp claimed'], argv)
