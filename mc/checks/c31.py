"""C31 - the name tables: both directions of every entry, against a reviewed registry, in every order of first use."""
import itertools
import json
import os
import subprocess
import sys
from .. import gen, ref
from ..common import Space, bootstrap, main, check, attempt as _attempt, Violation

REPO = bootstrap()
from asn1crypto import core  # noqa

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = json.load(open(os.path.join(HERE, 'data', 'names.json')))
CLS = dict(gen.classes())


def attempt(f):
    how, v = _attempt(f)
    return how == 'ok', v


def value(kind, k):
    if kind == 'oid':
        return ref.oid(k)
    if kind == 'int':
        return ref.integer(int(k))
    if kind == 'enum':
        return ref.u(10, ref.int_content(int(k)))
    return ref.bitstring([0] * int(k) + [1])


def both(label, cls, kind, k, name, primary):
    """the key decodes to the name, and the name encodes to the primary key"""
    d = value(kind, k)
    native = set([name]) if kind == 'bits' else name
    for what, o in (('loaded', cls.load(d)), ('set', cls(k if kind == 'oid' else int(k) if kind != 'bits' else set([name])))):
        check(o.native == native, '%s %s is %s as %r, not %r', label, k, what, o.native, native)
        check(o.native == native, '%s %s is %s as %r the second time', label, k, what, o.native)
        check(o.dump() == d, '%s %s %s is encoded as %s, not %s', label, k, what, o.dump().hex(), d.hex())
        check(o.copy().native == native and o.copy().dump() == d, '%s %s: the copy is %r', label, k, o.copy().native)
        check(o.dump(force=True) == d, '%s %s %s is encoded anew as %s, not %s', label, k, what, o.dump().hex(), d.hex())
        check(o.native == native, '%s %s is %s as %r after it was encoded anew', label, k, what, o.native)
        if kind == 'oid':
            check(o.dotted == k and str(o) == k, '%s %s: dotted %s', label, k, o.dotted)
        elif kind != 'bits':
            check(int(o) == int(k), '%s %s: number %d', label, k, int(o))
    o = cls(native)
    p = value(kind, primary)
    check(o.dump() == p, '%s %s is encoded as %s, not %s', label, name, o.dump().hex(), p.hex())
    check(o.native == native, '%s %s is read back as %r', label, name, o.native)
    if kind == 'oid':
        check(o.dotted == primary, '%s %s has the identifier %s, not %s', label, name, o.dotted, primary)
        check(cls.map(k) == name, '%s.map(%s) is %s, not %s', label, k, cls.map(k), name)
        check(cls.unmap(name) == primary and cls.unmap(k) == k, '%s.unmap(%s) is %s, not %s', label, name, cls.unmap(name), primary)
    if kind == 'bits':
        t = tuple(1 if i == int(k) else 0 for i in range(int(k) + 1))
        o = cls(t)
        check(o.native == native, '%s with bit %s is %r, not %r', label, k, o.native, native)
        check(o[name] is True and all(o[n] is False for n in cls._map.values() if n != name), '%s with bit %s has other bits', label, k)
        o = cls(set())
        o[name] = True
        check(o.native == native and o.dump() == p, '%s after setting %s is %r (%s)', label, name, o.native, o.dump().hex())


# ------------------------------------------------------------------ registry
def gen_registry(tier):
    for label in sorted(NAMES):
        for k in sorted(NAMES[label]['names']):
            yield (label, k)


def check_registry(case, rec):
    label, k = case
    rec.op()
    e = NAMES[label]
    name = e['names'][k]
    cls = CLS.get(label)
    check(cls is not None, 'the class %s does not exist', label)
    both(label, cls, e['kind'], k, name, e.get('primary', {}).get(name, k))
    for alias, o in e.get('alias', {}).items():
        check(cls(alias).dotted == o and cls.unmap(alias) == o, '%s %s is %s, not %s', label, alias, cls(alias).dotted, o)
    rec.state(case)


# ------------------------------------------------------------------ live
def gen_live(tier):
    for label, cls in gen.classes():
        if getattr(cls, '_map', None):
            yield (label,)


def check_live(case, rec):
    """the tables as they are: inverse, apart from the aliases of one name, one of which the name stands for"""
    label, = case
    cls = CLS[label]
    kind = 'oid' if issubclass(cls, core.ObjectIdentifier) else 'bits' if issubclass(cls, core.BitString) else 'enum' if issubclass(cls, core.Enumerated) else 'int'
    names = {}
    for k, n in cls._map.items():
        names.setdefault(n, []).append(str(k))
    for n, ks in names.items():
        if kind == 'oid':
            primary = cls.unmap(n)
            check(primary in ks, '%s %s stands for %s, which is not one of %s', label, n, primary, ks)
        else:
            check(len(ks) == 1, '%s: the numbers %s have the same name %s', label, ks, n)
            primary = ks[0]
        for k in ks:
            rec.op()
            both(label, cls, kind, k, n, primary)
    rec.state(case, len(names))


# ------------------------------------------------------------------ unregistered
UNKNOWN = ['1.2.3', '0.0', '2.999.1', '1.3.6.1.4.1.99999.7', '2.5.4', '2.5.29', '1.2.840.113549.1.1', '2.16.840.1.101.3.4.2.1.1', '2.5.4.3.0', '1.2.840.113549.1.1.1.1']


def gen_unknown(tier):
    for label in sorted(CLS):
        cls = CLS[label]
        if issubclass(cls, core.ObjectIdentifier) and cls._map:
            yield (label, 'unknown')
            if label in NAMES:
                yield (label, 'neighbours')
        elif getattr(cls, '_map', None):
            yield (label, 'numbers')


def check_unknown(case, rec):
    label, how = case
    cls = CLS[label]
    if how == 'numbers':
        if issubclass(cls, core.BitString):
            # named and unnamed bits
            for n in range(0, 40):
                if n in cls._map:
                    continue
                rec.op()
                o = cls.load(value('bits', n))
                check(o.native == set([n]) , '%s bit %d is read as %r', label, n, o.native)
                check(o.dump(force=True) == value('bits', n), '%s bit %d is encoded as %s', label, n, o.dump().hex())
            ok, e = attempt(lambda: cls(set(['no such name'])))
            check(not ok and isinstance(e, ValueError), '%s with an unknown name gives %r', label, e)
            return
        kind = 'enum' if issubclass(cls, core.Enumerated) else 'int'
        for n in list(range(-2, 40)) + [127, 128, 255, 256]:
            if n in cls._map:
                continue
            rec.op()
            d = value(kind, str(n))
            if kind == 'enum':
                ok, e = attempt(lambda: cls.load(d).native)
                check(not ok and isinstance(e, ValueError) or ok and e == n, '%s %d is read as %r', label, n, e)
            else:
                check(cls.load(d).native == n and cls(n).dump() == d and cls.load(d).dump(force=True) == d, '%s %d is read as %r', label, n, cls.load(d).native)
        ok, e = attempt(lambda: cls('no such name'))
        check(not ok and isinstance(e, ValueError), '%s with an unknown name gives %r', label, e)
        rec.state(case)
        return
    if how == 'unknown':
        some = UNKNOWN
    else:
        # identifiers that differ in one arc from those registered
        some = []
        for o in NAMES[label]['names']:
            a = [int(x) for x in o.split('.')]
            for x in (a[:-1], a + [0], a[:-1] + [a[-1] + 1], a[:-1] + [a[-1] + 128], a[:-1] + [a[-1] ^ 1]):
                some.append('.'.join(map(str, x)))
    for o in some:
        if o in cls._map:
            continue
        rec.op()
        d = ref.oid(o)
        check(cls.load(d).native == o, '%s %s is read as %s', label, o, cls.load(d).native)
        check(cls(o).dump() == d and cls.load(d).dump(force=True) == d, '%s %s is encoded as %s', label, o, cls(o).dump().hex())
        check(cls.map(o) == o and cls.unmap(o) == o, '%s %s is mapped to %s and %s', label, o, cls.map(o), cls.unmap(o))
    for n in ('no such name', 'rsa_', '', 'RSA', '1.2.x', 'ééé'):
        if n in (cls._reverse_map or {}):
            continue
        for f in (lambda: cls(n), lambda: cls.unmap(n)):
            ok, e = attempt(f)
            check(not ok and isinstance(e, ValueError), '%s with the unknown name %r gives %r', label, n, e)
    rec.state(case)


# ------------------------------------------------------------------ first use
KINDS = ['load', 'set', 'map', 'unmap', 'contents', 'copy', 'subclass']

PROGRAM = r'''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
from mc import gen, ref
from asn1crypto import core
first, second = json.loads(sys.argv[1])
names = json.load(open(%r))
def use(cls, e, how, k, n, p):
    if how == 'load':
        return cls.load(ref.oid(k)).native, n
    if how == 'set':
        return cls(n).dotted, p
    if how == 'map':
        return cls.map(k), n
    if how == 'unmap':
        return cls.unmap(n), p
    if how == 'contents':
        return cls(contents=ref.oid_content([int(x) for x in k.split('.')])).native, n
    if how == 'copy':
        return core.ObjectIdentifier.load(ref.oid(k)).cast(cls).native if hasattr(core.ObjectIdentifier, 'cast') else n, n
    sub = type(str('Sub'), (cls,), {})
    return sub(n).dotted, p
bad = []
for label, cls in gen.classes():
    e = names.get(label)
    if not e or e['kind'] != 'oid':
        continue
    items = sorted(e['names'].items())
    for how, (k, n) in ((first, items[0]), (second, items[-1]), (first, items[-1])):
        try:
            got, want = use(cls, e, how, k, n, e.get('primary', {}).get(n, k))
        except Exception as x:
            got, want = repr(x), None
        if got != want:
            bad.append([label, how, k, n, got])
print(json.dumps(bad))
'''


def gen_first(tier):
    for a, b in itertools.product(KINDS, repeat=2):
        yield (a, b)


def check_first(case, rec):
    rec.op()
    p = subprocess.run([sys.executable, '-B', '-c', PROGRAM % (REPO, os.path.dirname(HERE), os.path.join(HERE, 'data', 'names.json')), json.dumps(case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Violation('the program failed: %s' % p.stderr.decode()[-1500:])
    bad = json.loads(p.stdout)
    check(not bad, 'in a new process, using the tables first with %r and then with %r gives %r', case[0], case[1], bad[:5])
    rec.state(case)


SPACES = [
    Space('registry', gen_registry, check_registry, 'every entry of the reviewed registry in both directions'),
    Space('tables', gen_live, check_live, 'every entry of the tables as they are in both directions'),
    Space('unregistered', gen_unknown, check_unknown, 'unknown identifiers, the neighbours of the registered ones, unknown numbers and names'),
    Space('first use', gen_first, check_first, 'all pairs of first uses of every table in a new process', cpu_limit=120),
]


def run(argv):
    return main('C31', SPACES, ['oracle: registry reviewed against the object database of OpenSSL; reference encodings'], argv)
