"""Explicit-state search over operation histories on real objects, next to a reference model.

A state is the pair (graph of the attributes of the real objects, model).  The graph is
walked generically (whatever attributes an object has, with aliasing), so two histories
that reach equal graphs have the same futures and only one of them is extended.
Objects can not be snapshotted, so a state is rebuilt by replaying its history."""
from . import schema as S
from .common import Violation, attempt, bootstrap

bootstrap()
from asn1crypto import core  # noqa


# ------------------------------------------------------------------ canonical form of real objects
def canon(*roots):
    memo = {}
    keep = []

    def walk(o):
        t = type(o)
        if o is None or t in (int, str, bytes, bool, float):
            return (t.__name__, o)
        if isinstance(o, type):
            return ('class', o.__module__, o.__qualname__, id(o))
        if t in (frozenset, set):
            return (t.__name__,) + tuple(sorted(map(repr, o)))
        if id(o) in memo:
            return ('ref', memo[id(o)])
        memo[id(o)] = len(memo)
        keep.append(o)
        if t in (list, tuple):
            return (t.__name__,) + tuple([walk(x) for x in o])
        if isinstance(o, dict):
            return (t.__name__,) + tuple([(walk(k), walk(v)) for k, v in o.items()])
        if t is object:
            return ('token',)
        d = getattr(o, '__dict__', None)
        if d is not None:
            return (t.__module__, t.__qualname__, id(t)) + tuple([(k, walk(d[k])) for k in sorted(d)])
        return (t.__name__, repr(o))
    return tuple([walk(r) for r in roots])


# ------------------------------------------------------------------ models
def norm(ty, v):
    """a mutable model value, with defaults filled in"""
    if isinstance(ty, S.Seq):
        out = {}
        for f in ty.fields:
            if f.name in v:
                out[f.name] = norm(f.ty, v[f.name])
            elif f.opt and f.opt != 'optional':
                out[f.name] = norm(f.ty, f.opt[1])
        return out
    if isinstance(ty, S.SeqOf):
        return [norm(ty.ty, x) for x in v]
    if isinstance(ty, S.Choice):
        return [v[0], norm(ty.alt(v[0]).ty, v[1])]
    return v


def complete(ty, m):
    if isinstance(ty, S.Seq):
        return all((f.name in m or f.opt) and (f.name not in m or complete(f.ty, m[f.name])) for f in ty.fields)
    if isinstance(ty, S.SeqOf):
        return all(complete(ty.ty, x) for x in m)
    if isinstance(ty, S.Choice):
        return complete(ty.alt(m[0]).ty, m[1])
    return True


def freeze(m):
    if isinstance(m, dict):
        return ('d',) + tuple([(k, freeze(m[k])) for k in sorted(m)])
    if isinstance(m, list):
        return ('l',) + tuple([freeze(x) for x in m])
    return m


def dup(m):
    if isinstance(m, dict):
        return dict((k, dup(v)) for k, v in m.items())
    if isinstance(m, list):
        return [dup(x) for x in m]
    return m


def resort(ty, m):
    """what is decoded from DER: the elements of a SET OF are in the order of their encodings"""
    if isinstance(ty, S.Seq):
        return dict((k, resort(field(ty, k).ty, v)) for k, v in m.items())
    if isinstance(ty, S.SeqOf):
        out = [resort(ty.ty, x) for x in m]
        if isinstance(ty, S.SetOfT):
            out.sort(key=lambda x: der(ty.ty, x))
        return out
    if isinstance(ty, S.Choice):
        return [m[0], resort(ty.alt(m[0]).ty, m[1])]
    return m


_dercache = {}


def der(ty, m):
    k = (id(ty), freeze(m))
    if k not in _dercache:
        if len(_dercache) > 200000:
            _dercache.clear()
        _dercache[k] = S.der(ty, m)
    return _dercache[k]


# ------------------------------------------------------------------ systems
class NotEnabled(Exception):
    pass


def field(ty, key):
    return [f for f in ty.fields if f.name == key][0]


class Sys(object):
    """obj: the real object; m: its model; handle: (type, real, model) read out earlier"""

    def __init__(self, ty, obj, m, ber=False):
        self.ty, self.obj, self.m = ty, obj, m
        # decoded from BER: until it is forced, dump() may be any encoding of the model
        self.ber = ber
        self.handle = None

    def key(self):
        h = self.handle
        return (canon(self.obj, h and h[1]), self.ber, freeze(self.m), h and freeze(h[2]), h and self.alias(self.m, h[2]))

    def alias(self, m, hm, path=()):
        if m is hm:
            return path
        if isinstance(m, dict):
            for k in m:
                a = self.alias(m[k], hm, path + (k,))
                if a is not None:
                    return a
        if isinstance(m, list):
            for k, x in enumerate(m):
                a = self.alias(x, hm, path + (k,))
                if a is not None:
                    return a
        return None

    def at(self, path):
        """(type, thunk of the real object, model) - navigation on the real object is done when asked for"""
        if path and path[0] == '<handle>':
            if self.handle is None:
                raise NotEnabled()
            ty, o, m = self.handle
            get = lambda o=o: o
            path = path[1:]
        else:
            ty, m = self.ty, self.m
            get = lambda: self.obj
        for p in path:
            if p == '<chosen>':
                if not isinstance(ty, S.Choice):
                    raise NotEnabled()
                ty, m = ty.alt(m[0]).ty, m[1]
                get = lambda g=get: g().chosen
            elif isinstance(p, int):
                if not isinstance(ty, S.SeqOf) or p >= len(m):
                    raise NotEnabled()
                ty, m = ty.ty, m[p]
                get = lambda g=get, p=p: g()[p]
            else:
                if not isinstance(ty, S.Seq) or p not in m:
                    raise NotEnabled()
                ty, m = field(ty, p).ty, m[p]
                get = lambda g=get, p=p: g()[p]
        return ty, get, m

    def do(self, op):
        """one operation on both; raises Violation if they disagree, NotEnabled if it makes no sense here"""
        k = op[0]
        if k == 'copy':
            if not complete(self.ty, self.m):
                raise NotEnabled()
            self.obj = self.obj.copy()
            # the order of a SET OF means nothing: a copy has that of the encoding
            self.m = resort(self.ty, dup(self.m))
            return
        if k in ('reload', 'reloadforce'):
            if not complete(self.ty, self.m):
                raise NotEnabled()
            d = self.obj.dump(force=k == 'reloadforce')
            if k == 'reloadforce':
                self.ber = False
            self.obj = self.ty.cls.load(d)
            self.m = resort(self.ty, dup(self.m))
            return
        if k == 'hold':
            ty, get, m = self.at(op[1])
            if not isinstance(m, (dict, list)):
                raise NotEnabled()
            self.handle = (ty, get(), m)
            return
        ty, get, m = self.at(op[1])
        if k in ('set', 'setobj', 'del'):
            if isinstance(op[2], int) != isinstance(ty, S.SeqOf) or isinstance(ty, S.Seq) and op[2] not in [f.name for f in ty.fields]:
                raise NotEnabled()
        if k == 'append' and isinstance(ty, S.SeqOf) and isinstance(ty.ty, S.Seq) != isinstance(op[2], dict):
            raise NotEnabled()
        if k == 'bad' and op[2] == 'append' and not isinstance(ty, S.SeqOf):
            raise NotEnabled()
        if k == 'set':
            self.set(ty, get, m, op[2], op[3])
        elif k == 'setobj':
            self.set(ty, get, m, op[2], op[3], as_obj=True)
        elif k == 'del':
            self.delete(ty, get, m, op[2])
        elif k == 'append':
            if not isinstance(ty, S.SeqOf):
                raise NotEnabled()
            new = norm(ty.ty, op[2])
            get().append(self.py(ty.ty, op[2]))
            m.append(new)
        elif k == 'bad':
            # (bad, path, function name, args): must raise and change nothing
            o = get()
            kk, e = attempt(BAD[op[2]], ty, o, *op[3:])
            if kk == 'ok':
                raise Violation('%r was accepted' % (op,))
            if not isinstance(e, (ValueError, TypeError, KeyError, IndexError, AttributeError)):
                raise Violation('%r raised %r' % (op, e))
        elif k == 'native':
            self.read_native(ty, get, m)
        elif k == 'dump':
            self.read_dump(ty, get, m, False)
        elif k == 'force':
            self.read_dump(ty, get, m, True)
        elif k == 'fields':
            self.read_fields(ty, get(), m, deep=False)
        elif k == 'eqcopy':
            o = get()
            o.copy()
        else:
            raise AssertionError(op)

    def py(self, ty, v):
        # lists of a choice only take objects
        return ty.cls(ty.py(v)) if isinstance(ty, S.Choice) else ty.py(v)

    def set(self, ty, get, m, key, v, as_obj=False):
        if isinstance(ty, S.Seq):
            f = field(ty, key)
            t = f.ty
            o = get()
            if v is None and f.opt:
                o[key] = None
                if f.opt == 'optional':
                    m.pop(key, None)
                else:
                    m[key] = norm(t, f.opt[1])
                return
            val = t.py(v)
            if as_obj:
                val = t.cls(val)
            o[key] = val
            m[key] = norm(t, v)
        elif isinstance(ty, S.SeqOf):
            if key > len(m) or -key > len(m):
                raise NotEnabled()
            o = get()
            val = self.py(ty.ty, v)
            if as_obj:
                val = ty.ty.cls(val) if not isinstance(ty.ty, S.Choice) else val
            o[key] = val
            if key == len(m):
                m.append(norm(ty.ty, v))
            else:
                m[key] = norm(ty.ty, v)
        else:
            raise NotEnabled()

    def delete(self, ty, get, m, key):
        if isinstance(ty, S.Seq):
            f = field(ty, key)
            if not f.opt:
                raise NotEnabled()
            o = get()
            del o[key]
            if f.opt == 'optional':
                m.pop(key, None)
            else:
                m[key] = norm(f.ty, f.opt[1])
        elif isinstance(ty, S.SeqOf):
            if key >= len(m) or -key > len(m):
                raise NotEnabled()
            o = get()
            del o[key]
            del m[key]
        else:
            raise NotEnabled()

    # -------------------------------------------------------------- observations
    def read_native(self, ty, get, m):
        if not complete(ty, m):
            raise NotEnabled()
        got = get().native
        want = ty.native(m)
        if not S.native_eq(got, want):
            raise Violation('native is %r, the model is %r' % (got, want))

    def read_dump(self, ty, get, m, force):
        o = get()
        if not complete(ty, m):
            kk, e = attempt(o.dump, force=force)
            if kk == 'ok':
                raise Violation('an incomplete value was encoded as %s' % e.hex())
            if not isinstance(e, (ValueError, TypeError)):
                raise Violation('dumping an incomplete value raised %r' % e)
            return
        got = o.dump(force=force)
        if force and ty is self.ty:
            self.ber = False
        if self.ber and not force:
            back = ty.cls.load(got, strict=True) if ty is self.ty else None
            if back is not None and not S.native_eq(back.native, ty.native(m)):
                raise Violation('dump() is %s, which decodes to %r, the model is %r' % (got.hex(), back.native, ty.native(m)))
            return
        want = der(ty, m)
        if ty is not self.ty:
            # a child carries the tags of its field: compare the value it decodes to
            got = S.ref.parse_one(got)[0][4] if not isinstance(ty, S.Choice) else None
            want = S.ref.parse_one(want)[0][4]
            if o.explicit is not None or got is None:
                return
        if got != want:
            raise Violation('dump(force=%s) is %s, the DER encoding of the model is %s' % (force, got.hex(), want.hex()))

    def read_fields(self, ty, o, m, deep=True):
        if isinstance(ty, S.Seq):
            if len(o) != len(ty.fields):
                raise Violation('len() is %d' % len(o))
            if list(o) != [f.name for f in ty.fields]:
                raise Violation('iteration gives %r' % list(o))
            for i, f in enumerate(ty.fields):
                c = o[f.name]
                if c is not o[i]:
                    raise Violation('field %s differs by name and by index' % f.name)
                if f.name not in m:
                    if f.opt == 'optional' and (c.native is not None or c.dump() != b'' or not isinstance(c, core.Void)):
                        raise Violation('absent field %s is %r' % (f.name, c))
                    continue
                if deep:
                    self.read_fields(f.ty, c, m[f.name])
        elif isinstance(ty, S.SeqOf):
            if len(o) != len(m):
                raise Violation('len() is %d instead of %d' % (len(o), len(m)))
            kids = list(o)
            if len(kids) != len(m):
                raise Violation('iteration gives %d elements' % len(kids))
            for i, c in enumerate(kids):
                if o[i] is not c:
                    raise Violation('element %d differs by index and by iteration' % i)
                if deep and not isinstance(ty, S.SetOfT):
                    self.read_fields(ty.ty, c, m[i])
        elif isinstance(ty, S.Choice):
            if o.name != m[0]:
                raise Violation('chosen alternative is %r instead of %r' % (o.name, m[0]))
            if deep:
                self.read_fields(ty.alt(m[0]).ty, o.chosen, m[1])
        else:
            if not S.native_eq(o.native, ty.native(m)):
                raise Violation('value reads as %r instead of %r' % (o.native, ty.native(m)))

    def observe(self, which):
        g = lambda: self.obj
        ok = complete(self.ty, self.m)
        if which == 0:
            if ok:
                self.read_native(self.ty, g, self.m)
            self.read_fields(self.ty, self.obj, self.m)
            self.read_dump(self.ty, g, self.m, False)
        elif which == 1:
            self.read_dump(self.ty, g, self.m, False)
            if ok:
                self.read_native(self.ty, g, self.m)
            self.read_fields(self.ty, self.obj, self.m)
        else:
            self.read_fields(self.ty, self.obj, self.m)
            self.read_dump(self.ty, g, self.m, True)
            if ok:
                self.read_native(self.ty, g, self.m)
                self.read_dump(self.ty, g, self.m, False)
        if self.handle is not None:
            ty, o, m = self.handle
            self.read_fields(ty, o, m)
            if complete(ty, m):
                self.read_native(ty, lambda: o, m)


BAD = {
    'setitem': lambda ty, o, key, v: o.__setitem__(key, v),
    'delitem': lambda ty, o, key: o.__delitem__(key),
    'getitem': lambda ty, o, key: o[key],
    'append': lambda ty, o, v: o.append(v),
    'appendobj': lambda ty, o, cls, v: o.append(getattr(core, cls)(v)),
    'setobj': lambda ty, o, key, cls, v: o.__setitem__(key, getattr(core, cls)(v)),
    'contains': lambda ty, o, cls, v: getattr(core, cls)(v) in o,
}


def build(make, ops, hist):
    s = make()
    for i in hist:
        s.do(ops[i])
    return s


def search(make, ops, depth, rec, observers=3, first=None):
    """breadth-first over histories; every reached state is observed in `observers` ways on fresh replays"""
    seen = set()
    frontier = [()]
    seen.add(build(make, ops, ()).key())
    if first is None:
        frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            menu = range(len(ops)) if first is None or d else [first]
            for i in menu:
                hist = h + (i,)
                try:
                    s = build(make, ops, hist)
                except NotEnabled:
                    continue
                except Violation as e:
                    raise Violation('%s\nafter the history %s' % (e, [ops[x] for x in hist]))
                except Exception as e:
                    raise Violation('%s: %s\nafter the history %s' % (type(e).__name__, e, [ops[x] for x in hist]))
                rec.op()
                k = hash(s.key())
                if k in seen:
                    continue
                seen.add(k)
                rec.states.add(k)
                rec.outcome(ops[i][0])
                for w in range(observers):
                    t = s if w == 0 else build(make, ops, hist)
                    try:
                        t.observe(w)
                    except Violation as e:
                        raise Violation('%s\nobserver %d after the history %s' % (e, w, [ops[x] for x in hist]))
                    except Exception as e:
                        raise Violation('%s: %s\nobserver %d after the history %s' % (type(e).__name__, e, w, [ops[x] for x in hist]))
                nxt.append(hist)
        frontier = nxt
    return len(seen)
