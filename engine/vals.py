"""Abstract values.  All values are interned, so equality is identity."""
from terms import *
import terms as TT


class Val(object):
    __slots__ = ("f", "h", "fv_")
    table = {}

    def __new__(cls, *f):
        k = (cls.__name__,) + f
        o = Val.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.f = f
            o.h = hash(k)
            o.fv_ = None
            Val.table[k] = o
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def children(self):
        return self.f

    def map(self, g):
        nf = tuple(_mapv(g, x) for x in self.f)
        if nf == self.f:
            return self
        return type(self)(*nf)

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.f)


def _mapv(g, x):
    if isinstance(x, tuple):
        return tuple(_mapv(g, y) for y in x)
    if isinstance(x, (str, int, Fraction, bool)) or x is None:
        return x
    if isinstance(x, Atom):
        r = g(pof(x))
        return r
    return g(x)


class Agg(Val):
    """tag, fields"""
    __slots__ = ()
    tag = property(lambda s: s.f[0])
    fields = property(lambda s: s.f[1])

    def with_(self, i, v):
        fs = list(self.fields)
        fs[i] = v
        return Agg(self.tag, tuple(fs))


class EnumV(Val):
    """name, cases: tuple of (cond, variant, payload tuple); the conds partition"""
    __slots__ = ()
    name = property(lambda s: s.f[0])
    cases = property(lambda s: s.f[1])

    def cond(self, v):
        return cor(*[c for c, k, _ in self.cases if k == v])


class Ref(Val):
    """root, path"""
    __slots__ = ()
    root = property(lambda s: s.f[0])
    path = property(lambda s: s.f[1])


class View(Val):
    """root, path, dims, map(Lam: vars -> Agg('ix', polys)), layout ('C','F',other)"""
    __slots__ = ()
    root = property(lambda s: s.f[0])
    path = property(lambda s: s.f[1])
    dims = property(lambda s: s.f[2])
    ix = property(lambda s: s.f[3])
    layout = property(lambda s: s.f[4])


class Arr(Val):
    """dims, lam, layout, elem type descriptor"""
    __slots__ = ()
    dims = property(lambda s: s.f[0])
    lam = property(lambda s: s.f[1])
    layout = property(lambda s: s.f[2])
    et = property(lambda s: s.f[3])

    def with_lam(self, lam):
        return Arr(self.dims, lam, self.layout, self.et)


class It(Val):
    """desc, pos, end   (remaining items: get(pos) .. get(end-1))"""
    __slots__ = ()
    desc = property(lambda s: s.f[0])
    pos = property(lambda s: s.f[1])
    end = property(lambda s: s.f[2])


class D(Val):
    """iterator descriptor: kind, args..."""
    __slots__ = ()
    kind = property(lambda s: s.f[0])


class Clo(Val):
    """closure: body id, captured fields"""
    __slots__ = ()
    fields = property(lambda s: s.f[1])


class FnV(Val):
    """function item: name, body id, trait path"""
    __slots__ = ()


class Obj(Val):
    """opaque object: name, args..."""
    __slots__ = ()
    name = property(lambda s: s.f[0])
    args = property(lambda s: s.f[1:])


class IteV(Val):
    """cond, a, b"""
    __slots__ = ()


class UndefT(Val):
    __slots__ = ()


UNDEF = UndefT()
UNIT = Agg("tuple", ())


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return bite(c, a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag != "HMap" and len(a.fields) == len(b.fields):
        return Agg(a.tag, tuple(vite(c, x, y) for x, y in zip(a.fields, b.fields)))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == "HMap" == b.tag:
        # association lists, later entries win: those of both, then of either
        k = 0
        while k < min(len(a.fields), len(b.fields)) and a.fields[k] is b.fields[k]:
            k += 1
        out = list(a.fields[:k])
        for lit, m in ((c, a), (cnot(c), b)):
            for e in m.fields[k:]:
                cc = cand(lit, e.fields[0])
                if cc is not FALSE:
                    out.append(Agg("ent", (cc,) + e.fields[1:]))
        return Agg("HMap", tuple(out))
    if isinstance(a, Clo) and isinstance(b, Clo) and a.f[0] == b.f[0]:
        return Clo(a.f[0], tuple(vite(c, x, y) for x, y in zip(a.fields, b.fields)))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
        vs = tuple(freshv() for _ in a.dims)
        ps = [pof(v) for v in vs]
        return Arr(tuple(ite(c, x, y) for x, y in zip(a.dims, b.dims)),
                   Lam(vs, vite(c, a.lam(*ps), b.lam(*ps))),
                   a.layout if a.layout == b.layout else "?", a.et)
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        out = {}
        order = []
        for s, e in ((c, a), (cnot(c), b)):
            for cc, v, p in e.cases:
                cd = cand(s, cc)
                if cd is FALSE:
                    continue
                if v in out:
                    oc, op = out[v]
                    out[v] = (cor(oc, cd), tuple(vite(oc, x, y) for x, y in zip(op, p)))
                else:
                    out[v] = (cd, p)
                    order.append(v)
        return EnumV(a.name, tuple((out[v][0], v, out[v][1]) for v in order))
    if isinstance(a, It) and isinstance(b, It) and a.desc is b.desc:
        return It(a.desc, ite(c, a.pos, b.pos), ite(c, a.end, b.end))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and len(a.path) == len(b.path):
        p = _mergepath(c, a.path, b.path)
        if p is not None:
            return Ref(a.root, p)
    if isinstance(a, View) and isinstance(b, View) and a.root == b.root and len(a.dims) == len(b.dims) and a.path == b.path:
        vs = tuple(freshv() for _ in a.dims)
        ps = [pof(v) for v in vs]
        return View(a.root, a.path, tuple(ite(c, x, y) for x, y in zip(a.dims, b.dims)),
                    Lam(vs, vite(c, a.ix(*ps), b.ix(*ps))), a.layout if a.layout == b.layout else "?")
    return IteV(c, a, b)


def _mergepath(c, p, q):
    out = []
    for x, y in zip(p, q):
        if x == y:
            out.append(x)
        elif x[0] == "e" and y[0] == "e" and len(x[1]) == len(y[1]):
            out.append(("e", tuple(ite(c, a, b) for a, b in zip(x[1], y[1]))))
        else:
            return None
    return tuple(out)


_fv = [0]


def freshv():
    _fv[0] += 1
    return Atom("sym", ("u:$%d" % _fv[0],), "int")


def identity_view(root, path, arr):
    vs = tuple(freshv() for _ in arr.dims)
    return View(root, path, arr.dims, Lam(vs, Agg("ix", tuple(pof(v) for v in vs))), arr.layout)
