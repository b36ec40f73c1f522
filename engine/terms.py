"""Value-flow terms: canonical polynomials over atoms, index conditions, and an
integer linear entailment procedure (Fourier-Motzkin with case splits on
disjunctions, parities and conditional values).

Numbers (integer indices and field elements alike) are multivariate
polynomials with rational coefficients over *atoms*.  An atom is an opaque
scalar: a symbol, an array element, an uninterpreted application, a
conditional value, a remainder, a reciprocal, a power, a finite sum.
"""
from fractions import Fraction
from functools import lru_cache
import math
import sys
sys.setrecursionlimit(20000)

_ids = {}
_objs = []


class Undecided(Exception):
    pass


class Node(object):
    __slots__ = ()


# ------------------------------------------------------------------ atoms
class Atom(Node):
    __slots__ = ("kind", "args", "h", "sort", "key", "fv_")
    table = {}

    def __new__(cls, kind, args, sort):
        k = (kind, args, sort)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.sort = kind, args, sort
            a.h = hash(k)
            a.key = len(cls.table)
            a.fv_ = None
            cls.table[k] = a
        return a

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return show_atom(self)


# ------------------------------------------------------------------ polynomials
class Poly(Node):
    """m: tuple of (monomial, coef) sorted; monomial: tuple of (Atom, exp)."""
    __slots__ = ("m", "h", "fv_")
    table = {}

    def __new__(cls, m):
        p = cls.table.get(m)
        if p is None:
            p = object.__new__(cls)
            p.m = m
            p.h = hash(m)
            p.fv_ = None
            cls.table[m] = p
        return p

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    # --- queries
    def const(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def is_int_const(self):
        c = self.const()
        return c is not None and c.denominator == 1

    def atoms(self):
        s = set()
        for mono, _ in self.m:
            for a, _e in mono:
                s.add(a)
        return s

    def single_atom(self):
        if len(self.m) == 1:
            mono, c = self.m[0]
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return None

    def __add__(self, o):
        return padd(self, lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(lift(o), -1))

    def __rsub__(self, o):
        return padd(lift(o), pscale(self, -1))

    def __mul__(self, o):
        return pmul(self, lift(o))
    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -1)


def mono_key(m):
    return tuple((a.key, e) for a, e in m)


def mk(d):
    items = [(k, v) for k, v in d.items() if v != 0]
    items.sort(key=lambda kv: mono_key(kv[0]))
    return Poly(tuple(items))


def addto(d, p):
    """accumulate a polynomial in a dictionary"""
    for m, v in p.m:
        d[m] = d.get(m, 0) + v


def const(c):
    c = Fraction(c)
    return Poly((((), c),)) if c != 0 else Poly(())


ZERO = const(0)
ONE = const(1)
TWO = const(2)


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, Atom):
        return Poly(((((x, 1),), Fraction(1)),))
    raise TypeError("lift %r" % (x,))


def pof(atom):
    return Poly(((((atom, 1),), Fraction(1)),))


def pscale(p, c):
    if c == 0:
        return ZERO
    return Poly(tuple((m, v * c) for m, v in p.m))


@lru_cache(maxsize=400000)
def padd(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    d = dict(a.m)
    for m, v in b.m:
        d[m] = d.get(m, 0) + v
    return mk(d)


def mono_mul(x, y):
    """returns (coef, mono)"""
    if not x:
        return 1, y
    if not y:
        return 1, x
    d = {}
    for a, e in x:
        d[a] = e
    for a, e in y:
        d[a] = d.get(a, 0) + e
    coef = 1
    if IATOM in d:
        e = d[IATOM] % 4
        del d[IATOM]
        if e == 2:
            coef = -1
        elif e == 1:
            d[IATOM] = 1
        elif e == 3:
            d[IATOM] = 1
            coef = -1
    return coef, tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda t: t[0].key))


@lru_cache(maxsize=400000)
def pmul(a, b):
    if not a.m or not b.m:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    d = {}
    for m1, v1 in a.m:
        for m2, v2 in b.m:
            c, m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c * v1 * v2
    if len(d) > 4000:
        raise Undecided("polynomial too large")
    return mk(d)


IATOM = Atom("I", (), "num")
I = pof(IATOM)


def ppow(p, e):
    r = ONE
    for _ in range(e):
        r = pmul(r, p)
    return r


def sym(name, sort="int"):
    return pof(Atom("sym", (name,), sort))


_fresh = [0]


def fresh(name, sort="int"):
    _fresh[0] += 1
    return sym("%s~%d" % (name, _fresh[0]), sort)


def app(name, *args, sort="num"):
    return pof(Atom("app", (name,) + tuple(args), sort))


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return app("inv0")
        return const(1 / c)
    if len(p.m) == 1:
        mono, v = p.m[0]
        # 1/I = -I
        coef = Fraction(1) / v
        d = []
        for a, e in mono:
            if a is IATOM:
                coef = -coef
                d.append((a, 1))
            else:
                d.append((a, -e))
        return Poly(((tuple(d), coef),))
    if has_i(p):
        a, b = reim(p)
        return pmul(a - I * b, inv(a * a + b * b))
    x = p.single_atom()
    lead = p.m[-1][1]
    q = pscale(p, 1 / lead)
    return pscale(pof(Atom("inv", (q,), "num")), 1 / lead)


def div(a, b):
    c = b.const()
    if c is not None and c != 0:
        return pscale(a, 1 / c)
    return pmul(a, inv(b))


# ------------------------------------------------------------------ conditions
class Cond(Node):
    __slots__ = ("kind", "args", "h", "fv_")
    table = {}

    def __new__(cls, kind, args):
        k = (kind, args)
        c = cls.table.get(k)
        if c is None:
            c = object.__new__(cls)
            c.kind, c.args = kind, args
            c.h = hash(k)
            c.fv_ = None
            cls.table[k] = c
        return c

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_cond(self)


TRUE = Cond("true", ())
FALSE = Cond("false", ())


def is_int_atom(a):
    return a.sort == "int"


def normint(p):
    """scale an integer-valued polynomial to coprime integer coefficients"""
    from math import gcd
    den = 1
    for _, v in p.m:
        den = den * v.denominator // gcd(den, v.denominator)
    g = 0
    for m, v in p.m:
        if m != ():
            g = gcd(g, int(v * den))
    return den, g


def minmax(x):
    """1 if the integer choice x is the larger, -1 if the smaller of its
    branches"""
    c, a, b = x.args
    if x.sort != "int" or c.kind != "ge0":
        return 0
    d = a - b
    q = c.args[0]
    for s in (1, -1):
        if q is pscale(d, s) or q is pscale(d, s) - 1:
            return s
    return 0


def ge0(p):
    """p >= 0 over integers"""
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    for m, v in p.m:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            k = minmax(m[0][0])
            if k:
                a, b = m[0][0].args[1:]
                r = p - pscale(pof(m[0][0]), v)
                xs = ge0(r + pscale(a, v)), ge0(r + pscale(b, v))
                return cor(*xs) if (k > 0) == (v > 0) else cand(*xs)
    den, g = normint(p)
    d = {}
    for m, v in p.m:
        v = v * den
        if m == ():
            v = Fraction((v / g).__floor__())
        else:
            v = v / g
        d[m] = v
    return Cond("ge0", (mk(d),))


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    den, g = normint(p)
    d = {m: v * den / g for m, v in p.m}
    q = mk(d)
    if any(v.denominator != 1 for _, v in q.m):
        if all(is_int_atom(a) for a in q.atoms()):
            return FALSE
    lead = q.m[-1][1]
    if lead < 0:
        q = pscale(q, -1)
    return Cond("eq0", (q,))


def lt(a, b):
    return ge0(b - a - 1)


def le(a, b):
    return ge0(b - a)


def eq(a, b):
    return eq0(a - b)


def batom(*args):
    return Cond("atom", tuple(args))


def cnot(c):
    k = c.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "not":
        return c.args[0]
    if k == "ge0":
        return ge0(pscale(c.args[0], -1) - 1)
    if k == "and":
        return cor(*[cnot(x) for x in c.args])
    if k == "or":
        return cand(*[cnot(x) for x in c.args])
    return Cond("not", (c,))


def _flat(kind, xs, unit, zero):
    out = []
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return None
        if x.kind == kind:
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if cnot_shallow(x) in out:
            return None
    return out


def cnot_shallow(c):
    if c.kind == "not":
        return c.args[0]
    if c.kind == "ge0":
        return cnot(c)
    if c.kind in ("eq0", "atom"):
        return Cond("not", (c,))
    return None


_spc = {}


def split_const(p):
    """non-constant part and constant of p"""
    r = _spc.get(p)
    if r is None:
        c = next((v for m, v in p.m if m == ()), Fraction(0))
        r = _spc[p] = (p - const(c), c)
    return r


def cand(*xs):
    o = _flat("and", xs, TRUE, FALSE)
    if o is None:
        return FALSE
    if len(o) > 1:
        b = {}
        for x in o:
            if x.kind == "ge0":
                k, v = split_const(x.args[0])
                if k not in b or b[k] > v:
                    b[k] = v
        if b:
            n = []
            for x in o:
                if x.kind == "ge0":
                    k, v = split_const(x.args[0])
                    if b[k] < v:
                        continue
                    w = b.get(pscale(k, -1))
                    if w is not None and w + v < 0:
                        return FALSE
                elif x.kind == "or":
                    ys = []
                    for y in x.args:
                        if y.kind == "ge0":
                            k, v = split_const(y.args[0])
                            w = b.get(k)
                            if w is not None and w <= v:
                                ys = None
                                break
                            w = b.get(pscale(k, -1))
                            if w is not None and w + v < 0:
                                continue
                        ys.append(y)
                    if ys is None:
                        continue
                    if len(ys) < len(x.args):
                        r = cor(*ys)
                        return cand(*[r if z is x else z for z in o])
                n.append(x)
            o = n
    if not o:
        return TRUE
    if len(o) == 1:
        return o[0]
    return Cond("and", tuple(sorted(o, key=lambda c: c.h)))


def cor(*xs):
    o = _flat("or", xs, FALSE, TRUE)
    if o is None:
        return TRUE
    if not o:
        return FALSE
    if len(o) == 1:
        return o[0]
    return Cond("or", tuple(sorted(o, key=lambda c: c.h)))


def conjuncts(c):
    if c.kind == "and":
        return list(c.args)
    if c is TRUE:
        return []
    return [c]


# ------------------------------------------------------------------ lambdas
_lamc = {}


class Lam(Node):
    """array content: vars (tuple of Atom) -> body (Poly | Cond | Val)"""
    __slots__ = ("n", "body", "h", "fv_")
    table = {}

    def __new__(cls, vars_, body):
        # canonical bound names, by nesting depth of the body
        d = lam_depth(body)
        cv = tuple(Atom("bv", (d, i), "int") for i in range(len(vars_)))
        if tuple(vars_) != cv:
            body = subst(body, dict(zip(vars_, [pof(v) for v in cv])))
        k = (len(vars_), d, body)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.n = cv
            o.body = body
            o.h = hash(k)
            o.fv_ = None
            cls.table[k] = o
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __call__(self, *idx):
        assert len(idx) == len(self.n), (len(idx), len(self.n), self)
        k = (self, idx)
        r = _lamc.get(k)
        if r is None:
            r = subst(self.body, {v: lift(i) for v, i in zip(self.n, idx)})
            _lamc[k] = r
        return r

    def __repr__(self):
        return "(\\%s. %s)" % (",".join(map(repr, self.n)), self.body)


_opened = {}


def open_lam(x):
    """(fresh variables, body) of a lambda; the body has no free bound names"""
    r = _opened.get(x)
    if r is None:
        k = len(_opened)
        vs = tuple(Atom("sym", ("u:$o%d_%d" % (k, i),), "int") for i in range(len(x.n)))
        r = (vs, subst(x.body, dict(zip(x.n, [pof(v) for v in vs]))))
        _opened[x] = r
    return r


def lam_depth(x):
    """1 + max depth of bound variables bound or occurring inside"""
    return _ld(x)


_ldc = {}


def _ld(x):
    if not isinstance(x, (Poly, Cond, Atom, Lam)):
        if isinstance(x, tuple):
            return max([_ld(y) for y in x] + [0])
        if hasattr(x, "children"):
            return max([_ld(y) for y in x.children()] + [0])
        return 0
    r = _ldc.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = max([_ld(a) for m, _ in x.m for a, _e in m] + [0])
    elif isinstance(x, Atom):
        r = max([_ld(a) for a in x.args] + [0])
    elif isinstance(x, Cond):
        r = max([_ld(a) for a in x.args] + [0])
    else:
        r = 1 + _ld(x.body)
    _ldc[x] = r
    return r


# ------------------------------------------------------------------ free vars
_EMPTY = frozenset()


def fv(x):
    """set of sym/bv atoms occurring (bound variables of inner Lams included
    only if free)"""
    if isinstance(x, (Poly, Cond, Atom, Lam)):
        if x.fv_ is not None:
            return x.fv_
        if isinstance(x, Poly):
            r = _EMPTY
            for m, _ in x.m:
                for a, _e in m:
                    r = r | fv(a)
        elif isinstance(x, Atom):
            if x.kind in ("sym", "bv"):
                r = frozenset((x,))
            else:
                r = _EMPTY
                for a in x.args:
                    r = r | fv(a)
        elif isinstance(x, Cond):
            r = _EMPTY
            for a in x.args:
                r = r | fv(a)
        else:
            r = fv(x.body) - frozenset(x.n)
        x.fv_ = r
        return r
    if isinstance(x, tuple):
        r = _EMPTY
        for a in x:
            r = r | fv(a)
        return r
    if hasattr(x, "children"):
        if x.fv_ is not None:
            return x.fv_
        r = _EMPTY
        for a in x.children():
            r = r | fv(a)
        x.fv_ = r
        return r
    return _EMPTY


def app_names(x, acc=None):
    """all (function-symbol) names occurring in x"""
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if hasattr(x, "children"):
            for y in x.children():
                go(y)
            return
        if not isinstance(x, (Poly, Cond, Atom, Lam)) or x in seen:
            return
        seen.add(x)
        if isinstance(x, Poly):
            for m, _ in x.m:
                for a, _e in m:
                    go(a)
        elif isinstance(x, Atom):
            if x.kind in ("app", "rd"):
                acc.add(x.args[0])
            for a in x.args:
                go(a)
        elif isinstance(x, Cond):
            for a in x.args:
                go(a)
        else:
            go(x.body)
    go(x)
    return acc


# ------------------------------------------------------------------ substitution
def subst(x, s):
    if not s:
        return x
    keys = frozenset(s)
    memo = {}

    def go(x):
        if isinstance(x, str) or isinstance(x, (int, Fraction)) or x is None:
            return x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Poly, Cond, Atom, Lam)):
            if hasattr(x, "map"):
                if not (fv(x) & keys):
                    return x
                return x.map(go)
            return x
        if not (fv(x) & keys):
            return pof(x) if isinstance(x, Atom) else x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            acc = {}
            for m, v in x.m:
                t = const(v)
                for a, e in m:
                    na = go(a)
                    if e >= 0:
                        t = pmul(t, ppow(na, e))
                    else:
                        t = pmul(t, ppow(inv(na), -e))
                addto(acc, t)
            r = mk(acc)
        elif isinstance(x, Atom):
            if x.kind in ("sym", "bv"):
                r = s.get(x)
                r = pof(x) if r is None else r
            else:
                r = rebuild_atom(x, tuple(go(a) for a in x.args))
        elif isinstance(x, Cond):
            r = rebuild_cond(x.kind, tuple(go(a) for a in x.args))
        else:
            # capture avoidance: bound variables are canonical by depth; rename
            fresh_v, b = open_lam(x)
            if any(fv(v) & frozenset(fresh_v) for v in s.values()):
                f2 = tuple(Atom("sym", ("u:$q%d_%d" % (len(Atom.table), i),), "int") for i in range(len(x.n)))
                b = subst(b, dict(zip(fresh_v, [pof(v) for v in f2])))
                fresh_v = f2
            r = Lam(fresh_v, subst(b, s))
        memo[x] = r
        return r
    return go(x)


def rebuild_cond(k, args):
    if k == "ge0":
        return ge0(args[0])
    if k == "eq0":
        return eq0(args[0])
    if k == "not":
        return cnot(args[0])
    if k == "and":
        return cand(*args)
    if k == "or":
        return cor(*args)
    return Cond(k, args)


def rebuild_atom(x, args):
    k = x.kind
    if k == "ite":
        return ite(args[0], args[1], args[2])
    if k == "mod":
        return mod(args[0], args[1])
    if k == "inv":
        return inv(args[0])
    if k == "sum":
        return mksum(*args)
    if k == "pow":
        return power(args[0], args[1])
    if k == "app":
        f = APPSIMP.get(args[0])
        if f is not None:
            r = f(x.sort, *args[1:])
            if r is not None:
                return r
    return pof(Atom(k, args, x.sort))


APPSIMP = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.kind == "not":
        return ite(c.args[0], b, a)
    if has_i(a) or has_i(b):
        ra, ia = reim(a)
        rb, ib = reim(b)
        return ite(c, ra, rb) + I * ite(c, ia, ib)
    x = a.single_atom()
    if x is not None and x.kind == "ite" and x.args[0] is c:
        return ite(c, x.args[1], b)
    x = b.single_atom()
    if x is not None and x.kind == "ite" and x.args[0] is c:
        return ite(c, a, x.args[2])
    sort = "int" if _isint(a) and _isint(b) else "num"
    return pof(Atom("ite", (c, a, b), sort))


def has_i(p):
    for m, _ in p.m:
        for a, _e in m:
            if a is IATOM:
                return True
    return False


def reim(p):
    r, i = {}, {}
    for m, v in p.m:
        if any(a is IATOM for a, _ in m):
            i[tuple((a, e) for a, e in m if a is not IATOM)] = v
        else:
            for a, _ in m:
                if a.kind == "pow" and has_i(a.args[0]):
                    raise Undecided("real part of a complex power")
            r[m] = v
    return mk(r), mk(i)


def _isint(p):
    return all(x.sort == "int" for x in p.atoms())


def bite(c, a, b):
    """conditional condition"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return cor(cand(c, a), cand(cnot(c), b))


def mod(p, b):
    """p mod b for a positive constant b (floor semantics)"""
    if isinstance(b, Poly):
        bc = b.const()
        if bc is None:
            return pof(Atom("mod", (p, b), "int"))
        b = int(bc)
    if b == 1:
        return ZERO
    # an exact multiple plus remainder terms
    d = {}
    ok = True
    for m, v in p.m:
        if v.denominator != 1:
            ok = False
            break
        r = v % b
        if r:
            d[m] = r
    if not ok:
        return pof(Atom("mod", (p, const(b)), "int"))
    q = mk(d)
    c = q.const()
    if c is not None:
        return const(c % b)
    c0 = d.get((), Fraction(0))
    if b == 2 and c0 == 1:
        del d[()]
        return ONE - mod(mk(d), 2)
    if b == 2:
        # squares: x^e has the parity of x ; mod of a mod
        dd = {}
        ch = False
        for m, v in d.items():
            if any(e > 1 for _, e in m):
                m = tuple((a, 1) for a, _ in m)
                ch = True
            dd[m] = dd.get(m, 0) + v
        if ch:
            return mod(mk(dd), 2)
        a = q.single_atom()
        if a is not None and a.kind == "mod" and a.args[1].const() == 2:
            return q
        # expand inner parity atoms linearly: x + mod(y,2) == x + y (mod 2)
        for m, v in q.m:
            if len(m) == 1 and m[0][0].kind == "mod" and m[0][0].args[1].const() == 2:
                return mod(q - pof(m[0][0]) + m[0][0].args[0], 2)
    return pof(Atom("mod", (q, const(b)), "int"))


def fdiv(p, b):
    if isinstance(b, Poly):
        c = b.const()
        if c is None:
            # floor(p/b) with symbolic divisor
            return pof(Atom("app", ("fdiv", p, b), "int"))
        b = int(c)
    return pscale(p - mod(p, b), Fraction(1, b))


def power(p, e):
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) <= 64:
        c = int(c)
        return ppow(p, c) if c >= 0 else inv(ppow(p, -c))
    if p is ONE:
        return ONE
    if p is ZERO and entails([], ge0(e)):
        return ite(eq0(e), ONE, ZERO)
    if len(p.m) == 1:
        # a single monomial: distribute over its conditional factor
        mono, v = p.m[0]
        for a, x in mono:
            if a.kind == "ite" and x == 1:
                rest = Poly(((tuple(z for z in mono if z[0] is not a), v),))
                c, l, r = a.args
                pl, pr = power(rest * l, e), power(rest * r, e)
                if pl is pr:
                    return pl
                return pof(Atom("ite", (c, pl, pr), "num"))
    return pof(Atom("pow", (p, e), "num"))


def mksum(lo, hi, lam):
    """sum_{lo <= t < hi} lam(t)"""
    if lam.body is ZERO:
        return ZERO
    if has_i(lam.body):
        a, b = reim(lam.body)
        return mksum(lo, hi, Lam(lam.n, a)) + I * mksum(lo, hi, Lam(lam.n, b))
    d = (hi - lo).const()
    if d is not None:
        if d <= 0:
            return ZERO
        if d <= 8:
            r = ZERO
            for k in range(int(d)):
                r = r + lam(lo + k)
            return r
    v = frozenset(lam.n)
    if not (fv(lam.body) & v):
        return (hi - lo) * lam.body      # callers guarantee lo <= hi
    return pof(Atom("sum", (lo, hi, lam), "int" if _isint(lam.body) else "num"))


# ------------------------------------------------------------------ show
def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.m:
        return "0"
    out = []
    for m, v in p.m:
        s = "*".join(("%s" % show_atom(a)) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(v)
        elif v == -1:
            s = "-" + s
        elif v != 1:
            s = "%s*%s" % (v, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


_budget = [400]


def show_atom(a):
    """printing is bounded: terms are DAGs and may unfold exponentially"""
    top = _budget[0] == 400
    if _budget[0] <= 0:
        return "…"
    _budget[0] -= 1
    try:
        return _show_atom(a)
    finally:
        if top:
            _budget[0] = 400


def _show_atom(a):
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "bv":
        return "#%d.%d" % a.args
    if a.kind == "I":
        return "I"
    if a.kind == "app":
        return "%s(%s)" % (a.args[0], ", ".join(map(repr, a.args[1:])))
    if a.kind == "rd":
        return "%s[%s]" % (a.args[0], ", ".join(map(repr, a.args[1:])))
    if a.kind == "ite":
        return "{%r ? %r : %r}" % a.args
    return "%s(%s)" % (a.kind, ", ".join(map(repr, a.args)))


def show_cond(c):
    if c.kind == "ge0":
        return "%s>=0" % show(c.args[0])
    if c.kind == "eq0":
        return "%s==0" % show(c.args[0])
    if c.kind == "not":
        return "!(%r)" % c.args[0]
    if c.kind in ("and", "or"):
        return "(" + (" & " if c.kind == "and" else " | ").join(map(repr, c.args)) + ")"
    if c.kind == "atom":
        return "?%s" % (c.args,)
    return c.kind


# ------------------------------------------------------------------ feasibility
class Lin:
    """dict-based linear constraint: coefs {mono: int}, const int, meaning >= 0"""


def _lin_from(p):
    from math import gcd
    den, g = normint(p)
    co = {}
    k = 0
    for m, v in p.m:
        v = v * den
        if m == ():
            k = v
        else:
            co[m] = int(v / g) if g else 0
    k = (Fraction(k) / (g or 1))
    return co, k.__floor__()


def _tight(co, k):
    from math import gcd
    g = 0
    for v in co.values():
        g = gcd(g, abs(v))
    if g > 1:
        co = {m: v // g for m, v in co.items()}
        k = k // g
    return co, k


MAXC = 400


def _fm(ineqs, eqs):
    """integer-tightened Fourier-Motzkin; returns True if possibly feasible"""
    from math import gcd
    eqs = [(dict(c), k) for c, k in eqs]
    ineqs = [(dict(c), k) for c, k in ineqs]
    # gaussian elimination of equalities
    while eqs:
        co, k = eqs.pop()
        co = {m: v for m, v in co.items() if v}
        if not co:
            if k != 0:
                return False
            continue
        g = 0
        for v in co.values():
            g = gcd(g, abs(v))
        if k % g:
            return False
        co = {m: v // g for m, v in co.items()}
        k //= g
        # pick variable with smallest |coef|
        x = min(co, key=lambda m: (abs(co[m]), len(m)))
        a = co[x]

        def elim(c, kk):
            b = c.get(x, 0)
            if not b:
                return c, kk
            # multiply c by |a| (positive), subtract
            f = abs(a)
            s = b * (1 if a > 0 else -1)
            n = {}
            for m, v in c.items():
                n[m] = v * f
            for m, v in co.items():
                n[m] = n.get(m, 0) - s * v
            n = {m: v for m, v in n.items() if v}
            return n, kk * f - s * k
        if abs(a) != 1:
            # keep divisibility information when the rest has a common factor
            pass
        eqs = [elim(c, kk) for c, kk in eqs]
        ineqs = [elim(c, kk) for c, kk in ineqs]
    cur = {}

    def add(co, k, store):
        co = {m: v for m, v in co.items() if v}
        if not co:
            return k >= 0
        co, k = _tight(co, k)
        key = frozenset(co.items())
        o = store.get(key)
        if o is None or k < o:
            store[key] = k
        # opposite pair contradiction
        neg = frozenset((m, -v) for m, v in key)
        o = store.get(neg)
        if o is not None and o + store[key] < 0:
            return False
        return True
    for c, k in ineqs:
        if not add(c, k, cur):
            return False
    while cur:
        cnt = {}
        for key in cur:
            for m, v in key:
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + (v > 0), n + (v < 0))
        if not cnt:
            break
        x = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        pos, neg, rest = [], [], {}
        for key, k in cur.items():
            d = dict(key)
            v = d.get(x, 0)
            if v > 0:
                pos.append((d, k, v))
            elif v < 0:
                neg.append((d, k, -v))
            else:
                rest[key] = k
        if len(pos) * len(neg) + len(rest) > MAXC:
            return True
        for d1, k1, v1 in pos:
            for d2, k2, v2 in neg:
                n = {}
                for m, v in d1.items():
                    if m != x:
                        n[m] = v * v2
                for m, v in d2.items():
                    if m != x:
                        n[m] = n.get(m, 0) + v * v1
                if not add(n, k1 * v2 + k2 * v1, rest):
                    return False
        cur = rest
    return True


def _expand(p, env):
    """find ite / mod / mul structure atoms in an integer polynomial"""
    return [a for a in p.atoms() if a.kind in ("ite", "mod")]


_feas_cache = {}
_qn = [0]


def feasible(facts):
    """False only if the conjunction of facts is unsatisfiable"""
    facts = frozenset(facts)
    r = _feas_cache.get(facts)
    if r is None:
        r = _feasible(facts)
        _feas_cache[facts] = r
    return r


def _feasible(facts, depth=0):
    """conjunction of facts possibly satisfiable? (facts: iterable of Cond)"""
    lits, ors, todo = [], [], list(facts)
    pos_atoms, neg_atoms = set(), set()
    seenc = set()
    while todo:
        c = todo.pop()
        if c in seenc:
            continue
        seenc.add(c)
        k = c.kind
        if k == "false":
            return False
        if k == "true":
            continue
        if k == "and":
            todo.extend(c.args)
        elif k == "or":
            ors.append(c)
        elif k in ("ge0", "eq0"):
            lits.append(c)
        elif k == "not":
            if c.args[0].kind == "eq0":
                neg_atoms.add(c.args[0])
            else:
                neg_atoms.add(c.args[0])
        else:
            pos_atoms.add(c)
    if pos_atoms & neg_atoms:
        return False
    for c in lits:
        if c in neg_atoms:
            return False
    # unit propagation inside disjunctions
    known = set(lits) | pos_atoms
    nors = []
    for o in ors:
        keep = []
        sat = False
        for x in o.args:
            if x in known or (x.kind == "not" and x.args[0] in neg_atoms):
                sat = True
                break
            if x in neg_atoms or (x.kind == "not" and x.args[0] in known):
                continue
            keep.append(x)
        if sat:
            continue
        if not keep:
            return False
        if len(keep) < len(o.args):
            rest = [c for c in ors if c is not o]
            return _feasible(lits + rest + list(pos_atoms) + [Cond("not", (x,)) for x in neg_atoms] + [cor(*keep)], depth)
        nors.append(o)
    ors = nors
    base = lits + list(pos_atoms) + [Cond("not", (x,)) for x in neg_atoms]
    # unfold structured atoms
    extra, seen, splits, derived_or = [], set(), [], []
    work = [c.args[0] for c in lits]
    work += [c.args[0] for c in neg_atoms if c.kind == "eq0" and _isint(c.args[0])]
    while work:
        p = work.pop()
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "mod" and a.args[1].const() is not None:
                b = int(a.args[1].const())
                extra.append(ge0(pof(a)))
                extra.append(ge0(const(b - 1) - pof(a)))
                q = pof(Atom("app", ("quo", a.args[0], a.args[1]), "int"))
                extra.append(eq0raw(a.args[0] - pof(a) - b * q))
                work.append(a.args[0])
                if b <= 4:
                    splits.append([(a, const(r), []) for r in range(b)])
            elif a.kind == "mod":
                extra.append(ge0(pof(a)))
                if not fv(a.args[1]) & fv(a.args[0]):
                    pass
                # the divisor is positive wherever a remainder is taken
                extra.append(ge0(a.args[1] - pof(a) - 1))
            elif a.kind == "ite" and a.sort == "int":
                c, x, y = a.args
                splits.append([(a, x, [c]), (a, y, [cnot(c)])])
            elif a.kind == "app" and a.args[0] == "fdiv":
                q = pof(a)
                pp, b = a.args[1], a.args[2]
                extra.append(ge0(pp - b * q))
                extra.append(ge0(b * q + b - pp - 1))
                extra.append(ge0(q))
                work.append(pp)
                work.append(b)
            elif a.sort == "int" and a.kind in ("sym", "app") and str(a.args[0]).startswith("u:"):
                extra.append(ge0(pof(a)))
            elif a.sort == "int" and a in NONNEG:
                extra.append(ge0(pof(a)))
            if a in RANGE:
                extra.extend(RANGE[a])
        for m, _ in p.m:
            if len(m) > 1 or (m and m[0][1] > 1):
                if m not in seen:
                    seen.add(m)
                    if all(nonneg_atom(a) or e % 2 == 0 for a, e in m):
                        extra.append(Cond("ge0", (Poly(((m, Fraction(1)),)),)))
    eqs, ineqs = [], []
    for c in lits + extra:
        if c is TRUE:
            continue
        if c is FALSE:
            return False
        p = c.args[0]
        if not _isint(p):
            continue
        if c.kind == "ge0":
            ineqs.append(_lin_from(p))
        else:
            den, g = normint(p)
            co, k = {}, 0
            for m, v in p.m:
                if m == ():
                    k = int(v * den)
                else:
                    co[m] = int(v * den)
            eqs.append((co, k))
    # products of linear facts, when non-linear monomials are around
    nl = set(m for co, _ in ineqs + eqs for m in co if len(m) > 1 or m[0][1] > 1)
    if nl and depth <= 2:
        ineqs = ineqs + _products(ineqs, nl)
    if not _fm(ineqs, eqs):
        return False
    if depth > 14:
        return True
    ors.sort(key=lambda c: len(c.args))
    if ors:
        o = ors[0]
        rest = base + ors[1:]
        return any(_feasible(rest + [x], depth + 1) for x in o.args)
    for x in neg_atoms:
        if x.kind == "eq0" and _isint(x.args[0]):
            p = x.args[0]
            rest = [c for c in base if not (c.kind == "not" and c.args[0] is x)]
            return any(_feasible(rest + [y], depth + 1) for y in (ge0(p - 1), ge0(-p - 1)))
    for sp in splits:
        alive = False
        for a, v, cs in sp:
            out = [subst_atoms(c, {a: v}) for c in base + cs]
            if a.kind == "mod":
                q = pof(Atom("app", ("quo", a.args[0], a.args[1]), "int"))
                out.append(eq0raw(a.args[0] - v - a.args[1] * q))
            if _feasible(out, depth + 1):
                alive = True
                break
        return alive
    return True


RANGE = {}
# integer functions of the standard library (64 bit)
INTFN = {
    "and": lambda v, w: v & w,
    "or": lambda v, w: v | w,
    "xor": lambda v, w: v ^ w,
    "npot": lambda v: 1 << max(0, (v - 1).bit_length()),
    "isqrt": lambda v: math.isqrt(v),
    "ilog2": lambda v: v.bit_length() - 1,
    "ilog10": lambda v: len(str(v)) - 1,
    "trailing_zeros": lambda v: (v & -v).bit_length() - 1 if v else 64,
    "leading_zeros": lambda v: 64 - v.bit_length(),
    "count_ones": lambda v: bin(v).count("1"),
    "count_zeros": lambda v: 64 - bin(v).count("1"),
    "trailing_ones": lambda v: (~v & (v + 1)).bit_length() - 1,
    "swap_bytes": lambda v: int.from_bytes(v.to_bytes(8, "little"), "big"),
    "reverse_bits": lambda v: int(format(v, "064b")[::-1], 2),
}


def eq0raw(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return Cond("eq0", (p,))


def _products(ineqs, nl):
    """pairwise products of small linear facts that only use monomials at hand"""
    out = []
    sq = sorted((m[0][0] for m in nl if len(m) == 1 and m[0][1] == 2), key=lambda a: a.key)
    if 2 <= len(sq) <= 4:
        nl = set(nl)
        for i in range(len(sq)):
            for j in range(i + 1, len(sq)):
                nl.add(mono_mul(((sq[i], 1),), ((sq[j], 1),))[1])
    lin = [(co, k) for co, k in ineqs if co and len(co) <= 3 and all(len(m) == 1 and m[0][1] == 1 for m in co)]
    if len(lin) > 14:
        vs = set(a for m in nl for a, _ in m)
        lin = [(co, k) for co, k in lin if all(m[0][0] in vs for m in co)][:14]
    for i in range(len(lin)):
        for j in range(i, len(lin)):
            c1, k1 = lin[i]
            c2, k2 = lin[j]
            d = {}
            ok = False
            for m1, v1 in list(c1.items()) + [((), k1)]:
                if not v1:
                    continue
                for m2, v2 in list(c2.items()) + [((), k2)]:
                    if not v2:
                        continue
                    cc, m = mono_mul(m1, m2)
                    d[m] = d.get(m, 0) + cc * v1 * v2
            k = d.pop((), 0)
            d = {m: v for m, v in d.items() if v}
            if any(m in nl for m in d):
                ok = all(m in nl or (len(m) == 1 and m[0][1] == 1) for m in d)
            if ok:
                out.append((d, k))
    return out[:60]


def subst_atoms(x, s):
    """replace whole atoms (any kind) by polynomials, also inside arguments"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Poly, Cond, Atom, Lam)):
            if hasattr(x, "map"):
                return x.map(go)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            acc = {}
            for m, v in x.m:
                t = const(v)
                for a, e in m:
                    na = go(a)
                    t = pmul(t, ppow(na, e) if e >= 0 else ppow(inv(na), -e))
                addto(acc, t)
            r = mk(acc)
        elif isinstance(x, Atom):
            if x in s:
                r = s[x]
            elif x.kind in ("sym", "bv", "I"):
                r = pof(x)
            else:
                na = tuple(go(a) for a in x.args)
                r = pof(x) if na == x.args else rebuild_atom(x, na)
        elif isinstance(x, Cond):
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else rebuild_cond(x.kind, na)
        else:
            vs, b = open_lam(x)
            nb = go(b)
            r = x if nb is b else Lam(vs, nb)
        memo[x] = r
        return r
    return go(x)


NONNEG = set()


def nonneg_atom(a):
    if a.kind in ("sym", "app") and str(a.args[0]).startswith("u:"):
        return True
    if a.kind == "mod":
        return True
    return a in NONNEG


_ent_cache = {}


def entails(facts, c):
    if c is TRUE:
        return True
    if c in facts:
        return True
    if c is FALSE:
        return not feasible(facts)
    key = (frozenset(facts), c)
    r = _ent_cache.get(key)
    if r is None:
        if c.kind == "and":
            r = all(entails(facts, x) for x in c.args)
        else:
            r = not feasible(relevant(facts, c) + [cnot(c)])
        _ent_cache[key] = r
    return r


def relevant(facts, c):
    """facts connected to c by shared atoms (cone of influence)"""
    flat = []
    for f in facts:
        flat.extend(conjuncts(f))
    at = set(fvx(c))
    rest = [(f, fvx(f)) for f in set(flat)]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f, s in rest:
            if s & at:
                out.append(f)
                at |= s
                ch = True
            else:
                nr.append((f, s))
        rest = nr
    # keep contradictions among the rest visible only if cheap
    out.sort(key=lambda x: x.h)
    return out


def fvx(x):
    """symbols and applications occurring at the index level"""
    return fv(x) | frozenset(_bat(x))


_batc = {}


def _bat(x):
    if isinstance(x, Cond):
        r = _batc.get(x)
        if r is None:
            s = set()
            if x.kind == "atom":
                s.add(x)
            for a in x.args:
                s |= set(_bat(a))
            r = frozenset(s)
            _batc[x] = r
        return r
    return ()


def decide(facts, c):
    """True / False / None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if entails(facts, c):
        return True
    if entails(facts, cnot(c)):
        return False
    return None


def simp(x, facts, memo=None):
    """resolve conditionals decided by the facts"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Poly, Cond, Atom, Lam)):
            if hasattr(x, "map"):
                return x.map(go)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            if not has_ite(x):
                r = x
            else:
                acc = {}
                for m, v in x.m:
                    t = const(v)
                    for a, e in m:
                        na = go(a)
                        t = pmul(t, ppow(na, e) if e >= 0 else ppow(inv(na), -e))
                    addto(acc, t)
                r = mk(acc)
        elif isinstance(x, Atom):
            if x.kind == "ite":
                c = go(x.args[0])
                d = decide(facts, c)
                if d is True:
                    r = go(x.args[1])
                elif d is False:
                    r = go(x.args[2])
                else:
                    f1 = list(facts) + conjuncts(c)
                    f2 = list(facts) + conjuncts(cnot(c))
                    r = ite(c, simp(x.args[1], f1), simp(x.args[2], f2))
            elif x.kind in ("sym", "bv", "I") or not has_ite(x):
                r = pof(x)
            else:
                na = tuple(a if isinstance(a, Lam) else go(a) for a in x.args)
                r = pof(x) if na == x.args else rebuild_atom(x, na)
        elif isinstance(x, Cond):
            d = decide(facts, x) if x.kind in ("ge0", "eq0", "not", "atom") else None
            if d is not None:
                r = TRUE if d else FALSE
            elif x.kind in ("and", "or"):
                r = rebuild_cond(x.kind, tuple(go(a) for a in x.args))
            else:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else rebuild_cond(x.kind, na)
        else:
            r = x
        memo[x] = r
        return r
    return go(x)


_hi = {}


def has_ite(x):
    if isinstance(x, tuple):
        return any(has_ite(y) for y in x)
    if not isinstance(x, (Poly, Cond, Atom, Lam)):
        if hasattr(x, "children"):
            return any(has_ite(y) for y in x.children())
        return False
    r = _hi.get(x)
    if r is None:
        if isinstance(x, Poly):
            r = any(has_ite(a) for m, _ in x.m for a, _e in m)
        elif isinstance(x, Atom):
            r = x.kind == "ite" or any(has_ite(a) for a in x.args)
        elif isinstance(x, Cond):
            r = any(has_ite(a) for a in x.args)
        else:
            r = has_ite(x.body)
        _hi[x] = r
    return r


def outer_ites(p, acc=None, deep=True):
    """conditions of conditionals occurring in p (outside inner lambdas)"""
    acc = [] if acc is None else acc

    def go(x):
        if isinstance(x, Poly):
            for m, _ in x.m:
                for a, _e in m:
                    go(a)
        elif isinstance(x, Atom):
            if x.kind == "ite":
                c = x.args[0]
                go(c)
                if c not in acc:
                    acc.append(c)
                go(x.args[1])
                go(x.args[2])
            elif x.kind not in ("sym", "bv", "I"):
                for a in x.args:
                    if not isinstance(a, Lam):
                        go(a)
        elif isinstance(x, Cond):
            for a in x.args:
                go(a)
        elif isinstance(x, tuple):
            for a in x:
                go(a)
    go(p)
    return acc


def rewrite(x, f, memo=None):
    """bottom-up rewriting of atoms: f(atom_after_args_rewritten) -> Poly or None"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Poly, Cond, Atom, Lam)):
            if hasattr(x, "map"):
                return x.map(go)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            acc = {}
            for m, v in x.m:
                t = const(v)
                for a, e in m:
                    na = go(a)
                    t = pmul(t, ppow(na, e) if e >= 0 else ppow(inv(na), -e))
                addto(acc, t)
            r = mk(acc)
        elif isinstance(x, Atom):
            if x.kind in ("sym", "bv", "I"):
                r = f(x)
                if r is None:
                    r = pof(x)
            else:
                na = tuple(go(a) for a in x.args)
                y = x if na == x.args else None
                if y is None:
                    p = rebuild_atom(x, na)
                    y = p.single_atom()
                    if y is None or y.kind != x.kind:
                        memo[x] = p
                        return p
                r = f(y)
                if r is None:
                    r = pof(y)
        elif isinstance(x, Cond):
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else rebuild_cond(x.kind, na)
        else:
            vs, b = open_lam(x)
            nb = go(b)
            r = x if nb is b else Lam(vs, nb)
        memo[x] = r
        return r
    return go(x)
