"""Deciding equalities between extracted normal forms.

`eqv(a, b, facts)` proves; `differ(a, b, facts)` looks for a valuation of the
index symbols (satisfying the facts) and of the uninterpreted symbols at which
two normal forms take different values: polynomial identity testing on the
terms, with the documented meaning of the cosine and Fourier transforms and
random linear maps for the opaque operators.  A violation is only reported
when such a valuation exists, so two writings of the same function never
count as different; equality is only claimed when it is proved.
"""
from fractions import Fraction
import hashlib
import itertools
import os
import random
import re
import struct
import time
import mpmath
from terms import *
import terms as TT
from vals import *
import loops as LL

mpmath.mp.dps = 50
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


# ====================================================================== proving
class Budget(Exception):
    pass


class Prover(object):
    def __init__(self, secs=60, depth=14, unfold=0):
        self.end = time.time() + secs
        self.maxd = depth
        self.unfold = unfold
        self.memo = {}
        self.amemo = {}
        self.stuck = None

    def eqv(self, a, b, facts):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eqv(x, y, facts) for x, y in zip(a, b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            try:
                return self.zero(a - b, list(facts), 0)
            except Undecided:
                return False
        if isinstance(a, Cond) and isinstance(b, Cond):
            return entails(list(facts) + [a], b) and entails(list(facts) + [b], a)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.dims) != len(b.dims) or not all(self.eqv(x, y, facts) for x, y in zip(a.dims, b.dims)):
                return False
            vs = [pof(freshv()) for _ in a.dims]
            f = list(facts) + [ge0(v) for v in vs] + [lt(v, d) for v, d in zip(vs, a.dims)]
            return self.eqv(a.lam(*vs), b.lam(*vs), f)
        if isinstance(a, IteV) or isinstance(b, IteV):
            c = (a if isinstance(a, IteV) else b).f[0]
            r = True
            for lit, k in ((c, 1), (cnot(c), 2)):
                f2 = list(facts) + conjuncts(lit)
                if not feasible(f2):
                    continue
                a2 = pick(a, c, k)
                b2 = pick(b, c, k)
                r = r and self.eqv(a2, b2, f2)
            return r
        if isinstance(a, EnumV) and isinstance(b, EnumV) and a.name == b.name:
            for c1, v1, p1 in a.cases:
                f1 = list(facts) + conjuncts(c1)
                if not feasible(f1):
                    continue
                for c2, v2, p2 in b.cases:
                    f2 = f1 + conjuncts(c2)
                    if not feasible(f2):
                        continue
                    if v1 != v2 or not self.eqv(p1, p2, f2):
                        return False
            return True
        if type(a) is type(b) and isinstance(a, Val):
            return len(a.f) == len(b.f) and all(self.eqv(x, y, facts) for x, y in zip(a.f, b.f))
        return False

    def zero(self, p, facts, depth):
        if p is ZERO:
            return True
        if time.time() > self.end:
            raise Budget()
        if has_i(p):
            r, i = reim(p)
            return self.zero(r, facts, depth) and self.zero(i, facts, depth)
        key = (p, frozenset(facts))
        if key in self.memo:
            return self.memo[key]
        r = self._zero(p, facts, depth)
        self.memo[key] = r
        return r

    def _zero(self, p, facts, depth):
        if has_ite(p):
            p = simp(p, facts)
            if p is ZERO:
                return True
            if has_i(p):
                return self.zero(p, facts, depth)
        s = eqsubst(facts)
        if s:
            q = p
            for k, v in s:
                q = subst_atoms(q, {k: v})
            if q is not p:
                if q is ZERO:
                    return True
                if has_i(q):
                    return self.zero(q, facts, depth)
                p = q
        cs = outer_ites(p)
        if cs:
            if depth > self.maxd:
                return False
            c = pick_lit(cs, facts)
            for lit in (c, cnot(c)):
                f2 = facts + conjuncts(lit)
                if not feasible(f2):
                    continue
                if not self.zero(p, f2, depth + 1):
                    return False
            return True
        q = self.merge(p, facts)
        if q is not p:
            return self.zero(q, facts, depth + 1) if depth <= self.maxd + 4 else False
        q = clear(p)
        if q is not p:
            return self.zero(q, facts, depth + 1) if depth <= self.maxd + 4 else False
        q = self.sums(p, facts, depth)
        if q is True:
            return True
        new = implied(p, facts)
        if new:
            return self.zero(p, facts + new, depth + 1) if depth <= self.maxd + 4 else False
        if self.unfold and depth <= self.maxd:
            q = self.unfolded(p, facts)
            if q is not None:
                self.unfold -= 1
                try:
                    return self.zero(q, facts, depth + 1)
                finally:
                    self.unfold += 1
        if depth <= self.maxd:
            cs = cases(p, facts)
            if cs is not None:
                return all(self.zero(subst_atoms(p, s) if s else p, facts + f, depth + 1) for s, f in cs if feasible(facts + f))
        if self.stuck is None:
            self.stuck = (p, list(facts), depth)
        return False

    def unfolded(self, p, facts):
        """replace the recursive application whose definition refers to most of the others"""
        cand_ = [a for a in sorted(p.atoms(), key=lambda a: a.key) if a.kind == "app" and a.args[0] == "fix"]
        best = None
        for a in cand_:
            u = simp(LL.unfold_fix(a), facts)
            s = eqsubst(facts)
            for k, v in s:
                u = subst_atoms(u, {k: v})
            at = fix_atoms(u)
            sc = sum(1 for b in cand_ if b is not a and b in at)
            sc = (0 if a in at else 1, sc, len(LL.fix_inner(a)), -len(at))
            if best is None or sc > best[0]:
                best = (sc, a, u)
        if best is not None:
            return subst_atoms(p, {best[1]: best[2]})
        for a in sorted(p.atoms(), key=lambda a: a.key):
            if a.kind == "app" and a.args[0] == "iter" and entails(facts, ge0(a.args[2] - 1)):
                return subst_atoms(p, {a: LL.unfold_iter(a)})
        return None

    # -- congruence
    def merge(self, p, facts):
        at = sorted(p.atoms(), key=lambda a: a.key)
        groups = {}
        s = {}
        for a in at:
            if a.kind in ("sym", "bv", "I", "ite"):
                continue
            k = (a.kind, a.args[0] if a.kind == "app" else None, a.sort, len(a.args))
            for b in groups.setdefault(k, []):
                if self.atom_eq(a, b, facts):
                    s[a] = pof(b)
                    break
            else:
                groups[k].append(a)
        # indices forced to a constant by the facts
        return subst_top(p, s) if s else p

    def atom_eq(self, a, b, facts):
        key = (a, b, frozenset(facts))
        r = self.amemo.get(key)
        if r is None:
            self.amemo[key] = False
            r = self.args_eq(a, b, facts)
            self.amemo[key] = r
        return r

    def args_eq(self, a, b, facts):
        rng = None
        if a.kind == "sum":
            if not (self.num_eq(a.args[0], b.args[0], facts) and self.num_eq(a.args[1], b.args[1], facts)):
                return False
            return self.lam_eq(a.args[2], b.args[2], facts, lambda v: [ge0(v - a.args[0]), lt(v, a.args[1])])
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if x is y:
                continue
            if isinstance(x, Lam):
                if not isinstance(y, Lam) or len(x.n) != len(y.n):
                    return False
                prev = a.args[i - 1] if i and isinstance(a.args[i - 1], Poly) else None
                if a.kind == "app" and a.args[0] in ("fix", "iter", "rec"):
                    prev = None
                if a.kind == "app" and a.args[0].startswith("slv:"):
                    prev = a.args[1]
                if not self.lam_eq(x, y, facts, (lambda v, prev=prev: [ge0(v)] + ([lt(v, prev)] if prev is not None else []))):
                    return False
            elif isinstance(x, Poly):
                if not isinstance(y, Poly) or not self.num_eq(x, y, facts):
                    return False
            elif isinstance(x, tuple):
                if not isinstance(y, tuple) or len(x) != len(y):
                    return False
                for u, v in zip(x, y):
                    if u is v:
                        continue
                    if isinstance(u, Poly) and isinstance(v, Poly):
                        if not self.num_eq(u, v, facts):
                            return False
                    elif isinstance(u, Lam) and isinstance(v, Lam):
                        if not self.lam_eq(u, v, facts, lambda w: [ge0(w)]):
                            return False
                    else:
                        return False
            elif x != y or isinstance(x, TT.Node):
                return False
        return True

    def lam_eq(self, x, y, facts, rng):
        if x is y:
            return True
        if len(x.n) != len(y.n):
            return False
        vs = [pof(freshv()) for _ in x.n]
        f = list(facts)
        for v in vs:
            f.extend(c for c in rng(v) if c is not TRUE)
        if FALSE in f:
            return True
        a, b = x(*vs), y(*vs)
        if a is b:
            return True
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return False
        return self.zero(a - b, f, 4)

    def num_eq(self, x, y, facts):
        if x is y:
            return True
        d = x - y
        if TT._isint(d):
            if entails(facts, eq0(d)):
                return True
            if not has_ite(d):
                return False
        return self.zero(d, list(facts), 6)

    # -- sums with matching bodies
    def sums(self, p, facts, depth):
        """p linear in sum atoms: align bounds that differ by constants"""
        ss = [a for a in p.atoms() if a.kind == "sum"]
        if len(ss) < 2 or depth > self.maxd:
            return None
        for a in ss:
            for b in ss:
                if a is b:
                    continue
                if self.lam_eq(a.args[2], b.args[2], facts, lambda v: [ge0(v)]):
                    dl = (b.args[0] - a.args[0]).const()
                    dh = (a.args[1] - b.args[1]).const()
                    if dl is not None and dh is not None and 0 <= dl <= 4 and 0 <= dh <= 4 and (dl or dh) \
                            and entails(facts, ge0(b.args[1] - b.args[0])):
                        e = pof(b)
                        for k in range(int(dl)):
                            e = e + a.args[2](a.args[0] + k)
                        for k in range(int(dh)):
                            e = e + a.args[2](b.args[1] + k)
                        if self.zero(subst_top(p, {a: e}), facts, depth + 1):
                            return True
        # combine all sums with equal bounds into one
        groups = []
        lin = {}
        rest = {}
        for m, v in p.m:
            sa = [a for a, e in m if a.kind == "sum"]
            if len(sa) == 1 and dict(m)[sa[0]] == 1:
                co = Poly(((tuple(z for z in m if z[0] is not sa[0]), v),))
                lin[sa[0]] = lin.get(sa[0], ZERO) + co
            elif sa:
                return None
            else:
                rest[m] = v
        for a, co in lin.items():
            for g in groups:
                if self.num_eq(a.args[0], g[0], facts) and self.num_eq(a.args[1], g[1], facts):
                    g[2].append((a, co))
                    break
            else:
                groups.append((a.args[0], a.args[1], [(a, co)]))
        if all(len(g[2]) < 2 for g in groups):
            return None
        if rest:
            return None
        for lo, hi, items in groups:
            v = pof(freshv())
            b = ZERO
            for a, co in items:
                b = b + co * a.args[2](v)
            if not self.zero(b, facts + [ge0(v - lo), lt(v, hi)], depth + 2):
                return None
        return True


def pick(v, c, k):
    return v.f[k] if isinstance(v, IteV) and v.f[0] is c else v


def subst_top(p, s):
    """replace atoms of the polynomial itself (not inside arguments)"""
    acc = {}
    for m, v in p.m:
        t = const(v)
        for a, e in m:
            na = s.get(a)
            if na is None:
                t = pmul(t, Poly(((((a, e),), Fraction(1)),)))
            else:
                t = pmul(t, ppow(na, e) if e >= 0 else ppow(inv(na), -e))
        addto(acc, t)
    r = mk(acc)
    return r


def fix_atoms(x):
    """fix applications outside binders"""
    out, seen = set(), set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if not isinstance(y, (Poly, Cond, Atom)) or y in seen:
            return
        seen.add(y)
        if isinstance(y, Poly):
            for m, _ in y.m:
                for a, _e in m:
                    go(a)
            return
        if isinstance(y, Atom) and y.kind == "app" and y.args[0] == "fix":
            out.add(y)
        for a in y.args:
            if not isinstance(a, Lam):
                go(a)
    go(x)
    return out


def cases(p, facts):
    """a finite case distinction on a parity, a remainder or a small range:
    [(substitution, added facts)]"""
    have = set(facts)
    at = sorted(p.atoms(), key=lambda a: a.key)
    for a in at:
        if a.kind == "pow" and a.args[0].const() == -1:
            m = TT.mod(a.args[1], 2)
            return [({a: const(1 - 2 * r)}, [eq0(m - r)]) for r in (0, 1)]
    for a in at:
        if a.kind == "mod" and a.args[1].const() is not None and a.args[1].const() <= 4:
            return [({a: const(r)}, [eq0(pof(a) - r)]) for r in range(int(a.args[1].const()))]
    for a in sorted(fv(p), key=lambda a: a.key):
        if a.kind != "sym" or a.sort != "int":
            continue
        lo, hi = None, None
        for c in facts:
            if c.kind == "ge0" and fv(c) == {a} and len(c.args[0].m) <= 2:
                k = c.args[0].const_part() if hasattr(c.args[0], "const_part") else TT.split_const(c.args[0])[1]
                co = [v for m, v in c.args[0].m if m == ((a, 1),)]
                if len(co) == 1:
                    b = Fraction(-k) / co[0]
                    if co[0] > 0:
                        b = -((-b.numerator) // b.denominator)
                        lo = b if lo is None else max(lo, b)
                    else:
                        b = b.numerator // b.denominator
                        hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and 0 <= hi - lo <= 8:
            return [({}, [eq0(pof(a) - v)]) for v in range(int(lo), int(hi) + 1)]
    return None


def implied(p, facts):
    """equations between integers that the inequalities force"""
    vs = fv(p)
    out = []
    have = set(facts)
    for c in facts:
        if c.kind == "ge0" and (fv(c) & vs):
            e = eq0(c.args[0])
            if e is TRUE or e in have:
                continue
            if entails(facts, ge0(ZERO - c.args[0])):
                out.append(e)
    return out


def pick_lit(cs, facts):
    """a literal to split on: the simplest undecided one"""
    best = None
    for c in cs:
        todo = [c]
        while todo:
            x = todo.pop()
            if x.kind in ("and", "or"):
                todo.extend(x.args)
                continue
            if x.kind == "not":
                x = x.args[0]
                if x.kind in ("and", "or"):
                    todo.extend(x.args)
                    continue
            if decide(facts, x) is not None:
                continue
            w = (len(TT.app_names(x)), len(fv(x)), x.h)
            if best is None or w < best[0]:
                best = (w, x)
    if best is None:
        return cs[0]
    return best[1]


_eqs = {}


def eqsubst(facts):
    """solved form of the linear equalities among the facts"""
    key = frozenset(facts)
    r = _eqs.get(key)
    if r is not None:
        return r
    out = []
    for f in facts:
        for c in conjuncts(f):
            if c.kind != "eq0":
                continue
            p = c.args[0]
            for k, v in out:
                p = subst_atoms(p, {k: v})
            if not TT._isint(p):
                continue
            best = None
            for m, v in p.m:
                if len(m) == 1 and m[0][1] == 1 and abs(v) == 1:
                    a = m[0][0]
                    if a.kind not in ("sym", "app", "mod"):
                        continue
                    if any(a is not z and a in fv(z) for z in p.atoms()) or sum(1 for mm, _ in p.m if any(x is a for x, _ in mm)) > 1:
                        continue
                    w = (0 if a.kind == "sym" else 1 if a.kind == "mod" else 2, -a.key)
                    if best is None or w < best[0]:
                        best = (w, a, v)
            if best is None:
                continue
            _, a, v = best
            rhs = pscale(pof(a) * v - p, v) if v == 1 else pscale(p - pof(a) * v, 1)
            # v*a + rest = 0  ->  a = -rest/v
            rest_ = p - pof(a) * const(v)
            rhs = pscale(rest_, -1 / v)
            if a in rhs.atoms():
                continue
            out = [(k, subst_atoms(x, {a: rhs})) for k, x in out] + [(a, rhs)]
    _eqs[key] = out
    return out


def clear(p):
    """multiply away denominators"""
    for m, _ in p.m:
        for a, e in m:
            if a.kind == "inv":
                # multiply by the largest power
                q = a.args[0]
                by = {}
                for m2, v2 in p.m:
                    e2 = 0
                    for a2, x2 in m2:
                        if a2 is a:
                            e2 = x2
                    r = tuple(z for z in m2 if z[0] is not a)
                    d = by.setdefault(e2, {})
                    d[r] = d.get(r, 0) + v2
                r = ZERO
                for k in range(min(by), max(by) + 1):
                    if r is not ZERO:
                        r = pmul(r, q)
                    if k in by:
                        r = r + TT.mk(by[k])
                return r
    neg = {}
    for m, _ in p.m:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if neg:
        d = ONE
        for a, e in neg.items():
            d = d * ppow(pof(a), e)
        return p * d
    return p


def enumerated(facts):
    """a symbol the facts restrict to listed constants: [(symbol, value)]"""
    for f in facts:
        if f.kind != "or":
            continue
        out = []
        for d in f.args:
            if d.kind != "eq0":
                break
            x = [m for m, _ in d.args[0].m if m]
            if len(x) != 1 or len(x[0]) != 1 or x[0][0][1] != 1 or x[0][0][0].kind != "sym":
                break
            a = x[0][0][0]
            q, c = TT.split_const(d.args[0])
            v = const(-c) * pinv_const(q, a)
            out.append((a, v))
        else:
            if len(set(a for a, _ in out)) == 1 and len(out) <= 8:
                return sorted(out, key=lambda t: t[1].const())
    return None


def pinv_const(q, a):
    return const(1 / q.m[0][1])


def subst_any(x, s):
    return subst_cond(x, s) if isinstance(x, Cond) else subst_atoms(x, s)


def subst_cond(c, s):
    return rewrite(c, lambda a: s.get(a))


LAST_STUCK = [None]


def moduli(facts):
    """constant moduli and divisors in the facts"""
    out = set()

    def go(y):
        if isinstance(y, (tuple, list)):
            for z in y:
                go(z)
        elif isinstance(y, Poly):
            for m, _ in y.m:
                for a, _e in m:
                    go(a)
        elif isinstance(y, (Cond, Atom)):
            if isinstance(y, Atom) and (y.kind == "mod" or (y.kind == "app" and y.args[0] == "fdiv")):
                c = y.args[-1]
                c = c.const() if isinstance(c, Poly) else c
                if c is not None:
                    out.add(int(c))
            go(y.args)
    go(list(facts))
    return sorted(m for m in out if 1 < m <= 400)


def eqv(a, b, facts, secs=60, unfold=0):
    cs = enumerated(facts)
    if cs:
        t = time.time() + secs
        for k, v in cs:
            f2 = [subst_cond(c, {k: v}) for c in facts]
            if not feasible(f2):
                continue
            if not eqv(subst_any(a, {k: v}), subst_any(b, {k: v}), f2, max(1, t - time.time()), unfold):
                return False
        return True
    pr = Prover(secs, unfold=unfold)
    try:
        r = pr.eqv(a, b, list(facts))
    except (Budget, Undecided):
        r = False
    LAST_STUCK[0] = None if r else pr.stuck
    if not r and os.environ.get("STUCK") and pr.stuck:
        p, f, d = pr.stuck
        print("STUCK depth", d, "\n  ", str(p)[:3000], "\n  ", [c for c in f])
    return r


# ====================================================================== evaluation
class EvalFail(Exception):
    pass


class Cx(object):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im


def isF(x):
    return isinstance(x, (Fraction, int))


def mp(x):
    if isF(x):
        x = Fraction(x)
        return mpmath.mpf(x.numerator) / x.denominator
    return x


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if isF(a) and isF(b):
        return a + b
    return mp(a) + mp(b)


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if not isinstance(a, Cx):
            return Cx(mul(a, b.re), mul(a, b.im))
        if not isinstance(b, Cx):
            return Cx(mul(a.re, b), mul(a.im, b))
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if isF(a) and isF(b):
        return a * b
    return mp(a) * mp(b)


def sub(a, b):
    return add(a, mul(Fraction(-1), b))


ZSCALE = [1]        # magnitude of the data


def vzero(v):
    if isinstance(v, Cx):
        return vzero(v.re) and vzero(v.im)
    return v == 0 if isF(v) else abs(v) < mpmath.mpf(10) ** -30 * ZSCALE[0]


def cx(a):
    return a if isinstance(a, Cx) else Cx(a, Fraction(0))


def rinv(a):
    if isinstance(a, Cx):
        n = add(mul(a.re, a.re), mul(a.im, a.im))
        n = rinv(n)
        return Cx(mul(a.re, n), mul(mul(Fraction(-1), a.im), n))
    if a == 0:
        raise EvalFail("division by zero")
    if isF(a):
        return Fraction(1) / a
    if abs(a) < mpmath.mpf(10) ** -35:
        raise EvalFail("division by zero")
    return 1 / a


def npow(a, e):
    if e < 0:
        return npow(rinv(a), -e)
    r = Fraction(1)
    while e:
        if e & 1:
            r = mul(r, a)
        e >>= 1
        if e:
            a = mul(a, a)
    return r


def hval(*key, lo=-9, hi=9):
    h = hashlib.sha256(("%d|" % SEED + repr(key)).encode()).digest()
    return lo + int.from_bytes(h[:6], "big") % (hi - lo + 1)


def hfrac(*key):
    """a deterministic pseudo-random rational"""
    v = hval(*key, lo=1, hi=194)
    v = v - 97 if v > 97 else v - 98     # -97..-1, 1..97 roughly, never 0
    if v == 0:
        v = 98
    return Fraction(v, 16)


def keyval(x):
    if isinstance(x, Cx):
        return ("c", keyval(x.re), keyval(x.im))
    if isF(x):
        x = Fraction(x)
        return x.numerator if x.denominator == 1 else (x.numerator, x.denominator)
    return mpmath.nstr(x, 25)


MAXSZ = 330
LONG = 9000         # with data that vanishes at most positions


LOOPST = re.compile(r"(h:)?X\d+\.\d+($|\.)")


SPARSE = [0]


def data_conds(*xs):
    """the terms compare floating point values"""
    seen = set()

    def go(y):
        if isinstance(y, tuple):
            return any(go(z) for z in y)
        if isinstance(y, Lam):
            return go(y.body)
        if not isinstance(y, (Poly, Cond, Atom)) or y in seen:
            return False
        seen.add(y)
        if isinstance(y, Poly):
            return any(go(a) for m, _ in y.m for a, _e in m)
        if isinstance(y, Cond) and y.kind == "atom" and y.args[0] in ("feq", "flt", "fle"):
            return True
        return any(go(a) for a in y.args)
    return go(xs)


class Evaluator(object):
    """env: sym atom -> number.  base: interpretation of the operators"""

    def __init__(self, secs=30, conj=None):
        self.memo = {}
        self.end = time.time() + secs
        self.n = 0
        self.fvk = {}
        self.data = {}          # overriding interpretations: app name -> fn(args)

    def tick(self):
        self.n += 1
        if self.n % 512 == 0 and time.time() > self.end:
            raise EvalFail("time")
        if self.n > 3000000:
            raise EvalFail("size")

    def key(self, x, env):
        k = self.fvk.get(x)
        if k is None:
            k = (tuple(sorted(fv(x), key=lambda a: a.key)),
                 tuple(sorted(set(n.split(".")[0] if not n.startswith("@r") else n.split("_")[0] for n in TT.app_names(x) if isinstance(n, str) and n.startswith("@")))))
            self.fvk[x] = k
        return (x,) + tuple(env.get(a) for a in k[0]) + tuple(env[c][0] for c in k[1] if c in env)

    def poly(self, p, env):
        self.tick()
        c = p.const()
        if c is not None:
            return c
        k = self.key(p, env)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = Fraction(0)
        for m, v in p.m:
            t = v
            for a, e in m:
                t = mul(t, npow(self.atom(a, env), e))
            r = add(r, t)
        self.memo[k] = r
        return r

    def int(self, p, env):
        v = self.poly(p, env)
        if not isF(v) or Fraction(v).denominator != 1:
            raise EvalFail("not an integer")
        return int(v)

    def atom(self, a, env):
        k = a.kind
        if k == "sym":
            v = env.get(a)
            if v is None:
                nm = a.args[0]
                if nm == "pi":
                    return mpmath.pi + 0
                if a.sort == "int":
                    raise EvalFail("unbound %s" % nm)
                return hfrac("sym", nm)
            return v
        if k == "I":
            return Cx(Fraction(0), Fraction(1))
        if k == "bv":
            raise EvalFail("bound variable")
        ky = self.key(a, env)
        r = self.memo.get(ky)
        if r is None:
            self.tick()
            r = self._atom(a, env)
            self.memo[ky] = r
        return r

    def _atom(self, a, env):
        k = a.kind
        if k == "ite":
            return self.poly(a.args[1] if self.cond(a.args[0], env) else a.args[2], env)
        if k == "inv":
            return rinv(self.poly(a.args[0], env))
        if k == "mod":
            b = self.int(a.args[1], env)
            if b <= 0:
                raise EvalFail("mod")
            return Fraction(self.int(a.args[0], env) % b)
        if k == "pow":
            e = self.poly(a.args[1], env)
            b = self.poly(a.args[0], env)
            if isF(e) and Fraction(e).denominator == 1 and abs(e) < 200:
                return npow(b, int(e))
            raise EvalFail("power")
        if k == "sum":
            lo, hi = self.int(a.args[0], env), self.int(a.args[1], env)
            if hi - lo > 400 and (hi - lo > LONG or not SPARSE[0]):
                raise EvalFail("long sum")
            r = Fraction(0)
            for t in range(lo, hi):
                r = add(r, self.lam(a.args[2], (Fraction(t),), env))
            return r
        if k == "app":
            return self.app(a, env)
        raise EvalFail(k)

    def lam(self, l, ix, env):
        vs, b = open_lam(l)
        e = dict(env)
        for v, i in zip(vs, ix):
            e[v] = i
        if isinstance(b, Cond):
            return self.cond(b, e)
        if isinstance(b, Poly):
            return self.poly(b, e)
        raise EvalFail("lambda body")

    def vec(self, l, n, env):
        if n > MAXSZ and (n > LONG or not SPARSE[0]):
            raise EvalFail("long vector")
        return [self.lam(l, (Fraction(i),), env) for i in range(n)]

    def app(self, a, env):
        nm = a.args[0]
        if isinstance(nm, str) and LOOPST.match(nm):
            raise EvalFail("unsolved loop state")
        if nm in self.data:
            return self.data[nm](self, a, env)
        if nm.startswith("@r"):
            d, j = nm.split("_")
            ctx = env.get(d)
            if ctx is None:
                raise EvalFail("rec context")
            return ctx[1](int(j), env)
        if nm.startswith("@"):
            d, j = nm[1:].split(".")
            ctx = env.get("@" + d)
            if ctx is None:
                raise EvalFail("fix context")
            return ctx[1](int(j), tuple(Fraction(self.int(x, env)) for x in a.args[1:]))
        if nm == "fix":
            return self.fix(a, env)
        if nm == "iter":
            return self.iter(a, env)
        if nm == "rec":
            return self.rec(a, env)
        base = nm[:-3] if nm.endswith(".re") or nm.endswith(".im") else nm
        part = nm[-2:] if base != nm else ""
        if base.startswith("op:"):
            return self.op(base, part, a, env)
        if base.startswith("slv:"):
            return self.solve(base[4:], a, env)
        if base in ("DCT1", "FFT", "RFFT", "IRFFT"):
            return self.fft(base, part, a, env)
        if base == "scratch":
            # unspecified content: any function of the transformed data
            i = self.int(a.args[-1], env)
            return hfrac("scratch", part, str(a.args[1])[:20], i, tuple(map(self.ka, self.vec(a.args[2], 2, env))))
        args = []
        for x in a.args[1:]:
            args.append(self.arg(x, env))
        if nm in ("sin", "cos", "sqrt", "exp", "tan"):
            v = args[0]
            if isinstance(v, Cx):
                raise EvalFail("complex argument")
            if nm == "sqrt":
                if mp(v) < 0:
                    raise EvalFail("sqrt")
                if isF(v):
                    v = Fraction(v)
                    import math
                    p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if p * p == v.numerator and q * q == v.denominator:
                        return Fraction(p, q)
            return getattr(mpmath, nm)(mp(v))
        if nm == "abs":
            return abs(args[0]) if not isinstance(args[0], Cx) else self.bad("abs")
        if nm in ("fmin", "fmax"):
            return min(map(mp, args)) if nm == "fmin" else max(map(mp, args))
        if nm == "powf":
            return mpmath.power(mp(args[0]), mp(args[1]))
        if nm == "fdiv":
            if args[1] <= 0:
                raise EvalFail("fdiv")
            return Fraction(int(args[0]) // int(args[1]))
        if nm == "quo":
            return Fraction(int(args[0]) // int(args[1]))
        if nm in ("trunc", "floor", "ceil", "round", "u:fceil"):
            v = mp(args[0])
            r = {"trunc": mpmath.floor if v >= 0 else mpmath.ceil, "floor": mpmath.floor, "ceil": mpmath.ceil,
                 "round": mpmath.nint, "u:fceil": mpmath.ceil}[nm](v)
            return Fraction(int(r))
        if nm == "f32":
            v = float(mp(args[0]))
            return Fraction(struct.unpack("f", struct.pack("f", v))[0]) if abs(v) < 3e38 else self.bad("f32")
        if nm.startswith("wrap:"):
            l, h = (0, 2 ** 32 - 1) if nm.endswith("u32") else (-2 ** 31, 2 ** 31 - 1)
            return Fraction((int(args[0]) - l) % (h - l + 1) + l)
        if nm.startswith("i:"):
            v = [int(x) for x in args]
            if v[0] < 0:
                raise EvalFail(nm)
            return Fraction(TT.INTFN[nm[2:]](*v))
        if nm == "signum":
            return Fraction(-1 if mp(args[0]) < 0 else 1)
        if nm == "u:flat":
            dims, ix = args
            r = 0
            for d, i in zip(dims, ix):
                r = r * int(d) + int(i)
            return Fraction(r)
        if nm == "u:unfl":
            k, dims, t = int(args[0]), args[1], int(args[2])
            for j in range(len(dims) - 1, k, -1):
                t //= max(1, int(dims[j]))
            return Fraction(t % int(dims[k]) if k else t)
        if a.sort == "int":
            v = hval("iapp", nm, tuple(keyval(x) for x in args), lo=0, hi=6)
            return Fraction(v)
        k = tuple(map(self.ka, args))
        if SPARSE[0]:
            # mostly vanishing data of few values
            h = hval("sparse", SPARSE[0], nm, k, lo=0, hi=7)
            return Fraction(1 if h == 0 else -1 if h == 1 else 0)
        return hfrac("app", nm, k)

    def args(self, a, env):
        return [self.arg(x, env) for x in a.args[1:]] or [0]

    def ka(self, x):
        if isinstance(x, (list, tuple)):
            return tuple(self.ka(y) for y in x)
        if isinstance(x, str):
            return x
        return keyval(x)

    def bad(self, m):
        raise EvalFail(m)

    def arg(self, x, env):
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        if isinstance(x, str):
            return x
        if isinstance(x, Cond):
            return Fraction(1 if self.cond(x, env) else 0)
        if isinstance(x, Atom):
            return self.atom(x, env)
        raise EvalFail("argument %s" % type(x).__name__)

    # -- operators: random linear maps
    def op(self, base, part, a, env):
        # extras..., n, lam, idx
        extra = tuple(keyval(self.poly(x, env)) for x in a.args[1:-3])
        n = self.int(a.args[-3], env)
        i = self.int(a.args[-1], env)
        xs = self.vec(a.args[-2], n, env)
        r = Fraction(0)
        anyc = part or any(isinstance(x, Cx) for x in xs)
        grad0 = False
        for j, x in enumerate(xs):
            w = hfrac("op", base, extra, n, i, j)
            if anyc:
                w = Cx(w, hfrac("opi", base, extra, n, i, j))
            r = add(r, mul(w, x))
        if anyc:
            r = cx(r)
            return r.im if part == "im" else r.re
        return r

    # -- banded systems
    def solve(self, nm, a, env):
        import ops
        n = self.int(a.args[1], env)
        offs = ops.BANDS[nm]
        lams, rhs, ix = a.args[2:-2], a.args[-2], self.int(a.args[-1], env)
        k = (a.args[0],) + tuple(self.key(x, env) for x in a.args[1:-1])
        sol = self.memo.get(k)
        if sol is None:
            rows = []
            for i in range(n):
                rows.append({})
            for o, l in zip(offs, lams):
                for t in range(n - abs(o)):
                    i, j = (t, t + o) if o >= 0 else (t - o, t)
                    rows[i][j] = self.lam(l, (Fraction(t),), env)
            b = [self.lam(rhs, (Fraction(i),), env) for i in range(n)]
            for i in range(n):
                p = rows[i].get(i, Fraction(0))
                if isF(p) and p == 0:
                    raise EvalFail("pivot")
                ip_ = rinv(p)
                for r in range(i + 1, min(n, i + 5)):
                    f = rows[r].get(i)
                    if f is None:
                        continue
                    self.tick()
                    f = mul(f, ip_)
                    for c, v in rows[i].items():
                        if c > i:
                            rows[r][c] = sub(rows[r].get(c, Fraction(0)), mul(f, v))
                    b[r] = sub(b[r], mul(f, b[i]))
            sol = [None] * n
            for i in range(n - 1, -1, -1):
                v = b[i]
                for c, w in rows[i].items():
                    if c > i:
                        v = sub(v, mul(w, sol[c]))
                sol[i] = mul(v, rinv(rows[i][i]))
            self.memo[k] = sol
        if not 0 <= ix < n:
            raise EvalFail("index")
        return sol[ix]

    # -- documented back ends
    def fft(self, base, part, a, env):
        pn = a.args[1]
        n = self.int(a.args[2], env)
        i = self.int(a.args[4], env)
        lam = a.args[3]
        if base == "DCT1":
            xs = self.vec(lam, n, env)
            if n < 2 or any(isinstance(x, Cx) for x in xs):
                raise EvalFail("dct1")
            r = add(mul(Fraction(1, 2), xs[0]), mul(Fraction((-1) ** i, 2), xs[n - 1]))
            for k in range(1, n - 1):
                if xs[k] == 0:
                    continue
                r = add(r, mul(cospi(Fraction(i * k, n - 1)), xs[k]))
            return r
        if base in ("FFT", "RFFT"):
            sg = 1 if "inverse" in pn else -1
            xs = self.vec(lam, n, env)
            r = Cx(Fraction(0), Fraction(0))
            for k in range(n):
                if xs[k] == 0:
                    continue
                ang = Fraction(2 * i * k * sg, n)
                r = add(r, mul(Cx(cospi(ang), sinpi(ang)), xs[k]))
            return r.im if part == "im" else r.re
        # IRFFT: n real outputs from n//2+1 coefficients
        h = n // 2 + 1
        xs = self.vec(lam, h, env)
        r = cx(xs[0]).re
        for k in range(1, h):
            if xs[k] == 0:
                continue
            ang = Fraction(2 * i * k, n)
            t = cx(mul(Cx(cospi(ang), sinpi(ang)), xs[k])).re
            if 2 * k != n:
                t = mul(Fraction(2), t)
            r = add(r, t)
        return r

    # -- recursive definitions
    def fix(self, a, env):
        bodies, d = a.args[2], "@%d" % int(a.args[3].const())
        e0 = {k: v for k, v in env.items() if k != d}
        fvs = self.key(bodies, e0)[1:]
        depth = [0]
        cid = ("fix", bodies, fvs)

        def call(j, ix):
            k = (cid, j, ix)
            r = self.memo.get(k)
            if r is None:
                self.tick()
                depth[0] += 1
                if depth[0] > 300:
                    raise EvalFail("recursion")
                e = dict(env)
                e[d] = (cid, call)
                r = self.lam(bodies[j], ix, e)
                depth[0] -= 1
                self.memo[k] = r
            return r
        return call(int(a.args[1].const()), tuple(Fraction(self.int(x, env)) for x in a.args[4:]))

    def iter(self, a, env):
        T = self.int(a.args[2], env)
        inits, steps, d = a.args[3], a.args[4], "@%d" % int(a.args[5].const())
        if T > 40:
            raise EvalFail("long iteration")
        e0 = {k: v for k, v in env.items() if k != d}
        fvs = self.key((inits, steps), e0)[1:]

        def level(t):
            cid = ("iter", inits, steps, fvs, t)

            def call(j, ix):
                k = (cid, j, ix)
                r = self.memo.get(k)
                if r is None:
                    if t <= 0:
                        r = self.lam(inits[j], ix, env)
                    else:
                        e = dict(env)
                        sub_ = level(t - 1)
                        e[d] = (("iter", inits, steps, fvs, t - 1), sub_)
                        r = self.lam(steps[j], (Fraction(t - 1),) + ix, e)
                    self.memo[k] = r
                return r
            return call
        return level(T)(int(a.args[1].const()), tuple(Fraction(self.int(x, env)) for x in a.args[6:]))

    def rec(self, a, env):
        i, inits, lams, d = int(a.args[1].const()), a.args[2], a.args[3], "@r%d" % int(a.args[4].const())
        T = self.int(a.args[5], env)
        if T > 400:
            raise EvalFail("long recurrence")
        cur = [self.poly(x, env) for x in inits]
        for t in range(T):
            cid = ("rec", lams, t, tuple(keyval(c) for c in cur), self.key(lams, {k: v for k, v in env.items() if k != d})[1:])
            e = dict(env)
            e[d] = (cid, lambda j, _e, cur=cur: cur[j])
            cur = [self.lam(l, (Fraction(t),), e) for l in lams]
        return cur[i]

    # -- conditions
    def cond(self, c, env):
        k = c.kind
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "and":
            return all(self.cond(x, env) for x in c.args)
        if k == "or":
            return any(self.cond(x, env) for x in c.args)
        if k == "not":
            return not self.cond(c.args[0], env)
        if k == "ge0":
            v = self.poly(c.args[0], env)
            if isinstance(v, Cx):
                raise EvalFail("complex comparison")
            return v >= 0
        if k == "eq0":
            return vzero(self.poly(c.args[0], env))
        if k == "atom":
            nm = c.args[0]
            if isinstance(nm, str) and nm.startswith("bh:"):
                raise EvalFail("unsolved loop state")
            if nm in ("std", "contiguous", "fortran"):
                return nm != "fortran"
            if nm == "forall":
                n = self.int(c.args[1], env)
                return all(self.lam(c.args[2], (Fraction(i),), env) for i in range(n))
            if nm in ("flt", "fle", "feq", "fzero"):
                vs = [self.poly(x, env) for x in c.args[1:]]
                if nm in ("flt", "fle") and any(isinstance(v, Cx) for v in vs):
                    raise EvalFail("complex comparison")
                if nm == "flt":
                    return mp(vs[0]) < mp(vs[1])
                if nm == "fle":
                    return mp(vs[0]) <= mp(vs[1])
                if nm == "feq":
                    return vzero(sub(vs[0], vs[1]))
                return vzero(vs[0])
            if nm in ("is_nan",):
                return False
            if nm in ("is_finite",):
                return True
            try:
                args = tuple(self.ka(self.arg(x, env)) for x in c.args[1:])
            except EvalFail:
                args = tuple(repr(x) for x in c.args[1:])
            return bool(hval("b", nm, args, lo=0, hi=1))
        raise EvalFail(k)


_cp = {}


def cospi(q):
    q = q % 2
    r = _cp.get(q)
    if r is None:
        if q == 0:
            r = Fraction(1)
        elif q == 1:
            r = Fraction(-1)
        elif q in (Fraction(1, 2), Fraction(3, 2)):
            r = Fraction(0)
        else:
            r = mpmath.cospi(mp(q))
        _cp[q] = r
    return r


def sinpi(q):
    return cospi(Fraction(1, 2) - q)


def close(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return close(a.re, b.re) and close(a.im, b.im)
    if isF(a) and isF(b):
        return a == b
    a, b = mp(a), mp(b)
    return abs(a - b) <= mpmath.mpf(10) ** -18 * (1 + abs(a) + abs(b))


# ====================================================================== models of the facts
def int_syms(*xs):
    s = set()
    for x in xs:
        for a in fv(x):
            if a.kind == "sym" and a.sort == "int":
                s.add(a)
    return sorted(s, key=lambda a: (a.key))


def int_consts(*xs):
    """constants compared with integer quantities"""
    out, seen = set(), set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if isinstance(y, Lam):
            go(y.body)
            return
        if not isinstance(y, (Poly, Cond, Atom)) or y in seen:
            return
        seen.add(y)
        if isinstance(y, Poly):
            for m, _ in y.m:
                for a, _e in m:
                    go(a)
        else:
            if isinstance(y, Cond) and y.kind in ("ge0", "eq0"):
                p = y.args[0]
                for m, v in p.m:
                    if m == ():
                        out.add(int(abs(v)))
            if isinstance(y, Atom) and y.kind == "mod":
                c = y.args[1].const()
                if c is not None:
                    out.add(int(c))
            if isinstance(y, Atom) and y.kind == "app" and y.args[0] in ("fmin", "fmax"):
                out.update(int(abs(a.const())) for a in y.args[1:] if isinstance(a, Poly) and a.const() is not None)
            for a in y.args:
                go(a)
    go(xs)
    return out


TRANSFORMS = ("DCT1", "FFT", "RFFT", "IRFFT")


def loopy(x, seen=None, names=("fix", "iter", "rec") + TRANSFORMS):
    """evaluation takes time proportional to the sizes"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        return any(loopy(y, seen, names) for y in x)
    if isinstance(x, Lam):
        return loopy(x.body, seen, names)
    if not isinstance(x, (Poly, Cond, Atom)) or x in seen:
        return False
    seen.add(x)
    if isinstance(x, Poly):
        return any(loopy(a, seen, names) for m, _ in x.m for a, _e in m)
    if isinstance(x, Atom) and (x.kind == "sum" or (x.kind == "app" and str(x.args[0]).replace(".re", "").replace(".im", "") in names)):
        return True
    return any(loopy(a, seen, names) for a in x.args)


def models(facts, terms, count=120, hi=11, tries=4000, secs=20, ev=None, salt=0):
    """valuations of the integer symbols that satisfy the facts"""
    flat = []
    for f in facts:
        flat.extend(conjuncts(f))
    sol = eqsubst(flat)
    elim = dict(sol)
    syms = [a for a in int_syms(tuple(flat), *terms) if a not in elim]
    # atoms solved for that are applications cannot be assigned: leave as filters
    # sizes before indices
    syms.sort(key=lambda a: (0 if ("len" in a.args[0] or ".d" in a.args[0] or a.args[0] in ("u:n", "u:m", "u:n_h")) else 1, a.key))
    rnd = random.Random(SEED * 7919 + salt)
    lits = [c for c in flat if c.kind in ("ge0", "eq0", "not", "or")]
    end = time.time() + secs
    seen = set()
    bylast = {}
    pos = {a: i for i, a in enumerate(syms)}
    red = []
    for c in flat:
        d = c
        for k, v in sol:
            d = subst_atoms(d, {k: v})
        if d is TRUE:
            continue
        if d is FALSE:
            return
        red.append(d)
    lin = {a: [] for a in syms}
    for c in red:
        if c.kind != "ge0":
            continue
        p = c.args[0]
        vs = [a for a in fv(p) if a in pos]
        if not vs:
            continue
        last = max(vs, key=lambda a: pos[a])
        co, restp = ZERO, {}
        ok = True
        for m, v in p.m:
            if any(a is last for a, _ in m):
                if m == ((last, 1),):
                    co = const(v)
                else:
                    ok = False
            else:
                restp[m] = v
        if ok and co is not ZERO and last not in fv(mk(restp)):
            lin[last].append((co.const(), mk(restp)))
    # symbols restricted to a few values by an explicit enumeration
    dom = {}
    for c in red:
        if c.kind == "or" and all(x.kind == "eq0" for x in c.args):
            vals, only = [], None
            for x in c.args:
                p = x.args[0]
                vs = [a for a in fv(p) if a in pos]
                co = dict(p.m).get(((vs[0], 1),)) if len(vs) == 1 else None
                r = None if co is None else (p - const(co) * pof(vs[0])).const()
                if r is None or only not in (None, vs[0]) or Fraction(-r, 1) / co != int(Fraction(-r, 1) / co):
                    only = None
                    break
                only = vs[0]
                vals.append(int(Fraction(-r, 1) / co))
            if only is not None and len(vals) == len(c.args):
                dom[only] = vals
    n = 0
    top = (LONG - 200 if SPARSE[0] else 300) if any(loopy(t) for t in terms) else 70000
    hints = set(c for c in int_consts(tuple(flat), *terms) if hi - 4 <= c <= top)
    names = set(x for t in terms for x in TT.app_names(t) if isinstance(x, str))
    # sizes at which a 32 bit product or a single precision value is no longer exact
    hints |= set(c for c in (2000, 69000) if c <= top and any(x.startswith("wrap:") for x in names))
    hints |= set(c for c in (280, 6000) if c <= top and "f32" in names)
    hints = sorted(hints)
    for _ in range(tries):
        if n >= count or time.time() > end:
            return
        e = Evaluator(5)
        env = {}
        bad = False
        big = _ if hints and _ % 5 == 4 else None
        for a in syms:
            nm = str(a.args[0])
            l, h = (0 if nm.startswith("u:") else -3), hi
            if big is not None:
                h = max(hi, rnd.choice(hints) + rnd.choice((2, 6, 12)))
            for co, restp in lin[a]:
                try:
                    r = e.poly(restp, env)
                except EvalFail:
                    continue
                if not isF(r):
                    continue
                b = Fraction(-r) / co
                if co > 0:
                    l = max(l, -((-b.numerator) // b.denominator))
                else:
                    h = min(h, b.numerator // b.denominator)
            if l > h:
                if h >= hi and l <= 40:
                    h = l + 4
                else:
                    bad = True
                    break
            # favour the ends of the range
            r = rnd.random()
            v = l if r < 0.15 else h if r < 0.3 else rnd.randint(l, h)
            if big is not None and h > hi and r > 0.3:
                v = max(l, h - rnd.randint(0, 5))
            if a in dom:
                v = rnd.choice(dom[a])
            elif big is not None and env and rnd.random() < 0.3:
                same = [x for x in env.values() if l <= x <= h and x > hi]
                if same:
                    v = rnd.choice(same)
            env[a] = Fraction(v)
        if bad:
            continue
        try:
            e = Evaluator(5)
            for k, v in sol:
                if k.kind == "sym":
                    x = e.poly(v, env)
                    if not isF(x) or Fraction(x).denominator != 1:
                        raise EvalFail("fraction")
                    if str(k.args[0]).startswith("u:") and x < 0:
                        raise EvalFail("negative")
                    env[k] = Fraction(x)
            e = Evaluator(5)
            if not all(e.cond(c, env) for c in flat):
                continue
        except EvalFail:
            continue
        k = tuple(sorted((a.key, v) for a, v in env.items()))
        if k in seen:
            continue
        seen.add(k)
        n += 1
        yield env


def differ(a, b, facts, count=500, secs=20, hi=11, salt=0, data=None):
    """a valuation where the two terms differ, or None.  Returns (env, va, vb)"""
    end = time.time() + secs
    for env in models(facts, (a, b), count=count, hi=hi, secs=secs, salt=salt, tries=max(4000, 8 * count)):
        if time.time() > end:
            return None
        ev = Evaluator(max(1, end - time.time()))
        if data:
            ev.data = data
        try:
            va, vb = ev.poly(a, env), ev.poly(b, env)
        except EvalFail:
            continue
        except RecursionError:
            continue
        if not close(va, vb):
            return env, va, vb
    return None


def differ_cond(c, facts, count=80, secs=20, hi=11, salt=0):
    """a valuation satisfying the facts but not c"""
    end = time.time() + secs
    for env in models(list(facts), (c,), count=count, hi=hi, secs=secs, salt=salt):
        ev = Evaluator(max(1, end - time.time()))
        try:
            if not ev.cond(c, env):
                return env
        except EvalFail:
            continue
        if time.time() > end:
            return None
    # search with the negation as a constraint (conditions that rarely fail)
    nc = cnot(c)
    for x in (nc.args if nc.kind == "or" else (nc,)):
        for env in models(list(facts) + [x], (c,), count=3, hi=hi, secs=max(1, end - time.time()) / 2, salt=salt + 1):
            ev = Evaluator(5)
            try:
                if not ev.cond(c, env):
                    return env
            except EvalFail:
                continue
    return None


def showenv(env, keep=None):
    out = []
    for a, v in sorted(env.items(), key=lambda t: str(t[0].args[0]) if isinstance(t[0], Atom) else ""):
        if isinstance(a, Atom) and not str(a.args[0]).startswith("u:$"):
            nm = str(a.args[0])
            out.append("%s=%s" % (nm[2:] if nm.startswith("u:") else nm, v))
    return ", ".join(out)


def shownum(v):
    if isinstance(v, Cx):
        return "%s%+si" % (shownum(v.re), shownum(v.im))
    if isF(v):
        return str(v)
    return mpmath.nstr(v, 12)


def differ_sparse(a, b, facts, secs=20, hi=11, salt=0):
    """differ on data most of which vanishes"""
    try:
        for k in range(1, 7):
            SPARSE[0] = k
            r = differ(a, b, facts, secs=secs / 6, count=60, hi=hi, salt=salt + 20 + k)
            if r is not None:
                return r
    finally:
        SPARSE[0] = 0
    return None


def differ_long(a, b, facts, secs=25, hi=11, salt=0):
    """differ at sizes beyond the reach of dense data, where the terms mention such sizes"""
    if not any(330 < c < LONG - 200 for c in int_consts(tuple(facts), a, b)) or not loopy((a, b)) \
            or loopy((a, b), None, ("fix", "iter", "rec")):
        return None
    try:
        SPARSE[0] = 1
        return differ(a, b, facts, secs=secs, count=60, hi=hi, salt=salt + 31)
    finally:
        SPARSE[0] = 0


def check_eq(a, b, facts, secs=40, unfold=0, hi=11, salt=0, data=None):
    """('ok', '') | ('bad', detail) | ('unknown', '')"""
    if eqv(a, b, facts, secs, unfold):
        return "ok", ""
    stuck = LAST_STUCK[0]
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        return "unknown", ""
    r = differ(a, b, facts, secs=min(secs, 20), hi=hi, salt=salt, data=data)
    if r is None and hi < 24:
        r = differ(a, b, facts, secs=min(secs, 12), count=30, hi=26, salt=salt + 5, data=data)
    if r is None and stuck is not None:
        # look where the proof stopped
        ms = moduli(stuck[1])
        r = differ(a, b, list(facts) + [f for f in stuck[1] if f not in facts], secs=min(secs, 12), count=40,
                   hi=max([hi, 26] + [2 * m + 8 for m in ms]), salt=salt + 9, data=data)
    if r is None:
        r = differ_long(a, b, facts, min(secs, 25), hi, salt)
    if r is None and data_conds(a, b):
        r = differ_sparse(a, b, facts, min(secs, 20), hi, salt)
    if r is not None:
        env, va, vb = r
        return "bad", "at %s: got %s, expected %s" % (showenv(env), shownum(va), shownum(vb))
    return "unknown", ""


def check_cond(c, facts, secs=20, hi=11, salt=0):
    if entails(list(facts), c):
        return "ok", ""
    env = differ_cond(c, facts, secs=secs, hi=hi, salt=salt)
    if env is not None:
        return "bad", "at %s" % showenv(env)
    return "unknown", ""
