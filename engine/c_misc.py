"""Comparison helpers (C29), immutability and history independence (C21)."""
import re
from core import *
import core
import mpmath
from fractions import Fraction
from c_spaces import ob, undec

TOL = Fraction(1, 1000)
NAN = mpmath.nan
INF = mpmath.inf
C29_RULE = "returns only if the extents are equal and every component of every element is within the tolerance"


# ------------------------------------------------------------------ C29
class NanEval(PV.Evaluator):
    """evaluation with IEEE comparisons of NaN"""

    def __init__(self, data):
        PV.Evaluator.__init__(self, 10)
        self.data = dict(data)
        self.data["abs"] = lambda ev, a, env: abs_(ev.poly(a.args[1], env))
        self.data["fmax"] = lambda ev, a, env: fmm(ev, a, env, max)
        self.data["fmin"] = lambda ev, a, env: fmm(ev, a, env, min)

    def cond(self, c, env):
        if c.kind == "atom":
            nm = c.args[0]
            if nm in ("is_nan", "is_finite"):
                v = PV.mp(self.poly(c.args[1], env))
                return bool(mpmath.isnan(v)) if nm == "is_nan" else bool(mpmath.isfinite(v))
            if nm in ("feq", "fzero", "flt", "fle"):
                vs = [PV.mp(self.poly(x, env)) for x in c.args[1:]]
                if any(mpmath.isnan(v) for v in vs):
                    return False
                if any(mpmath.isinf(v) for v in vs):
                    a, b = vs[0], vs[1] if len(vs) > 1 else 0
                    return bool(a < b if nm == "flt" else a <= b if nm == "fle" else a == b)
            elif nm not in ("std", "contiguous", "fortran", "forall"):
                raise PV.EvalFail("unknown condition " + str(nm))
        return PV.Evaluator.cond(self, c, env)


def abs_(v):
    return abs(v)


def fmm(ev, a, env, f):
    x, y = ev.poly(a.args[1], env), ev.poly(a.args[2], env)
    if not PV.isF(x) and mpmath.isnan(x):
        return y
    if not PV.isF(y) and mpmath.isnan(y):
        return x
    return f(x, y) if PV.isF(x) and PV.isF(y) else f(PV.mp(x), PV.mp(y))


def flat_forall(c):
    """[(extents, index symbols, conjunct)] of a (nested) universal fact"""
    if not (c.kind == "atom" and c.args[0] == "forall"):
        return [((), (), c)]
    vs, b = open_lam(c.args[2])
    out = []
    for x in conjuncts(b):
        for ds, ix, y in flat_forall(x):
            out.append(((c.args[1],) + ds, (vs[0],) + ix, y))
    return out


def havocked(x):
    for n in TT.app_names(x):
        if isinstance(n, str) and n.startswith(("h:", "bh:")):
            return True
    if isinstance(x, Cond):
        for b in TT._bat(x):
            if str(b.args[0]).startswith("bh:"):
                return True
            for y in b.args[1:]:
                if isinstance(y, Lam):
                    _, z = open_lam(y)
                    if isinstance(z, (Cond, Poly)) and havocked(z):
                        return True
    return False


def bound_by(y, d, facts):
    """does the conjunct bound |d| by the tolerance? 'abs' | 'up' | 'down' | None"""
    if y.kind != "atom" or y.args[0] not in ("flt", "fle"):
        return None
    l, r = y.args[1], y.args[2]
    rc = r.const()
    lc = l.const()
    if rc is not None and rc <= TOL:
        a = l.single_atom()
        if a is not None and a.kind == "app" and a.args[0] == "abs":
            x = a.args[1]
            if any((x - s * d) is ZERO or PV.eqv(x, s * d, facts, 5) for s in (1, -1)):
                return "abs"
        if (l - d) is ZERO:
            return "up"
        if (l + d) is ZERO:
            return "down"
    if lc is not None and lc >= -TOL:
        if (r - d) is ZERO:
            return "down"
        if (r + d) is ZERO:
            return "up"
    return None


def unflatten(y, dims, flat, ix, facts):
    """replaces the coordinates of a flattened index by the index symbols"""
    m = {}
    for a in apps_of(y):
        if a.args[0] == "u:unfl" and a.args[3] is flat and len(a.args[2]) == len(dims):
            if all(PV.eqv(p, q, facts, 5) for p, q in zip(a.args[2], dims)):
                m[a] = ix[int(str(a.args[1]))]
    return subst_atoms(y, m) if m else y


def apps_of(x, out=None):
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m, _ in x.m:
            for a, _e in m:
                apps_of(a, out)
    elif isinstance(x, (Cond, Atom)):
        if isinstance(x, Atom) and x.kind == "app":
            out.add(x)
        for a in x.args:
            if isinstance(a, (Poly, Cond, Atom)):
                apps_of(a, out)
            elif isinstance(a, tuple):
                for z in a:
                    apps_of(z, out)
    return out


def t_eq(P, fn, rank, comps):
    id = "util::" + fn
    lost0 = LOOPS.LOST[0]
    r = run(P, id)
    if r.status == "undecided":
        return [undec(id, r, C29_RULE)]
    if r.status == "dead":
        return [dict(id=id, status="bad", detail="never returns", rule=C29_RULE, fns=sorted(fns_of(r)))]
    facts = [drop_layout(c) for c in r.facts()]
    lossy = LOOPS.LOST[0] != lost0
    A, B = r.args["a"], r.args["b"]
    da, db = dims_of(r, "a"), dims_of(r, "b")
    out = []
    # ---- proof
    okd = all(entails(facts, eq(x, y)) for x, y in zip(da, db))
    ix = [sym("u:i%d" % k) for k in range(rank)]
    fx = facts + [ge0(i) for i in ix] + [lt(i, d) for i, d in zip(ix, da)]
    missing = []
    if okd:
        every = []
        for f in facts:
            for g in conjuncts(f):
                every += flat_forall(g)
        for c in comps:
            d = elem(r, "a", c, ix) - elem(r, "b", c, ix)
            got = set()
            for ds, vs, y in every:
                if len(ds) == rank and all(covers(n, d0, facts) for n, d0 in zip(ds, da)):
                    z = subst(y, dict(zip(vs, ix)))
                elif len(ds) == 1 and rank == 2 and covers(ds[0], da[0] * da[1], facts):
                    z = unflatten(y, da, pof(vs[0]), ix, fx)
                    if vs[0] in fv(z):
                        continue
                else:
                    continue
                got.add(bound_by(z, d, fx))
            if not ("abs" in got or {"up", "down"} <= got):
                missing.append(c or "value")
        if not missing:
            return [dict(id=id, status="ok", detail="extents equal and |difference| bounded for %s" % ", ".join(c or "the value" for c in comps), rule=C29_RULE, fns=sorted(fns_of(r)))]
    # ---- refutation
    if not lossy and not any(havocked(c) for c in facts):
        w = refute(r, facts, rank, comps, da, db)
        if w:
            return [dict(id=id, status="bad", detail=w, rule=C29_RULE, fns=sorted(fns_of(r)))]
    return [dict(id=id, status="unknown", detail="extents not shown equal" if not okd else "no bound found for " + ", ".join(missing), rule=C29_RULE, fns=sorted(fns_of(r)))]


def covers(n, d, facts):
    return n is d or PV.eqv(n, d, facts, 5)


def dims_of(r, nm):
    v = r.mem0.get(("A", nm))
    return tuple(v.dims)


def elem(r, nm, c, ix):
    a = r.mem0[("A", nm)]
    v = a.lam(*[pof(i) if isinstance(i, Atom) else i for i in ix])
    if c:
        re_, im_ = TT.reim(v)
        return re_ if c == "re" else im_
    return v


def refute(r, facts, rank, comps, da, db):
    """accepted concrete inputs that really differ"""
    sizes = [1, 2, 3, 4, 5, 6, 9, 17, 33, 65, 130] if rank == 1 else [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (4, 4), (3, 7), (9, 8), (17, 3), (3, 33)]
    deltas = [(Fraction(2, 1000), 0), (Fraction(-2, 1000), 0), (1, 0), (-1, 0), (1000, 0), (-1000, 0), (NAN, 0), (0, NAN), (INF, 0), (0, INF), (NAN, NAN)]
    deltas = [(Fraction(x) if isinstance(x, int) else x, Fraction(y) if isinstance(y, int) else y) for x, y in deltas]
    bases = [lambda i, c: Fraction(0), lambda i, c: PV.hfrac("c29", i, c), lambda i, c: Fraction(10) ** 6]

    def tuples(s):
        s = s if isinstance(s, tuple) else (s,)
        if len(s) == 1:
            return [(i,) for i in range(s[0])]
        return [(i, j) for i in range(s[0]) for j in range(s[1])]

    def attempt(sa, sb, va, vb):
        sa, sb = [x if isinstance(x, tuple) else (x,) for x in (sa, sb)]
        env = {}
        for d, s in zip(da + db, sa + sb):
            env[d.single_atom()] = Fraction(s)

        def look(val):
            def f(ev, a, e):
                return val(tuple(ev.int(x, e) for x in a.args[1:]), a.args[0].split(".")[1] if "." in a.args[0] else None)
            return f
        data = {}
        for c in comps:
            data["a" + ("." + c if c else "")] = look(va)
            data["b" + ("." + c if c else "")] = look(vb)
        ev = NanEval(data)
        try:
            return all(ev.cond(f, env) for f in facts)
        except (PV.EvalFail, RecursionError, IndexError, ZeroDivisionError):
            return False
    for s in sizes:
        ts = tuples(s)
        if len(ts) > 12:
            ts = ts[:2] + ts[len(ts) // 2:len(ts) // 2 + 2] + ts[-6:]
        for t in ts:
            for c in comps:
                for bi, base in enumerate(bases):
                    for x, y in deltas:
                        if attempt(s, s, lambda i, k: base(i, k) + x if (i, k) == (t, c) and PV.isF(x) else x if (i, k) == (t, c) else base(i, k), lambda i, k: base(i, k) if not ((i, k) == (t, c) and not PV.isF(y)) else y):
                            return "accepts collections of extent %s that differ by %s in %s of element %s (b holds %s there)" % (s, PV.shownum(x) if PV.isF(y) else "%s/%s" % (x, y), c or "the value", t if rank > 1 else t[0], PV.shownum(base(t, c)))
        # related values: sign, conjugate, exchange of components or elements, cancelling differences
        F = Fraction
        vals = [{"re": F(3, 2), "im": F(2), None: F(3, 2)}, {"re": F(0), "im": F(1), None: F(1)}, {"re": F(1), "im": F(0), None: F(-2)}]
        maps = [("the negated values", lambda v: {k: -x for k, x in v.items()}), ("the conjugate", lambda v: {k: -x if k == "im" else x for k, x in v.items()}),
                ("the negated conjugate", lambda v: {k: -x if k == "re" else x for k, x in v.items()}),
                ("exchanged components", lambda v: {"re": v["im"], "im": v["re"], None: v[None]}),
                ("differences +1 and -1 in the components", lambda v: {"re": v["re"] + 1, "im": v["im"] - 1, None: v[None] + 1}),
                ("the inverse", lambda v: {k: 1 / x if x else x for k, x in v.items()}),
                ("the double", lambda v: {k: 2 * x for k, x in v.items()}), ("the half", lambda v: {k: x / 2 for k, x in v.items()})]
        for t in (ts if len(ts) < 6 else ts[:1] + ts[-1:]) + [None]:
            for v in vals:
                for what, f in maps:
                    w = f(v)
                    if all(abs(w[c or None] - v[c or None]) < F(1, 100) for c in comps):
                        continue
                    if attempt(s, s, lambda i, k: w[k] if i == t or t is None else F(0), lambda i, k: v[k] if i == t or t is None else F(0)):
                        return "accepts collections of extent %s where %s holds %s of the expected %s" % (s, "every element" if t is None else "element %s" % (t if rank > 1 else t[0],), what, "value")
        if 1 < len(ts) < 12:
            for perm in ("reversed", "rotated"):
                px = ts[::-1] if perm == "reversed" else ts[1:] + ts[:1]
                pm = dict(zip(ts, px))
                if attempt(s, s, lambda i, k: F(1 + ts.index(i)), lambda i, k: F(1 + ts.index(pm[i]))):
                    return "accepts collections of extent %s with %s elements" % (s, perm)
        # two opposite differences
        if len(ts) > 1:
            for c in comps:
                if attempt(s, s, lambda i, k: Fraction(1) if (i, k) == (ts[0], c) else Fraction(-1) if (i, k) == (ts[1], c) else Fraction(0), lambda i, k: Fraction(0)):
                    return "accepts collections of extent %s with differences +1 and -1 in elements %s and %s" % (s, ts[0], ts[1])
    pairs = [(x, y) for x in range(0, 6) for y in range(0, 6) if x != y] if rank == 1 else [(x, y) for x in sizes for y in sizes + [(0, 0), (0, 2), (2, 0)] if x != y] + [((2, 3), (1, 6)), ((0, 2), (2, 0)), ((6, 1), (2, 3))]
    for x, y in pairs:
        for v in (lambda i, k: Fraction(0), lambda i, k: Fraction(1)):
            if attempt(x, y, v, v):
                return "accepts collections of extents %s and %s" % (x, y)
    return None


def t_axis(P, fn, ax):
    id = "util::" + fn
    rule = "returns only if the extent along the axis is the given size"
    r = run(P, id)
    if r.status != "ok":
        return [undec(id, r, rule)]
    d = dims_of(r, "a")[ax]
    s, det = PV.check_cond(eq(d, r.args["size"]), r.facts())
    return [dict(id=id, status=s, detail=det or "extent equal", rule=rule, fns=sorted(fns_of(r)))]


import loops as LOOPS


def c29(P, tier):
    return [("eq_slice", t_eq, ("eq_slice", 1, (None,))), ("eq_slice_c", t_eq, ("eq_slice_c", 1, ("re", "im"))),
            ("eq_nd", t_eq, ("eq_nd", 2, (None,))), ("eq_nd_c", t_eq, ("eq_nd_c", 2, ("re", "im"))),
            ("check0", t_axis, ("check0", 0)), ("check1", t_axis, ("check1", 1))]


CHECKS = {"C29": c29}
