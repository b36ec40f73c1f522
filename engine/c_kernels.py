"""Slice kernels and matrices of the bases: C01-C04, C09-C22 (kernel level)."""
import re
from core import *
from fractions import Fraction
from c_spaces import ob, undec, overwrite_ob, domain_of, BASES

KB = ["cheb", "dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b", "r2c", "c2c"]
COMPO = ["dirichlet", "neumann", "dirichlet_neumann", "biharmonic_a", "biharmonic_b"]
MINN = {"cheb": 2, "dirichlet": 4, "neumann": 4, "dirichlet_neumann": 4, "biharmonic_a": 8, "biharmonic_b": 8, "r2c": 1, "c2c": 1}
DROP = {"cheb": 0, "dirichlet": 2, "neumann": 2, "dirichlet_neumann": 2, "biharmonic_a": 4, "biharmonic_b": 4}
ELS = {"r2c": ["c"], "c2c": ["c"]}
N = sym("u:n")
K = sym("u:k")
OPS2 = ["to_ortho", "from_ortho", "gradient"]
SZ = {"phys": 0, "spec": 1, "orth": 2}
_cache = {}


def ops_of(b):
    out = [("forward_slice", "forward"), ("backward_slice", "backward")]
    for t in ELS.get(b, ["r", "c"]):
        for o in OPS2:
            out.append(("%s::%s_slice" % (t, o), o))
    return out


def kname(b, fn, mod="k"):
    return "%s::%s::%s" % (mod, b, fn)


def accepted(b):
    def pre(ip, st, args):
        st.assume(ge0(N - MINN[b]))
    return pre


def krun(P, b, fn, mod="k", solver=True, pre=None, key=None):
    k = (id(P), b, fn, mod, solver, key)
    if key is None and pre is not None:
        k = None
    r = _cache.get(k)
    if r is None:
        r = run(P, kname(b, fn, mod), OPS.handlers("solver") if solver else None, pre or accepted(b))
        if k is not None:
            _cache[k] = r
    return r


def dead(id, r, rule):
    return dict(id=id, status="bad", detail="never completes", rule=rule, fns=sorted(fns_of(r)))


def stop(id, r, rule):
    if r.status == "undecided":
        return undec(id, r, rule)
    if r.status == "dead":
        return dead(id, r, rule)
    return None


def spec_size(b, kind):
    if b == "r2c":
        return N if kind == "phys" else fdiv(N, 2) + 1
    if b == "c2c" or b == "cheb":
        return N
    return N if kind != "spec" else N - DROP[b]


def index(name, dim):
    v = sym("u:" + name)
    return v, [ge0(v), lt(v, dim)]


def inrange(v, hi):
    return cand(ge0(v), lt(v, hi))


# ------------------------------------------------------------------ C01
def t_c01(P, root, pre=None):
    rule = "every unchecked element access is inside the addressed buffer"
    r = run(P, root, None, pre)
    if r.status == "undecided":
        return [undec(root, r, rule)]
    by = {}
    for e in r.ip.ev:
        if e["kind"] != "unchecked":
            continue
        k = e["stack"][-1] if e["stack"] else ("?", 0)
        facts = [c for _, c in e["pc"]]
        c = e["cond"]
        if c is TRUE:
            it = ("ok", "")
        elif not feasible(facts):
            it = ("ok", "")
        else:
            it = prove_cond(c, facts)
        by.setdefault((e.get("fn") or k[0]), []).append(it + (c,))
    out = []
    for fn, its in sorted(by.items(), key=str):
        s, d = worst([(a, (b and "access out of bounds, needs %s: %s" % (str(c)[:120], b))) for a, b, c in its])
        out.append(dict(id="%s@%s" % (root, fn), status=s, detail=d if s != "ok" else "%d unchecked accesses inside" % len(its), rule=rule, fns=sorted(fns_of(r))))
    if not out:
        out.append(dict(id=root, status="ok", detail="no unchecked access on any path", rule=rule, fns=sorted(fns_of(r))))
    return out


def prove_cond(c, facts, depth=0):
    """conditions under facts, splitting cases on disjunctions"""
    if entails(facts, c):
        return ("ok", "")
    for f in facts:
        if f.kind == "or" and depth < 5:
            rest = [g for g in facts if g is not f]
            its = [prove_cond(c, rest + conjuncts(x), depth + 1) for x in f.args if feasible(rest + conjuncts(x))]
            if all(s == "ok" for s, _ in its):
                return ("ok", "")
            break
    if depth:
        return ("unknown", "")
    return PV.check_cond(c, facts)


# ------------------------------------------------------------------ C02 / C03 / C04 kernels
def t_c02(P, b, mod="k"):
    out = []
    rule = "the slice kernel completes only for the prescribed extents"
    sz = krun(P, b, "sizes", mod)
    for fn, op in ops_of(b):
        r = krun(P, b, fn, mod)
        id = kname(b, fn, mod)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        if sz.status != "ok":
            out.append(undec(id, sz, rule))
            continue
        ka, kb = OPS.SIZES[op]
        sizes = sz.ret.fields if isinstance(sz.ret, Agg) else None
        if sizes is None:
            out.append(dict(id=id, status="unknown", detail="sizes", rule=rule))
            continue
        got = domain_of(r)
        items = []
        for nm, kk in (("x", ka), ("y", kb)):
            c = eq(r.buf0(nm).dims[0], sizes[SZ[kk]])
            st, d = PV.check_cond(c, got)
            items.append((st, "" if st == "ok" else "completes although %s.len is not len_%s of the base: %s" % (nm, kk, d)))
        out.append(ob(id, items, rule, r))
    return out


def t_c03(P, b, mod="k"):
    rule = "no element of the output depends on its previous content"
    out = []
    for fn, op in ops_of(b):
        r = krun(P, b, fn, mod)
        out.append(overwrite_ob(kname(b, fn, mod), r, rule))
    return out


class Lin(object):
    """degree of a term in the data: Z zero, D data-free, L linear, T other"""

    def __init__(self, names):
        self.names = names
        self.ctx = {}
        self.why = ""
        self.memo = {}

    def top(self, why):
        self.why = self.why or why
        return "T"

    @staticmethod
    def join(a, b):
        if a == "Z":
            return b
        if b == "Z" or a == b:
            return a
        return "T"

    @staticmethod
    def times(a, b):
        if a == "Z" or b == "Z":
            return "Z"
        if "T" in (a, b) or (a == "L" and b == "L"):
            return "T"
        return "L" if "L" in (a, b) else "D"

    def poly(self, p):
        r = "Z"
        for m, v in p.m:
            t = "D"
            for a, e in m:
                c = self.atom(a)
                if c == "L" and e != 1:
                    c = self.top("power of data %s" % a)
                t = self.times(t, c)
            n = self.join(r, t)
            if n == "T" and "T" not in (r, t):
                self.top("a constant is added to a linear expression")
            r = n
        return r

    def free(self, x):
        """no data in x"""
        if isinstance(x, tuple):
            return all(self.free(y) for y in x)
        if isinstance(x, Lam):
            return self.free(x.body)
        if isinstance(x, Poly):
            return self.poly(x) in ("Z", "D")
        if isinstance(x, Cond):
            return all(self.free(y) for y in x.args)
        if isinstance(x, Atom):
            return self.atom(x) in ("Z", "D")
        return True

    def atom(self, a):
        if a.kind in ("sym", "bv", "I"):
            return "D"
        k = (a, tuple(sorted(self.ctx.items())))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._atom(a)
        return r

    def _atom(self, a):
        k = a.kind
        if k == "ite":
            if not self.free(a.args[0]):
                return self.top("condition on data: %s" % str(a.args[0])[:80])
            return self.join(self.poly(a.args[1]), self.poly(a.args[2]))
        if k == "sum":
            return self.poly(a.args[2].body) if self.free(a.args[:2]) else self.top("sum range")
        if k == "app":
            nm = a.args[0]
            if nm in self.names:
                return "L" if self.free(a.args[1:]) else self.top("index depends on data")
            if nm in self.ctx:
                return self.ctx[nm] if self.free(a.args[1:]) else self.top("index depends on data")
            if nm in ("fix", "iter", "rec"):
                return self.recur(a)
            base = nm[:-3] if nm.endswith((".re", ".im")) else nm
            if base in ("DCT1", "FFT", "RFFT", "IRFFT", "FFTchunks") or base.startswith("op:"):
                lam = a.args[-2]
                if not self.free(a.args[1:-2]) or not self.free(a.args[-1]):
                    return self.top("operator arguments")
                return self.poly(lam.body)
            if base.startswith("slv:"):
                if not self.free(a.args[1:-2]) or not self.free(a.args[-1]):
                    return self.top("matrix depends on data")
                return self.poly(a.args[-2].body)
        if self.free(a.args):
            return "D"
        return self.top("data inside %s" % (a.args[0] if k == "app" else k))

    def recur(self, a):
        nm = a.args[0]
        if nm == "fix":
            bodies, d, ix, inits = a.args[2], int(a.args[3].const()), a.args[4:], None
            pre = "@%d." % d
        elif nm == "iter":
            inits, bodies, d, ix = a.args[3], a.args[4], int(a.args[5].const()), (a.args[2],) + tuple(a.args[6:])
            pre = "@%d." % d
        else:
            inits, bodies, ix = a.args[2], a.args[3], (a.args[5],)
            pre = "@r%d_" % int(a.args[4].const())
        if not self.free(tuple(ix)):
            return self.top("index depends on data")
        cls = ["Z"] * len(bodies)
        save = dict(self.ctx)
        for _ in range(3 * len(bodies) + 3):
            new = []
            for j, l in enumerate(bodies):
                for i2 in range(len(bodies)):
                    self.ctx[pre + str(i2)] = cls[i2]
                c = self.poly(l.body if isinstance(l, Lam) else l)
                if inits is not None:
                    x = inits[j]
                    c = self.join(c, self.poly(x.body if isinstance(x, Lam) else x))
                new.append(self.join(cls[j], c))
            if new == cls:
                break
            cls = new
        self.ctx = save
        return cls[int(a.args[1].const())]


def lin_ob(id, r, got, rule, names_of):
    nm = names_of
    L = Lin(nm)
    items = []
    for c in r.facts():
        if not L.free(c):
            items.append(("bad", "completion depends on data: %s" % str(c)[:160]))
    vs = [sym("u:i%d" % i) for i in range(len(got.dims))]
    f = list(r.facts()) + [ge0(v) for v in vs] + [lt(v, d) for v, d in zip(vs, got.dims)]
    e = got.lam(*vs)
    c = L.poly(e)
    if c in ("L", "Z"):
        items.append(("ok", "linear"))
        return ob(id, items, rule, r)
    e = simp(e, f)
    L = Lin(nm)
    c = L.poly(e)
    if c in ("L", "Z"):
        items.append(("ok", "linear"))
        return ob(id, items, rule, r)

    def ren(x, suf):
        return rewrite(x, lambda a: pof(Atom("app", (suf + a.args[0],) + a.args[1:], a.sort)) if a.kind == "app" and a.args[0] in nm else None)

    def both(x):
        return rewrite(x, lambda a: (pof(Atom("app", ("p:" + a.args[0],) + a.args[1:], a.sort)) * 2 + pof(Atom("app", ("q:" + a.args[0],) + a.args[1:], a.sort))) if a.kind == "app" and a.args[0] in nm else None)
    s, d = PV.check_eq(both(e), 2 * ren(e, "p:") + ren(e, "q:"), f)
    if s == "unknown" and L.why.startswith(("condition", "power", "data inside", "a constant")):
        # thresholds on the data: f(c x) = c f(x) for very small and very large c
        for c in (Fraction(1, 10 ** 40), Fraction(10 ** 40), Fraction(-1)):
            z = rewrite(e, lambda a: (const(c) * pof(Atom("app", ("p:" + a.args[0],) + a.args[1:], a.sort))) if a.kind == "app" and a.args[0] in nm else None)
            PV.ZSCALE[0] = float(abs(c))
            w = PV.differ(z * const(Fraction(1) / c), ren(e, "p:"), f, secs=8, count=40)
            PV.ZSCALE[0] = 1
            if w is not None:
                s, d = "bad", "%s: the data scaled by %.0e gives %s per unit, expected %s" % (PV.showenv(w[0]), float(c), PV.shownum(w[1]), PV.shownum(w[2]))
                break
    if s == "unknown" and L.why.startswith(("condition", "power", "data inside", "a constant")):
        # thresholds relative to the largest value: a constant plus a small perturbation
        for c in (Fraction(1, 10 ** 5), Fraction(1, 10 ** 11)):
            data = {}
            for x in nm:
                v = Fraction(0) if x.endswith(".im") else Fraction(3, 2)
                data["p:" + x] = lambda ev, a, env, v=v: ev.args(a, env) and v
                data["q:" + x] = lambda ev, a, env, c=c: c * PV.hfrac("app", a.args[0], tuple(map(ev.ka, ev.args(a, env))))
            w = PV.differ(both(e), 2 * ren(e, "p:") + ren(e, "q:"), f, secs=8, count=40, data=data)
            if w is not None:
                s, d = "bad", "%s: a constant with a perturbation of relative size %.0e: got %s, expected %s" % (PV.showenv(w[0]), float(c), PV.shownum(w[1]), PV.shownum(w[2]))
                break
    items.append((s, "not linear in the data (%s) %s" % (L.why, d)))
    return ob(id, items, rule, r)


def data_names(r, buf="x"):
    """the data, and the previous content of the output (which C03 shows to
    have no influence)"""
    out = set()
    for k in (buf, "y"):
        if ("A", k) in r.mem0:
            out |= set(IT.elem_names(r.buf0(k).et, k))
    return out


def t_c04(P, b):
    rule = "outputs are homogeneous linear in the data; no branch on data"
    out = []
    for fn, op in ops_of(b):
        id = kname(b, fn)
        r = krun(P, b, fn)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        out.append(lin_ob(id, r, r.buf("y"), rule, data_names(r)))
    return out


def t_c04p(P, root):
    """the banded solvers are linear in the right-hand side"""
    rule = "solution is linear in the right-hand side; no branch on data"
    r = run(P, root, None, solver_pre(root))
    s = stop(root, r, rule)
    if s:
        return [s]
    return [lin_ob(root, r, r.buf("rhs"), rule, data_names(r, "rhs"))]


def t_c04a(P, b, cfg, op):
    import c_spaces as CS
    rule = "outputs are linear in the data; no branch on data"
    out = []
    for fn in CS.variants(op):
        id = "a::%s::%s::%s" % (b, cfg, fn)
        r = CS.a_run(P, b, cfg, fn)
        s = stop(id, r, rule)
        out.append(s or lin_ob(id, r, CS.a_result(r, "inplace" in fn), rule, data_names(r)))
    return out


def t_c04s(P, sp, op):
    import c_spaces as CS
    rule = "outputs are linear in the data; no branch on data"
    out = []
    for fn in CS.S_FNS[op]:
        id = "s::%s::%s" % (sp, fn)
        r = CS.s_run(P, sp, fn)
        s = stop(id, r, rule)
        out.append(s or lin_ob(id, r, CS.a_result(r, "inplace" in fn), rule, data_names(r)))
    return out


# ------------------------------------------------------------------ C09 umbrella types
MATS = ["sizes", "coords", "base_kind", "transform_kind", "diffmat", "diffmat_pinv", "stencil", "stencil_inv", "laplacian", "laplacian_pinv"]
KIND = {"cheb": "Chebyshev", "dirichlet": "ChebDirichlet", "neumann": "ChebNeumann", "dirichlet_neumann": "ChebDirichletNeumann",
        "biharmonic_a": "ChebBiHarmonicA", "biharmonic_b": "ChebBiHarmonicB", "r2c": "FourierR2c", "c2c": "FourierC2c"}


def t_c09k(P, b):
    """a query or operation through the umbrella type is that of the wrapped base"""
    out = []
    rule = "umbrella delegates to the wrapped base"
    for fn in MATS + [f for f, _ in ops_of(b)]:
        id = kname(b, fn, "u")
        r1, r2 = krun(P, b, fn, "k"), krun(P, b, fn, "u")
        if r1.status == "dead" and r2.status == "dead":
            out.append(dict(id=id, status="ok", detail="both refuse", rule=rule, fns=sorted(fns_of(r2))))
            continue
        if "undecided" in (r1.status, r2.status):
            r = r1 if r1.status == "undecided" else r2
            out.append(undec(id, r, rule))
            continue
        if r1.status != r2.status:
            out.append(dict(id=id, status="bad", detail="only one of umbrella and base completes (%s: %s, %s: %s)" % (r1.name, r1.status, r2.name, r2.status), rule=rule, fns=sorted(fns_of(r2))))
            continue
        f = nolayout(r1.facts()) + nolayout(r2.facts())
        items = []
        if fn.endswith("_slice"):
            items += cmp_vals(r2.buf("y"), r1.buf("y"), f, what=fn)
        else:
            items += cmp_vals(r2.ret, r1.ret, f, what=fn)
        g1, g2 = domain_of(r1), domain_of(r2)
        for g, h in ((g1, g2), (g2, g1)):
            for c in h:
                s, d = PV.check_cond(c, g)
                items.append((s, "" if s == "ok" else "accepted arguments differ: %s %s" % (c, d)))
        out.append(ob(id, items, rule, r2, fns_of(r1)))
    return out


def t_c09sizes(P, b):
    out = []
    rule = "constructor builds the announced family and sizes"
    for mod in ("k", "u"):
        r = krun(P, b, "sizes", mod)
        id = kname(b, "sizes=spec", mod)
        s = stop(id, r, rule)
        if s:
            out.append(s)
        else:
            items = []
            for kind, i in SZ.items():
                items += cmp_vals(r.ret.fields[i], spec_size(b, kind), r.facts(), what="len_" + kind)
            out.append(ob(id, items, rule, r))
        r = krun(P, b, "base_kind", mod)
        id = kname(b, "base_kind=spec", mod)
        s = stop(id, r, rule)
        if s:
            out.append(s)
        else:
            out.append(ob(id, variant_is(r, KIND[b], P), rule, r))
    return out


def variant_is(r, name, P):
    v = r.ret
    if not isinstance(v, EnumV):
        return [("unknown", "kind is not an enum value")]
    adt = P.adts.get(v.name)
    items = []
    for c, var, _p in v.cases:
        f = list(r.facts()) + conjuncts(c)
        if not feasible(f):
            continue
        vn = adt["variants"][var][0] if isinstance(var, int) and adt else str(var)
        if vn == name:
            items.append(("ok", vn))
        else:
            ok = next(iter(PV.models(f, (), count=1)), None)
            items.append(("bad" if ok is not None else "unknown", "base kind is %s, the constructor announces %s" % (vn, name)))
    return items or [("unknown", "no kind")]


# ------------------------------------------------------------------ stencils
def stencil_of(P, b):
    r = krun(P, b, "stencil")
    return r


BW = 4


def S_at(r, i, j):
    """entry with the range of the indices built in"""
    n, m = r.ret.dims
    return ite(cand(inrange(i, n), inrange(j, m)), r.ret.lam(i, j), ZERO)


def sten(r, j, d):
    """S(j+d, j) for a valid column j"""
    n = r.ret.dims[0]
    if d < 0:
        return ite(ge0(j + d), r.ret.lam(j + d, j), ZERO)
    return ite(lt(j + d, n), r.ret.lam(j + d, j), ZERO)


def t_c10(P, b):
    out = []
    rule = "to_ortho(x)(i) = sum_j S(i,j) x(j) with the reported stencil S"
    rs = stencil_of(P, b)
    id0 = kname(b, "stencil")
    s = stop(id0, rs, rule)
    if s:
        return [s]
    # extents and band of the stencil
    f = list(rs.facts())
    items = cmp_vals(rs.ret.dims[0], N, f, what="rows") + cmp_vals(rs.ret.dims[1], spec_size(b, "spec"), f, what="columns")
    i, fi = index("i0", rs.ret.dims[0])
    j, fj = index("j0", rs.ret.dims[1])
    for c in (ge0(j - i - 1), ge0(i - j - BW - 1)):
        items += [PV.check_eq(rs.ret.lam(i, j), ZERO, f + fi + fj + [c])]
    out.append(ob(id0, items, "extents and band of the stencil", rs))
    for t in ("r", "c"):
        fn = "%s::to_ortho_slice" % t
        id = kname(b, fn)
        r = krun(P, b, fn)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        e = ZERO
        m = x.dims[0]
        for d in range(0, BW + 1):
            e = e + ite(cand(ge0(i - d), lt(i - d, m)), rs.ret.lam(i, i - d) * x.lam(i - d), ZERO)
        f = list(r.facts()) + list(rs.facts()) + fi
        out.append(ob(id, [PV.check_eq(y.lam(i), e, f)], rule, r, fns_of(rs)))
    return out


def gram(rs, i, e):
    """(S^T S)(i, i+e) for valid columns"""
    r = ZERO
    for d in range(0, BW + 1):
        if 0 <= d - e <= BW:
            r = r + ite(lt(i + d, rs.ret.dims[0]), rs.ret.lam(i + d, i) * rs.ret.lam(i + d, i + e), ZERO)
    return r


def t_c11(P, b):
    out = []
    rule = "from_ortho solves S^T S y = S^T x with the reported stencil S"
    rs = stencil_of(P, b)
    s = stop(kname(b, "stencil"), rs, rule)
    if s:
        return [s]
    m = rs.ret.dims[1]
    for t in ("r", "c"):
        fn = "%s::from_ortho_slice" % t
        id = kname(b, fn)
        r = krun(P, b, fn)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        out.append(projection_ob(id, r, rs, m, rule))
    out += stencil_inv_obs(P, b, rs)
    return out


def projection_ob(id, r, rs, m, rule):
    y, x = r.buf("y"), r.buf0("x")
    facts = list(r.facts()) + list(rs.facts())
    i, fi = index("i0", m)
    f = facts + fi
    items = []

    def rhs_spec(ix):
        e = ZERO
        for d in range(0, BW + 1):
            e = e + ite(lt(ix + d, rs.ret.dims[0]), rs.ret.lam(ix + d, ix) * x.lam(ix + d), ZERO)
        return e
    ev = [e for e in r.ip.ev if e["kind"] == "solve"]
    got = y.lam(i)
    if len(ev) == 1 and items_ok(cmp_vals(got, OPS.solve_term(ev[0]["solver"], ev[0]["n"], ev[0]["lams"], ev[0]["rhs"], i), f)):
        e = ev[0]
        offs = OPS.BANDS[e["solver"]]
        for o, l in zip(offs, e["lams"]):
            # l(t): row t (o>=0) or row t-o
            fo = facts + fi + [lt(i + abs(o), m)]
            if not feasible(fo):
                continue
            want = gram(rs, i, abs(o))
            items += [tag(PV.check_eq(l(i), want, fo), "diagonal %+d of the normal matrix" % o)]
        for o in range(1, 2 * BW + 1):
            if o not in offs:
                fo = facts + fi + [lt(i + o, m)]
                items += [tag(PV.check_eq(gram(rs, i, o), ZERO, fo), "offset %d of the normal matrix is not stored" % o)]
        items += [tag(PV.check_eq(e["rhs"](i), rhs_spec(i), f), "right-hand side")]
        items += cmp_vals(e["n"], m, facts, what="number of unknowns")
        s, d = worst(items)
        if s == "ok":
            return ob(id, items, rule, r, fns_of(rs))
    # the residual itself
    res = ZERO
    for o in range(-BW, BW + 1):
        ga = gram(rs, i + o, -o) if o < 0 else gram(rs, i, o)
        res = res + ite(inrange(i + o, m), ga * y.lam(i + o), ZERO)
    s, d = PV.check_eq(res, rhs_spec(i), f, secs=60, unfold=2)
    return dict(id=id, status=s, detail=("row of the normal equations: " + d) if d else "residual", rule=rule, fns=sorted(fns_of(r) | fns_of(rs)))


def tag(sd, what):
    return (sd[0], what + (": " + sd[1] if sd[1] else ""))


def items_ok(items):
    return all(s == "ok" for s, _ in items)


def stencil_inv_obs(P, b, rs):
    rule = "reported stencil inverse times reported stencil is the identity"
    id = kname(b, "stencil_inv")
    r = krun(P, b, "stencil_inv")
    s = stop(id, r, rule)
    if s:
        return [s]
    f = list(r.facts()) + list(rs.facts())
    m = rs.ret.dims[1]
    items = cmp_vals(r.ret.dims[0], m, f, what="rows") + cmp_vals(r.ret.dims[1], rs.ret.dims[0], f, what="columns")
    i, fi = index("i0", m)
    j, fj = index("j0", m)
    e = ZERO
    for d in range(0, BW + 1):
        e = e + ite(lt(j + d, rs.ret.dims[0]), r.ret.lam(i, j + d) * rs.ret.lam(j + d, j), ZERO)
    items += [tag(PV.check_eq(e, ite(eq(i, j), ONE, ZERO), f + fi + fj, secs=60, unfold=2), "entry of the product")]
    return [ob(id, items, rule, r, fns_of(rs))]


# ------------------------------------------------------------------ C12
BC = {"dirichlet": (("v", -1), ("v", 1)), "neumann": (("d", -1), ("d", 1)), "dirichlet_neumann": (("v", -1), ("d", 1)),
      "biharmonic_a": (("v", -1), ("v", 1), ("d", -1), ("d", 1)), "biharmonic_b": (("v", -1), ("v", 1), ("s", -1), ("s", 1))}
BCNAME = {"v": "value", "d": "first derivative", "s": "second derivative"}


def edge(kind, k):
    """T_k, T_k', T_k'' at +1 (exact)"""
    if kind == "v":
        return ONE
    if kind == "d":
        return k * k
    return k * k * (k * k - 1) * const(Fraction(1, 3))


def t_c12(P, b):
    rule = "every column of the stencil satisfies the homogeneous conditions"
    rs = stencil_of(P, b)
    id = kname(b, "stencil")
    s = stop(id, rs, rule)
    if s:
        return [s]
    j, fj = index("j0", rs.ret.dims[1])
    f = list(rs.facts()) + fj
    out = []
    for kind, side in BC[b]:
        e = ZERO
        for d in range(0, BW + 1):
            k = j + d
            sg = 1 if side == 1 else ((-1) ** d if kind != "d" else (-1) ** (d + 1))
            e = e + sg * ite(lt(k, rs.ret.dims[0]), rs.ret.lam(k, j) * edge(kind, k), ZERO)
        out.append(ob("%s:%s(%+d)" % (id, BCNAME[kind], side), [tag(PV.check_eq(e, ZERO, f), "%s at %+d of the basis function" % (BCNAME[kind], side))], rule, rs))
    # band: nothing of a column lies outside the rows summed above
    i, fi = index("i0", rs.ret.dims[0])
    its = [PV.check_eq(rs.ret.lam(i, j), ZERO, f + fi + [c]) for c in (ge0(j - i - 1), ge0(i - j - BW - 1))]
    out.append(ob(id + ":band", its, rule, rs))
    # columns are independent: the leading entry does not vanish
    return out


# ------------------------------------------------------------------ C13
def solver_pre(root):
    nm = root.split("::")[-1].replace("_checked", "")
    offs = OPS.BANDS[nm]

    def pre(ip, st, args):
        n = st.mem[("A", "rhs")].dims[0]
        for a, o in zip([k for k in args if k != "rhs"], offs):
            st.assume(eq(st.mem[("A", a)].dims[0], n - abs(o)))
        st.assume(ge0(n - OPS.MINN[nm]))
    return pre


def rows_hold(r, nm, lo=10, hi=10):
    """every row of the banded system, split by the position of the row"""
    import pit
    y, b = r.buf("rhs"), r.buf0("rhs")
    n = y.dims[0]
    names = [k for k in r.args if k != "rhs"]
    ext = {}
    for a, o in zip(names, OPS.BANDS[nm]):
        s = [z for z in r.buf0(a).dims[0].atoms() if z.kind == "sym"]
        if len(s) == 1 and s[0] not in n.atoms():
            ext[s[0]] = n - abs(o)
    i = sym("u:i0")
    lo, hi = (10, 10) if nm == "pdma2" else (6, 6)
    n0 = lo + hi + 1
    big = [ge0(n - n0)]
    regions = [(i, [ge0(i - lo), lt(i, n - hi)], big)]
    regions += [(const(k), big, big) for k in range(lo)]
    regions += [(n - 1 - k, big, big) for k in range(hi)]
    regions += [(const(k), [eq(n, m)], [eq(n, m)]) for m in range(OPS.MINN[nm], n0) for k in range(m)]
    bad = []
    for ix, fx, cl in regions:
        base = [g for g in (subst_atoms(x, ext) for x in r.facts()) if g is not TRUE] + [c for c in fx if c is not TRUE]
        closed = [g for g in (subst_atoms(x, ext) for x in r.facts()) if g is not TRUE] + cl
        sub = dict(PV.eqsubst(closed))

        def S(x):
            x = subst_atoms(x, ext)
            return subst_atoms(x, sub) if sub else x
        base = [g for g in (S(x) for x in base) if g is not TRUE]
        closed = [g for g in (S(x) for x in closed) if g is not TRUE]
        prods, ok = [(const(-1), S(b.lam(ix)))], True
        for a, o in zip(names, OPS.BANDS[nm]):
            c = TT.decide(base, S(inrange(ix + o, n)))
            if c is None:
                ok = False
            elif c:
                prods.append((S(r.buf0(a).lam(ix if o >= 0 else ix + o)), S(y.lam(ix + o))))
        try:
            ok = ok and pit.identity(prods, base, closed)
        except Undecided:
            ok = False
        if not ok:
            bad.append((ix, fx))
    if not bad:
        return [("ok", "")]
    # a concrete counterexample, or no answer
    j, fj = index("i0", n)
    f = list(r.facts()) + fj
    e = ZERO
    for a, o in zip(names, OPS.BANDS[nm]):
        e = e + ite(inrange(j + o, n), r.buf0(a).lam(j if o >= 0 else j + o) * y.lam(j + o), ZERO)
    d = PV.differ(e, b.lam(j), f, secs=60)
    if d:
        env, va, vb = d
        return [("bad", "row of the system at %s: left side %s, right side %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb)))]
    return [("unknown", "%d of %d row regions not proven, e.g. row %s" % (len(bad), len(regions), bad[0][0]))]


def t_c13(P, nm, t):
    out = []
    rule = "row i of the banded system holds for the returned vector"
    rr = {}
    for suf in ("", "_checked"):
        root = "p::%s::%s%s" % (t, nm, suf)
        r = run(P, root, None, solver_pre(root))
        rr[suf] = r
        s = stop(root, r, rule)
        if s:
            out.append(s)
            continue
        items = rows_hold(r, nm)
        names = [k for k in r.args if k != "rhs"]
        n = r.buf("rhs").dims[0]
        out.append(ob(root, items, rule, r))
        want = [c for c in (domain_of(r))]
        items = []
        base = [ge0(n - OPS.MINN[nm])] + [eq(r.buf0(a).dims[0], n - abs(o)) for a, o in zip(names, OPS.BANDS[nm])]
        for c in want:
            s, d = PV.check_cond(c, base)
            items.append((s, "" if s == "ok" else "refuses a system of admissible extents: %s %s" % (c, d)))
        out.append(ob(root + ":accepts", items, "accepts every system of admissible extents", r))
    a, c = rr[""], rr["_checked"]
    if a.status == "ok" and c.status == "ok":
        f = list(a.facts()) + list(c.facts())
        out.append(ob("p::%s::%s=checked" % (t, nm), cmp_vals(a.buf("rhs"), c.buf("rhs"), f, what="checked vs unchecked"), "checked and unchecked variants compute the same", a, fns_of(c)))
    return out


def T(*a):
    return a


def k_roots(P, pre):
    return [k for k in sorted(P.roots) if k.startswith(pre)]


def c01_tasks(P, tier):
    out = []
    for k in k_roots(P, "k::") + k_roots(P, "stat::"):
        if k.endswith("::new") and False:
            continue
        out.append((k, t_c01, (k,)))
    return out


def solver_roots(P):
    return [k for k in sorted(P.roots) if re.match(r"p::[fc]::(tdma|pdma|pdma2)(_checked)?$", k)]


def per_base(fn, bases=KB, tag=""):
    def g(P, tier):
        return [("%s%s" % (b, tag), fn, (b,)) for b in bases]
    return g


def c04_tasks(P, tier):
    import c_spaces as CS
    out = per_base(t_c04)(P, tier)
    out += [(k, t_c04p, (k,)) for k in solver_roots(P)]
    for b in CS.BASES:
        for cfg, nd, ax in CS.CFGS:
            for op in CS.OPN:
                out.append(("a::%s::%s::%s" % (b, cfg, op), t_c04a, (b, cfg, op)))
    for sp in CS.SPACES:
        for op in CS.OPN:
            out.append(("s::%s::%s" % (sp, op), t_c04s, (sp, op)))
    return out


def c13_tasks(P, tier):
    return [("%s::%s" % (t, nm), t_c13, (nm, t)) for nm in ("pdma2", "pdma", "tdma") for t in ("f", "c")]


CHECKS = {
    "C01": c01_tasks,
    "C02": per_base(t_c02),
    "C03": per_base(t_c03),
    "C04": c04_tasks,
    "C09": lambda P, tier: per_base(t_c09k)(P, tier) + per_base(t_c09sizes, tag=":sizes")(P, tier),
    "C10": per_base(t_c10, COMPO),
    "C11": per_base(t_c11, COMPO),
    "C12": per_base(t_c12, COMPO),
    "C13": c13_tasks,
}
