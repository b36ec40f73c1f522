"""Meaning of the transforms, derivatives and matrices of the bases: C14-C20, C22."""
from core import *
import terms as TT
from fractions import Fraction
from c_kernels import (krun, stop, index, tag, ob, undec, kname, items_ok, ops_of, spec_size, inrange, accepted,
                       KB, COMPO, MINN, ELS, N, K, worst, fns_of)

PI = sym("pi", "num")
CHEB = ["cheb"]
FOUR = ["r2c", "c2c"]


def cos(p):
    return app("cos", p)


def sin(p):
    return app("sin", p)


def sumof(lo, hi, f):
    v = freshv()
    return mksum(lo, hi, Lam((v,), f(pof(v))))


def sgn(k):
    return ite(eq(mod(k, 2), ZERO), ONE, -ONE)


def plan_in(p):
    """names of the plans used by a term"""
    out = []

    def f(a):
        if a.kind == "app" and a.args[0].split(".")[0] in ("DCT1", "FFT", "RFFT", "IRFFT", "FFTchunks") and a.args[1] not in out:
            out.append(a.args[1])
        return None
    rewrite(p, f)
    return out


def canon_plan(p):
    """the plan's documented meaning depends only on its kind: rename"""
    def f(a):
        if a.kind == "app" and a.args[0].split(".")[0] in ("DCT1", "FFT", "RFFT", "IRFFT"):
            nm = a.args[0].split(".")[0]
            pn = "inverse" if "inverse" in a.args[1] else "forward" if "forward" in a.args[1] else "dct1"
            return pof(Atom("app", (a.args[0], "plan_" + pn) + a.args[2:], a.sort))
        return None
    return rewrite(p, f)


def dct1(n, f, i):
    v = freshv()
    return pof(Atom("app", ("DCT1", "plan_dct1", n, Lam((v,), f(pof(v))), i), "num"))


def fft(kind, dirn, n, f, i):
    v = freshv()
    l = Lam((v,), f(pof(v)))
    return app(kind + ".re", "plan_" + dirn, n, l, i) + I * app(kind + ".im", "plan_" + dirn, n, l, i)


def verdict(got, forms, direct, facts, secs=40):
    """proof against one of the equivalent canonical forms; refutation against
    the definition itself"""
    got = canon_plan(got)
    for w in forms:
        if PV.eqv(got, w, facts, secs, 0):
            return ("ok", "")
    r = PV.differ(got, direct, facts, secs=25)
    if r is None:
        r = PV.differ(got, direct, facts, secs=12, count=30, hi=26, salt=5)
    for w in forms:
        r = r or PV.differ_long(got, w, facts)
    if r is not None:
        env, va, vb = r
        return ("bad", "at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb)))
    return ("unknown", "")


def dims_ok(r, b, kx, ky):
    """extents inside the path condition are those of the base"""
    return []


# ------------------------------------------------------------------ C14
def t_c14(P, b):
    out = []
    rule = "backward = sum_k c_k T_k at the grid; forward is its inverse (DCT-I of the documented back end)"
    r = krun(P, b, "backward_slice")
    id = kname(b, "backward_slice")
    s = stop(id, r, rule)
    if s:
        out.append(s)
    else:
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        f = list(r.facts()) + fi
        n = N
        two = lambda k: ite(cor(eq(k, ZERO), eq(k, n - 1)), const(2), ONE)
        X = x.lam
        forms = [dct1(n, lambda k: two(k) * sgn(k) * X(k), i),
                 dct1(n, lambda k: two(k) * X(k), n - 1 - i)]
        direct = sumof(ZERO, n, lambda k: X(k) * sgn(k) * cos(PI * k * i * inv(n - 1)))
        out.append(ob(id, [tag(verdict(y.lam(i), forms, direct, f), "value at grid point i0")], rule, r))
    r = krun(P, b, "forward_slice")
    id = kname(b, "forward_slice")
    s = stop(id, r, rule)
    if s:
        out.append(s)
    else:
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        f = list(r.facts()) + fi
        n = N
        X = x.lam
        half = ite(cor(eq(i, ZERO), eq(i, n - 1)), const(Fraction(1, 2)), ONE)
        sc = 2 * inv(n - 1)
        forms = [half * dct1(n, lambda k: sc * X(n - 1 - k), i), half * sgn(i) * dct1(n, lambda k: sc * X(k), i),
                 half * sc * dct1(n, lambda k: X(n - 1 - k), i), half * sc * sgn(i) * dct1(n, lambda k: X(k), i)]
        hj = lambda j: ite(cor(eq(j, ZERO), eq(j, n - 1)), const(Fraction(1, 2)), ONE)
        direct = half * sc * sumof(ZERO, n, lambda j: hj(j) * X(j) * sgn(i) * cos(PI * i * j * inv(n - 1)))
        out.append(ob(id, [tag(verdict(y.lam(i), forms, direct, f), "coefficient i0")], rule, r))
    out += accepts(P, b, [("backward_slice", "spec", "phys"), ("forward_slice", "phys", "spec")])
    return out


def sized(b, kx, ky):
    def pre(ip, st, args):
        st.assume(ge0(N - MINN[b]))
        st.assume(eq(st.mem[("A", "x")].dims[0], spec_size(b, kx)))
        st.assume(eq(st.mem[("A", "y")].dims[0], spec_size(b, ky)))
    return pre


MINFROM = {"dirichlet_neumann": 6}


def accepts(P, b, fns, mod_="k", rule="completes for every accepted size and the prescribed extents"):
    out = []
    for fn, kx, ky in fns:
        id = kname(b, fn, mod_) + ":accepts"
        r = krun(P, b, fn, mod_)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        base = [ge0(N - MINN[b]), eq(r.buf0("x").dims[0], spec_size(b, kx)), eq(r.buf0("y").dims[0], spec_size(b, ky))]
        items = []
        from c_spaces import domain_of
        for c in domain_of(r):
            st, d = PV.check_cond(c, base)
            items.append((st, "" if st == "ok" else "refuses an accepted size: %s %s" % (c, d)))
        out.append(ob(id, items or [("ok", "")], rule, r))
    return out


# ------------------------------------------------------------------ C15
def t_c15(P, b):
    out = []
    rule = "backward = (1/n) sum of the Fourier series at the grid; forward is its inverse (documented back ends)"
    n = N
    r = krun(P, b, "backward_slice")
    id = kname(b, "backward_slice")
    s = stop(id, r, rule)
    if s:
        out.append(s)
    else:
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        f = list(r.facts()) + fi
        X = x.lam
        got = y.lam(i)
        sc = inv(n)
        ang = lambda k: 2 * PI * k * i * inv(n)
        if b == "c2c":
            forms = [fft("FFT", "inverse", n, lambda k: sc * X(k), i), sc * fft("FFT", "inverse", n, lambda k: X(k), i)]
            re = lambda k: reim(X(k))[0]
            im = lambda k: reim(X(k))[1]
            d1 = sc * sumof(ZERO, n, lambda k: re(k) * cos(ang(k)) - im(k) * sin(ang(k)))
            d2 = sc * sumof(ZERO, n, lambda k: re(k) * sin(ang(k)) + im(k) * cos(ang(k)))
            g = reim(canon_plan(got))
            its = [tag(verdict(g[0], [reim(w)[0] for w in forms], d1, f), "real part at grid point i0"),
                   tag(verdict(g[1], [reim(w)[1] for w in forms], d2, f), "imaginary part at grid point i0")]
        else:
            h = fdiv(n, 2) + 1
            edge = lambda k: cor(eq(k, ZERO), eq(2 * k, n))

            def irf(fn):
                v = freshv()
                return pof(Atom("app", ("IRFFT", "plan_inverse", n, Lam((v,), fn(pof(v))), i), "num"))
            re = lambda k: reim(X(k))[0]
            im = lambda k: reim(X(k))[1]
            z = lambda k: ite(edge(k), ZERO, im(k))
            forms = [irf(lambda k: sc * re(k) + I * sc * z(k)), sc * irf(lambda k: re(k) + I * z(k))]
            w = lambda k: ite(edge(k), ONE, const(2))
            d1 = sc * sumof(ZERO, h, lambda k: w(k) * (re(k) * cos(ang(k)) - z(k) * sin(ang(k))))
            its = [tag(verdict(got, forms, d1, f), "value at grid point i0")]
        out.append(ob(id, its, rule, r))
        # the real back end refuses imaginary parts in the first and last mode
        ev = [e for e in r.ip.ev if e["kind"] == "c2r"]
        its = []
        for e in ev:
            c = e["cond"]
            facts = [q for _, q in e["pc"]]
            its.append(fz(c, facts))
        if b == "r2c":
            out.append(ob(id + ":imaginary parts", its or [("unknown", "no real back end call")], "imaginary parts a real signal cannot have never reach the back end", r))
    r = krun(P, b, "forward_slice")
    id = kname(b, "forward_slice")
    s = stop(id, r, rule)
    if s:
        out.append(s)
    else:
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        f = list(r.facts()) + fi
        X = x.lam
        got = canon_plan(y.lam(i))
        ang = lambda k: 2 * PI * k * i * inv(n)
        re = lambda k: reim(X(k))[0]
        im = lambda k: reim(X(k))[1]
        kind = "FFT" if b == "c2c" else "RFFT"
        w = fft(kind, "forward", n, lambda k: X(k), i)
        d1 = sumof(ZERO, n, lambda k: re(k) * cos(ang(k)) + im(k) * sin(ang(k)))
        d2 = sumof(ZERO, n, lambda k: im(k) * cos(ang(k)) - re(k) * sin(ang(k)))
        g = reim(got)
        its = [tag(verdict(g[0], [reim(w)[0]], d1, f), "real part of coefficient i0"),
               tag(verdict(g[1], [reim(w)[1]], d2, f), "imaginary part of coefficient i0")]
        out.append(ob(id, its, rule, r))
    out += accepts(P, b, [("backward_slice", "spec", "phys"), ("forward_slice", "phys", "spec")])
    out += phase_obs(P, b)
    return out


def fz(c, facts):
    """conditions 'this term is zero'"""
    if c.kind == "and":
        return worst([fz(x, facts) for x in c.args])
    if c.kind == "atom" and c.args[0] == "fzero":
        return tag(PV.check_eq(c.args[1], ZERO, facts), "imaginary part of the first or last mode")
    if c.kind == "or":
        rest = [x for x in c.args if not (x.kind == "atom" and x.args[0] == "fzero")]
        zs = [x for x in c.args if x not in rest]
        if len(zs) == 1:
            return fz(zs[0], list(facts) + [cnot(x) for x in rest])
    return PV.check_cond(c, facts)


def phase_obs(P, b):
    """wavenumber(l) * coords(j) = 2 pi l j / n modulo 2 pi"""
    rule = "reported wavenumbers and grid points give the phases of the transform"
    rw = run(P, "stat::%s_wavenumber" % b, None, accepted(b))
    rc = krun(P, b, "coords")
    id = kname(b, "phases")
    for r in (rw, rc):
        s = stop(id, r, rule)
        if s:
            return [s]
    l, fl = index("i0", spec_size(b, "spec"))
    f = list(rw.facts()) + list(rc.facts()) + fl
    re, im = reim(rw.ret.lam(l))
    items = cmp_vals(rw.ret.dims[0], spec_size(b, "spec"), f, what="number of wavenumbers")
    items += [tag(PV.check_eq(re, ZERO, f), "real part of i k")]
    items += [tag(cong(im, l, f), "wavenumber of coefficient i0 modulo n")]
    return [ob(id, items, rule, rw, fns_of(rc))]


def cong(im, l, f):
    """im = l or im = l - n"""
    a = ite(ge0(im), l, l - N)
    return PV.check_eq(im, a, f) if not has_ite(im) else split(im, lambda v, g: either(v, (l, l - N), g), f)


def either(v, ws, f):
    bad = None
    for w in ws:
        if PV.eqv(v, w, f):
            return ("ok", "")
    env_ok = True
    for env in PV.models(f, (v,) + tuple(ws), count=40):
        ev = PV.Evaluator(5)
        try:
            x = ev.poly(v, env)
            if not any(PV.close(x, ev.poly(w, env)) for w in ws):
                return ("bad", "at %s: got %s" % (PV.showenv(env), PV.shownum(x)))
        except PV.EvalFail:
            continue
    return ("unknown", "")


def split(p, fn, f, depth=0):
    """case split on the outermost choices of p"""
    p = simp(p, f)
    its = outer_ites(p)
    if not its or depth > 8:
        return fn(p, f)
    c = its[0]
    out = []
    for lit in (c, cnot(c)):
        g = list(f) + conjuncts(lit)
        if not feasible(g):
            continue
        out.append(split(p, fn, g, depth + 1))
    return worst(out) if any(s != "ok" for s, _ in out) else ("ok", "")


# ------------------------------------------------------------------ C16
def subst_state(p, d, fn):
    """replace references to the state of an iteration at depth d"""
    def f(a):
        if a.kind == "app" and a.args[0].startswith("@%d." % d):
            return fn(int(a.args[0].split(".")[1]), a.args[1:])
        return None
    return rewrite(p, f)


def spec_grad(n, k, X, i):
    """k-fold derivative of a Chebyshev series (recurrence from the top)"""
    t, j, j2 = freshv(), freshv(), freshv()
    D1, D2 = "@21.0", "@22.0"
    a = lambda m: app(D2, m)
    jj = pof(j2)
    body = ite(ge0(jj - n + 1), ZERO, (2 * (jj + 1) * a(jj + 1) + ite(ge0(n - 3 - jj), app(D1, jj + 2), ZERO)) * ite(eq(jj, ZERO), const(Fraction(1, 2)), ONE))
    fx = pof(Atom("app", ("fix", ZERO, (Lam((j2,), body),), const(21), pof(j)), "num"))
    v = freshv()
    return pof(Atom("app", ("iter", ZERO, k, (Lam((v,), X(pof(v))),), (Lam((t, j), fx),), const(22), i), "num"))


def gcomp(p):
    """the iteration atom of one real component, or None"""
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        a = p.m[0][0][0][0]
        if a.kind == "app" and a.args[0] == "iter":
            return a
    return None


def t_c16g(P, b, t):
    rule = "one derivative step satisfies c_j b_j - b_{j+2} = 2(j+1) a_{j+1}; iterated order times from the input"
    fn = "%s::gradient_slice" % t
    r = krun(P, b, fn)
    id = kname(b, fn)
    s = stop(id, r, rule)
    if s:
        return [s]
    y, x = r.buf("y"), r.buf0("x")
    n = N
    i, fi = index("i0", y.dims[0])
    f = list(r.facts()) + fi
    items = []
    comps = [(0, "")] if t == "r" else [(0, "real "), (1, "imaginary ")]
    for ci, cn in comps:
        got = simp(reim(y.lam(i))[ci] if t == "c" else y.lam(i), f)
        X = (lambda m, ci=ci: reim(x.lam(m))[ci]) if t == "c" else x.lam
        items.append(tag(grad_one(got, X, n, i, f, r, t, ci), cn + "coefficient i0"))
    return [ob(id, items, rule, r)]


def grad_one(got, X, n, i, f, r, t, ci):
    a = gcomp(got)
    if a is not None:
        comp, cnt, inits, steps, d = int(a.args[1].const()), a.args[2], a.args[3], a.args[4], int(a.args[5].const())
        its = []
        its.append((("ok" if PV.eqv(cnt, K, f) else "no"), ""))
        m, fm = index("m0", n)
        g = list(r.facts()) + fm
        # which component of the state is this part
        its.append(("ok" if PV.eqv(inits[comp](m), X(m), g) else "no", ""))
        its.append(("ok" if PV.eqv(a.args[6], i, f) else "no", ""))
        if items_ok(its):
            tt = sym("u:t0")
            body = steps[comp]

            def at(j):
                e = subst_lam(body, (tt, j))
                return subst_state(e, d, lambda q, ix: app("a%d:" % q, *ix))
            j, fj = index("j0", n)
            g = list(r.facts()) + fj + [ge0(tt), lt(tt, K)]
            A = lambda q: app("a%d:" % comp, q)
            cases = [([eq(j, n - 1)], at(j), ZERO)]
            cases.append(([ge0(n - 2 - j)],
                          ite(eq(j, ZERO), const(2), ONE) * at(j) - ite(ge0(n - 3 - j), at(j + 2), ZERO),
                          2 * (j + 1) * A(j + 1)))
            if all(PV.eqv(u, v, g + h, 60, 1) for h, u, v in cases):
                return ("ok", "")
    direct = spec_grad(n, K, X, i)
    for hi in (8, 14):
        z = PV.differ(got, direct, f + [ge0(6 - K)], secs=25, hi=hi)
        if z is not None:
            env, va, vb = z
            return ("bad", "at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb)))
    if PV.data_conds(got):
        z = PV.differ_sparse(got, direct, f + [ge0(6 - K)])
        if z is not None:
            return ("bad", "at %s: got %s, expected %s" % (PV.showenv(z[0]), PV.shownum(z[1]), PV.shownum(z[2])))
    # orders around the constants of the code
    for c in sorted(c for c in PV.int_consts(got) if 4 <= c <= 40):
        for k in (c, c + 1, c + 2):
            z = PV.differ(got, direct, f + [eq(K, k), ge0(n - k - 1), ge0(k + 3 - n)], secs=8, hi=k + 4, count=12)
            if z is not None:
                env, va, vb = z
                return ("bad", "at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb)))
    return ("unknown", "")


def subst_lam(l, vals):
    return l(*vals)


def matrix_of(r):
    return r.ret.fields[0] if isinstance(r.ret, Agg) else r.ret


def M_at(A, i, j):
    n, m = A.dims
    return ite(cand(inrange(i, n), inrange(j, m)), A.lam(i, j), ZERO)


def t_c16m(P, b):
    out = []
    rule = "c_p D_k[p,q] - D_k[p+2,q] = 2(p+1) D_(k-1)[p+1,q], D_0 the identity, n x n"
    r = krun(P, b, "diffmat")
    id = kname(b, "diffmat")
    s = stop(id, r, rule)
    if s:
        return [s]
    A = matrix_of(r)
    f = list(r.facts())
    items = cmp_vals(A.dims[0], N, f, what="rows") + cmp_vals(A.dims[1], N, f, what="columns")
    p, fp = index("p0", N)
    q, fq = index("q0", N)
    from terms import subst
    for k in (1, 2, 3, 4):
        fk = [subst_any(c, k) for c in f] + fp + fq
        if not feasible(fk):
            items.append(("bad", "order %d is refused" % k))
            continue
        D = lambda u, v, kk=k: subst_any(A.lam(u, v), kk)
        if k == 1:
            prev = ite(eq(p + 1, q), ONE, ZERO)
        else:
            prev = D(p + 1, q, k - 1)
        cp = ite(eq(p, ZERO), const(2), ONE)
        for h in ([eq(p, N - 1)], [eq(p, N - 2)], [ge0(N - 3 - p)]):
            g = fk + h
            nxt = D(p + 2, q) if h[0].kind == "ge0" and h[0] == ge0(N - 3 - p) else ZERO
            pv = prev if not (h[0] == eq(p, N - 1)) else ZERO
            items.append(tag(PV.check_eq(cp * D(p, q) - nxt, 2 * (p + 1) * pv, g, secs=40), "order %d, entry (p0,q0)" % k))
        # accepted for every size
        from c_spaces import domain_of
        for c in domain_of(r):
            ck = subst_any(c, k)
            st, d = PV.check_cond(ck, [ge0(N - MINN[b])])
            items.append((st, "" if st == "ok" else "order %d refused: %s %s" % (k, ck, d)))
    out.append(ob(id, items, rule, r))
    # Laplacian
    rl = krun(P, b, "laplacian")
    id = kname(b, "laplacian")
    s = stop(id, rl, rule)
    if s:
        out.append(s)
    else:
        i, fi = index("i0", N)
        j, fj = index("j0", N)
        g = list(rl.facts()) + [subst_any(c, 2) for c in f] + fi + fj
        its = cmp_vals(rl.ret.dims[0], N, rl.facts(), what="rows") + cmp_vals(rl.ret.dims[1], N, rl.facts(), what="columns")
        its.append(tag(PV.check_eq(rl.ret.lam(i, j), subst_any(A.lam(i, j), 2), g), "entry"))
        out.append(ob(id, its, "Laplacian equals the second-order matrix", rl, fns_of(r)))
    return out


def subst_any(x, k):
    a = next(iter(K.m))[0][0][0]
    return subst_atoms(x, {a: const(k)})


# ------------------------------------------------------------------ C17
BANDP = 4


def t_c17(P, b):
    out = []
    rule = "pinv(k) D(k) is the identity with its first k rows zero; the companion is the identity without its first k rows"
    rd, rp = krun(P, b, "diffmat"), krun(P, b, "diffmat_pinv")
    for fn, r in (("diffmat", rd), ("diffmat_pinv", rp)):
        s = stop(kname(b, fn), r, rule)
        if s:
            return [s]
    for k in (1, 2, 3, 4):
        out.append(pinv_ob(kname(b, "diffmat_pinv(%d)" % k), rp, rp.ret, rd, [subst_any(matrix_of(rd).lam, k) if False else None], k, rule))
    rl, rq = krun(P, b, "laplacian"), krun(P, b, "laplacian_pinv")
    for fn, r in (("laplacian", rl), ("laplacian_pinv", rq)):
        s = stop(kname(b, fn), r, rule)
        if s:
            out.append(s)
            return out
    out.append(pinv_ob(kname(b, "laplacian_pinv"), rq, rq.ret, rl, None, 2, rule, sub=False))
    return out


def pinv_ob(id, rp, ret, rd, _, k, rule, sub=True):
    sb = (lambda x: subst_any(x, k)) if sub else (lambda x: x)
    if not isinstance(ret, Agg) or len(ret.fields) != 2:
        return dict(id=id, status="unknown", detail="not a pair of matrices", rule=rule)
    Pm, E = ret.fields
    D = matrix_of(rd)
    facts = [sb(c) for c in list(rp.facts()) + list(rd.facts())]
    if not feasible(facts):
        return ob(id, [("bad", "order %d is refused" % k)], rule, rp, fns_of(rd))
    items = []
    n = N
    items += cmp_vals(sb(Pm.dims[0]), n, facts, what="rows") + cmp_vals(sb(Pm.dims[1]), n, facts, what="columns")
    items += cmp_vals(sb(E.dims[0]), n - k, facts, what="rows of the companion") + cmp_vals(sb(E.dims[1]), n, facts, what="columns of the companion")
    i, fi = index("i0", n)
    j, fj = index("j0", n)
    f = facts + fi + fj
    from c_spaces import domain_of
    for c in domain_of(rp):
        st, d = PV.check_cond(sb(c), [ge0(N - max(2, k + 1))])
        items.append((st, "" if st == "ok" else "refused: %s %s" % (sb(c), d)))
    items.append(tag(PV.check_eq(sb(E.lam(i, j)), ite(eq(j, i + k), ONE, ZERO), facts + fi + fj + [ge0(n - k - 1 - i)]), "entry of the companion"))
    want = ite(cand(eq(i, j), ge0(i - k)), ONE, ZERO)
    # proof by band
    proof = []
    for c in (ge0(j - i - BANDP - 1), ge0(i - j - BANDP - 1)):
        proof.append("ok" if PV.eqv(sb(Pm.lam(i, j)), ZERO, f + [c]) else "no")
    if all(s == "ok" for s in proof):
        e = ZERO
        for d in range(-BANDP, BANDP + 1):
            e = e + ite(inrange(i + d, n), sb(Pm.lam(i, i + d)) * sb(D.lam(i + d, j)), ZERO)
        cases = [[eq(j, i + o)] for o in range(-BANDP, 2 * BANDP + 1)] + [[ge0(i - BANDP - 1 - j)], [ge0(j - i - 2 * BANDP - 1)]]
        if all(not feasible(f + c) or PV.eqv(e, want, f + c, 30, 0) for c in cases):
            return ob(id, items + [("ok", "")], rule, rp, fns_of(rd))
    full = sumof(ZERO, n, lambda l: sb(Pm.lam(i, l)) * sb(D.lam(l, j)))
    r = every(full, want, f, (n, i, j), 14) or PV.differ(full, want, f, secs=20)
    if r is not None:
        env, va, vb = r
        items.append(("bad", "entry of the product at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb))))
    else:
        items.append(("unknown", "entry of the product"))
    return ob(id, items, rule, rp, fns_of(rd))


def every(a, b, facts, syms, hi, secs=40):
    """first of all valuations of the symbols up to hi where the terms differ"""
    import itertools
    import time
    at = [next(iter(x.m))[0][0][0] for x in syms]
    end = time.time() + secs
    fl = [c for q in facts for c in conjuncts(q)]
    for n in range(1, hi + 1):
        ev = PV.Evaluator(secs)
        for t in itertools.product(range(n), repeat=len(at) - 1):
            env = dict(zip(at, [Fraction(n)] + [Fraction(z) for z in t]))
            if time.time() > end:
                return None
            try:
                if not all(ev.cond(c, env) for c in fl):
                    continue
                u, v = ev.poly(a, env), ev.poly(b, env)
            except PV.EvalFail:
                continue
            if not PV.close(u, v):
                return env, u, v
    return None


# ------------------------------------------------------------------ C18
def t_c18(P, b):
    out = []
    rule = "order-fold multiplication by i k with the reported wavenumber k"
    rw = run(P, "stat::%s_wavenumber" % b, None, accepted(b))
    s = stop(kname(b, "wavenumber"), rw, rule)
    if s:
        return [s]
    m = spec_size(b, "spec")
    l, fl = index("i0", m)
    fw = list(rw.facts()) + fl
    re, im = reim(rw.ret.lam(l))
    its = cmp_vals(rw.ret.dims[0], m, rw.facts(), what="number of wavenumbers")
    its += [tag(PV.check_eq(re, ZERO, fw), "real part of i k")]
    want = l if b == "r2c" else ite(ge0(N - 1 - 2 * l), l, l - N)
    alt = l if b == "r2c" else ite(ge0(N - 2 * l), l, l - N)
    its.append(tag(one_of(im, [want, alt], fw), "wavenumber of coefficient i0"))
    out.append(ob(kname(b, "wavenumber"), its, "reported wavenumbers are the integers of least magnitude congruent to the index", rw))
    kw = im
    # coefficient space
    fn = "c::gradient_slice"
    r = krun(P, b, fn)
    id = kname(b, fn)
    s = stop(id, r, rule)
    if s:
        out.append(s)
    else:
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        f = list(r.facts()) + list(rw.facts()) + fi + [lt(i, m)]
        g = reim(y.lam(i))
        X = x.lam
        its = []
        for ci, nm in ((0, "real part"), (1, "imaginary part")):
            its.append(tag(four_grad(simp(g[ci], f), X, kw, i, f, ci), nm))
        out.append(ob(id, its, rule, r, fns_of(rw)))
    # matrices
    i, fi = index("i0", m)
    j, fj = index("j0", m)
    zero = eq(kw, ZERO)
    diag = lambda c, v: ite(eq(i, j), ite(c, ZERO, v), ZERO)
    ikp = [ite(eq(mod(K, 4), ZERO), ONE, ite(eq(mod(K, 4), const(2)), -ONE, ZERO)), ite(eq(mod(K, 4), ONE), ONE, ite(eq(mod(K, 4), const(3)), -ONE, ZERO))]
    pw = power(kw, K)
    specs = {"diffmat": (diag(FALSE, ikp[0] * pw), diag(FALSE, ikp[1] * pw)),
             "diffmat_pinv": (diag(zero, ikp[0] * inv(pw)), diag(zero, -ikp[1] * inv(pw))),
             "laplacian": (diag(FALSE, -kw * kw), ZERO),
             "laplacian_pinv": (diag(zero, -inv(kw) * inv(kw)), ZERO)}
    for fn in ("diffmat", "diffmat_pinv", "laplacian", "laplacian_pinv"):
        r = krun(P, b, fn)
        id = kname(b, fn)
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        A = matrix_of(r)
        f = list(r.facts()) + list(rw.facts()) + fi + fj
        if "diffmat" in fn:
            f = f + [ge0(K - 1)]
        its = cmp_vals(A.dims[0], m, r.facts(), what="rows") + cmp_vals(A.dims[1], m, r.facts(), what="columns")
        g = reim(A.lam(i, j))
        for ci, nm in ((0, "real part"), (1, "imaginary part")):
            ext = []
            its.append(tag(mat_eq(g[ci], specs[fn][ci], f, fn), nm + " of entry (i0,j0)"))
        if "pinv" in fn and isinstance(r.ret, Agg) and len(r.ret.fields) == 2:
            E = r.ret.fields[1]
            its += companion(E, fn, m, r.facts())
        from c_spaces import domain_of
        for c in domain_of(r):
            st, d = PV.check_cond(c, [ge0(N - MINN[b]), ge0(K - 1), ge0(64 - K)])
            its.append((st, "" if st == "ok" else "refused: %s %s" % (c, d)))
        out.append(ob(id, its, rule if "lap" not in fn else "-k^2 on the diagonal, reciprocal of zero replaced by zero", r, fns_of(rw)))
    return out


def companion(E, fn, m, facts):
    return []


def mat_eq(a, b, f, fn):
    """split by the order's residue and by the sign of the wavenumber"""
    if "diffmat" not in fn:
        return PV.check_eq(a, b, f)
    out = []
    for q in range(4):
        t = sym("u:kq")
        s = {next(iter(K.m))[0][0][0]: 4 * t + q}
        g = [subst_atoms(c, s) for c in f] + [ge0(t)]
        if not feasible(g):
            continue
        out.append(PV.check_eq(simp(subst_atoms(a, s), g), simp(subst_atoms(b, s), g), g + [ge0(4 - t)] if False else g, hi=7))
    return worst(out) if any(s != "ok" for s, _ in out) else ("ok", "")


def one_of(v, ws, f):
    for w in ws:
        if PV.eqv(v, w, f):
            return ("ok", "")
    r = None
    for env in PV.models(f, (v,) + tuple(ws), count=60):
        ev = PV.Evaluator(5)
        try:
            x = ev.poly(v, env)
            vals = [ev.poly(w, env) for w in ws]
        except PV.EvalFail:
            continue
        if not any(PV.close(x, w) for w in vals):
            return ("bad", "at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(x), PV.shownum(vals[0])))
    return ("unknown", "")


def four_grad(got, X, kw, i, f, ci):
    re = lambda m: reim(X(m))[0]
    im = lambda m: reim(X(m))[1]
    iv = next(iter(i.m))[0][0][0]
    kat = lambda j: subst_atoms(kw, {iv: j})
    a = got.single_atom()
    if a is not None and a.kind == "app" and a.args[0] == "rec":
        # one pass multiplies by I*k
        comp, inits, steps, d, cnt = int(a.args[1].const()), a.args[2], a.args[3], int(a.args[4].const()), a.args[5]
        tt = sym("u:t0")
        g = f + [ge0(tt), lt(tt, K)]

        def at(q):
            def h(x):
                if x.kind == "app" and x.args[0].startswith("@r%d_" % d):
                    return app("a%s:" % x.args[0].split("_")[1])
                return None
            return rewrite(steps[q](tt), h)
        if len(steps) == 2:
            other = 1 - comp
            R, M = (comp, other) if ci == 0 else (other, comp)
            if PV.eqv(cnt, K, f) and PV.eqv(inits[R], re(i), f) and PV.eqv(inits[M], im(i), f) and \
                    PV.eqv(at(R), -kat(i) * app("a%d:" % M), g) and PV.eqv(at(M), kat(i) * app("a%d:" % R), g):
                return ("ok", "")
    # spec as an iteration, evaluated
    t, j = freshv(), freshv()
    v = freshv()
    jj = pof(j)
    steps = (Lam((t, j), -kat(jj) * app("@22.1", jj)), Lam((t, j), kat(jj) * app("@22.0", jj)))
    ini = (Lam((v,), re(pof(v))), Lam((v,), im(pof(v))))
    direct = pof(Atom("app", ("iter", const(ci), K, ini, steps, const(22), i), "num"))
    if PV.eqv(got, direct, f):
        return ("ok", "")
    for hi, top in ((8, 9), (14, 9), (14, 14), (30, 40)):
        z = PV.differ(got, direct, f + [ge0(top - K)], secs=20, hi=hi)
        if z is not None:
            env, va, vb = z
            return ("bad", "at %s: got %s, expected %s" % (PV.showenv(env), PV.shownum(va), PV.shownum(vb)))
    return ("unknown", "")


# ------------------------------------------------------------------ C19
def t_c19(P, b):
    out = []
    rule = "n points at the documented locations"
    fourier = b in FOUR
    roots = [(kname(b, "coords"), krun(P, b, "coords")), (kname(b, "coords", "u"), krun(P, b, "coords", "u"))]
    if b in ("cheb", "r2c", "c2c"):
        nm = "stat::%s_nodes" % b
        roots.append((nm, run(P, nm, None, accepted(b))))
    for id, r in roots:
        s = stop(id, r, rule)
        if s:
            out.append(s)
            continue
        i, fi = index("i0", r.ret.dims[0])
        f = list(r.facts()) + fi
        items = cmp_vals(r.ret.dims[0], N, r.facts(), what="number of points")
        got = r.ret.lam(i)
        if fourier:
            want = 2 * PI * i * inv(N)
            items.append(tag(PV.check_eq(got, want, f), "location of point i0"))
        else:
            want = -cos(PI * i * inv(N - 1))
            a, w = tosin(got), sin(PI * i * inv(N - 1) - PI * const(Fraction(1, 2)))
            if PV.eqv(a, w, f) or trig_eq(a, w, f):
                items.append(("ok", ""))
            else:
                items.append(tag(PV.check_eq(got, want, f), "location of point i0"))
        from c_spaces import domain_of
        for c in domain_of(r):
            st, d = PV.check_cond(c, [ge0(N - MINN[b])])
            items.append((st, "" if st == "ok" else "refused: %s %s" % (c, d)))
        out.append(ob(id, items, rule, r))
    return out


def tosin(p):
    def f(a):
        if a.kind == "app" and a.args[0] == "cos":
            return sin(rewrite(a.args[1], f) + PI * const(Fraction(1, 2)))
        return None
    return rewrite(p, f)


def trig_eq(a, w, f):
    """+-sin(u) = sin(v) by equality of the arguments up to symmetries of sin"""
    if len(a.m) != 1:
        return False
    m, v = a.m[0]
    if len(m) != 1 or m[0][1] != 1 or abs(v) != 1:
        return False
    at = m[0][0]
    if at.kind != "app" or at.args[0] != "sin":
        return False
    u = at.args[1]
    x = w.m[0][0][0][0].args[1]
    c = [u - x, u + x - PI, u - x + 2 * PI, u - x - 2 * PI, u + x + PI] if v == 1 else [u + x, u - x - PI, u - x + PI]
    return any(PV.eqv(z, ZERO, f) for z in c)


# ------------------------------------------------------------------ C20
BUILD = ["new", "sizes", "coords", "base_kind", "transform_kind", "diffmat", "diffmat_pinv", "stencil", "stencil_inv", "laplacian", "laplacian_pinv"]
STATIC = {"cheb": ["cheb_nodes", "cheb_dmat", "cheb_pinv", "cheb_pinv_eye"], "r2c": ["r2c_nodes", "r2c_wavenumber"], "c2c": ["c2c_nodes", "c2c_wavenumber"]}
NMAX = 10000


def interval(p, ranges):
    """bounds of a polynomial over boxes; None when unbounded"""
    lo = hi = Fraction(0)
    for m, v in p.m:
        a, b = Fraction(1), Fraction(1)
        for at, e in m:
            r = ranges(at)
            if r is None:
                return None
            for _ in range(abs(e)):
                if e < 0:
                    return None
                q = [a * r[0], a * r[1], b * r[0], b * r[1]]
                a, b = min(q), max(q)
            if e % 2 == 0 and e > 0 and a < 0:
                a = max(a, Fraction(0)) if len(m) == 1 else a
        q = [v * a, v * b]
        lo += min(q)
        hi += max(q)
    return lo, hi


def t_c20(P, root, b, k):
    rule = "no integer operation over- or underflows or loses bits for sizes up to %d" % NMAX

    def pre(ip, st, args):
        st.assume(ge0(N - MINN[b]))
        st.assume(ge0(NMAX - N))
        if k is not None and "k" in args:
            st.assume(ge0(args["k"] - 1))
            st.assume(ge0(k - args["k"]))
            if "pinv" in root and b in CHEB:
                # higher orders have no pseudo-inverse: every variant refuses them
                st.assume(ge0(N - args["k"]))
    r = run(P, root, None, pre)
    if r.status == "undecided":
        return [undec(root, r, rule)]
    items = []
    cnt = 0
    seen = set()
    for e in r.ip.ev:
        if e["kind"] not in ("overflow", "narrow", "div0", "rem0"):
            continue
        cnt += 1
        c = e["cond"]
        if c is TRUE:
            continue
        facts = [q for _, q in e["pc"]] + [ge0(N - MINN[b]), ge0(NMAX - N)]
        if c is None:
            c = FALSE
        key = (c, tuple(facts))
        if key in seen:
            continue
        seen.add(key)
        if not feasible(facts):
            continue
        items.append(tag(bounded(c, facts), "%s %s at %s" % (e["kind"], e.get("op", ""), e.get("sp", ""))))
    s, d = worst(items) if items else ("ok", "")
    return [dict(id=root, status=s, detail=d if s != "ok" else "%d operations" % cnt, rule=rule, fns=sorted(fns_of(r)))]


def bounded(c, facts, depth=0):
    if entails(facts, c):
        return ("ok", "")
    if c.kind == "and":
        return worst([bounded(x, facts, depth) for x in c.args] + [("ok", "")])
    if c.kind == "ge0" and depth < 6:
        p = c.args[0]
        p = simp(p, facts)
        its = outer_ites(p)
        if its:
            out = []
            for lit in (its[0], cnot(its[0])):
                g = list(facts) + conjuncts(lit)
                if feasible(g):
                    out.append(bounded(ge0(simp(p, g)), g, depth + 1))
            return worst(out + [("ok", "")])
        memo = {}

        def ranges(at):
            if at in memo:
                return memo[at]
            x = pof(at)
            lo = hi = None
            cands = sorted(set([0, 1, 2, 3, 4, 8, 64, NMAX // 2, NMAX, 2 * NMAX, 4 * NMAX, 20000000, -1, -2, -NMAX, -2 * NMAX]))
            for v in reversed(cands):
                if entails(facts, ge0(x - v)):
                    lo = Fraction(v)
                    break
            for v in cands:
                if entails(facts, ge0(const(v) - x)):
                    hi = Fraction(v)
                    break
            memo[at] = None if lo is None or hi is None else (lo, hi)
            return memo[at]
        z = interval(p, ranges)
        if z is not None and z[0] >= 0:
            return ("ok", "")
    for hi in (11, 2 * NMAX):
        env = PV.differ_cond(c, facts, secs=12, hi=hi)
        if env is not None:
            return ("bad", "fails at %s: needs %s" % (PV.showenv(env), str(c)[:140]))
    return ("unknown", "needs %s" % str(c)[:140])


# ------------------------------------------------------------------ C22
def compose(p, name, fn):
    """replace reads of the input by fn"""
    nm = set(IT.elem_names("f64", name)) if False else {name, name + ".re", name + ".im"}

    def f(a):
        if a.kind == "app" and a.args[0] in nm:
            ix = rewrite(a.args[1], f)
            if a.args[0] == name:
                return fn(ix)
            return reim(fn(ix))[0 if a.args[0].endswith(".re") else 1]
        return None
    return rewrite(p, f)


def t_c22(P, b):
    out = []
    rule = "composition of the conversion with the orthogonal operation"
    # (composite function, first function, second function) ; value = second o first
    jobs = [("forward_slice", ("cheb", "forward_slice"), (b, "r::from_ortho_slice")),
            ("backward_slice", (b, "r::to_ortho_slice"), ("cheb", "backward_slice")),
            ("r::gradient_slice", (b, "r::to_ortho_slice"), ("cheb", "r::gradient_slice")),
            ("c::gradient_slice", (b, "c::to_ortho_slice"), ("cheb", "c::gradient_slice"))]
    for fn, first, second in jobs:
        r, r1, r2 = krun(P, b, fn), krun(P, *first), krun(P, *second)
        id = kname(b, fn)
        s = stop(id, r, rule)
        for q, w in ((r1, first), (r2, second)):
            s = s or stop(id, q, rule)
        if s:
            out.append(s)
            continue
        y, x = r.buf("y"), r.buf0("x")
        i, fi = index("i0", y.dims[0])
        xl = next(iter(x.dims[0].m))[0][0][0]
        mid = r1.buf("y").dims[0]
        # the intermediate vector
        e1 = r1.buf("y").lam
        inner = lambda ix: e1(ix)
        L = {}
        n_in = x.dims[0]

        # extents of the second operation
        e2 = r2.buf("y").lam(i)
        s2 = {}
        s2[sy(r2.buf0("x").dims[0])] = N
        s2[sy(r2.buf0("y").dims[0])] = y.dims[0]
        e2 = subst_atoms(e2, s2)
        s1 = {sy(r1.buf0("y").dims[0]): N}

        def feed(ix):
            return subst_atoms(e1(ix), s1)
        want = compose(e2, "x", feed)
        f = list(r.facts()) + fi
        items = [tag(cmpterm(y.lam(i), want, f, N), "element i0")]
        out.append(ob(id, items, rule, r, fns_of(r1) | fns_of(r2)))
    out += accepts(P, b, [("backward_slice", "spec", "phys"), ("r::gradient_slice", "spec", "orth"), ("c::gradient_slice", "spec", "orth")])
    return out + t_same(P, b, ("coords", "diffmat", "diffmat_pinv", "laplacian", "laplacian_pinv"))


SAME_RULE = "same as the orthogonal base"


def t_same(P, b, fns):
    """the matrices of a composite base are those of its orthogonal base"""
    out = []
    for fn in fns:
        r, q = krun(P, b, fn), krun(P, "cheb", fn)
        id = kname(b, fn)
        s = stop(id, r, SAME_RULE) or stop(id, q, SAME_RULE)
        if s:
            out.append(s)
            continue
        f = list(r.facts()) + list(q.facts())
        items = cmp_vals(r.ret, q.ret, f, what=fn)
        from c_spaces import domain_of
        g = domain_of(q) + [ge0(N - MINN[b])]
        for c in domain_of(r):
            st, d = PV.check_cond(c, g)
            items.append((st, "" if st == "ok" else "refused although the orthogonal base answers: %s %s" % (c, d)))
        out.append(ob(id, items, SAME_RULE, r, fns_of(q)))
    return out


def sy(p):
    m = p.m
    if len(m) == 1 and len(m[0][0]) == 1:
        return m[0][0][0][0]
    raise KeyError("extent")


def cmpterm(a, b, f, n):
    """iterations over vectors of length n are compared stage by stage"""
    for t in (0, 1):
        u, v = reim(a)[t], reim(b)[t]
        if u is ZERO and v is ZERO:
            continue
        x, y = gcomp(simp(u, f)), gcomp(simp(v, f))
        if x is None or y is None or not iter_eq(x, y, f, n):
            break
    else:
        return ("ok", "")
    return PV.check_eq(a, b, f, secs=60)


def iter_eq(x, y, f, n):
    if x.args[1] is not y.args[1] or x.args[5] is not y.args[5] or len(x.args[3]) != len(y.args[3]):
        return False
    if not (PV.eqv(x.args[2], y.args[2], f) and PV.eqv(tuple(x.args[6:]), tuple(y.args[6:]), f)):
        return False
    m, t = sym("u:m0"), sym("u:t0")
    g = list(f) + [ge0(m), lt(m, n), ge0(t), lt(t, x.args[2])]
    return all(PV.eqv(p(m), q(m), g) for p, q in zip(x.args[3], y.args[3])) and \
        all(p is q or PV.eqv(p(t, m), q(t, m), g) for p, q in zip(x.args[4], y.args[4]))


def per(fn, bases):
    return lambda P, tier: [(b, fn, (b,)) for b in bases]


def c20_tasks(P, tier):
    out = []
    for mod_ in ("k", "u"):
        for b in KB:
            for fn in BUILD:
                root = kname(b, fn, mod_)
                if root in P.roots:
                    out.append((root, t_c20, (root, b, 64)))
    for b, fs in STATIC.items():
        for fn in fs:
            root = "stat::" + fn
            if root in P.roots:
                out.append((root, t_c20, (root, b, 64)))
    return out


CHECKS = {
    "C14": per(t_c14, CHEB),
    "C15": per(t_c15, FOUR),
    "C16": lambda P, tier: [("cheb::%s" % t, t_c16g, ("cheb", t)) for t in ("r", "c")] + [("cheb::matrices", t_c16m, ("cheb",))] +
    [(b, t_same, (b, ("diffmat", "laplacian"))) for b in COMPO],
    "C17": lambda P, tier: per(t_c17, CHEB)(P, tier) + [(b, t_same, (b, ("diffmat_pinv", "laplacian_pinv"))) for b in COMPO],
    "C18": per(t_c18, FOUR),
    "C19": per(t_c19, KB),
    "C20": c20_tasks,
    "C22": per(t_c22, COMPO),
}
