"""Array drivers of the bases and the serial spaces: C02 C03 C05 C06 C07 C08
(and the per-axis queries of C09)."""
import itertools
import re
from core import *
import mpi as MPI

BASES = {"r2r": ("f", "f"), "r2c": ("f", "c"), "c2c": ("c", "c"), "cheb": ("f", "f"), "compo": ("f", "f"), "fr2c": ("f", "c"), "fc2c": ("c", "c")}
CFGS = [("d1a0", 1, 0), ("d2a0", 2, 0), ("d2a1", 2, 1), ("d3a0", 3, 0), ("d3a1", 3, 1), ("d3a2", 3, 2)]
OPN = ["forward", "backward", "to_ortho", "from_ortho", "gradient"]
SPACES = {"s1_r2r": "r", "s1_r2c": "f", "s1_c2c": "c", "s2_rr": "rr", "s2_fr": "fr", "s2_cf": "cf", "s2_cc": "cc",
          "m2_rr": "rr", "m2_fr": "fr", "m2_cf": "cf", "m2_cc": "cc",
          "s3_rrr": "rrr", "s3_frr": "frr", "s3_cfr": "cfr", "s3_ccf": "ccf", "s3_ccc": "ccc"}


def ob(id, items, rule, r=None, extra_fns=()):
    s, d = worst(items)
    o = dict(id=id, status=s, detail=d, rule=rule)
    if r is not None:
        o["fns"] = sorted(fns_of(r) | set(extra_fns))
    return o


def undec(id, r, rule):
    return dict(id=id, status="unknown", detail="%s: %s %s" % (r.name, r.status, r.why), rule=rule)


def a_run(P, b, cfg, fn):
    return run(P, "a::%s::%s::%s" % (b, cfg, fn), OPS.handlers("slice"))


# kind of each base: r real to real, f real to complex, c complex
BKIND = {"r2r": "r", "cheb": "r", "compo": "r", "r2c": "f", "fr2c": "f", "c2c": "c", "fc2c": "c"}


def size_facts(kinds, keys):
    """relations between the sizes of a base (established by `sizes`, C26)"""
    out = []
    for t, k in zip(kinds, keys or ()):
        ph, sp, orth = (OPS.size(z, k) for z in ("phys", "spec", "orth"))
        out += [eq(orth, sp) if t == "f" else eq(orth, ph), ge0(orth - sp)]
        if t == "c":
            out.append(eq(sp, ph))
    return out


def a_expect(r, b, op, nd, ax, inplace):
    """expected dims, lambda, and prescribed extents"""
    x = r.buf0("x")
    extra = (sym("u:k"),) if op == "gradient" else ()
    pt, st_ = BASES[b]
    et = pt if op == "backward" else st_
    lam = OPS.along(op, "b", extra, x.lam, nd, ax, et)
    ka, kb = OPS.SIZES[op]
    dims = tuple(OPS.size(kb, "b") if i == ax else d for i, d in enumerate(x.dims))
    want = [eq(x.dims[ax], OPS.size(ka, "b"))]
    if inplace:
        y = r.buf0("y")
        want += [eq(p, q) for p, q in zip(y.dims, dims)]
    want += size_facts(BKIND[b], ["b"])
    return dims, lam, want, et


def a_result(r, inplace):
    return r.buf("y") if inplace else r.ret


def variants(op):
    return [op, op + "_par", op + "_inplace", op + "_inplace_par"]


def domain_of(r):
    return nolayout(simp(c, []) for c in map(drop_layout, r.facts()))


def alive(r, want):
    """the entry point never completes although the arguments are admissible"""
    return next(iter(PV.models(list(want), (), count=1)), None) is not None


# ------------------------------------------------------------------ a:: against the specification
def t_a_spec(P, b, cfg, nd, ax, op):
    out = []
    for fn in variants(op):
        inpl = "inplace" in fn
        id = "a::%s::%s::%s" % (b, cfg, fn)
        r = a_run(P, b, cfg, fn)
        rule = "array driver applies the slice operation of the base to every lane along the axis, once"
        if r.status == "undecided":
            out.append(undec(id, r, rule))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=rule))
            continue
        dims, lam, want, et = a_expect(r, b, op, nd, ax, inpl)
        got = a_result(r, inpl)
        f = r.facts() + want
        out.append(ob(id, cmp_vals(got, Arr(dims if not inpl else got.dims, lam, "C", et), f, what=fn), rule, r))
    return out


def t_a_pc(P, b, cfg, nd, ax, op):
    """extents: completes exactly when both extents along the axis are the prescribed ones"""
    out = []
    rule = "completes only for the prescribed extents along the axis"
    for fn in variants(op):
        inpl = "inplace" in fn
        id = "a::%s::%s::%s" % (b, cfg, fn)
        r = a_run(P, b, cfg, fn)
        if r.status == "undecided":
            out.append(undec(id, r, rule))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=rule))
            continue
        x = r.buf0("x")
        ka, kb = OPS.SIZES[op]
        want = [eq(x.dims[ax], OPS.size(ka, "b"))]
        if inpl:
            want.append(eq(r.buf0("y").dims[ax], OPS.size(kb, "b")))
        # arrays with no element along another axis have no lane to refuse
        y = r.buf0("y") if inpl else None
        lanes = [ge0(d - 1) for i, d in enumerate(x.dims) if i != ax]
        if inpl:
            lanes += [ge0(d - 1) for i, d in enumerate(y.dims) if i != ax]
        got = domain_of(r)
        items = []
        for c in want:
            s, d = PV.check_cond(c, got + lanes + size_facts(BKIND[b], ["b"]))
            items.append((s, fn if s == "ok" else "completes although not %s (%s)" % (c, d)))
        out.append(ob(id, items, rule, r))
    return out


def t_a_pair(P, b, cfg, nd, ax, op, which):
    out = []
    pairs = [(op, op + "_par"), (op + "_inplace", op + "_inplace_par")] if which == "par" else \
        [(op, op + "_inplace"), (op + "_par", op + "_inplace_par")]
    rule = "parallel equals serial" if which == "par" else "allocating equals in-place, result extents"
    for f1, f2 in pairs:
        id = "a::%s::%s::%s=%s" % (b, cfg, f1, f2)
        r1, r2 = a_run(P, b, cfg, f1), a_run(P, b, cfg, f2)
        out.append(pair_ob(id, r1, r2, f1, f2, rule, a_expect(r1, b, op, nd, ax, False)[2] if r1.mem0 else [], which))
    return out


def pair_ob(id, r1, r2, f1, f2, rule, want, which, dims=None, extra=()):
    for r in (r1, r2):
        if r.status == "undecided":
            return undec(id, r, rule)
    if r1.status == "dead" or r2.status == "dead":
        return dict(id=id, status="bad", detail="%s never completes" % (f1 if r1.status == "dead" else f2), rule=rule)
    v1, v2 = a_result(r1, "inplace" in f1), a_result(r2, "inplace" in f2)
    f = nolayout(r1.facts()) + nolayout(r2.facts()) + list(extra)
    items = cmp_vals(v2, v1, f, what=f2 + " vs " + f1)
    if which == "par":
        # both accept the same arguments
        g1, g2 = domain_of(r1), domain_of(r2)
        for g, h, n in ((g1, g2, f2), (g2, g1, f1)):
            for c in h:
                s, d = PV.check_cond(c, g + list(extra))
                items.append((s, "" if s == "ok" else "%s refuses arguments the other accepts: %s %s" % (n, c, d)))
    if dims is not None and "inplace" in f2 and "inplace" not in f1:
        # neither refuses what the other computes, given an output of the right extents
        y = r2.buf0("y")
        yd = [eq(p, q) for p, q in zip(y.dims, dims)]
        g1, g2 = domain_of(r1) + yd, domain_of(r2) + yd
        for g, h, n in ((g1, g2, f2), (g2, g1, f1)):
            for c in h:
                s, d = PV.check_cond(c, g + list(extra))
                items.append((s, "" if s == "ok" else "%s refuses arguments the other accepts: %s %s" % (n, c, d)))
    if dims is not None:
        for r, fn in ((r1, f1), (r2, f2)):
            if "inplace" not in fn:
                got = r.ret.dims
                for i, (p, q) in enumerate(zip(got, dims)):
                    items += cmp_vals(p, q, nolayout(r.facts()), what="%s result extent %d" % (fn, i))
    return ob(id, items, rule, r1, fns_of(r2))


def a_tasks(kind, names=None):
    out = []
    for b in BASES:
        for cfg, nd, ax in CFGS:
            for op in OPN:
                n = "a::%s::%s::%s" % (b, cfg, op)
                if kind == "spec":
                    out.append((n, t_a_spec, (b, cfg, nd, ax, op)))
                elif kind == "pc":
                    out.append((n, t_a_pc, (b, cfg, nd, ax, op)))
                elif kind == "over":
                    out.append((n, t_a_over, (b, cfg, nd, ax, op)))
                elif kind == "lin":
                    out.append((n, t_a_lin, (b, cfg, nd, ax, op)))
                else:
                    out.append((n, t_a_pair2, (b, cfg, nd, ax, op, kind)))
    return out


def t_a_pair2(P, b, cfg, nd, ax, op, which):
    out = []
    pairs = [(op, op + "_par"), (op + "_inplace", op + "_inplace_par")] if which == "par" else \
        [(op, op + "_inplace"), (op + "_par", op + "_inplace_par")]
    rule = "parallel equals serial" if which == "par" else "allocating equals in-place, result extents"
    for f1, f2 in pairs:
        id = "a::%s::%s::%s=%s" % (b, cfg, f1, f2)
        r1, r2 = a_run(P, b, cfg, f1), a_run(P, b, cfg, f2)
        dims = None
        if r1.mem0 and which != "par":
            dims = a_expect(r1, b, op, nd, ax, False)[0]
        out.append(pair_ob(id, r1, r2, f1, f2, rule, [], which, dims, other_axes(r1, ax) + other_axes(r2, ax) + size_facts(BKIND[b], ["b"])))
    return out


# ------------------------------------------------------------------ overwritten outputs
def reads(v, names):
    """names of applications occurring in a value"""
    return TT.app_names(v) & names


def buf_names(r, buf):
    a = r.buf0(buf)
    return set(IT.elem_names(a.et, buf))


def overwrite_ob(id, r, rule, facts=(), fn=""):
    if r.status == "undecided":
        return undec(id, r, rule)
    if r.status == "dead":
        return dict(id=id, status="bad", detail="never completes", rule=rule)
    got, old = r.buf("y"), r.buf0("y")
    f = list(r.facts()) + list(facts)
    vs = [sym("u:i%d" % i) for i in range(len(got.dims))]
    f += [ge0(v) for v in vs] + [lt(v, d) for v, d in zip(vs, got.dims)]
    e = got.lam(*vs)
    nm = buf_names(r, "y")
    if not (TT.app_names(e) & nm):
        return ob(id, [("ok", "no read of the previous content")], rule, r)
    f = f + lemmas(e, f)
    e = simp(e, f)
    if not (TT.app_names(e) & nm):
        return ob(id, [("ok", "no read of the previous content")], rule, r)
    # replace the previous content and compare
    e2 = rewrite(e, lambda a: pof(Atom("app", ("other:" + a.args[0],) + a.args[1:], a.sort)) if a.kind == "app" and a.args[0] in nm else None)
    it = cmp_vals(e, e2, f, what="previous content of the output")
    s, d = worst(it)
    if s == "bad":
        d = "the result depends on the previous content of the output: " + d
    return dict(id=id, status=s, detail=d, rule=rule, fns=sorted(fns_of(r)))


def other_axes(r, ax):
    """input and output have the same extents along the axes that are not
    transformed: what happens otherwise is nobody's promise"""
    if "y" not in r.args:
        return []
    x, y = r.buf0("x"), r.buf0("y")
    return [eq(p, q) for i, (p, q) in enumerate(zip(x.dims, y.dims)) if i != ax]


def t_a_over(P, b, cfg, nd, ax, op):
    out = []
    for fn in (op + "_inplace", op + "_inplace_par"):
        r = a_run(P, b, cfg, fn)
        out.append(overwrite_ob("a::%s::%s::%s" % (b, cfg, fn), r, "no element of the output depends on its previous content", other_axes(r, ax)))
    return out


# ------------------------------------------------------------------ spaces
def s_run(P, sp, fn):
    return run(P, s_root(sp, fn), s_handlers(sp))


def s_root(sp, fn):
    """the serial operations of the distributed spaces (m2) are those of a serial space"""
    return "m::%s::%s" % (sp[3:], fn) if sp.startswith("m2_") else "s::%s::%s" % (sp, fn)


def s_handlers(sp):
    return MPI.space_handlers() if sp.startswith("m2_") else OPS.handlers("array")


def axis_keys(P, sp):
    """field of the space that holds the base of each axis"""
    r = run(P, s_root(sp, "new"), s_handlers(sp))
    if r.status != "ok" or not isinstance(r.ret, Agg):
        return None
    adt = P.adts.get(r.ret.tag)
    if adt is None:
        return None
    names = adt["variants"][0][1]
    keys = []
    for p in "abc"[:len(SPACES[sp])]:
        v = r.mem0[("A", p)]
        hit = [n for n, f in zip(names, r.ret.fields) if f is v]
        if len(hit) != 1:
            return None
        keys.append("b." + hit[0])
    return keys


def out_et(kinds, op):
    """element type after the operation; None when the type forbids it"""


def s_spec(xlam, keys, kinds, op, order, xt, ks=None):
    """the per-axis operations composed in the given order of axes"""
    nd = len(keys)
    lam, t = xlam, xt
    for ax in order:
        k = kinds[ax]
        if op == "forward":
            if k == "f":
                if t != "f":
                    return None
                t2 = "c"
            elif k == "c":
                if t != "c":
                    return None
                t2 = "c"
            else:
                t2 = t
        elif op == "backward":
            if k == "f":
                if t != "c":
                    return None
                t2 = "f"
            elif k == "c":
                if t != "c":
                    return None
                t2 = "c"
            else:
                t2 = t
        else:
            t2 = t
            if k != "r" and t != "c":
                return None
        extra = (ks[ax],) if ks is not None else ()
        lam = OPS.along(op, keys[ax], extra, lam, nd, ax, t2)
        t = t2
    return lam, t


def orders(kinds, op):
    """admissible orders of the axes: the real-to-complex step comes before any
    complex-to-complex step on the way forward and after them on the way back"""
    n = len(kinds)
    for o in itertools.permutations(range(n)):
        if op in ("forward", "backward") and "f" in kinds:
            pf = o.index(kinds.index("f"))
            pc = [o.index(i) for i in range(n) if kinds[i] == "c"]
            if op == "forward" and any(p < pf for p in pc):
                continue
            if op == "backward" and any(p > pf for p in pc):
                continue
        yield o


def s_types(kinds):
    if set(kinds) == {"r"}:
        return "f", "f"
    if "f" in kinds:
        return "f", "c"
    return "c", "c"


def s_expect(P, sp, r, op, keys, scaled):
    kinds = SPACES[sp]
    nd = len(kinds)
    x = r.buf0("x")
    pt, ct = s_types(kinds)
    xt = pt if op == "forward" else ct
    ks = None
    if op == "gradient":
        ks = list(r.args["k"].fields)
    coef = ONE
    if scaled:
        for s, k in zip(r.args["s"].fields, ks):
            coef = coef * inv(power(s, k))
    ka, kb = OPS.SIZES[op]
    dims = tuple(OPS.size(kb, k) for k in keys)
    want = [eq(d, OPS.size(ka, k)) for d, k in zip(x.dims, keys)] + size_facts(SPACES[sp], keys)
    specs = []
    for o in orders(kinds, op):
        s = s_spec(x.lam, keys, kinds, op, o, xt, ks)
        if s is None:
            continue
        lam, t = s
        if coef is not ONE:
            vs = tuple(freshv() for _ in range(nd))
            lam = Lam(vs, coef * lam(*[pof(v) for v in vs]))
        specs.append((o, Arr(dims, lam, "C", t)))
    return dims, want, specs


S_FNS = {"forward": ["forward", "forward_par", "forward_inplace", "forward_inplace_par"],
         "backward": ["backward", "backward_par", "backward_inplace", "backward_inplace_par"],
         "to_ortho": ["to_ortho", "to_ortho_par", "to_ortho_inplace", "to_ortho_inplace_par"],
         "from_ortho": ["from_ortho", "from_ortho_par", "from_ortho_inplace", "from_ortho_inplace_par"],
         "gradient": ["gradient", "gradient_par", "gradient_scaled", "gradient_par_scaled"]}


def spec_match(got, specs, facts, what):
    """got equals one of the admissible compositions"""
    best = None
    for o, sp in specs:
        g = got
        it = cmp_quick(g, sp, facts)
        if it:
            return [("ok", "%s, order of axes %s" % (what, o))]
    it = cmp_vals(got, specs[0][1], facts, what=what)
    return it


def cmp_quick(a, b, facts):
    if len(a.dims) != len(b.dims):
        return False
    if not all(PV.eqv(x, y, facts) for x, y in zip(a.dims, b.dims)):
        return False
    vs = [sym("u:i%d" % i) for i in range(len(a.dims))]
    f = list(facts) + [ge0(v) for v in vs] + [lt(v, d) for v, d in zip(vs, a.dims)]
    x, y = a.lam(*vs), b.lam(*vs)
    f = f + lemmas(x, f)
    x = simp(x, f)
    return x is y or PV.eqv(x, y, f, secs=15)


def t_s_spec(P, sp, op):
    out = []
    keys = axis_keys(P, sp)
    rule = "composition of the per-axis operations, each base once on its own axis" if op != "gradient" else \
        "each axis base differentiates its own axis with its own order; the result is divided by the product of scale^order"
    for fn in S_FNS[op]:
        id = "s::%s::%s" % (sp, fn)
        r = s_run(P, sp, fn)
        if keys is None:
            out.append(dict(id=id, status="unknown", detail="fields of the space", rule=rule))
            continue
        if r.status == "undecided":
            out.append(undec(id, r, rule))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=rule))
            continue
        inpl = "inplace" in fn
        dims, want, specs = s_expect(P, sp, r, op, keys, "scaled" in fn)
        got = a_result(r, inpl)
        f = nolayout(r.facts()) + want
        if inpl:
            want = want + [eq(p, q) for p, q in zip(got.dims, dims)]
            f = f + want
        items = spec_match(got, specs, f, fn)
        # completes for every admissible argument
        for c in domain_of(r):
            s, d = PV.check_cond(c, want)
            items.append((s, "" if s == "ok" else "refuses admissible arguments: %s %s" % (c, d)))
        out.append(ob(id, items, rule, r))
    return out


def t_s_pair(P, sp, op, which):
    out = []
    keys = axis_keys(P, sp)
    if which == "par":
        pairs = [(S_FNS[op][0], S_FNS[op][1]), (S_FNS[op][2], S_FNS[op][3])]
    else:
        if op == "gradient":
            return []
        pairs = [(S_FNS[op][0], S_FNS[op][2]), (S_FNS[op][1], S_FNS[op][3])]
    rule = "parallel equals serial" if which == "par" else "allocating equals in-place, result extents"
    for f1, f2 in pairs:
        id = "s::%s::%s=%s" % (sp, f1, f2)
        r1, r2 = s_run(P, sp, f1), s_run(P, sp, f2)
        dims = None
        if keys and which != "par":
            dims = tuple(OPS.size(OPS.SIZES[op][1], k) for k in keys)
        out.append(pair_ob(id, r1, r2, f1, f2, rule, [], which, dims, size_facts(SPACES[sp], keys)))
    return out


def t_s_grad_dims(P, sp):
    """derivatives of a space have the orthogonal extents"""
    out = []
    keys = axis_keys(P, sp)
    rule = "allocating result has the extents of the target space"
    for fn in S_FNS["gradient"]:
        id = "s::%s::%s extents" % (sp, fn)
        r = s_run(P, sp, fn)
        if r.status == "undecided" or keys is None:
            out.append(undec(id, r, rule))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=rule))
            continue
        items = []
        for i, (p, k) in enumerate(zip(r.ret.dims, keys)):
            items += cmp_vals(p, OPS.size("orth", k), nolayout(r.facts()), what="%s extent %d" % (fn, i))
        out.append(ob(id, items, rule, r))
    return out


def t_s_over(P, sp, op):
    out = []
    for fn in S_FNS[op][2:]:
        if "inplace" not in fn:
            continue
        r = s_run(P, sp, fn)
        out.append(overwrite_ob("s::%s::%s" % (sp, fn), r, "no element of the output depends on its previous content"))
    return out


def t_s_pc(P, sp, op):
    out = []
    keys = axis_keys(P, sp)
    rule = "completes only for the prescribed extents along every axis"
    ka, kb = OPS.SIZES[op]
    for fn in S_FNS[op]:
        id = "s::%s::%s" % (sp, fn)
        r = s_run(P, sp, fn)
        if r.status == "undecided" or keys is None:
            out.append(undec(id, r, rule))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=rule))
            continue
        x = r.buf0("x")
        want = [eq(d, OPS.size(ka, k)) for d, k in zip(x.dims, keys)]
        pos = [ge0(d - 1) for d in x.dims] + [ge0(OPS.size(z, k) - 1) for k in keys for z in ("phys", "spec", "orth")]
        if "inplace" in fn:
            y = r.buf0("y")
            want += [eq(d, OPS.size(kb, k)) for d, k in zip(y.dims, keys)]
            pos += [ge0(d - 1) for d in y.dims]
        got = domain_of(r)
        items = []
        for c in want:
            s, d = PV.check_cond(c, got + pos)
            items.append((s, fn if s == "ok" else "completes although not %s (%s)" % (c, d)))
        out.append(ob(id, items, rule, r))
    return out


# ------------------------------------------------------------------ queries of a space
def t_s_query(P, sp):
    out = []
    keys = axis_keys(P, sp)
    nd = len(SPACES[sp])
    rule = "every per-axis query of a space is answered by the base of that axis"
    if keys is None:
        r = run(P, s_root(sp, "new"), s_handlers(sp))
        it = ("unknown", "fields of the space: %s" % r.why)
        if r.status == "ok" and isinstance(r.ret, Agg):
            ins = [r.mem0[("A", p)] for p in "abc"[:nd]]
            bf = [f for f in r.ret.fields if f in ins]
            if len(bf) == nd and len(set(bf)) < nd:
                it = ("bad", "the space does not hold the bases it is given")
        return [dict(id="s::%s::new" % sp, status=it[0], detail=it[1], rule=rule)]
    out.append(dict(id="s::%s::new" % sp, status="ok", detail=str(keys), rule=rule))
    ax = sym("u:axis")

    def cases(f):
        v = f(nd - 1)
        for i in range(nd - 2, -1, -1):
            v = vite(eq(ax, const(i)), f(i), v)
        return v
    for q in ("base_kind", "transform_kind", "coords_axis", "stencil", "stencil_inv", "laplacian", "laplacian_pinv"):
        id = "s::%s::%s" % (sp, q)
        r = s_run(P, sp, q)
        if r.status != "ok":
            out.append(undec(id, r, rule))
            continue
        nm = "coords" if q == "coords_axis" else q
        items = []
        for i in range(nd):
            f = r.facts() + [eq(ax, const(i))]
            if not feasible(f):
                items.append(("bad", "axis %d refused" % i))
                continue
            items += cmp_query(resolve(r.ret, f), nm, keys[i], f, "%s of axis %d" % (q, i))
        out.append(ob(id, items, rule, r))
    id = "s::%s::coords" % sp
    r = s_run(P, sp, "coords")
    if r.status != "ok":
        out.append(undec(id, r, rule))
    else:
        items = []
        fs = r.ret.fields if isinstance(r.ret, Agg) else ()
        for i in range(nd):
            items += cmp_query(fs[i], "coords", keys[i], r.facts(), "coords of axis %d" % i) if i < len(fs) else [("unknown", "coords")]
        out.append(ob(id, items, rule, r))
    for q, k in (("shape_physical", "phys"), ("shape_spectral", "spec"), ("shape_spectral_ortho", "orth")):
        id = "s::%s::%s" % (sp, q)
        r = s_run(P, sp, q)
        if r.status != "ok" or not isinstance(r.ret, Agg):
            out.append(undec(id, r, rule))
            continue
        items = []
        for i, v in enumerate(r.ret.fields):
            items += cmp_vals(v, OPS.size(k, keys[i]), r.facts(), what="%s[%d]" % (q, i))
        out.append(ob(id, items, rule, r))
    for q, k in (("ndarray_physical", "phys"), ("ndarray_spectral", "spec"), ("ndarray_from_shape", None)):
        id = "s::%s::%s" % (sp, q)
        r = s_run(P, sp, q)
        if r.status != "ok" or not isinstance(r.ret, Arr):
            out.append(undec(id, r, rule))
            continue
        items = []
        for i, v in enumerate(r.ret.dims):
            w = OPS.size(k, keys[i]) if k else r.args["s"].fields[i]
            items += cmp_vals(v, w, r.facts(), what="%s extent %d" % (q, i))
        out.append(ob(id, items, rule, r))
    return out


def resolve(v, facts):
    while isinstance(v, IteV):
        d = decide(list(facts), v.f[0])
        if d is None:
            return v
        v = v.f[1] if d else v.f[2]
    return v


def cmp_query(v, q, key, facts, what):
    """v is the answer of base `key` to query q"""
    if q == "coords" and isinstance(v, Arr):
        return cmp_vals(v, OPS.coords_of(key), list(facts), what=what)
    if isinstance(v, Obj) and v.name.startswith("q:"):
        if v.name == "q:" + q and v.f[1] == key:
            return [("ok", what)]
        return [("bad", "%s answered by %s of %s" % (what, v.name[2:], v.f[1]))]
    if isinstance(v, IteV):
        out = []
        for lit, x in ((v.f[0], v.f[1]), (cnot(v.f[0]), v.f[2])):
            f2 = list(facts) + conjuncts(lit)
            if feasible(f2):
                out += cmp_query(x, q, key, f2, what)
        return out
    return [("unknown", "%s: %s" % (what, str(v)[:100]))]


# ------------------------------------------------------------------ registration
def c05(P, tier):
    t = a_tasks("par")
    for sp in SPACES:
        for op in OPN:
            t.append(("s::%s::%s" % (sp, op), t_s_pair, (sp, op, "par")))
    return t


def c06(P, tier):
    t = a_tasks("inplace")
    for sp in SPACES:
        for op in OPN:
            t.append(("s::%s::%s" % (sp, op), t_s_pair, (sp, op, "inplace")))
        t.append(("s::%s::gradient" % sp, t_s_grad_dims, (sp,)))
    return t


def c07(P, tier):
    t = [x for x in a_tasks("spec") if not x[0].endswith("gradient")]
    for sp in SPACES:
        for op in OPN[:4]:
            t.append(("s::%s::%s" % (sp, op), t_s_spec, (sp, op)))
    return t


def c08(P, tier):
    t = [x for x in a_tasks("spec") if x[0].endswith("gradient")]
    for sp in SPACES:
        t.append(("s::%s::gradient" % sp, t_s_spec, (sp, "gradient")))
    return t


def c02(P, tier):
    t = a_tasks("pc")
    for sp in SPACES:
        for op in OPN:
            t.append(("s::%s::%s" % (sp, op), t_s_pc, (sp, op)))
    return t


def c03(P, tier):
    t = a_tasks("over")
    for sp in SPACES:
        for op in OPN:
            t.append(("s::%s::%s" % (sp, op), t_s_over, (sp, op)))
    return t


def c09(P, tier):
    return [("s::%s" % sp, t_s_query, (sp,)) for sp in SPACES]


CHECKS = {"C02": c02, "C03": c03, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
