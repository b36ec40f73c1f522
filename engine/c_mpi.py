"""Distributed part: tiling (C23), transposes (C24), gather/scatter (C25),
distributed operations (C26), collective sequences (C27), decompositions (C28)."""
import itertools
import re
from fractions import Fraction
from core import *
import core
import interp as IT
import ops as OPS
import mpi as MPI
import models as MM
from c_spaces import ob, undec, axis_keys, s_spec, s_types, orders, spec_match, domain_of

NP = sym("u:np")
R = sym("u:r")
G = (sym("u:g.0"), sym("u:g.1"))


def fields(P, v):
    """field name -> value of a struct value"""
    names = P.adts[v.tag]["variants"][0][1]
    return dict(zip(names, v.fields))


def comp(arr, p, k):
    """component k of entry p of a Vec<[usize; 2]>"""
    return arr.lam(p).fields[k]


TILE_RULE = "the index ranges of the processes tile the axis in rank order and differ in length by at most one"


def t_tile(P, c):
    id = "d::dist_new%d" % c
    s = 1 - c
    base = [ge0(NP - 1), lt(R, NP), ge0(G[s] - NP), ge0(G[c] - 1)]

    def pre(ip, st, args):
        for x in base:
            st.assume(x)
    r = run(P, id, None, pre)
    if r.status != "ok":
        if r.status == "dead":
            return [dict(id=id, status="bad", detail="never completes", rule=TILE_RULE, fns=sorted(fns_of(r)))]
        return [undec(id, r, TILE_RULE)]
    F = r.facts()
    d = fields(P, r.ret)
    out = []

    def put(what, items):
        out.append(ob("%s %s" % (id, what), items, TILE_RULE, r))
    need = ("st", "en", "sz", "st_procs", "en_procs", "sz_procs")
    if any(n not in d for n in need):
        return [dict(id=id, status="unknown", detail="fields of the distribution not recognised", rule=TILE_RULE, fns=sorted(fns_of(r)))]
    st, en, sz = d["st_procs"], d["en_procs"], d["sz_procs"]
    put("accepted", [prove_fact(f, base) for f in F])
    p, q = sym("u:p"), sym("u:q")
    fp = F + [ge0(p), lt(p, NP)]
    put("counts", cmp_vals(Agg("x", tuple(a.dims[0] for a in (st, en, sz))), Agg("x", (NP,) * 3), F, what="entries"))
    put("first", [prove_eq(comp(st, ZERO, s), ZERO, F)])
    put("last", [prove_eq(comp(en, NP - 1, s), G[s] - 1, F)])
    put("contiguous", [prove_eq(comp(st, p + 1, s), comp(en, p, s) + 1, fp + [lt(p + 1, NP)])])
    put("size", [prove_eq(comp(sz, p, s), comp(en, p, s) - comp(st, p, s) + 1, fp)])
    put("positive", [prove_ge(comp(sz, p, s) - 1, fp)])
    put("balanced", [prove_ge(ONE - comp(sz, p, s) + comp(sz, q, s), fp + [ge0(q), lt(q, NP)])])
    put("whole axis", [prove_eq(comp(st, p, c), ZERO, fp), prove_eq(comp(en, p, c), G[c] - 1, fp), prove_eq(comp(sz, p, c), G[c], fp)])
    put("own", [PV.check_eq(d[a].fields[k], comp(d[a + "_procs"], R, k), F) for a in ("st", "en", "sz") for k in (0, 1)])
    own = [("nprocs", NP), ("nrank", R), ("axis_contig", const(c))]
    put("identity", [PV.check_eq(d[n], v, F) for n, v in own if n in d])
    return out


def abstract_div(x, facts):
    """quotients by a positive symbol become symbols with their defining bounds"""
    m, extra = {}, []
    for a in sorted(divs((x, tuple(facts))), key=lambda a: a.key):
        n, d = a.args[1], a.args[2]
        q = sym("u:Q%d" % len(m))
        m[a] = q
        if entails(facts, ge0(d - 1)) and entails(facts, ge0(n)):
            extra += [ge0(n - d * q), ge0(d - 1 - n + d * q), ge0(q)]
            if entails(facts, ge0(n - d)):
                extra.append(ge0(q - 1))
    if not m:
        return x, facts
    f2 = [PV.subst_cond(f, m) if hasattr(PV, "subst_cond") else subst_atoms(f, m) for f in facts]
    return subst_atoms(x, m), [f for f in f2 if f is not TRUE] + extra


def divs(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple):
        for y in x:
            divs(y, out)
    elif isinstance(x, Poly):
        for m, _ in x.m:
            for a, _e in m:
                divs(a, out)
    elif isinstance(x, (Cond, Atom)):
        if isinstance(x, Atom) and x.kind == "app" and x.args[0] == "fdiv":
            out.add(x)
        for a in x.args:
            if isinstance(a, (Poly, Cond, Atom, tuple)):
                divs(a, out)
    return out


def equalities(facts):
    """symbols determined by the facts: {symbol: value}"""
    for f in facts:
        if f.kind == "eq0":
            p = f.args[0]
        elif f.kind == "ge0" and not has_ite(f.args[0]) and entails(facts, ge0(-f.args[0])):
            p = f.args[0]
        else:
            continue
        for m, v in p.m:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym" and abs(v) == 1:
                a = m[0][0]
                rest = p - v * pof(a)
                if a not in fv(rest):
                    return {a: -rest * v}
    return None


def cases(p, facts, done, depth=0):
    """done(p, facts) in every case of the conditionals of p"""
    p = simp(p, facts) if has_ite(p) else p
    if done(p, facts):
        return True
    cs = list(TT.outer_ites(p)) if has_ite(p) else []
    if not cs:
        for _ in range(4):
            m = equalities(facts)
            if not m:
                return False
            p = subst_atoms(p, m)
            facts = [g for g in (subst_atoms(f, m) for f in facts) if g is not TRUE]
            if any(g is FALSE for g in facts) or not feasible(facts) or done(p, facts):
                return True
        return False
    if depth > 12:
        return False
    for lit in (cs[0], cnot(cs[0])):
        f2 = facts + conjuncts(lit)
        if feasible(f2) and not cases(p, f2, done, depth + 1):
            return False
    return True


def prove_ge(p, facts):
    """p >= 0 under the facts"""
    x, f = abstract_div(p, facts)
    if cases(x, f, lambda y, g: entails(g, ge0(y))):
        return ("ok", "")
    return PV.check_cond(ge0(p), facts)


def prove_eq(a, b, facts):
    x, f = abstract_div(a - b, facts)
    if cases(x, f, lambda y, g: y is ZERO):
        return ("ok", "")
    return PV.check_eq(a, b, facts)


def prove_fact(c, facts):
    if c.kind == "ge0":
        return prove_ge(c.args[0], facts)
    return PV.check_cond(c, facts)


def t_new(P):
    """the decomposition holds the ranges of both orientations, for this process"""
    id = "d::new"
    rule = "a decomposition distributes its global shape over all processes, one orientation per pencil"
    base = [ge0(NP - 1), lt(R, NP), ge0(G[0] - NP), ge0(G[1] - NP)]

    def pre(ip, st, args):
        for c in base:
            st.assume(c)
    r = run(P, id, None, pre)
    if r.status != "ok":
        return [undec(id, r, rule) if r.status != "dead" else dict(id=id, status="bad", detail="never completes", rule=rule)]
    d = fields(P, r.ret)
    items = [prove_fact(f, base) for f in r.facts()]
    items += [PV.check_eq(a, b, base) for a, b in zip(d["n_global"].fields, G)]
    items += [PV.check_eq(d[n], v, base) for n, v in (("nprocs", NP), ("nrank", R)) if isinstance(d.get(n), Poly)]
    f = list(base) + r.facts()
    for c, n in ((0, "x_pencil"), (1, "y_pencil")):
        q = run(P, "d::dist_new%d" % c, None, pre)
        if q.status != "ok":
            items.append(("unknown", q.why))
            continue
        a, b = fields(P, d[n]), fields(P, q.ret)
        g = f + q.facts()
        for k in a:
            if isinstance(a[k], Arr):
                items.append(("ok", "") if PV.eqv(a[k].dims[0], b[k].dims[0], g, secs=5) else ("unknown", "%s.%s" % (n, k)))
                p = sym("u:p")
                x, y = a[k].lam(p), b[k].lam(p)
                for u, v in zip(x.fields, y.fields):
                    items += cmp_vals(u, v, g + [ge0(p), lt(p, NP)], what="%s.%s" % (n, k))
            else:
                items += cmp_vals(a[k], b[k], g, what="%s.%s" % (n, k))
        fns = fns_of(q)
    out = [ob(id, items, rule, r)]
    rule2 = "the queries of a decomposition answer with its shapes"
    for fn, want in (("global_shape", lambda d: d["n_global"]), ("x_shape", lambda d: fields(P, d["x_pencil"])["sz"]), ("y_shape", lambda d: fields(P, d["y_pencil"])["sz"])):
        q, base2 = d_run(P, fn, {}, None)
        if q.status != "ok":
            out.append(undec("d::" + fn, q, rule2))
            continue
        w = want(fields(P, full_decomp(P, R)))
        out.append(ob("d::" + fn, cmp_vals(q.ret, w, q.facts(), what=fn), rule2, q))
    return out


def c23(P, tier):
    return [("dist%d" % c, t_tile, (c,)) for c in (0, 1)] + [("new", t_new, ())]



# ------------------------------------------------------------------ distributed operations
KINDS = ("rr", "fr", "cf", "cc")
ZS = ("phys", "spec", "orth")


def kind_facts(kinds, keys):
    """relations between the sizes of the bases of a space (established by `sizes`)"""
    out = []
    for t, k in zip(kinds, keys):
        n = {z: OPS.size(z, k) for z in ZS}
        out += [ge0(n[z] - 1) for z in ZS]
        if t == "r":
            out.append(eq(n["orth"], n["phys"]))
        elif t == "f":
            out.append(eq(n["orth"], n["spec"]))
        else:
            out += [eq(n["orth"], n["phys"]), eq(n["spec"], n["phys"])]
    return out


def shapes(keys):
    return [(OPS.size(a, keys[0]), OPS.size(b, keys[1])) for a in ZS for b in ZS]


SIZE_RULE = "sizes of the families: a real-to-real base has orthogonal length equal to its physical length, a real-to-complex one equal to its spectral length, a complex one has a single length"
FAMS = (("cheb", "r"), ("dirichlet", "r"), ("neumann", "r"), ("dirichlet_neumann", "r"), ("biharmonic_a", "r"), ("biharmonic_b", "r"),
        ("r2c", "f"), ("c2c", "c"))


def t_fam(P, b, t):
    from c_kernels import krun
    r = krun(P, b, "sizes", "u")
    id = "u::%s::sizes" % b
    if r.status != "ok" or not isinstance(r.ret, Agg) or len(r.ret.fields) != 3:
        return [undec(id, r, SIZE_RULE)]
    ph, sp, orth = r.ret.fields
    f = r.facts()
    items = []
    s, d = PV.check_cond(ge0(orth - sp), f)
    items.append((s, "" if s == "ok" else "the spectral length exceeds the orthogonal one: %s" % d))
    if t != "f":
        items += cmp_vals(orth, ph, f, what="orthogonal and physical length")
    if t != "r":
        items += cmp_vals(orth, sp, f, what="orthogonal and spectral length")
    return [ob(id, items, SIZE_RULE, r)]


def fam_tasks():
    return [("sizes %s" % b, t_fam, (b, t)) for b, t in FAMS]


def keys_of(P):
    k = axis_keys(P, "m2_rr")
    return k


# operation -> (pencil and sizes of the input, pencil and sizes of the result)
M_OPS = {"forward": (("y", "phys"), ("x", "spec")), "backward": (("x", "spec"), ("y", "phys")),
         "to_ortho": (("x", "spec"), ("x", "orth")), "from_ortho": (("x", "orth"), ("x", "spec")), "gradient": (("x", "spec"), ("x", "orth"))}
M_FNS = {"forward": ["forward_mpi", "forward_inplace_mpi"], "backward": ["backward_mpi", "backward_inplace_mpi"],
         "to_ortho": ["to_ortho_mpi", "to_ortho_inplace_mpi"], "from_ortho": ["from_ortho_mpi", "from_ortho_inplace_mpi"],
         "gradient": ["gradient_mpi", "gradient_mpi_scaled"]}


def field(et, nm, g, pen):
    """the part of a distributed field on this process"""
    d, ax, o = MPI.pencil(g, pen)
    vs = (freshv(), freshv())
    ix = [pof(v) for v in vs]
    ix[ax] = ix[ax] + o
    return Arr(d, Lam(vs, IT.elem_sym(et, nm, tuple(ix))), "C", et)


def glob(et, nm):
    vs = (freshv(), freshv())
    return Lam(vs, IT.elem_sym(et, nm, tuple(pof(v) for v in vs)))


def put_field(st, nm, g, pen):
    """replace a buffer of the entry point by the local part of a field"""
    old = st.mem[("A", nm)]
    st.mem[("A", nm)] = field(old.et, nm, g, pen)


def m_pre(kinds, keys, bufs):
    """bufs: name -> (sizes, pencil); pencil None: the whole array"""
    base = [ge0(NP - 1), lt(R, NP)] + kind_facts(kinds, keys)
    for g in shapes(keys):
        base += MPI.extent_facts(g)

    def pre(ip, st, args):
        for c in base:
            st.assume(c)
        for nm, (z, pen) in bufs.items():
            g = tuple(OPS.size(z, k) for k in keys)
            if pen is None:
                old = st.mem[("A", nm)]
                st.mem[("A", nm)] = Arr(g, glob(old.et, nm), "C", old.et)
            else:
                put_field(st, nm, g, pen)
    return pre, base


_mc = {}


def m_run(P, kk, fn, bufs, keys):
    k = (id(P), kk, fn)
    if k not in _mc:
        pre, base = m_pre(kk, keys, bufs)
        _mc[k] = (run(P, "m::%s::%s" % (kk, fn), MPI.handlers(), pre), base)
    return _mc[k]


def op_bufs(op, fn):
    (ip_, iz), (op_, oz) = M_OPS[op]
    bufs = {"x": (iz, ip_)}
    if "inplace" in fn:
        bufs["y"] = (oz, op_)
    return bufs


DIST_RULE = "the local part of the result is the local part of the composition of the per-axis operations, for every shape and process count"


def admissible(r, base):
    out = []
    seen = set()
    for c in domain_of(r):
        if c in seen:
            continue
        seen.add(c)
        s, d = PV.check_cond(c, base)
        out.append((s, "" if s == "ok" else "refuses admissible arguments: %s %s" % (c, d)))
    return out


def refused(id, r, base, rule):
    """an operation that stops being understood after it was handed a field of
    the wrong extents refuses admissible arguments"""
    for e in (r.ip.ev if r.ip else ()):
        ok = e.get("ok")
        if ok is None or not isinstance(ok, Cond):
            continue
        s, d = PV.check_cond(drop_layout(ok), list(base) + nolayout(drop_layout(c) for _, c in e["pc"]))
        if s == "bad":
            return dict(id=id, status="bad", detail="%s %s gets a field of other extents: %s" % (e["kind"], e.get("name") or e.get("op"), d),
                        rule=rule, fns=sorted(fns_of(r)))
    return undec(id, r, rule)


def t_dist(P, kk, op):
    out = []
    keys = keys_of(P)
    for fn in M_FNS[op]:
        id = "m::%s::%s" % (kk, fn)
        if keys is None:
            out.append(dict(id=id, status="unknown", detail="fields of the space", rule=DIST_RULE))
            continue
        r, base = m_run(P, kk, fn, op_bufs(op, fn), keys)
        if r.status == "undecided":
            out.append(refused(id, r, base, DIST_RULE))
            continue
        if r.status == "dead":
            out.append(dict(id=id, status="bad", detail="never completes", rule=DIST_RULE, fns=sorted(fns_of(r))))
            continue
        pt, ct = s_types(kk)
        (_, iz), (pen, oz) = M_OPS[op]
        xt = pt if op == "forward" else ct
        ks = list(r.args["k"].fields) if op == "gradient" else None
        coef = ONE
        if "scaled" in fn:
            for s, k in zip(r.args["s"].fields, ks):
                coef = coef * inv(power(s, k))
        g = tuple(OPS.size(oz, k) for k in keys)
        d, ax, o = MPI.pencil(g, pen)
        specs = []
        for od in orders(kk, op):
            sp = s_spec(glob(xt, "x"), keys, kk, op, od, xt, ks)
            if sp is None:
                continue
            lam, t = sp
            vs = (freshv(), freshv())
            ix = [pof(v) for v in vs]
            ix[ax] = ix[ax] + o
            specs.append((od, Arr(d, Lam(vs, coef * lam(*ix)), "C", t)))
        got = r.buf("y") if "inplace" in fn else r.ret
        items = spec_match(got, specs, nolayout(r.facts()), fn)
        items += admissible(r, base)
        out.append(ob(id, items, DIST_RULE, r))
    return out


MOVE_RULE = "a redistribution of a field between the pencils keeps every element at its global index"


def t_move(P, kk):
    out = []
    keys = keys_of(P)
    for a, b in (("x", "y"), ("y", "x")):
        for z, nm in (("phys", "phys"), ("spec", "spec")):
            fn = "transpose_%s_to_%s_%s" % (a, b, nm)
            id = "m::%s::%s" % (kk, fn)
            if keys is None:
                out.append(dict(id=id, status="unknown", detail="fields of the space", rule=MOVE_RULE))
                continue
            r, base = m_run(P, kk, fn, {"x": (z, a), "y": (z, b)}, keys)
            if r.status != "ok":
                out.append(refused(id, r, base, MOVE_RULE) if r.status != "dead" else dict(id=id, status="bad", detail="never completes", rule=MOVE_RULE))
                continue
            g = tuple(OPS.size(z, k) for k in keys)
            items = cmp_vals(r.buf("y"), field(r.buf0("x").et, "x", g, b), nolayout(r.facts()), what=fn)
            out.append(ob(id, items + admissible(r, base), MOVE_RULE, r))
    return out


def c26(P, tier):
    t = fam_tasks()
    for kk in KINDS:
        for op in M_OPS:
            t.append(("m::%s::%s" % (kk, op), t_dist, (kk, op)))
        t.append(("m::%s::transpose" % kk, t_move, (kk,)))
    return t



# ------------------------------------------------------------------ decompositions of a space
REG_RULE = "every field shape of the space (physical, spectral, orthogonal along each axis) has a registered decomposition of that shape"


def t_reg(P, kk, za, zb):
    id = "m::%s::new [%s,%s]" % (kk, za, zb)
    # the sizes of a base may or may not coincide: every combination
    free = [i for i, t in enumerate(kk) if t != "c"]
    items, fns, last = [], set(), None
    for same in itertools.product((True, False), repeat=len(free)):
        base = []

        def pre(ip, st, args):
            ks = [OPS.basekey(ip, st, args[n]) for n in ("a", "b")]
            base.append((OPS.size(za, ks[0]), OPS.size(zb, ks[1])))
            base.extend([ge0(NP - 1), lt(R, NP)] + kind_facts(kk, ks))
            for h in shapes(ks):
                base.extend(MPI.extent_facts(h))
            for i, eqv in zip(free, same):
                c = eq(OPS.size("phys", ks[i]), OPS.size("spec", ks[i]))
                base.append(c if eqv else cnot(c))
            for c in base[1:]:
                st.assume(c)
            return {"s": Agg("array", base[0])}
        r = run(P, "m::%s::reg" % kk, MPI.space_handlers(), pre)
        fns |= fns_of(r)
        if r.status != "ok":
            items.append(("bad", "no decomposition of this shape") if r.status == "dead" else ("unknown", "%s %s" % (r.status, r.why)))
            continue
        g, base = base[0], base[1:]
        for c in domain_of(r):
            s, d = PV.check_cond(c, base)
            items.append((s, "" if s == "ok" else "no decomposition of this shape unless %s: %s" % (c, d)))
        f = list(base) + nolayout(r.facts())
        want = (g, MPI.pencil(g, "x")[0], MPI.pencil(g, "y")[0])
        for v, w, n in zip(r.ret.fields, want, ("global shape", "x pencil", "y pencil")):
            items += cmp_vals(v, Agg("array", w), f, what=n)
        last = r
    return [ob(id, items, REG_RULE, last, fns)] if last is not None else [dict(ob(id, items, REG_RULE), fns=sorted(fns))]


HELP_RULE = "the helper uses the decomposition of the shape of its field and the pencil of its name, with the matching exchange"
HELPERS = []
for _p in "xy":
    for _z in ("phys", "spec"):
        HELPERS += [("gather_from_%s_pencil_%s" % (_p, _z), "gather", _p, False, _z, {"x": _p}),
                    ("gather_from_%s_pencil_%s_root" % (_p, _z), "gather", _p, True, _z, {"x": _p, "y": None}),
                    ("all_gather_from_%s_pencil_%s" % (_p, _z), "all_gather", _p, False, _z, {"x": _p, "y": None}),
                    ("scatter_to_%s_pencil_%s" % (_p, _z), "scatter", _p, False, _z, {"y": _p}),
                    ("scatter_to_%s_pencil_%s_root" % (_p, _z), "scatter", _p, True, _z, {"x": None, "y": _p})]
        _q = "y" if _p == "x" else "x"
        HELPERS.append(("transpose_%s_to_%s_%s" % (_p, _q, _z), "transpose", _p + _q, False, _z, {"x": _p, "y": _q}))


def t_helper(P, kk, fn, fam, way, root, z, pens):
    id = "m::%s::%s" % (kk, fn)
    keys = keys_of(P)
    if keys is None:
        return [dict(id=id, status="unknown", detail="fields of the space", rule=HELP_RULE)]
    bufs = {n: (z, p) for n, p in pens.items()}
    r, base = m_run(P, kk, fn, bufs, keys)
    if r.status == "undecided":
        return [refused(id, r, base, HELP_RULE)]
    if r.status == "dead":
        return [dict(id=id, status="bad", detail="never completes", rule=HELP_RULE, fns=sorted(fns_of(r)))]
    g = tuple(OPS.size(z, k) for k in keys)
    f = nolayout(r.facts())
    items = admissible(r, base)
    ev = [e for e in r.ip.ev if e["kind"] == "dcp"]
    raw = [e for e in r.ip.ev if e["kind"] == "coll"]
    if raw:
        items.append(("unknown", "exchanges data without a decomposition"))
    elif not ev:
        items.append(("bad", "no exchange takes place"))
    elif len(ev) > 1:
        items.append(("unknown", "%d exchanges" % len(ev)))
    else:
        e = ev[0]
        if e["name"] != fam or e["way"] != way or (fam in ("gather", "scatter") and e["root"] != root):
            items.append(("bad", "%s %s%s instead of %s %s%s" % (e["name"], e["way"], " (root)" if e.get("root") else "", fam, way, " (root)" if root else "")))
        else:
            items += cmp_vals(Agg("array", tuple(e["shape"])), Agg("array", g), f, what="shape of the decomposition")
            if e["data"] is not None:
                x = r.buf0("x")
                items += cmp_vals(Arr(x.dims, e["data"], "C", x.et), x, f, what="exchanged data")
            if "y" in pens and fam != "transpose":
                y0 = r.buf0("y")
                vs = (freshv(), freshv())
                ps = tuple(pof(v) for v in vs)
                ex = (g[0], g[1]) + ((r.buf0("x").lam,) if "x" in pens else ())
                nm = "mpi:%s_%s" % (fam, way)
                w = MM.capp(nm, *(ex + ps)) if y0.et == "c" else app(nm, *(ex + ps))
                items += cmp_vals(r.buf("y"), Arr(y0.dims, Lam(vs, w), "C", y0.et), f, what="result")
    return [ob(id, items, HELP_RULE, r)]


PEN_RULE = "shapes and allocations per pencil are those of the decomposition of the field shape"


def t_pens(P, kk):
    out = []
    keys = keys_of(P)
    for z, n in (("phys", "physical"), ("spec", "spectral")):
        for pen in "xy":
            for q in ("shape", "ndarray"):
                fn = "%s_%s_%s_pen" % (q, n, pen)
                id = "m::%s::%s" % (kk, fn)
                if keys is None:
                    out.append(dict(id=id, status="unknown", detail="fields of the space", rule=PEN_RULE))
                    continue
                r, base = m_run(P, kk, fn, {}, keys)
                if r.status != "ok":
                    out.append(dict(id=id, status="bad", detail="never completes", rule=PEN_RULE) if r.status == "dead" else undec(id, r, PEN_RULE))
                    continue
                g = tuple(OPS.size(z, k) for k in keys)
                d = MPI.pencil(g, pen)[0]
                got = Agg("array", tuple(r.ret.dims)) if isinstance(r.ret, Arr) else r.ret
                items = cmp_vals(got, Agg("array", d), nolayout(r.facts()), what=fn)
                out.append(ob(id, items + admissible(r, base), PEN_RULE, r))
    for fn, w in (("get_nrank", R), ("get_nprocs", NP)):
        id = "m::%s::%s" % (kk, fn)
        r = run(P, id, MPI.handlers(), None)
        out.append(ob(id, cmp_vals(r.ret, w, r.facts(), what=fn), PEN_RULE, r) if r.status == "ok" else undec(id, r, PEN_RULE))
    return out


LOOK_RULE = "every decomposition a distributed operation looks up is one of a field shape of the space"


def t_lookups(P, kk):
    out = []
    keys = keys_of(P)
    for op in M_OPS:
        for fn in M_FNS[op]:
            id = "m::%s::%s decompositions" % (kk, fn)
            if keys is None:
                out.append(dict(id=id, status="unknown", detail="fields of the space", rule=LOOK_RULE))
                continue
            r, base = m_run(P, kk, fn, op_bufs(op, fn), keys)
            ev = [e for e in r.ip.ev if e["kind"] == "lookup"] if r.ip else []
            if r.status == "dead":
                out.append(dict(id=id, status="bad", detail="never completes", rule=LOOK_RULE))
                continue
            items = [("ok", "")]
            if r.status != "ok":
                items.append(("unknown", r.why))
            known = shapes(keys)
            for e in ev:
                g = tuple(e["shape"])
                if g in known:
                    continue
                c = cor(*[cand(eq(g[0], h[0]), eq(g[1], h[1])) for h in known])
                s, d = PV.check_cond(c, base)
                items.append((s, "" if s == "ok" else "looks up the shape (%s, %s), which no field of the space has: %s" % (g[0], g[1], d)))
            out.append(ob(id, items, LOOK_RULE, r))
    return out


def c28(P, tier):
    t = fam_tasks()
    for kk in KINDS:
        for za in ZS:
            for zb in ZS:
                t.append(("m::%s::new %s %s" % (kk, za, zb), t_reg, (kk, za, zb)))
        t.append(("m::%s::pencils" % kk, t_pens, (kk,)))
        t.append(("m::%s::lookups" % kk, t_lookups, (kk,)))
        for h in HELPERS:
            t.append(("m::%s::%s" % (kk, h[0]), t_helper, (kk,) + h))
    return t



# ------------------------------------------------------------------ exchanges of a decomposition
# A decomposition in general position, as C23 establishes it: the axis a is cut
# into pieces SZa(0), SZa(1), ..; a process starts where the pieces before end.
def SZ(a, p):
    return app("u:SZ%d" % a, p, sort="int")


def ST(a, p):
    q = freshv()
    return TT.mksum(ZERO, p, Lam((q,), SZ(a, pof(q))))


def full_decomp(P, rk):
    tag = [n for n in P.adts if n.endswith("::Decomp2d") or n == "Decomp2d"]
    dtag = [n for n in P.adts if n.endswith("::Distribution")]
    if len(tag) != 1 or len(dtag) != 1:
        return None

    def dist(c):
        s = 1 - c

        def per(f, whole):
            v = freshv()
            xs = [None, None]
            xs[s], xs[c] = f(pof(v)), whole
            return Arr((NP,), Lam((v,), Agg("array", tuple(xs))), "C", ("agg", "array", ("u", "u")))
        size = per(lambda p: SZ(s, p), G[c])
        st = per(lambda p: ST(s, p), ZERO)
        en = per(lambda p: ST(s, p) + SZ(s, p) - 1, G[c] - 1)
        known = {"sz": size.lam(rk), "st": st.lam(rk), "en": en.lam(rk), "sz_procs": size, "st_procs": st, "en_procs": en,
                 "nprocs": NP, "nrank": rk, "axis_contig": const(c)}
        return Agg(dtag[0], tuple(known.get(n, Obj("mpi:" + n)) for n in P.adts[dtag[0]]["variants"][0][1]))
    known = {"n_global": Agg("array", G), "x_pencil": dist(0), "y_pencil": dist(1), "nprocs": NP, "nrank": rk,
             "world": Obj("world"), "universe": Obj("universe")}
    return Agg(tag[0], tuple(known.get(n, Obj("mpi:" + n)) for n in P.adts[tag[0]]["variants"][0][1]))


def piece(a, p):
    """what is known of piece p of axis a"""
    return [ge0(SZ(a, p) - 1), ge0(ST(a, p)), ge0(G[a] - ST(a, p) - SZ(a, p))]


def before(a, p, q):
    """piece p lies before piece q"""
    return ge0(ST(a, q) - ST(a, p) - SZ(a, p))


def gen():
    return [ge0(NP - 1), lt(R, NP), ge0(G[0] - NP), ge0(G[1] - NP), eq(ST(0, NP), G[0]), eq(ST(1, NP), G[1])]


def d_base(rank):
    rk = ZERO if rank == "root" else R
    f = gen() + piece(0, rk) + piece(1, rk)
    if rank == "root":
        f.append(eq(R, ZERO))
    elif rank == "other":
        f.append(ge0(R - 1))
    return f


def d_pre(P, bufs, rank=None):
    base = d_base(rank)
    rk = ZERO if rank == "root" else R

    def pre(ip, st, args):
        d = full_decomp(P, rk)
        if d is None:
            raise IT.Undecided("decomposition types")
        for c in base:
            st.assume(c)
        st.mem[("A", "d")] = d
        for nm, pen in bufs.items():
            old = st.mem[("A", nm)]
            st.mem[("A", nm)] = Arr(G, glob(old.et, nm), "C", old.et) if pen is None else local(old.et, nm, pen, rk)
    return pre, base


def local(et, nm, pen, p):
    s = 1 if pen == "x" else 0
    d = list(G)
    d[s] = SZ(s, p)
    vs = (freshv(), freshv())
    ix = [pof(v) for v in vs]
    ix[s] = ix[s] + ST(s, p)
    return Arr(tuple(d), Lam(vs, IT.elem_sym(et, nm, tuple(ix))), "C", et)


def d_run(P, fn, bufs, rank=None):
    k = (id(P), "d", fn, rank)
    if k not in _mc:
        pre, base = d_pre(P, bufs, rank)
        _mc[k] = (run(P, "d::" + fn, None, pre), base)
    return _mc[k]



def pieces(p, s):
    """p = s * q + c with q the cofactor of s (a product of atoms)"""
    if len(s.m) != 1 or s.m[0][1] != 1:
        return None
    want = dict(s.m[0][0])
    q, c = ZERO, ZERO
    for m, v in p.m:
        d = dict(m)
        if all(d.get(a, 0) >= e for a, e in want.items()):
            t = const(v)
            for a, e in m:
                for _ in range(e - want.get(a, 0)):
                    t = t * pof(a)
            q = q + t
        else:
            t = const(v)
            for a, e in m:
                for _ in range(e):
                    t = t * pof(a)
            c = c + t
    return q, c


def within(p, dims, facts):
    """0 <= p < d0*d1: the two positions, or None"""
    d0, d1 = dims
    if d1.const() == 1:
        q, c = p, ZERO
    else:
        x = pieces(p, d1)
        if x is None:
            return None
        q, c = x
    for v, d in ((c, d1), (q, d0)):
        if not (entails(facts, ge0(v)) and entails(facts, ge0(d - 1 - v))):
            return None
    return q, c


def open_flats(e, facts):
    """linearised positions as polynomials; positions of a linear index solved"""
    def f(a):
        if a.kind != "app":
            return None
        if a.args[0] == "u:flat" and len(a.args[1]) == 2:
            (d0, d1), (i, j) = a.args[1], a.args[2]
            return open_flats(i * d1 + j, facts)
        if a.args[0] == "u:unfl" and len(a.args[2]) == 2:
            k, dims = a.args[1], a.args[2]
            k = k.const() if isinstance(k, Poly) else k
            x = within(open_flats(a.args[3], facts), dims, facts)
            if x is not None:
                return x[int(k)]
        if a.args[0] == "fdiv":
            p, b = open_flats(a.args[1], facts), a.args[2]
            sb = b.single_atom()
            if sb is None:
                return None
            q = TT.mk({tuple(y if y[0] is not sb else (sb, y[1] - 1) for y in m if y != (sb, 1)): v
                       for m, v in p.m if any(y[0] is sb for y in m)})
            r = p - q * b
            if entails(facts, cand(ge0(r), lt(r, b))):
                return q
        return None
    return rewrite(e, f)


# ------------------------------------------------------------------ exchanges, elementwise
def owner_only(e, t, facts):
    """loops over the processes in which only the pass of process t writes this
    element: the value it writes"""
    q = sym("u:q")
    cases = []
    for lo, hi in ((t, q), (q, t)):
        f = list(facts) + piece(0, q) + piece(1, q) + [lt(q, NP), lt(lo, hi), before(0, lo, hi), before(1, lo, hi)]
        if feasible(f):
            cases.append(f)

    def f(a):
        if a.kind != "app" or a.args[0] != "rec":
            return None
        i, inits, lams, d, at = int(a.args[1].const()), a.args[2], a.args[3], int(a.args[4].const()), a.args[5]
        pre = "@r%d_" % d
        if not entails(facts, ge0(at - 1 - t)):
            return None
        b = simp(lams[i](t), facts)
        if any(isinstance(n, str) and n.startswith(pre) for n in TT.app_names(b)):
            return None
        for g in cases:
            if simp(lams[i](q), g) is not app(pre + str(i), q, sort=a.sort):
                return None
        return owner_only(b, t, facts)
    return rewrite(e, f)


def at_rank(x, p, rk):
    """a value of the process of rank rk, on process p"""
    a = R.m[0][0][0][0]
    return x if rk is not R else subst_atoms(x, {a: p})


class Side(object):
    """one end of an exchange: the run, its rank term, its single collective"""

    def __init__(self, P, fn, bufs, rank):
        self.fn, self.rank = fn, rank
        self.rk = ZERO if rank == "root" else R
        self.r, self.base = d_run(P, fn, bufs, rank)
        ev = [e for e in (self.r.ip.ev if self.r.ip else ()) if e["kind"] == "coll"]
        self.ev = ev[0] if len(ev) == 1 else None
        self.n = len(ev)

    def counts(self, k):
        return self.ev["counts"][k] if self.ev["counts"] is not None else None

    # what goes to process `to`: (first position, count) in the send buffer of process p
    def block_out(self, p, to):
        c = self.ev["counts"][0]
        dims = self.ev["send"][0]
        if c is None or c[0] is None:
            return ZERO, at_rank(total(dims), p, self.rk)
        return at_rank(c[1][1], p, self.rk)(to), at_rank(c[0][1], p, self.rk)(to)

    def block_in(self, frm):
        c = self.ev["counts"][1]
        if c is None or c[0] is None:
            return ZERO, total(self.ev["rdims"])
        return c[1][1](frm), c[0][1](frm)


def total(dims):
    n = ONE
    for d in dims:
        n = n * d
    return n


def recv_arg(e):
    a = e.single_atom() if isinstance(e, Poly) else None
    if a is not None and a.kind == "app" and isinstance(a.args[0], str) and a.args[0].startswith("mpi:recv") and len(a.args) == 2:
        return a.args[1]
    return None


def element(recv, snd, e, own, me, facts, scatter=False):
    """symbolic proof: (value delivered, problem)"""
    e = owner_only(simp(e, facts), own, facts)
    if has_ite(e):
        e = simp(e, facts + lemmas(e, facts))
    p = recv_arg(e)
    if p is None:
        return None, "the received element is not understood"
    p = open_flats(p, facts)
    d, c = recv.block_in(own)
    d, c = at_rank(d, me, R), at_rank(c, me, R)
    off = p - d
    blk = None
    fs = factors(c)
    for x in fs:
        blk = blk or within(off, (quotient(c, x), x), facts)
    if blk is None:
        return None, "the position in the block of the sender"
    so, sc = snd.block_out(own, me)
    if not PV.eqv(sc, c, facts, secs=10):
        return None, "the counts of both sides"
    q = so + off
    lam = at_rank(snd.ev["send"][1], own, snd.rk)
    n = at_rank(total(snd.ev["send"][0]), own, snd.rk)
    ok = None
    for x in factors(n):
        ok = ok or within(q, (quotient(n, x), x), facts)
    if ok is None:
        return None, "the position in the send buffer"
    f = facts + [ge0(q), ge0(n - 1 - q)]
    v = simp(lam(q), f)
    return simp(open_flats(v, f), f), None


def factors(n):
    """atoms of a product, as terms"""
    if len(n.m) != 1 or n.m[0][1] != 1:
        return [ONE]
    return [pof(a) for a, e in n.m[0][0] for _ in range(1)] + [ONE]


def quotient(n, x):
    return n * inv(x) if x is not ONE else n


# ---- counterexamples: the terms of both sides, evaluated for a small decomposition
def pieces_of(g, np):
    b, m = divmod(g, np)
    return [b + (1 if i >= np - m else 0) for i in range(np)]


def small():
    for np in (1, 2, 3, 4):
        for g0 in range(np, np + 4):
            for g1 in range(np, np + 4):
                yield np, g0, g1


def valuation(np, g0, g1, r):
    m = {}
    for t, v in ((NP, np), (R, r), (G[0], g0), (G[1], g1)):
        m[t.single_atom()] = Fraction(v)
    return m


def evaluator(np, g0, g1, recv=None):
    ev = PV.Evaluator(10)
    s = (pieces_of(g0, np), pieces_of(g1, np))
    for a in (0, 1):
        def f(e, t, env, a=a):
            p = e.int(t.args[1], env)
            if not 0 <= p < np:
                raise PV.EvalFail("no such process")
            return Fraction(s[a][p])
        ev.data["u:SZ%d" % a] = f
    if recv is not None:
        for k in range(4):
            ev.data["mpi:recv%d" % k] = recv
    return ev, s


def refute(recv, snds, buf, which, pen, arr, want):
    """snds: rank -> Side of that sender; arr, want: delivered and expected array
    of the receiving process.  A description of the first difference, or None"""
    ranks = {"root": [0]}
    for np, g0, g1 in small():
        for me in ([0] if recv.rank == "root" else range(1 if recv.rank == "other" else 0, np)):
            env = valuation(np, g0, g1, me)
            senders = range(np) if which == "all" else [0]
            try:
                e1, _ = evaluator(np, g0, g1)
                blocks = []
                for t in senders:
                    sd = snds(t)
                    d, c = recv.block_in(const(t))
                    d, c = e1.int(d, env), e1.int(c, env)
                    se = valuation(np, g0, g1, t)
                    so, sc = sd.block_out(R if sd.rk is R else ZERO, const(me))
                    so, sc = e1.int(so, se), e1.int(sc, se)
                    if sc != c:
                        return "np=%d, global shape [%d, %d]: process %d sends %d elements to process %d, which expects %d" % (np, g0, g1, t, sc, me, c)
                    blocks.append((d, c, t, so, sd, se))
                n = e1.int(total(recv.ev["rdims"]), env)
                for d, c, t, so, sd, se in blocks:
                    if d < 0 or d + c > n:
                        return "np=%d, global shape [%d, %d]: the block of process %d exceeds the receive buffer" % (np, g0, g1, t)
                    if so < 0 or so + c > e1.int(total(sd.ev["send"][0]), se):
                        return "np=%d, global shape [%d, %d]: the block for process %d exceeds the send buffer of process %d" % (np, g0, g1, me, t)

                def data(e, x, envx):
                    p = e.int(x.args[1], envx)
                    hit = [b for b in blocks if b[0] <= p < b[0] + b[1]]
                    if len(hit) != 1:
                        raise PV.EvalFail("unreceived")
                    d, c, t, so, sd, se = hit[0]
                    ee, _ = evaluator(np, g0, g1)
                    return ee.poly(sd.ev["send"][1](const(so + p - d)), se)
                ev, s = evaluator(np, g0, g1, data)
                dims = [ev.int(x, env) for x in want.dims]
                got = [ev.int(x, env) for x in arr.dims]
                if dims != got:
                    return "np=%d, global shape [%d, %d], process %d: extents %s instead of %s" % (np, g0, g1, me, got, dims)
                for i in range(int(dims[0])):
                    for j in range(int(dims[1])):
                        va = ev.poly(arr.lam(const(i), const(j)), env)
                        vb = ev.poly(want.lam(const(i), const(j)), env)
                        if not PV.close(va, vb):
                            return "np=%d, global shape [%d, %d], process %d: element (%d, %d) is not the one of the field" % (np, g0, g1, me, i, j)
            except (PV.EvalFail, RecursionError):
                continue
    return None


def check_exchange(id, rule, recv, snds, which, outname, et, want, cases, out):
    """cases: [(owner rank term, facts, indices)] covering the receiving process"""
    sides = [recv] + [x for x in snds[1]]
    fns = set()
    for sd in sides:
        fns |= fns_of(sd.r)
    for sd in sides:
        if sd.r.status == "undecided":
            out.append(dict(undec(id, sd.r, rule)))
            return
        if sd.r.status == "dead":
            out.append(dict(id=id, status="bad", detail="%s never completes" % sd.fn, rule=rule, fns=sorted(fns)))
            return
    for sd in sides:
        if sd.ev is None:
            s = "bad" if sd.n == 0 else "unknown"
            out.append(dict(id=id, status=s, detail="%s: %d exchanges" % (sd.fn, sd.n), rule=rule, fns=sorted(fns)))
            return
    arr = recv.r.buf(outname) if outname else recv.r.ret
    why = "the result is not an array"
    if isinstance(arr, Arr):
        why = None
        try:
            for own, snd, facts, (i, j) in cases:
                if snd.ev["send"] is None:
                    why = "%s sends nothing" % snd.fn
                    break
                v, why = element(recv, snd, arr.lam(i, j), own, recv.rk, facts)
                if why is None and not PV.eqv(v, want.lam(i, j), facts, secs=10):
                    why = "the delivered element"
                if why is None and not all(PV.eqv(x, y, facts, secs=10) for x, y in zip(arr.dims, want.dims)):
                    why = "the extents of the result"
                if why:
                    break
        except (IT.Undecided, TypeError, AttributeError, KeyError, IndexError) as e:
            why = "%s" % e
        if why is not None:
            d = refute(recv, snds[0], None, which, None, arr, want)
            if d is not None:
                out.append(dict(id=id, status="bad", detail=d, rule=rule, fns=sorted(fns)))
                return
    items = [("ok", "every element") if why is None else ("unknown", why)]
    for sd in sides:
        items += admissible(sd.r, sd.base)
    out.append(dict(ob(id, items, rule), fns=sorted(fns)))


def pos_facts(dims, ij):
    return [ge0(x) for x in ij] + [lt(x, d) for x, d in zip(ij, dims)]


T24 = "each element arrives once, at the process and local position of its global index; the counts and the order of both sides agree"


def t_transpose(P, a, b):
    out = []
    fn = "transpose_%s_to_%s" % (a, b)
    sd = Side(P, fn, {"x": a, "y": b}, None)
    ax = 1 if a == "x" else 0         # axis split on the sending side
    t, i, j = sym("u:t"), sym("u:i0"), sym("u:i1")
    want = local("f", "x", b, R)
    facts = d_base(None) + piece(0, t) + piece(1, t) + [lt(t, NP)] + pos_facts(want.dims, (i, j))
    x = (i, j)[ax]
    facts += [ge0(x - ST(ax, t)), lt(x, ST(ax, t) + SZ(ax, t))]
    check_exchange("d::" + fn, T24, sd, (lambda r: sd, ()), "all", "y", "f", want, [(t, sd, facts, (i, j))], out)
    return out


def c24(P, tier):
    return [("transpose %s%s" % (a, b), t_transpose, (a, b)) for a, b in (("x", "y"), ("y", "x"))]


T25 = "every element of the collected or distributed field is at its global index; root and others take part in the same exchange with the same counts"


def owner_facts(base, pen, dims, ij, rk=None):
    """facts about an element (i, j) of a whole field and its owner t"""
    t = sym("u:t")
    ax = 1 if pen == "x" else 0
    f = base + piece(0, t) + piece(1, t) + [lt(t, NP)] + pos_facts(dims, ij)
    return t, f + [ge0(ij[ax] - ST(ax, t)), lt(ij[ax], ST(ax, t) + SZ(ax, t))]


def t_gather(P, pen, fn):
    out = []
    i, j = sym("u:i0"), sym("u:i1")
    inpl = "inplace" in fn
    recv = Side(P, fn, {"x": pen, "y": None} if inpl else {"x": pen}, "root")
    oth = Side(P, "gather_%s" % pen, {"x": pen}, "other")
    want = Arr(G, glob("f", "x"), "C", "f")
    t, f = owner_facts(d_base("root"), pen, G, (i, j))
    ax = 1 if pen == "x" else 0
    cases = []
    # the root's own part, and that of another process
    f0 = d_base("root") + pos_facts(G, (i, j)) + [lt((i, j)[ax], SZ(ax, ZERO))]
    cases.append((ZERO, recv, f0, (i, j)))
    cases.append((t, oth, f + [ge0(t - 1)], (i, j)))
    check_exchange("d::%s" % fn, T25, recv, (lambda r: recv if r == 0 else oth, (oth,)), "all", "y" if inpl else None, "f", want, cases, out)
    same_root("d::%s root" % fn, recv, oth, "gather", out)
    return out


def base_name(n):
    return n[:-5] if n.endswith("_root") else n


def same_root(id, recv, oth, fam, out):
    if recv.ev is None or oth.ev is None:
        return
    items = []
    if base_name(recv.ev["name"]) != base_name(oth.ev["name"]):
        items.append(("bad", "%s on the root, %s elsewhere" % (recv.ev["name"], oth.ev["name"])))
    for sd in (recv, oth):
        if isinstance(sd.ev["root"], Poly):
            items.append(("ok", "") if PV.eqv(sd.ev["root"], ZERO, sd.base, secs=5) else
                         ("bad" if sd.ev["root"].const() is not None else "unknown", "%s uses root %s" % (sd.fn, sd.ev["root"])))
        else:
            items.append(("bad", "%s does not use the root" % sd.fn))
    out.append(dict(ob(id, items, T25), fns=sorted(fns_of(recv.r) | fns_of(oth.r))))


def t_all_gather(P, pen):
    out = []
    i, j = sym("u:i0"), sym("u:i1")
    fn = "all_gather_%s" % pen
    sd = Side(P, fn, {"x": pen, "y": None}, None)
    want = Arr(G, glob("f", "x"), "C", "f")
    t, f = owner_facts(d_base(None), pen, G, (i, j))
    check_exchange("d::%s" % fn, T25, sd, (lambda r: sd, ()), "all", "y", "f", want, [(t, sd, f, (i, j))], out)
    return out


def t_scatter(P, pen, fn):
    out = []
    i, j = sym("u:i0"), sym("u:i1")
    inpl = "inplace" in fn
    isroot = fn.endswith("root")
    bufs = {}
    if isroot:
        bufs["x"] = None
    if inpl:
        bufs["y"] = pen
    rank = "root" if isroot else "other"
    recv = Side(P, fn, bufs, rank)
    senders = [recv] if isroot else [Side(P, "scatter_%s_root" % pen, {"x": None}, "root"),
                                     Side(P, "scatter_%s_inplace_root" % pen, {"x": None, "y": pen}, "root")]
    for sd in senders:
        want = local("f", "x", pen, recv.rk)
        f = d_base(rank) + pos_facts(want.dims, (i, j))
        id = "d::%s" % fn if sd is recv else "d::%s from %s" % (fn, sd.fn)
        check_exchange(id, T25, recv, (lambda r, sd=sd: sd, (sd,)), "root", "y" if inpl else None, "f", want, [(ZERO, sd, f, (i, j))], out)
        if sd is not recv:
            same_root(id + " root", sd, recv, "scatter", out)
    return out


SPLIT_RULE = "the share of a process of a global array is its local part"


def t_split(P, fn, pen):
    bufs = {"x": None}
    r, base = d_run(P, fn, bufs, None)
    id = "d::" + fn
    if r.status != "ok":
        return [undec(id, r, SPLIT_RULE) if r.status != "dead" else dict(id=id, status="bad", detail="never completes", rule=SPLIT_RULE)]
    items = cmp_vals(r.ret, local("f", "x", pen, R), nolayout(r.facts()), what=fn)
    return [ob(id, items + admissible(r, base), SPLIT_RULE, r)]


SCALAR_RULE = "the scalar helpers deliver the value of the root and the sum of the values of all processes"
SCALARS = {"broadcast": ("broadcast_into",), "gsum": ("gather_into_root", "gather_into"), "agsum": ("all_gather_into",)}


def t_scalar(P, fn):
    id = "d::" + fn
    items, fns = [], set()
    for rank in ("root", "other"):
        for alone in ((True, False) if rank == "root" else (False,)):
            base = [eq(NP, ONE) if alone else ge0(NP - 2), lt(R, NP), eq(R, ZERO) if rank == "root" else ge0(R - 1)]

            def pre(ip, st, args):
                for c in base:
                    st.assume(c)
            r = run(P, id, None, pre)
            fns |= fns_of(r)
            if r.status != "ok":
                items.append(("unknown", "%s %s" % (r.status, r.why)))
                continue
            ev = [e for e in r.ip.ev if e["kind"] == "coll"]
            if any(base_name(e["name"]) != base_name(SCALARS[fn][0]) and e["name"] not in SCALARS[fn] for e in ev) or len(ev) > 1:
                items.append(("unknown", "other exchanges"))
                continue
            x = r.buf0("x")
            f = nolayout(r.facts()) + base

            def own(a):
                # a process alone receives what it sent
                if alone and a.kind == "app" and a.args[0] == "mpi:recv0":
                    return x
                return None
            got = r.buf("x" if fn == "broadcast" else "y")
            recv = lambda p: app("mpi:recv0", p)
            if fn == "broadcast":
                want = x if rank == "root" else recv(ZERO)
            elif fn == "gsum" and rank == "other":
                want = None
            else:
                want = __import__("c_matrices").sumof(ZERO, NP, recv)
            if want is not None:
                got, want = (rewrite(simp(v, f), own) for v in (got, want))
                items += [(s, "on the %s of %s: %s" % (rank, "one process" if alone else "several processes", d)) for s, d in cmp_vals(simp(got, f), simp(want, f), f, what="result")]
            for e in ev:
                if e.get("send") is not None and not (fn == "broadcast" and rank == "other"):
                    dims, lam = e["send"]
                    items += cmp_vals(dims[0], ONE, f, what="length of the message") + cmp_vals(lam(ZERO), x, f, what="message")
    return [dict(ob(id, items or [("unknown", "")], SCALAR_RULE), fns=sorted(fns))]


def c25(P, tier):
    t = [("scalar %s" % fn, t_scalar, (fn,)) for fn in SCALARS]
    for pen in "xy":
        for fn in ("gather_%s_root", "gather_%s_inplace_root"):
            t.append((fn % pen, t_gather, (pen, fn % pen)))
        t.append(("all_gather_%s" % pen, t_all_gather, (pen,)))
        for fn in ("scatter_%s", "scatter_%s_inplace", "scatter_%s_root", "scatter_%s_inplace_root"):
            t.append((fn % pen, t_scatter, (pen, fn % pen)))
        t.append(("split_%s" % pen, t_split, ("split_%s" % pen, pen)))
    return t


# ------------------------------------------------------------------ sequences of collectives
SEQ_RULE = "every process reaches every exchange of the operation: no exchange, root or refusal depends on the rank or the data"


def shared(a):
    """quantities every process agrees on"""
    n = str(a.args[0])
    return n.startswith("u:len_") or n in ("u:np", "u:g.0", "u:g.1", "u:k.0", "u:k.1")


def varies(c, facts):
    """a condition that holds on one process or for one field and not for
    another, everything the processes agree on being equal"""
    for env in PV.models(list(facts) + [c], (), count=12, secs=5):
        same = [eq(pof(a), const(v)) for a, v in env.items() if shared(a)]
        for e2 in PV.models(list(facts) + [cnot(c)] + same, (), count=1, secs=3):
            return PV.showenv(env), PV.showenv(e2)
    return None


def is_data(n):
    b = n[:-3] if n.endswith((".re", ".im")) else n
    return b in ("x", "y", "data", "result", "v") or b.startswith("mpi:recv")


def by_data(c, facts):
    """a condition that holds for one field and not for the field of zeros"""
    names = [n for n in TT.app_names(c) if isinstance(n, str) and is_data(n)]
    if not names:
        return None
    for env in PV.models(list(facts), (c,), count=24, secs=6):
        try:
            e1, e2 = PV.Evaluator(4), PV.Evaluator(4)
            for n in names:
                e2.data[n] = lambda e, a, env: Fraction(0)
            if e1.cond(c, dict(env)) != e2.cond(c, dict(env)):
                return PV.showenv(env)
        except (PV.EvalFail, RecursionError):
            continue
    return None


def of_all(c, facts, base):
    """the condition is a matter of shared quantities only"""
    at = [a for a in fv(c)]
    names = set(n for n in TT.app_names(c) if isinstance(n, str))
    return all(shared(a) for a in at) and not names


def judge(c, base, what):
    c = simp(drop_layout(c), list(base))
    if c is TRUE or PV.check_cond(c, base)[0] == "ok":
        return ("ok", "")
    if of_all(c, base, base):
        return ("ok", "")
    v = varies(c, base)
    if v is not None:
        return ("bad", "%s only if %s: holds at %s, not at %s" % (what, str(c)[:160], v[0], v[1]))
    v = by_data(c, base)
    if v is not None:
        return ("bad", "%s only if %s: at %s this is not the same for zeros and for other data" % (what, str(c)[:160], v))
    return ("unknown", "%s: %s" % (what, str(c)[:160]))


def seq_items(r, base):
    items = []
    ev = [e for e in r.ip.ev if e["kind"] in ("dcp", "coll")]
    seen = {}

    def j(c, what):
        k = (c, what)
        if k not in seen:
            seen[k] = judge(c, base, what)
        return seen[k]
    for n, e in enumerate(ev):
        nm = "%s %s" % (e["name"], e.get("way") or "")
        for _, c in e["pc"]:
            items.append(j(c, "exchange %d (%s) takes place" % (n + 1, nm.strip())))
        root = e.get("root")
        if isinstance(root, Poly) and root.const() is None:
            vs = fv(root)
            if not all(shared(a) for a in vs):
                items.append(("bad", "exchange %d (%s): the root %s depends on the process" % (n + 1, nm, root)))
    for c in domain_of(r):
        items.append(j(c, "the operation completes"))
    return items, ev


def seq_ob(id, r, base, least=1):
    if r.status == "undecided":
        return refused(id, r, base, SEQ_RULE)
    if r.status == "dead":
        return dict(id=id, status="bad", detail="never completes", rule=SEQ_RULE, fns=sorted(fns_of(r)))
    items, ev = seq_items(r, base)
    if len(ev) < least:
        items.append(("bad", "no exchange takes place"))
    return ob(id, items, SEQ_RULE, r)


def t_seq_ops(P, kk):
    out = []
    keys = keys_of(P)
    for op in M_OPS:
        for fn in M_FNS[op]:
            id = "m::%s::%s" % (kk, fn)
            if keys is None:
                out.append(dict(id=id, status="unknown", detail="fields of the space", rule=SEQ_RULE))
                continue
            r, base = m_run(P, kk, fn, op_bufs(op, fn), keys)
            out.append(seq_ob(id, r, base))
    for h in HELPERS:
        id = "m::%s::%s" % (kk, h[0])
        if keys is None:
            out.append(dict(id=id, status="unknown", detail="fields of the space", rule=SEQ_RULE))
            continue
        r, base = m_run(P, kk, h[0], {n: (h[4], p) for n, p in h[5].items()}, keys)
        out.append(seq_ob(id, r, base))
    return out


def t_seq_inplace(P, kk):
    """the allocating and the in-place form of an operation meet"""
    out = []
    keys = keys_of(P)
    rule = "both forms of an operation perform the same exchanges in the same order"
    for op in M_OPS:
        f1, f2 = M_FNS[op]
        id = "m::%s::%s=%s" % (kk, f1, f2)
        if keys is None:
            continue
        rs = [m_run(P, kk, f, op_bufs(op, f), keys)[0] for f in (f1, f2)]
        if any(r.status != "ok" for r in rs):
            out.append(dict(id=id, status="unknown", detail="; ".join(r.why or r.status for r in rs), rule=rule))
            continue
        q = [[(e["name"], e.get("way")) for e in r.ip.ev if e["kind"] in ("dcp", "coll")] for r in rs]
        out.append(ob(id, [("ok", "")] if q[0] == q[1] else [("unknown", "%s / %s" % (q[0], q[1]))], rule, rs[0], fns_of(rs[1])))
    return out


D_SEQ = [("transpose_x_to_y", {"x": "x", "y": "y"}, None), ("transpose_y_to_x", {"x": "y", "y": "x"}, None)]
for _p in "xy":
    D_SEQ += [("gather_" + _p, {"x": _p}, "other"), ("gather_%s_root" % _p, {"x": _p}, "root"), ("gather_%s_inplace_root" % _p, {"x": _p, "y": None}, "root"),
              ("all_gather_" + _p, {"x": _p, "y": None}, None), ("scatter_" + _p, {}, "other"), ("scatter_%s_inplace" % _p, {"y": _p}, "other"),
              ("scatter_%s_root" % _p, {"x": None}, "root"), ("scatter_%s_inplace_root" % _p, {"x": None, "y": _p}, "root")]


def t_seq_dcp(P):
    out = []
    for fn, bufs, rank in D_SEQ:
        r, base = d_run(P, fn, bufs, rank)
        out.append(seq_ob("d::" + fn, r, base))
    # the forms for the root and for the others meet
    rule = "the forms for the root and for the other processes perform the same exchanges"
    for p in "xy":
        groups = [(["gather_" + p, "gather_%s_root" % p, "gather_%s_inplace_root" % p]),
                  (["scatter_" + p, "scatter_%s_inplace" % p, "scatter_%s_root" % p, "scatter_%s_inplace_root" % p])]
        for g in groups:
            spec = {f: (b, k) for f, b, k in D_SEQ}
            rs = [d_run(P, f, *spec[f])[0] for f in g]
            id = "d::%s" % "=".join(g)
            if any(r.status != "ok" for r in rs):
                out.append(dict(id=id, status="unknown", detail="; ".join(r.why or r.status for r in rs), rule=rule))
                continue
            q = [[(base_name(e["name"]), str(e["root"])) for e in r.ip.ev if e["kind"] == "coll"] for r in rs]
            fns = set()
            for r in rs:
                fns |= fns_of(r)
            out.append(dict(ob(id, [("ok", "")] if all(x == q[0] for x in q) else [("bad", "; ".join("%s: %s" % z for z in zip(g, q)))], rule), fns=sorted(fns)))
    return out


def t_seq_scalar(P):
    out = []
    for fn in ("broadcast", "gsum", "agsum"):
        id = "d::" + fn
        seqs, items, fns = [], [], set()
        for rank in ("root", "other"):
            base = [ge0(NP - 1), lt(R, NP), eq(R, ZERO) if rank == "root" else ge0(R - 1)]

            def pre(ip, st, args):
                for c in base:
                    st.assume(c)
            r = run(P, id, None, pre)
            fns |= fns_of(r)
            if r.status != "ok":
                items.append(("bad", "never completes on the %s" % rank) if r.status == "dead" else ("unknown", r.why))
                continue
            it, ev = seq_items(r, base)
            # within one role only: the root may differ from the others
            items += it
            seqs.append([(base_name(e["name"]), str(e["root"])) for e in ev])
        if len(seqs) == 2:
            items.append(("ok", "") if seqs[0] == seqs[1] else ("bad", "root: %s, others: %s" % tuple(seqs)))
            if not seqs[0] and not seqs[1]:
                items.append(("bad", "no exchange takes place"))
        out.append(dict(ob(id, items or [("unknown", "")], SEQ_RULE), fns=sorted(fns)))
    return out


def c27(P, tier):
    t = [("scalar", t_seq_scalar, ()), ("decomposition", t_seq_dcp, ())]
    for kk in KINDS:
        t.append(("m::%s" % kk, t_seq_ops, (kk,)))
        t.append(("m::%s in-place" % kk, t_seq_inplace, (kk,)))
    return t


CHECKS = {"C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28}
