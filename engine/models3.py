"""More library models: iterator consumers with a predicate, options, slices
and array methods that rewrites of a loop commonly use."""
from terms import *
import terms as TT
from vals import *
from interp import Undecided, Dead, elem_sym
import interp as IT
import loops
import models as MM
from models import model, opt, some, NONE, OPT, as_it, rest, it_get, D, deref, pmin, const_axis, It, isinf, arr_et_from_type


# ------------------------------------------------------------------ iterators that skip
def partial(d):
    """does the iterator skip items"""
    if not isinstance(d, D):
        return False
    if d.kind in ("filter", "flat"):
        return True
    return d.kind in ("map", "copied", "enum", "scan") and partial(d.f[1])


def drive(ip, st, it, fn, key):
    """calls fn(item, state) for every item"""
    d = it.desc
    if not partial(d):
        ip.for_each(it, st, fn, key)
        return
    if d.kind == "filter":
        def f(x, s):
            cell = ip.newcell(s, x, "tmp")
            c = ip.call_value(d.f[3], [Ref(cell, ())], s)
            if not isinstance(c, Cond):
                raise Undecided("predicate")
            branch(ip, s, c, lambda s2: fn(x, s2))
        drive(ip, st, It(d.f[1], it.pos, it.end), f, key + ("f",))
    elif d.kind == "flat":
        def f(x, s):
            inner = as_it(ip, s, ip.call_value(d.f[3], [x], s))
            drive(ip, s, inner, fn, key + ("in",))
        drive(ip, st, It(d.f[1], it.pos, it.end), f, key + ("fl",))
    elif d.kind == "map":
        drive(ip, st, It(d.f[1], d.f[2] + it.pos, d.f[2] + it.end), lambda x, s: fn(ip.call_value(d.f[3], [x], s), s), key)
    elif d.kind == "copied":
        drive(ip, st, It(d.f[1], d.f[2] + it.pos, d.f[2] + it.end), lambda x, s: fn(deref(ip, s, x), s), key)
    else:
        raise Undecided("items after a filter")


def branch(ip, st, c, fn):
    """runs fn where c holds"""
    d = decide(st.facts(), c)
    if d is True:
        return fn(st)
    if d is False:
        return None
    n = len(st.pc)
    s1, s2 = st.copy(), st.copy()
    s1.assume(c, "b")
    s2.assume(cnot(c), "b")
    ss = []
    try:
        fn(s1)
        ss.append(s1)
    except Dead:
        pass
    ss.append(s2)
    m = ip.merge(ss, n)
    st.mem, st.pc = m.mem, m.pc


@model("Iterator::filter")
def m_filter(ip, st, args, call):
    a = as_it(ip, st, args[0])
    cell = ip.newcell(st, args[1], "fn")
    return It(D("filter", a.desc, a.pos, Ref(cell, ())), a.pos, a.end)


@model("Iterator::flat_map", "Iterator::flatten")
def m_flat(ip, st, args, call):
    a = as_it(ip, st, args[0])
    if len(args) < 2:
        raise Undecided("flatten")
    cell = ip.newcell(st, args[1], "fn")
    return It(D("flat", a.desc, a.pos, Ref(cell, ())), a.pos, a.end)


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(ip, st, args, call):
    it = as_it(ip, st, args[0])
    cell = ip.newcell(st, args[1], "fn")
    drive(ip, st, it, lambda x, s: ip.call_value(Ref(cell, ()), [x], s), ("fe", call.fr.body["id"], call.u))
    return UNIT


@model("Iterator::fold")
def m_fold(ip, st, args, call):
    it = as_it(ip, st, args[0])
    acc = ip.newcell(st, args[1], "acc")
    cell = ip.newcell(st, args[2], "fn")

    def f(x, s):
        s.mem[acc] = ip.call_value(Ref(cell, ()), [s.mem[acc], x], s)
    drive(ip, st, it, f, ("fold", call.fr.body["id"], call.u))
    return st.mem.pop(acc)


@model("Iterator::sum", "Iterator::product")
def m_sum(ip, st, args, call):
    it = as_it(ip, st, args[0])
    p = call.tr.endswith("product")
    acc = ip.newcell(st, ONE if p else ZERO, "acc")

    def f(x, s):
        x = deref(ip, s, x)
        s.mem[acc] = s.mem[acc] * x if p else s.mem[acc] + x
        MM.int_event(ip, s, call, s.mem[acc], "product" if p else "sum")
    drive(ip, st, it, f, ("sum", call.fr.body["id"], call.u))
    return st.mem.pop(acc)


@model("Iterator::count")
def m_count(ip, st, args, call):
    v = args[0]
    if isinstance(v, It) and partial(v.desc):
        acc = ip.newcell(st, ZERO, "acc")

        def f(x, s):
            s.mem[acc] = s.mem[acc] + 1
        drive(ip, st, v, f, ("count", call.fr.body["id"], call.u))
        return st.mem.pop(acc)
    return MM.m_count(ip, st, args, call)


def first_rest(ip, st, it):
    n = rest(st, it)
    return n, lambda s: it_get(ip, it.desc, it.pos, s), It(it.desc, it.pos + 1, it.end)


@model("Iterator::reduce", "Iterator::max", "Iterator::min")
def m_reduce(ip, st, args, call):
    it = as_it(ip, st, args[0])
    if partial(it.desc):
        raise Undecided("reduction of a filtered iterator")
    how = call.tr.rsplit("::", 1)[-1]
    n = rest(st, it)
    has = ge0(n - 1)
    d = decide(st.facts(), has)
    if d is False:
        return NONE
    s2 = st.copy()
    if d is None:
        s2.assume(has, "b")
    x0 = it_get(ip, it.desc, it.pos, s2)
    x0 = deref(ip, s2, x0) if how != "reduce" else x0
    acc = ip.newcell(s2, x0, "acc")
    cell = ip.newcell(s2, args[1], "fn") if how == "reduce" else None

    def f(x, s):
        if how == "reduce":
            s.mem[acc] = ip.call_value(Ref(cell, ()), [s.mem[acc], x], s)
            return
        x = deref(ip, s, x)
        y = s.mem[acc]
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            raise Undecided("extremum")
        c = le(x, y) if how == "max" else le(y, x)
        s.mem[acc] = ite(c, y, x)
    ip.for_each(It(it.desc, it.pos + 1, it.end), s2, f, ("red", call.fr.body["id"], call.u))
    v = s2.mem.pop(acc)
    if d is None:
        n0 = len(st.pc)
        s1 = st.copy()
        s1.assume(cnot(has), "b")
        m = ip.merge([s2, s1], n0)
        st.mem, st.pc = m.mem, m.pc
    else:
        st.mem, st.pc = s2.mem, s2.pc
    return opt(TRUE if d else has, v)


@model("Iterator::unzip")
def m_unzip(ip, st, args, call):
    it = as_it(ip, st, args[0])
    rt = ip.p.types[call.retty()]
    ets = [arr_et_from_type(ip, t) for t in rt.get("a", rt.get("e", []))]
    if len(ets) != 2 or any(e is None for e in ets) or partial(it.desc):
        raise Undecided("unzip")
    n = rest(st, it)
    cells = []
    for et in ets:
        y = freshv()
        c = ip.newcell(st, None, "col")
        st.mem[c] = Arr((n,), Lam((y,), elem_sym(et, "uninit~%d" % ip.cells, (pof(y),))), "C", et)
        cells.append(c)
    kc = ip.newcell(st, ZERO, "k")

    def f(v, s):
        for c, w in zip(cells, v.fields):
            ip.set(s, c, (("e", (s.mem[kc],)),), deref(ip, s, w) if not isinstance(w, Agg) else w)
        s.mem[kc] = s.mem[kc] + 1
    ip.for_each(it, st, f, ("unzip", call.fr.body["id"], call.u))
    st.mem.pop(kc)
    return Agg("tuple", tuple(settle(st, st.mem.pop(c)) for c in cells))


def settle(st, r):
    """content under "index in range" """
    vs = tuple(freshv() for _ in r.dims)
    b = r.lam(*[pof(v) for v in vs])
    fs = st.facts() + [lt(pof(v), d) for v, d in zip(vs, r.dims)]
    if isinstance(b, Poly):
        b = simp(b, fs)
    return Arr(r.dims, Lam(vs, b), "C", r.et)


_collect = MM.m_collect_it


def m_collect_it2(ip, st, it, et, call):
    if not partial(it.desc):
        return _collect(ip, st, it, et, call)
    if et is None:
        raise Undecided("collect of a non-scalar type")
    y = freshv()
    cell = ip.newcell(st, Arr((ZERO,), Lam((y,), UNDEF), "C", et), "col")

    def f(v, s):
        v = deref(ip, s, v) if not isinstance(v, Agg) else v
        MM.M["Vec::push"](ip, s, [Ref(cell, ()), v], call)
    drive(ip, st, it, f, ("collectf", call.fr.body["id"], call.u))
    return st.mem.pop(cell)


MM.m_collect_it = m_collect_it2


@model("from_iter")
def m_from_iter(ip, st, args, call):
    return MM.m_collect(ip, st, args, call)


@model("Iterator::last", "Iterator::nth")
def m_itnth(ip, st, args, call):
    v = args[0]
    r = v if isinstance(v, Ref) else None
    it = as_it(ip, st, ip.load(st, v) if r else v)
    n = rest(st, it)
    k = n - 1 if call.tr.endswith("last") else args[1]
    c = cand(ge0(k), lt(k, n))
    s2 = st.copy()
    s2.assume(c)
    x = it_get(ip, it.desc, it.pos + k, s2)
    if r:
        ip.store(st, r, It(it.desc, it.pos + pmin(st, k + 1, n), it.end))
    return opt(c, x)


# ------------------------------------------------------------------ options
def good_of(v):
    return 1 if "Option" in v.name else 0


def option(ip, st, v):
    n = 0
    while isinstance(v, Ref) and n < 4:
        v = ip.load(st, v)
        n += 1
    if not isinstance(v, EnumV):
        raise Undecided("option %s" % type(v))
    return v


def chosen(ip, st, v, yes, no):
    """value of yes(payload) or no() by the case of an option or result"""
    good = good_of(v)
    r = None
    for c, k, pl in reversed(v.cases):
        d = decide(st.facts(), c)
        if d is False:
            continue
        s = st.copy()
        s.assume(c, "b")
        x = yes(pl, s) if k == good else no(pl, s)
        r = x if r is None or d is True else vite(c, x, r)
    if r is None:
        raise Dead()
    return r


@model("Option::map_or", "Result::map_or", "Option::map_or_else", "Result::map_or_else")
def m_mapor(ip, st, args, call):
    v, d, f = option(ip, st, args[0]), args[1], args[2]
    if call.tr.endswith("else"):
        return chosen(ip, st, v, lambda pl, s: ip.call_value(f, [pl[0]], s), lambda pl, s: ip.call_value(d, list(pl), s))
    return chosen(ip, st, v, lambda pl, s: ip.call_value(f, [pl[0]], s), lambda pl, s: d)


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrapelse(ip, st, args, call):
    v, f = option(ip, st, args[0]), args[1]
    return chosen(ip, st, v, lambda pl, s: pl[0], lambda pl, s: ip.call_value(f, list(pl), s))


@model("Option::is_some_and", "Result::is_ok_and")
def m_someand(ip, st, args, call):
    v, f = option(ip, st, args[0]), args[1]
    return chosen(ip, st, v, lambda pl, s: ip.call_value(f, [pl[0]], s), lambda pl, s: FALSE)


@model("Option::is_none_or")
def m_noneor(ip, st, args, call):
    v, f = option(ip, st, args[0]), args[1]
    return chosen(ip, st, v, lambda pl, s: ip.call_value(f, [pl[0]], s), lambda pl, s: TRUE)


@model("Option::and_then", "Option::filter")
def m_andthen(ip, st, args, call):
    v, f = option(ip, st, args[0]), args[1]
    cs = []
    for c, k, pl in v.cases:
        if k == 0:
            cs.append((c, 0, ()))
            continue
        s = st.copy()
        s.assume(c, "b")
        if call.tr.endswith("filter"):
            cell = ip.newcell(s, pl[0], "tmp")
            r = opt(ip.call_value(f, [Ref(cell, ())], s), pl[0])
        else:
            r = ip.call_value(f, [pl[0]], s)
        for c2, k2, pl2 in r.cases:
            cs.append((cand(c, c2), k2, pl2))
    none = [c for c, k, pl in cs if k == 0]
    somes = [x for x in cs if x[1] == 1]
    if len(somes) > 1:
        raise Undecided("option of several cases")
    return EnumV(OPT, tuple(somes) + (((cor(*none), 0, ()),) if none else ()))


@model("Option::unwrap_or_default")
def m_unwrapdef(ip, st, args, call):
    return chosen(ip, st, option(ip, st, args[0]), lambda pl, s: pl[0], lambda pl, s: ZERO)


@model("Option::as_ref", "Option::as_mut", "Option::as_deref")
def m_asref(ip, st, args, call):
    v = args[0]
    w = option(ip, st, v)
    if not isinstance(v, Ref):
        return w
    # references to the payload
    cs = []
    for c, k, pl in w.cases:
        if k == 1 and isinstance(pl[0], (Arr, Agg, Poly)):
            cell = ip.newcell(st, pl[0], "opt")
            if call.tr.endswith("as_mut"):
                raise Undecided("mutable reference into an option")
            cs.append((c, k, (Ref(cell, ()),)))
        else:
            cs.append((c, k, pl))
    return EnumV(w.name, tuple(cs))


@model("Option::unzip", "Option::zip")
def m_ozip(ip, st, args, call):
    raise Undecided(call.tr)


# ------------------------------------------------------------------ numbers
@model("checked_add", "checked_mul", "checked_div", "checked_rem", "checked_pow")
def m_chk(ip, st, args, call):
    a, b = args
    op = call.tr.rsplit("_", 1)[1]
    rt = ip.p.types[call.retty()]
    n = ip.p.types[rt["a"][0]].get("n") if rt.get("a") else None
    bits = 64 if n in ("usize", "isize", None) else int(n[1:])
    hi = 2 ** bits - 1 if n is None or n[0] == "u" else 2 ** (bits - 1) - 1
    if op in ("add", "mul"):
        v = a + b if op == "add" else a * b
        c = le(v, const(hi))
        if n is not None and n[0] == "i":
            c = cand(c, ge0(v + hi + 1))
        return opt(c, v)
    if op in ("div", "rem"):
        s = st.copy()
        s.assume(cnot(eq(b, ZERO)))
        q = ip.simp_div(s, a, b)
        return opt(cnot(eq(b, ZERO)), q if op == "div" else a - q * b)
    raise Undecided(call.tr)


@model("clamp")
def m_clamp(ip, st, args, call):
    a, lo, hi = [deref(ip, st, x) for x in args]
    if all(TT._isint(x) for x in (a, lo, hi)):
        return ite(lt(a, lo), lo, ite(lt(hi, a), hi, a))
    return app("fmin", app("fmax", a, lo), hi)


@model("sin_cos")
def m_sincos(ip, st, args, call):
    a = deref(ip, st, args[0])
    return Agg("tuple", (MM.trig("sin", a), MM.trig("cos", a)))


@model("Complex::from_polar", "Complex::cis")
def m_polar(ip, st, args, call):
    if call.tr.endswith("cis"):
        r, a = ONE, deref(ip, st, args[0])
    else:
        r, a = [deref(ip, st, x) for x in args]
    return r * MM.trig("cos", a) + I * (r * MM.trig("sin", a))


# ------------------------------------------------------------------ slices and vectors
@model("rotate_left", "rotate_right")
def m_rotate(ip, st, args, call):
    v = ip.as_view(st, args[0])
    k = args[1]
    n = v.dims[0]
    ip.need("bounds", st, cand(ge0(k), le(k, n)), fn=call.fr.body["base"], idx=(k,), dims=v.dims)
    lam = ip.view_lam(st, v)
    x = freshv()
    j = pof(x) + k if call.tr.endswith("left") else pof(x) + n - k
    ip.view_store(st, v, Lam((x,), vite(lt(j, n), lam(j), lam(j - n))))
    return UNIT


@model("Vec::pop")
def m_pop(ip, st, args, call):
    a = ip.load(st, args[0])
    n = a.dims[0]
    has = ge0(n - 1)
    v = a.lam(n - 1)
    if decide(st.facts(), has) is True:
        ip.store(st, args[0], Arr((n - 1,), a.lam, a.layout, a.et))
        return some(v)
    ip.store(st, args[0], Arr((ite(has, n - 1, ZERO),), a.lam, a.layout, a.et))
    return opt(has, v)


@model("Vec::insert")
def m_insert(ip, st, args, call):
    a = ip.load(st, args[0])
    if not isinstance(a, Arr):
        raise Undecided("insert")
    n, k, v = a.dims[0], args[1], args[2]
    ip.need("bounds", st, cand(ge0(k), le(k, n)), fn=call.fr.body["base"], idx=(k,), dims=(n,))
    x = freshv()
    p = pof(x)
    b = MM.vite_u(eq(p, k), v, a.lam(p))
    if a.lam(p) is not UNDEF:
        b = vite(lt(p, k), a.lam(p), vite(eq(p, k), v, a.lam(p - 1)))
    ip.store(st, args[0], Arr((n + 1,), Lam((x,), b), a.layout, a.et))
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def m_remove(ip, st, args, call):
    a = ip.load(st, args[0])
    if not isinstance(a, Arr) or call.tr.endswith("swap_remove"):
        raise Undecided("remove")
    n, k = a.dims[0], args[1]
    ip.need("bounds", st, cand(ge0(k), lt(k, n)), fn=call.fr.body["base"], idx=(k,), dims=(n,))
    x = freshv()
    p = pof(x)
    ip.store(st, args[0], Arr((n - 1,), Lam((x,), vite(lt(p, k), a.lam(p), a.lam(p + 1))), a.layout, a.et))
    return a.lam(k)


@model("concat")
def m_concat(ip, st, args, call):
    parts = ip.load(st, args[0]) if isinstance(args[0], (Ref, View)) else args[0]
    if not (isinstance(parts, Agg) and parts.tag == "array"):
        raise Undecided("concat")
    et = arr_et_from_type(ip, call.retty())
    x = freshv()
    n = ZERO
    body = None
    ps = []
    for v in parts.fields:
        w = ip.as_view(st, v)
        ps.append((n, w.dims[0], ip.view_lam(st, w)))
        n = n + w.dims[0]
    for s, m, lam in reversed(ps):
        e = lam(pof(x) - s)
        body = e if body is None else vite(lt(pof(x), s + m), e, body)
    return Arr((n,), Lam((x,), body), "C", et)


@model("split_first", "split_last", "split_first_mut", "split_last_mut")
def m_splitfirst(ip, st, args, call):
    v = ip.as_view(st, args[0])
    n = v.dims[0]
    if "first" in call.tr:
        r = Agg("tuple", (ip.elem_ref(v, [ZERO]), ip.subview(v, (n - 1,), lambda x: [x[0] + 1], v.layout)))
    else:
        r = Agg("tuple", (ip.elem_ref(v, [n - 1]), ip.subview(v, (n - 1,), lambda x: x, v.layout)))
    return opt(ge0(n - 1), r)


# ------------------------------------------------------------------ arrays
@model("permuted_axes")
def m_perm(ip, st, args, call):
    v, p = args
    while isinstance(p, Ref) or (isinstance(p, Agg) and p.tag == "ndarray::Dim"):
        p = ip.load(st, p) if isinstance(p, Ref) else p.fields[0]
    p = [int(x.const()) for x in p.fields]
    a = v if isinstance(v, Arr) else ip.as_view(st, v)
    dims = tuple(a.dims[k] for k in p)

    def back(x):
        o = [None] * len(p)
        for i, k in enumerate(p):
            o[k] = x[i]
        return o
    if isinstance(a, Arr):
        vs = tuple(freshv() for _ in dims)
        return Arr(dims, Lam(vs, a.lam(*back([pof(x) for x in vs]))), "?", a.et)
    return ip.subview(a, dims, back, "?")


@model("indexed_iter", "indexed_iter_mut")
def m_ixiter(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return It(D("ixiter", v), ZERO, MM.prod(v.dims))


@model("zip_mut_with")
def m_zipmut(ip, st, args, call):
    z = MM.m_zipand(ip, st, [Agg("ndzip", (MM.producer(ip, st, args[0]),)), args[1]], call)
    return MM.m_zipfe(ip, st, [z, args[2]], call)


@model("scaled_add")
def m_scaledadd(ip, st, args, call):
    v, k, w = ip.as_view(st, args[0]), deref(ip, st, args[1]), ip.as_view(st, args[2])
    ip.need("shape", st, cand(*[eq(a, b) for a, b in zip(v.dims, w.dims)]), fn=call.fr.body["base"], dims=v.dims, dims2=w.dims)
    lv, lw = ip.view_lam(st, v), ip.view_lam(st, w)
    vs = tuple(freshv() for _ in v.dims)
    ps = [pof(x) for x in vs]
    ip.view_store(st, v, Lam(vs, lv(*ps) + k * lw(*ps)))
    return UNIT


@model("sum_axis")
def m_sumaxis(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1])
    lam = ip.view_lam(st, v)
    vs = [freshv() for _ in v.dims]
    b = loops.sumt(lam(*[pof(x) for x in vs]), vs[ax], v.dims[ax], st.facts())
    ks = [k for k in range(len(v.dims)) if k != ax]
    return Arr(tuple(v.dims[k] for k in ks), Lam(tuple(vs[k] for k in ks), b), "C", ip.view_et(st, v))


@model("map_axis")
def m_mapaxis(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1])
    ks = [k for k in range(len(v.dims)) if k != ax]
    vs = [freshv() for _ in ks]
    s2 = st.copy()
    for x, k in zip(vs, ks):
        s2.assume(lt(pof(x), v.dims[k]))
    r = ip.call_value(args[2], [MM.lane_view(ip, v, ax, [pof(x) for x in vs])], s2)
    return Arr(tuple(v.dims[k] for k in ks), Lam(tuple(vs), deref(ip, s2, r)), "C", arr_et_from_type(ip, call.retty()))


@model("insert_axis")
def m_insaxis(ip, st, args, call):
    v = args[0]
    a = v if isinstance(v, Arr) else ip.as_view(st, v)
    ax = const_axis(ip, st, args[1])
    d = list(a.dims)
    d.insert(ax, ONE)

    def back(x):
        x = list(x)
        del x[ax]
        return x
    if isinstance(a, Arr):
        vs = tuple(freshv() for _ in d)
        return Arr(tuple(d), Lam(vs, a.lam(*back([pof(x) for x in vs]))), a.layout, a.et)
    return ip.subview(a, tuple(d), back, a.layout)


@model("Slice::from", "Slice::new")
def m_slicefrom(ip, st, args, call):
    if len(args) == 3:
        return Agg("ndarray::Slice", tuple(args))
    e = MM.slice_elem(args[0])
    return Agg("ndarray::Slice", tuple(e.cases[0][2]))


@model("slice_axis", "slice_axis_mut", "slice_axis_inplace")
def m_sliceaxis(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1])
    els = []
    for k in range(len(v.dims)):
        e = args[2] if k == ax else Agg("ndarray::Slice", (ZERO, NONE, ONE))
        while isinstance(e, Ref):
            e = ip.load(st, e)
        els.append(MM.slice_elem(e))
    if "inplace" in call.tr:
        raise Undecided("slice_axis_inplace")
    return MM.m_slice(ip, st, [v, Agg("array", tuple(els))], call)


@model("Slice::step_by")
def m_slicestep(ip, st, args, call):
    v = args[0]
    while isinstance(v, Ref):
        v = ip.load(st, v)
    if isinstance(v, Agg) and v.tag != "ndarray::Slice":
        v = Agg("ndarray::Slice", tuple(MM.slice_elem(v).cases[0][2]))
    if isinstance(v, Agg):
        return Agg("ndarray::Slice", (v.fields[0], v.fields[1], v.fields[2] * args[1]))
    raise Undecided(call.tr)


@model("invert_axis")
def m_invaxis(ip, st, args, call):
    r = args[0]
    ax = const_axis(ip, st, args[1])
    v = ip.load(st, r)

    def back(x, n):
        x = list(x)
        x[ax] = n - 1 - x[ax]
        return x
    if isinstance(v, Arr):
        vs = tuple(freshv() for _ in v.dims)
        ip.store(st, r, Arr(v.dims, Lam(vs, v.lam(*back([pof(x) for x in vs], v.dims[ax]))), "?", v.et))
    else:
        v = ip.as_view(st, v)
        ip.store(st, r, ip.subview(v, v.dims, lambda x: back(x, v.dims[ax]), "?"))
    return UNIT


@model("Zip::indexed")
def m_zipix(ip, st, args, call):
    return Agg("ndzipi", (MM.producer(ip, st, args[0]),))


_zand, _zfe = MM.m_zipand, MM.m_zipfe


@model("Zip::and", "and_broadcast")
def m_zipand2(ip, st, args, call):
    z = args[0]
    r = _zand(ip, st, args, call)
    return Agg(z.tag, r.fields)


def zip_item(ip, p, ix, s):
    if isinstance(p, Agg):
        return MM.lane_view(ip, p.fields[0], int(p.fields[1].const()), ix)
    if isinstance(p, It):
        return it_get(ip, p.desc, p.pos + ix[0], s)
    return ip.elem_ref(p, ix)


def zip_args(ip, z, ix, s):
    items = [zip_item(ip, p, ix, s) for p in z.fields]
    if z.tag == "ndzipi":
        items.insert(0, ix[0] if len(ix) == 1 else Agg("tuple", tuple(ix)))
    return items


@model("Zip::for_each", "Zip::par_for_each", "par_for_each")
def m_zipfe2(ip, st, args, call):
    z, f = args
    if z.tag == "ndzip":
        return _zfe(ip, st, args, call)
    cell = ip.newcell(st, f, "fn")
    dims = MM.prod_dims(z.fields[0])

    def nest(k, ix, s):
        if k == len(dims):
            ip.call_value(Ref(cell, ()), zip_args(ip, z, ix, s), s)
            return
        it = It(D("range", ZERO, ONE), ZERO, dims[k])
        ip.for_each(it, s, lambda x, s2: nest(k + 1, ix + [x], s2), ("zipi", call.fr.body["id"], call.u, k))
    nest(0, [], st)
    return UNIT


_mapv = MM.m_mapv


@model("map_collect", "mapv", "map")
def m_mapcollect(ip, st, args, call):
    z = args[0]
    if isinstance(z, Agg) and z.tag in ("ndzip", "ndzipi"):
        dims = MM.prod_dims(z.fields[0])
        vs = tuple(freshv() for _ in dims)
        ps = [pof(x) for x in vs]
        s2 = st.copy()
        for p, d in zip(ps, dims):
            s2.assume(lt(p, d))
        r = ip.call_value(args[1], zip_args(ip, z, ps, s2), s2)
        return Arr(tuple(dims), Lam(vs, deref(ip, s2, r)), "C", arr_et_from_type(ip, call.retty()))
    if isinstance(z, Agg) and z.tag == "array":
        return Agg("array", tuple(ip.call_value(args[1], [x], st) for x in z.fields))
    return _mapv(ip, st, args, call)


_contains = MM.m_contains


@model("contains")
def m_contains2(ip, st, args, call):
    v = ip.load(st, args[0]) if isinstance(args[0], Ref) else args[0]
    if isinstance(v, Agg) and v.tag == "array":
        x = deref(ip, st, args[1])
        return cor(*[eq(x, y) for y in v.fields])
    if isinstance(v, (View, Arr)):
        w = ip.as_view(st, args[0])
        x = deref(ip, st, args[1])
        y = freshv()
        lam = ip.view_lam(st, w)(pof(y))
        c = eq(lam, x) if TT._isint(lam) else IT.fcmp("Eq", lam, x)
        return cnot(MM.forall(y, w.dims[0], cnot(c)))
    return _contains(ip, st, args, call)


_aget = MM.m_get


def m_arrget(ip, st, args, call):
    v = ip.as_view(st, args[0])
    i = args[1]
    while isinstance(i, Ref) or (isinstance(i, Agg) and i.tag == "ndarray::Dim"):
        i = ip.load(st, i) if isinstance(i, Ref) else i.fields[0]
    if isinstance(i, Agg) and i.tag in ("array", "tuple") and len(i.fields) == len(v.dims):
        ix = list(i.fields)
        return opt(cand(*[c for x, n in zip(ix, v.dims) for c in (ge0(x), lt(x, n))]), ip.elem_ref(v, ix))
    return _aget(ip, st, args, call)


for _k in ("::get", "get", "get_mut"):
    MM.M[_k] = m_arrget


@model("concatenate", "stack")
def m_concatenate(ip, st, args, call):
    ax = const_axis(ip, st, args[0])
    parts = args[1]
    while isinstance(parts, (Ref, View)):
        parts = ip.load(st, parts)
    if not (isinstance(parts, Agg) and parts.tag == "array") or call.tr.endswith("stack"):
        raise Undecided("concatenate")
    ws = [ip.as_view(st, v) for v in parts.fields]
    n = ZERO
    c = TRUE
    ps = []
    for w in ws:
        ps.append((n, w.dims[ax], ip.view_lam(st, w)))
        n = n + w.dims[ax]
        c = cand(c, *[eq(a, b) for k, (a, b) in enumerate(zip(w.dims, ws[0].dims)) if k != ax])
    dims = list(ws[0].dims)
    dims[ax] = n
    vs = tuple(freshv() for _ in dims)
    x = [pof(v) for v in vs]
    body = None
    for s, m, lam in reversed(ps):
        y = list(x)
        y[ax] = y[ax] - s
        e = lam(*y)
        body = e if body is None else vite(lt(x[ax], s + m), e, body)
    a = Arr(tuple(dims), Lam(vs, body), "C", ip.view_et(st, ws[0]))
    return EnumV("std::result::Result", ((c, 0, (a,)), (cnot(c), 1, (Obj("shapeerror"),)))) if c is not TRUE else MM.ok(a)
