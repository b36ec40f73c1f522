"""Meaning of the library calls the analysed code makes (std, ndarray,
num-traits, FFT back ends).  Each model states the documented contract."""
import re
from vals import *
import terms as TT
from interp import Dead, State, elem_sym, flat_elem, elem_names, unflat_elem, FnV, strip_generics, int_range, fcmp, single
import loops

OPT = "std::option::Option"
RES = "std::result::Result"


def some(v):
    return EnumV(OPT, ((TRUE, 1, (v,)),))


NONE = EnumV(OPT, ((TRUE, 0, ()),))


def opt(c, v):
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return NONE
    return EnumV(OPT, ((c, 1, (v,)), (cnot(c), 0, ())))


def ok(v):
    return EnumV(RES, ((TRUE, 0, (v,)),))


M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def lookup(call):
    s = strip_generics(call.tr)
    parts = [p for p in s.split("::") if p]
    last = parts[-1]
    if len(parts) > 1 and (parts[-2] + "::" + last) in M:
        return M[parts[-2] + "::" + last]
    return M.get(last)


# ------------------------------------------------------------------ helpers
def deref(ip, st, v):
    """scalar behind (possibly several) references"""
    while isinstance(v, (Ref,)) or (isinstance(v, View) and not v.dims) or isinstance(v, IteV):
        v = ip.load(st, v)
    return v


def length(ip, st, v):
    if isinstance(v, Ref):
        a = ip.load(st, v)
        if isinstance(a, (Ref, View, It)):
            return length(ip, st, a)
        if isinstance(a, Agg) and a.tag == "array":
            return const(len(a.fields))
        if isinstance(a, Arr):
            return prod(a.dims)
        if isinstance(a, Agg) and a.tag == "lanes":
            return prod(lanes_dims(a))
        raise Undecided("length")
    if isinstance(v, View):
        return prod(v.dims)
    if isinstance(v, Arr):
        return prod(v.dims)
    if isinstance(v, It):
        return clampsub(st, v.end, v.pos)
    raise Undecided("length of %s" % type(v).__name__)


def clampsub(st, a, b):
    d = a - b
    f = st.facts()
    if entails(f, ge0(d)):
        return d
    return ite(ge0(d), d, ZERO)


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def pmin(st, a, b):
    if a is b:
        return a
    c = le(a, b)
    d = decide(st.facts(), c)
    if d is True:
        return a
    if d is False:
        return b
    return ite(c, a, b)


def layout_cond(l):
    if l == "C":
        return TRUE
    if isinstance(l, str) and l.startswith("std:"):
        return batom("std", l[4:])
    if l in LANES:
        base, c = LANES[l]
        std = layout_cond(base)
        # the lane of an array in standard layout
        return c if std is TRUE else cor(cand(std, c), cand(cnot(std), batom("contiguous", "?")))
    return batom("contiguous", str(l))


LANES = {}


def lane_layout(v, ax):
    """layout of the lanes of an array along an axis: those of the last axis are contiguous in standard
    layout, others only when every later extent is one (or they have at most one element)"""
    if ax == len(v.dims) - 1:
        return v.layout
    if not isinstance(v.layout, str) or not (v.layout == "C" or v.layout.startswith("std:")):
        return "?"
    c = cor(le(v.dims[ax], ONE), cand(*[eq(d, ONE) for d in v.dims[ax + 1:]]))
    for k, x in LANES.items():
        if x == (v.layout, c):
            return k
    k = "lane:%d" % len(LANES)
    LANES[k] = (v.layout, c)
    return k


def ety(ip, call, k=0):
    ga = call.t.get("ga") or []
    return ip.p.et(ga[k]) if len(ga) > k else None


def arr_et_from_type(ip, t):
    x = ip.p.types[t]
    if x["k"] in ("ref", "ptr"):
        return arr_et_from_type(ip, x["t"])
    if x["k"] == "slice":
        return ip.p.et(x["t"])
    if x["k"] == "adt":
        if x["n"] == "std::vec::Vec":
            return ip.p.et(x["a"][0])
        if x["n"] == "ndarray::ArrayBase":
            return ip.p.et(x["a"][-1]) if x["a"] else None
        if x["n"] == "ndarray::ArrayRef":
            return ip.p.et(x["a"][0])
    return None


def lanes_dims(a):
    v, ax = a.fields[0], int(a.fields[1].const())
    return tuple(d for i, d in enumerate(v.dims) if i != ax)


def lane_view(ip, v, ax, idx):
    """the 1-d lane of v along ax at the other indices idx"""
    def fn(x):
        o = list(idx)
        o.insert(ax, x[0])
        return o
    return ip.subview(v, (v.dims[ax],), fn, lane_layout(v, ax))


def const_axis(ip, st, v, n=None):
    if isinstance(v, Agg) and v.tag == "ndarray::Axis":
        v = v.fields[0]
    c = v.const()
    if c is None:
        v = simp(v, st.facts())
        c = v.const()
    if c is None:
        # a fact may pin the value
        for k in range(4):
            if entails(st.facts(), eq(v, const(k))):
                return k
        raise Undecided("symbolic axis")
    return int(c)


# ------------------------------------------------------------------ panics
@model("panicking::panic", "begin_panic", "panic_fmt", "todo_default_msg", "panic_explicit", "panic_display",
       "panic_bounds_check", "assert_failed", "unwrap_failed", "expect_failed", "panic_str", "panic_nounwind", "panic_str_2015",
       "slice_index_fail", "len_mismatch_fail")
def m_panic(ip, st, args, call):
    ip.event("panic", st, None, msg=panic_msg(args))
    raise Dead()


def panic_msg(args):
    for a in args:
        if isinstance(a, Obj) and a.name == "str":
            return str(a.f[1])
    return ""


@model("Argument::new_debug", "Argument::new_display", "Arguments::new", "Arguments::new_v1", "Arguments::new_const",
       "Arguments::from_str", "Arguments::new_v1_formatted", "Argument::none", "fmt::format", "_print", "_eprint",
       "Argument::new_lower_exp", "Argument::new_pointer")
def m_fmt(ip, st, args, call):
    return Obj("fmt")


@model("drop_in_place", "mem::drop", "forget")
def m_unit(ip, st, args, call):
    return UNIT


# ------------------------------------------------------------------ scalars
@model("Zero::zero", "identities::zero")
def m_zero(ip, st, args, call):
    return ZERO


@model("One::one", "identities::one")
def m_one(ip, st, args, call):
    return ONE


@model("Default::default")
def m_default(ip, st, args, call):
    e = ip.p.et(call.retty())
    if e in ("f", "u", "i", "c"):
        return ZERO
    if e == "b":
        return FALSE
    import models4
    v = models4.default_type(ip, st, call.retty())
    return Obj("default") if v is None else v


def _id(ip, st, args, call):
    v = args[0]
    return v


def _idnum(ip, st, args, call):
    v = deref(ip, st, args[0])
    return v


for n in ("from_f64", "from_usize", "from_u32", "from_i32", "from_f32", "from_u64", "from_i64", "from_u8", "NumCast::from"):
    def _f(ip, st, args, call):
        return some(deref(ip, st, args[0]))
    M["FromPrimitive::" + n] = _f
    M[n] = _f
M["ToPrimitive::to_f32"] = lambda ip, st, args, call: some(single(deref(ip, st, args[0])))
for n in ("to_f64", "to_usize", "to_u32", "to_i32"):
    def _f2(ip, st, args, call, n=n):
        v = deref(ip, st, args[0])
        if n != "to_f64" and not TT._isint(v):
            v = app("trunc", v, sort="int")
        return some(v)
    M["ToPrimitive::" + n] = _f2


@model("Into::into", "From::from", "AsPrimitive::as_", "Borrow::borrow", "borrow_mut", "AsRef::as_ref", "AsMut::as_mut",
       "convert::identity", "black_box", "must_use")
def m_into(ip, st, args, call):
    v = args[0]
    if isinstance(v, Agg) and v.tag in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeFull"):
        return v
    rt = ip.p.types[call.retty()] if call.retty() is not None and call.retty() >= 0 else {}
    if rt.get("k") == "adt" and rt.get("n") == "ndarray::SliceInfoElem":
        return slice_elem(v)
    return v


@model("TryInto::try_into", "TryFrom::try_from")
def m_tryinto(ip, st, args, call):
    v = args[0]
    if isinstance(v, Poly):
        rt = ip.p.types[call.retty()]
        n = None
        if rt["k"] == "adt" and rt.get("a"):
            n = ip.p.types[rt["a"][0]].get("n")
        if n in ("i32", "u32", "i16", "u16", "i8", "u8"):
            bits = int(n[1:])
            hi = 2 ** (bits - 1) - 1 if n[0] == "i" else 2 ** bits - 1
            if v.const() is None:
                ip.event("narrow", st, le(v, const(hi)), value=v, to=n)
        return ok(v)
    rt = ip.p.types[call.retty()]
    a = ip.p.types[rt["a"][0]] if rt["k"] == "adt" and rt.get("a") else {}
    if a.get("k") == "array" and isinstance(a.get("n", a.get("len")), int):
        w = ip.as_view(st, v)
        n = a.get("n", a.get("len"))
        lam = ip.view_lam(st, w)
        c = eq(w.dims[0], const(n))
        return EnumV("std::result::Result", ((c, 0, (Agg("array", tuple(lam(const(k)) for k in range(n))),)), (cnot(c), 1, (Obj("tryerror"),))))
    raise Undecided("try_into")


@model("powi", "num::pow", "pow", "Pow::pow", "powu")
def m_pow(ip, st, args, call):
    a, e = deref(ip, st, args[0]), deref(ip, st, args[1])
    v = powsimp(st, a, e)
    int_event(ip, st, call, v, "pow")
    return v


def int_event(ip, st, call, v, op):
    """a library operation on integers that overflows outside the range of its type"""
    t = call.retty()
    if t is None or t < 0 or not isinstance(v, Poly) or v.const() is not None:
        return
    n = ip.p.types[t].get("n")
    if ip.p.types[t]["k"] != "prim" or ip.p.et(t) not in ("u", "i"):
        return
    l, h = int_range(n)
    ip.event("overflow", st, cand(ge0(const(h) - v), ge0(v - l)) if l else ge0(const(h) - v), value=v, op=op,
             fn=call.fr.body["base"], sp=call.fr.body["blocks"][call.u]["sp"])


def powsimp(st, a, e):
    ac = a.const()
    if ac == -1:
        m = mod(e, 2)
        mc = m.const()
        if mc is not None:
            return const(1 - 2 * mc)
        return ONE - 2 * m
    if TT.has_i(a) and e.const() is None and TT._isint(e):
        ra, ia = TT.reim(a)
        if ra is ZERO:
            m = mod(e, 4)
            re = ite(eq(m, ZERO), ONE, ite(eq(m, const(2)), -ONE, ZERO))
            im = ite(eq(m, ONE), ONE, ite(eq(m, const(3)), -ONE, ZERO))
            return power(ia, e) * (re + TT.I * im)
    return power(a, e)


@model("Zero::is_zero", "One::is_one")
def m_iszero(ip, st, args, call):
    a = deref(ip, st, args[0])
    if TT.has_i(a) or ip.p.et(_pointee(ip, call.argty(0))) == "c":
        a, b = TT.reim(a)
        c = fcmp("Eq", b, ZERO)
    else:
        c = TRUE
    return cand(c, fcmp("Eq", a, ZERO if call.tr.endswith("is_zero") else ONE))


def _pointee(ip, t):
    x = ip.p.types[t]
    return _pointee(ip, x["t"]) if x["k"] in ("ref", "ptr") else t


CONSTS = {"epsilon": ("epsilon", Fraction(1, 2 ** 52)), "min_positive_value": ("tiny", Fraction(1, 2 ** 1022)),
          "neg_zero": None}


@model("Float::epsilon", "Float::min_positive_value", "Float::neg_zero")
def m_fconst(ip, st, args, call):
    c = CONSTS[call.tr.rsplit("::", 1)[-1]]
    return const(c[1]) if c else ZERO


@model("powf")
def m_powf(ip, st, args, call):
    a, e = deref(ip, st, args[0]), deref(ip, st, args[1])
    if e.const() is not None and e.const().denominator == 1:
        return power(a, e)
    return app("powf", a, e)


@model("abs")
def m_abs(ip, st, args, call):
    a = deref(ip, st, args[0])
    if a.const() is not None:
        return const(abs(a.const()))
    if TT._isint(a) and entails(st.facts(), ge0(a)):
        return a
    return app("abs", normsign(a))


def normsign(a):
    if a.m and a.m[-1][1] < 0:
        return -a
    return a


@model("signum")
def m_sgn(ip, st, args, call):
    return app("signum", deref(ip, st, args[0]))


@model("sin")
def m_sin(ip, st, args, call):
    a = deref(ip, st, args[0])
    return trig("sin", a)


@model("cos")
def m_cos(ip, st, args, call):
    return trig("cos", deref(ip, st, args[0]))


def trig(f, a):
    if a is ZERO:
        return ZERO if f == "sin" else ONE
    if a.m and a.m[-1][1] < 0:
        return -trig(f, -a) if f == "sin" else trig(f, -a)
    return app(f, a)


@model("Float::recip", "recip", "Inv::inv")
def m_recip(ip, st, args, call):
    return TT.div(ONE, deref(ip, st, args[0]))


for _n in ("sqrt", "exp", "ln", "tan", "floor", "ceil", "round", "acos", "asin", "atan", "tanh", "norm", "norm_sqr", "conj", "is_nan", "is_finite", "trunc"):
    def _mk(nm):
        def f(ip, st, args, call):
            a = deref(ip, st, args[0])
            if nm == "conj":
                r, i = reim(a)
                return r - I * i
            if nm == "norm_sqr":
                r, i = reim(a)
                return r * r + i * i
            if nm == "norm":
                r, i = reim(a)
                return app("sqrt", r * r + i * i)
            if nm in ("is_nan", "is_finite"):
                return batom(nm, a)
            if nm in ("floor", "ceil", "round", "trunc") and TT._isint(a):
                return a
            return app(nm, a)
        return f
    M[_n] = _mk(_n)


@model("Complex::new")
def m_cnew(ip, st, args, call):
    return deref(ip, st, args[0]) + I * deref(ip, st, args[1])


@model("Complex::re", "Complex::i")
def m_ci(ip, st, args, call):
    return I


@model("scale", "unscale")
def m_scale(ip, st, args, call):
    a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
    return a * b if call.tr.endswith("::scale") else TT.div(a, b)


def arrlike(ip, st, v):
    if isinstance(v, (Arr, View)):
        return True
    if isinstance(v, Ref):
        try:
            return arrlike(ip, st, ip.load(st, v))
        except Undecided:
            return False
    return False


def numop(op):
    def f(ip, st, args, call):
        a, b = args[0], args[1]
        la, lb = arrlike(ip, st, a), arrlike(ip, st, b)
        if la or lb:
            return arrop(ip, st, op, a, b, la, lb)
        a, b = deref(ip, st, a), deref(ip, st, b)
        et = None
        if isinstance(a, Poly) and TT._isint(a) and isinstance(b, Poly) and TT._isint(b):
            # generic code on integers (usize iterators, sums)
            t = call.t["at"][0] if call.t.get("at") else None
            while t is not None and ip.p.types[t]["k"] == "ref":
                t = ip.p.types[t]["t"]
            et = ip.p.et(t) if t is not None else None
        return scal(ip, st, op, a, b, et)
    return f


def scal(ip, st, op, a, b, et):
    if op == "add":
        return a + b
    if op == "sub":
        if et == "u":
            ip.need("Overflow", st, ge0(a - b), fn="", op="Sub")
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        if et in ("u", "i"):
            return ip.simp_div(st, a, b)
        return TT.div(a, b)
    if op == "rem":
        if et in ("u", "i") or (TT._isint(a) and TT._isint(b)):
            return ip.arith(st, "Rem", a, b, "u")
        return app("frem", a, b)
    raise Undecided(op)


def arrop(ip, st, op, a, b, la, lb):
    va = ip.as_view(st, a) if la else None
    vb = ip.as_view(st, b) if lb else None
    d = (va or vb).dims
    if va and vb and len(va.dims) == len(vb.dims):
        for x, y in zip(va.dims, vb.dims):
            ip.need("shape", st, eq(x, y), fn="arith", op=op)
    vs = tuple(freshv() for _ in d)
    ps = [pof(v) for v in vs]
    x = ip.view_lam(st, va)(*ps) if va else deref(ip, st, a)
    y = ip.view_lam(st, vb)(*ps) if vb else deref(ip, st, b)
    return Arr(d, Lam(vs, scal(ip, st, op, x, y, None)), "C", ip.view_et(st, va or vb))


for _o in ("add", "sub", "mul", "div", "rem"):
    M["%s::%s" % (_o.capitalize(), _o)] = numop(_o)

    def _mk2(o):
        base = numop(o)

        def f(ip, st, args, call):
            tgt = args[0]
            if arrlike(ip, st, tgt):
                v = ip.as_view(st, tgt)
                lb = arrlike(ip, st, args[1])
                r = arrop(ip, st, o, v, args[1], True, lb)
                ip.view_store(st, v, r.lam)
                return UNIT
            cur = ip.load(st, tgt)
            x = deref(ip, st, args[1])
            et = None
            t = call.t["at"][1] if len(call.t.get("at") or []) > 1 else None
            if t is not None:
                et = ip.p.et(t)
            ip.store(st, tgt, scal(ip, st, o, cur, x, et if et in ("u", "i") else None))
            return UNIT
        return f
    M["%sAssign::%s_assign" % (_o.capitalize(), _o)] = _mk2(_o)


@model("MulAdd::mul_add", "mul_add")
def m_fma(ip, st, args, call):
    a, b, c = [deref(ip, st, x) for x in args]
    return a * b + c


@model("Neg::neg")
def m_neg(ip, st, args, call):
    if arrlike(ip, st, args[0]):
        v = ip.as_view(st, args[0])
        vs = tuple(freshv() for _ in v.dims)
        return Arr(v.dims, Lam(vs, -ip.view_lam(st, v)(*[pof(x) for x in vs])), "C", ip.view_et(st, v))
    return -deref(ip, st, args[0])


@model("Not::not")
def m_not(ip, st, args, call):
    return cnot(deref(ip, st, args[0]))


def cmpop(op):
    def f(ip, st, args, call):
        a, b = args
        if arrlike(ip, st, a) and arrlike(ip, st, b):
            return arreq(ip, st, a, b, op)
        if (arrlike(ip, st, a) or arrlike(ip, st, b)) and all(arrlike(ip, st, x) or fixed(ip, st, x) for x in (a, b)):
            return arreq(ip, st, a if arrlike(ip, st, a) else fixed(ip, st, a), b if arrlike(ip, st, b) else fixed(ip, st, b), op)
        a, b = deref(ip, st, a), deref(ip, st, b)
        if isinstance(a, EnumV) and isinstance(b, EnumV) and op in ("Eq", "Ne"):
            if all(not p for _, _, p in a.cases) and all(not p for _, _, p in b.cases):
                c = cor(*[cand(ca, cb) for ca, va, _ in a.cases for cb, vb, _ in b.cases if va == vb])
                return c if op == "Eq" else cnot(c)
            raise Undecided("enum comparison")
        if isinstance(a, Cond):
            return bite(a, b, cnot(b)) if op == "Eq" else bite(a, cnot(b), b)
        if isinstance(a, Agg) and isinstance(b, Agg) and op in ("Eq", "Ne") and len(a.fields) == len(b.fields):
            c = cand(*[eqv(x, y) for x, y in zip(a.fields, b.fields)])
            return c if op == "Eq" else cnot(c)
        if isinstance(a, Obj) or isinstance(b, Obj):
            c = TRUE if a is b else batom("objeq", repr(a), repr(b))
            return c if op == "Eq" else cnot(c)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Undecided("comparison of %s" % type(a).__name__)
        if TT._isint(a) and TT._isint(b):
            return ip.arith(st, op, a, b, "i")
        from interp import fcmp
        return fcmp(op, a, b)
    return f


def fixed(ip, st, v):
    """view of a fixed-size array (behind references)"""
    n = 0
    while isinstance(v, Ref) and n < 8:
        w = ip.load(st, v)
        if isinstance(w, Agg) and w.tag == "array":
            return ip.as_view(st, v)
        v = w
        n += 1
    if isinstance(v, Agg) and v.tag == "array":
        return ip.as_view(st, Ref(ip.newcell(st, v, "tmp"), ()))
    return None


def eqv(x, y):
    if isinstance(x, Poly) and isinstance(y, Poly):
        return eq(x, y)
    if isinstance(x, Agg) and isinstance(y, Agg):
        return cand(*[eqv(p, q) for p, q in zip(x.fields, y.fields)])
    raise Undecided("comparison")


def arreq(ip, st, a, b, op):
    va, vb = ip.as_view(st, a), ip.as_view(st, b)
    if len(va.dims) != len(vb.dims):
        r = FALSE
    else:
        n = [d.const() for d in va.dims]
        if len(va.dims) == 1 and n[0] is None:
            n = [d.const() for d in vb.dims]
        if len(va.dims) == 1 and n[0] is not None and n[0] <= 16:
            la, lb = ip.view_lam(st, va), ip.view_lam(st, vb)
            cs = [eq(va.dims[0], vb.dims[0])]
            for k in range(int(n[0])):
                cs.append(eq(la(const(k)), lb(const(k))))
            r = cand(*cs)
        else:
            raise Undecided("array comparison")
    return r if op == "Eq" else cnot(r)


for _o, _n in (("Eq", "PartialEq::eq"), ("Ne", "PartialEq::ne"), ("Lt", "PartialOrd::lt"), ("Le", "PartialOrd::le"),
               ("Gt", "PartialOrd::gt"), ("Ge", "PartialOrd::ge")):
    M[_n] = cmpop(_o)


@model("Ord::min", "cmp::min", "Float::min", "f64::min")
def m_min(ip, st, args, call):
    a, b = [deref(ip, st, x) for x in args]
    if TT._isint(a) and TT._isint(b):
        return pmin(st, a, b)
    return app("fmin", a, b)


@model("Ord::max", "cmp::max", "Float::max", "f64::max")
def m_max(ip, st, args, call):
    a, b = [deref(ip, st, x) for x in args]
    if TT._isint(a) and TT._isint(b):
        c = le(a, b)
        d = decide(st.facts(), c)
        return b if d is True else a if d is False else ite(c, b, a)
    return app("fmax", a, b)


@model("saturating_sub")
def m_satsub(ip, st, args, call):
    return clampsub(st, args[0], args[1])


@model("wrapping_sub", "wrapping_add", "wrapping_mul")
def m_wrap(ip, st, args, call):
    op = call.tr.rsplit("_", 1)[1]
    a, b = args
    r = a + b if op == "add" else a - b if op == "sub" else a * b
    if not entails(st.facts(), ge0(r)):
        raise Undecided("wrapping arithmetic")
    return r


@model("saturating_add", "saturating_mul")
def m_satadd(ip, st, args, call):
    return args[0] + args[1] if call.tr.endswith("add") else args[0] * args[1]


@model("checked_sub")
def m_chksub(ip, st, args, call):
    d = args[0] - args[1]
    return opt(ge0(d), d)


@model("abs_diff")
def m_absdiff(ip, st, args, call):
    a, b = args
    return ite(ge0(a - b), a - b, b - a)


@model("rem_euclid", "div_euclid")
def m_eucl(ip, st, args, call):
    a, b = args
    if b.const() is not None and b.const() > 0:
        return mod(a, b) if call.tr.endswith("rem_euclid") else fdiv(a, b)
    if not entails(st.facts(), ge0(a)):
        raise Undecided(call.tr)
    return mod(a, b) if call.tr.endswith("rem_euclid") else ip.simp_div(st, a, b)


@model("is_power_of_two", "is_multiple_of", "is_even", "is_odd")
def m_ipred(ip, st, args, call):
    if call.tr.endswith("is_multiple_of"):
        return eq(mod(args[0], args[1]), ZERO)
    if call.tr.endswith("is_power_of_two"):
        return eq(intfn("npot", args[0]), args[0])
    return eq(mod(args[0], TT.const(2)), ZERO if call.tr.endswith("is_even") else ONE)


def intfn(nm, *args):
    """integer functions of the standard library that the provers do not interpret"""
    if all(a.is_int_const() for a in args):
        return const(TT.INTFN[nm](*[int(a.const()) for a in args]))
    r = app("i:" + nm, *args, sort="int")
    a = r.single_atom()
    v = args[0]
    TT.RANGE[a] = [ge0(r - v), ge0(r - 1)] if nm == "npot" else [ge0(r)]
    if nm == "and":
        TT.RANGE[a] += [ge0(x - r) for x in args]
    elif nm == "or":
        TT.RANGE[a] += [ge0(r - x) for x in args] + [ge0(args[0] + args[1] - r)]
    elif nm == "xor":
        TT.RANGE[a] += [ge0(args[0] + args[1] - r)]
    return r


@model("next_power_of_two")
def m_npot(ip, st, args, call):
    return intfn("npot", args[0])


@model("isqrt")
def m_isqrt(ip, st, args, call):
    return intfn("isqrt", args[0])


@model("ilog2", "trailing_zeros", "leading_zeros", "count_ones", "count_zeros", "trailing_ones", "ilog10", "swap_bytes", "reverse_bits")
def m_bits(ip, st, args, call):
    return intfn(call.tr.rsplit("::", 1)[-1], args[0])


@model("next_multiple_of")
def m_nmult(ip, st, args, call):
    a, b = args
    return ip.simp_div(st, a + b - 1, b) * b


@model("div_ceil")
def m_divceil(ip, st, args, call):
    a, b = args
    return ip.simp_div(st, a + b - 1, b)


# ------------------------------------------------------------------ option / result
@model("unwrap", "expect")
def m_unwrap(ip, st, args, call):
    v = args[0]
    good = 1 if isinstance(v, EnumV) and "Option" in v.name else 0
    if isinstance(v, EnumV):
        c = v.cond(good)
        if c is FALSE:
            ip.event("unwrap", st, FALSE, fn=call.fr.body["base"] if call.fr else "")
            raise Dead()
        ip.need("unwrap", st, c, fn=call.fr.body["base"] if call.fr else "")
        for cc, k, pl in v.cases:
            if k == good:
                return pl[0]
    if isinstance(v, Obj):
        return Obj("unwrap", *v.f)
    raise Undecided("unwrap of %s" % type(v).__name__)


@model("unwrap_or", "unwrap_or_default")
def m_unwrap_or(ip, st, args, call):
    v = args[0]
    d = args[1] if len(args) > 1 else ZERO
    good = 1 if "Option" in v.name else 0
    for cc, k, pl in v.cases:
        if k == good:
            return vite(cc, pl[0], d)
    return d


@model("Option::is_some", "Result::is_ok")
def m_issome(ip, st, args, call):
    v = ip.load(st, args[0])
    return v.cond(1 if "Option" in v.name else 0)


@model("Option::is_none", "Result::is_err")
def m_isnone(ip, st, args, call):
    v = ip.load(st, args[0])
    return v.cond(0 if "Option" in v.name else 1)


@model("Option::map", "Result::map")
def m_omap(ip, st, args, call):
    v, f = args
    good = 1 if "Option" in v.name else 0
    cs = []
    for c, k, pl in v.cases:
        if k == good:
            cs.append((c, k, (ip.call_value(f, [pl[0]], st),)))
        else:
            cs.append((c, k, pl))
    return EnumV(v.name, tuple(cs))


@model("Option::as_ref", "Option::as_mut", "Option::copied", "Option::cloned", "Option::ok_or", "Result::ok")
def m_oref(ip, st, args, call):
    v = args[0]
    if isinstance(v, Ref):
        v = ip.load(st, v)
        return v
    if call.tr.endswith(("copied", "cloned")):
        return EnumV(v.name, tuple((c, k, tuple(deref(ip, st, x) for x in pl)) for c, k, pl in v.cases))
    raise Undecided(call.tr)


# ------------------------------------------------------------------ memory
@model("Deref::deref", "DerefMut::deref_mut", "as_slice_ref", "Vec::as_slice", "Vec::as_mut_slice")
def m_deref(ip, st, args, call):
    v = args[0]
    if isinstance(v, Ref):
        a = ip.load(st, v)
        if isinstance(a, (Ref, View, IteV)):
            return ip.as_view(st, a) if not isinstance(a, Ref) else a
        if isinstance(a, Arr):
            return identity_view(v.root, v.path, a)
        if isinstance(a, Obj):
            return v
        return v
    return v


@model("Clone::clone", "ToOwned::to_owned", "Copy::copy", "clone_from")
def m_clone(ip, st, args, call):
    v = args[0]
    if call.tr.endswith("to_owned") and arrlike(ip, st, v):
        return ip.materialize(st, ip.as_view(st, v))
    if isinstance(v, Ref):
        r = ip.load(st, v)
        return r
    if isinstance(v, View) and v.dims:
        # clone of an array behind a view of itself
        return ip.materialize(st, v)
    return deref(ip, st, v)


@model("to_vec", "to_owned", "into_vec", "into_owned", "to_shape", "as_standard_layout")
def m_tovec(ip, st, args, call):
    return ip.materialize(st, ip.as_view(st, args[0]))


@model("mem::swap")
def m_swapmem(ip, st, args, call):
    a, b = ip.load(st, args[0]), ip.load(st, args[1])
    ip.store(st, args[0], b)
    ip.store(st, args[1], a)
    return UNIT


@model("mem::replace")
def m_replace(ip, st, args, call):
    a = ip.load(st, args[0])
    ip.store(st, args[0], args[1])
    return a


@model("mem::take")
def m_take(ip, st, args, call):
    a = ip.load(st, args[0])
    if isinstance(a, Arr):
        ip.store(st, args[0], Arr((ZERO,) * len(a.dims), a.lam, "C", a.et))
        return a
    raise Undecided("mem::take")


@model("Vec::new", "Vec::with_capacity")
def m_vecnew(ip, st, args, call):
    et = arr_et_from_type(ip, call.retty())
    x = freshv()
    return Arr((ZERO,), Lam((x,), UNDEF), "C", et)


@model("vec::from_elem")
def m_fromelem(ip, st, args, call):
    et = arr_et_from_type(ip, call.retty())
    x = freshv()
    v = args[0]
    if isinstance(v, Arr):
        raise Undecided("vector of vectors")
    return Arr((args[1],), Lam((x,), v), "C", et)


@model("Vec::push")
def m_push(ip, st, args, call):
    a = ip.load(st, args[0])
    if not isinstance(a, Arr):
        raise Undecided("push")
    n = a.dims[0]
    x = freshv()
    b = vite_u(eq(pof(x), n), args[1], a.lam(pof(x)))
    ip.store(st, args[0], Arr((n + 1,), Lam((x,), b), a.layout, a.et))
    return UNIT


def vite_u(c, a, b):
    """conditional where the else part is outside the extent when undefined"""
    return a if b is UNDEF else vite(c, a, b)


@model("Vec::resize")
def m_resize(ip, st, args, call):
    a = ip.load(st, args[0])
    n = a.dims[0]
    x = freshv()
    b = vite_u(lt(pof(x), n), a.lam(pof(x)), args[2]) if a.lam(pof(x)) is not UNDEF else args[2]
    ip.store(st, args[0], Arr((args[1],), Lam((x,), b), a.layout, a.et))
    return UNIT


@model("Vec::truncate", "Vec::clear")
def m_trunc(ip, st, args, call):
    a = ip.load(st, args[0])
    n = args[1] if len(args) > 1 else ZERO
    ip.store(st, args[0], Arr((pmin(st, a.dims[0], n),), a.lam, a.layout, a.et))
    return UNIT


@model("Vec::extend_from_slice", "Extend::extend")
def m_extend(ip, st, args, call):
    a = ip.load(st, args[0])
    n = a.dims[0]
    x = freshv()
    if isinstance(args[1], It) or not arrlike(ip, st, args[1]):
        it = args[1] if isinstance(args[1], It) else m_intoiter(ip, st, [args[1]], call)
        b = m_collect_it(ip, st, it, a.et, call)
        m, lam = b.dims[0], b.lam
    else:
        w = ip.as_view(st, args[1])
        m, lam = w.dims[0], ip.view_lam(st, w)
    old = a.lam(pof(x))
    new = lam(pof(x) - n)
    ip.store(st, args[0], Arr((n + m,), Lam((x,), new if old is UNDEF else vite(lt(pof(x), n), old, new)), "C", a.et))
    return UNIT


@model("len", "ArrayBase::len")
def m_len(ip, st, args, call):
    return length(ip, st, args[0])


@model("is_empty")
def m_isempty(ip, st, args, call):
    return eq(length(ip, st, args[0]), ZERO)


@model("get_unchecked", "get_unchecked_mut", "uget", "uget_mut")
def m_getu(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return index(ip, st, v, args[1], "unchecked", call)


@model("Index::index", "IndexMut::index_mut")
def m_index(ip, st, args, call):
    b = args[0]
    if isinstance(b, Ref):
        a = ip.load(st, b)
        if isinstance(a, Obj):
            raise Undecided("index of object")
        if isinstance(a, Agg) and a.tag != "array" and isinstance(args[1], Poly):
            return Ref(b.root, b.path + (("e", (args[1],)),))
    v = ip.as_view(st, b)
    return index(ip, st, v, args[1], "bounds", call)


def index(ip, st, v, i, kind, call):
    fn = call.fr.body["base"] if call.fr else ""
    if isinstance(i, Ref):
        i = ip.load(st, i)
    if isinstance(i, Poly):
        if len(v.dims) != 1:
            raise Undecided("rank of index")
        ip.need(kind, st, cand(ge0(i), lt(i, v.dims[0])), fn=fn, idx=(i,), dims=v.dims)
        return ip.elem_ref(v, [i])
    if isinstance(i, Agg) and i.tag in ("array", "tuple"):
        ix = list(i.fields)
        if len(ix) != len(v.dims):
            raise Undecided("rank of index")
        ip.need(kind, st, cand(*[c for x, n in zip(ix, v.dims) for c in (ge0(x), lt(x, n))]), fn=fn, idx=tuple(ix), dims=v.dims)
        return ip.elem_ref(v, ix)
    r = as_range(i, v.dims[0])
    if r is not None:
        a, b = r
        ip.need(kind, st, cand(le(a, b), le(b, v.dims[0]), ge0(a)), fn=fn, idx=(a, b), dims=v.dims)
        return ip.subview(v, (b - a,), lambda x: [x[0] + a], v.layout)
    raise Undecided("index by %s" % type(i).__name__)


def as_range(i, n):
    if isinstance(i, It) and isinstance(i.desc, D) and i.desc.kind == "range" and i.desc.f[2] is ONE:
        lo = i.desc.f[1]
        return lo + i.pos, lo + i.end
    if isinstance(i, Agg):
        t = i.tag.rsplit("::", 1)[-1]
        f = i.fields
        if t == "Range":
            return f[0], f[1]
        if t == "RangeFrom":
            return f[0], n
        if t == "RangeTo":
            return ZERO, f[0]
        if t == "RangeFull":
            return ZERO, n
        if t == "RangeInclusive":
            return f[0], f[1] + 1
        if t == "RangeToInclusive":
            return ZERO, f[0] + 1
    return None


@model("slice::get", "slice::get_mut", "Vec::get")
def m_get(ip, st, args, call):
    v = ip.as_view(st, args[0])
    i = args[1]
    if isinstance(i, Poly):
        return opt(cand(ge0(i), lt(i, v.dims[0])), ip.elem_ref(v, [i]))
    raise Undecided("slice get")


M["::get"] = m_get


@model("first", "first_mut")
def m_first(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return opt(cand(*[ge0(d - 1) for d in v.dims]), ip.elem_ref(v, [ZERO] * len(v.dims)))


@model("last", "last_mut")
def m_last(ip, st, args, call):
    if isinstance(args[0], It):
        raise Undecided("last")
    v = ip.as_view(st, args[0])
    return opt(ge0(v.dims[0] - 1), ip.elem_ref(v, [v.dims[0] - 1]))


@model("swap")
def m_swap(ip, st, args, call):
    v = ip.as_view(st, args[0])
    fn = call.fr.body["base"]

    def ix(i):
        return [i] if isinstance(i, Poly) else list(i.fields)
    i, j = ix(args[1]), ix(args[2])
    for q in (i, j):
        ip.need("bounds", st, cand(*[c for x, n in zip(q, v.dims) for c in (ge0(x), lt(x, n))]), fn=fn, idx=tuple(q), dims=v.dims)
    a, b = ip.elem_ref(v, i), ip.elem_ref(v, j)
    x, y = ip.load(st, a), ip.load(st, b)
    ip.store(st, a, y)
    ip.store(st, b, x)
    return UNIT


@model("split_at", "split_at_mut")
def m_splitat(ip, st, args, call):
    v = ip.as_view(st, args[0])
    k = args[1]
    if isinstance(k, Agg):
        ax = const_axis(ip, st, k)
        k = args[2]
    else:
        ax = 0
    ip.need("bounds", st, cand(ge0(k), le(k, v.dims[ax])), fn=call.fr.body["base"], idx=(k,), dims=v.dims)

    def dims(n):
        d = list(v.dims)
        d[ax] = n
        return tuple(d)

    def sh(x):
        x = list(x)
        x[ax] = x[ax] + k
        return x
    return Agg("tuple", (ip.subview(v, dims(k), lambda x: x, v.layout), ip.subview(v, dims(v.dims[ax] - k), sh, v.layout)))


@model("fill", "ArrayBase::fill", "ArrayRef::fill")
def m_fill(ip, st, args, call):
    v = ip.as_view(st, args[0])
    x = deref(ip, st, args[1])
    vs = tuple(freshv() for _ in v.dims)
    ip.view_store(st, v, Lam(vs, x))
    return UNIT


@model("copy_from_slice", "clone_from_slice", "assign", "assign_to")
def m_copyfrom(ip, st, args, call):
    a, b = args[0], args[1]
    if call.tr.endswith("assign_to"):
        a, b = b, a
    v, w = ip.as_view(st, a), ip.as_view(st, b)
    if call.tr.endswith("assign") and len(v.dims) == len(w.dims):
        cond = cand(*[cor(eq(x, y), eq(y, ONE)) for x, y in zip(v.dims, w.dims)])
        # (a length-one axis would broadcast)
        cond2 = cand(*[eq(x, y) for x, y in zip(v.dims, w.dims)])
        if entails(st.facts(), cond2):
            cond = TRUE
        else:
            cond = cond2
    else:
        cond = cand(*[eq(x, y) for x, y in zip(v.dims, w.dims)])
    ip.need("shape", st, cond, fn=call.fr.body["base"] if call.fr else "", dims=v.dims, dims2=w.dims)
    ip.view_store(st, v, ip.view_lam(st, w))
    return UNIT


@model("reverse")
def m_reverse(ip, st, args, call):
    v = ip.as_view(st, args[0])
    lam = ip.view_lam(st, v)
    x = freshv()
    ip.view_store(st, v, Lam((x,), lam(v.dims[0] - 1 - pof(x))))
    return UNIT


@model("copy_within")
def m_copywithin(ip, st, args, call):
    v = ip.as_view(st, args[0])
    a, b = as_range(args[1], v.dims[0])
    ip.need("bounds", st, cand(le(a, b), le(b, v.dims[0]), le(args[2] + b - a, v.dims[0])), fn=call.fr.body["base"], idx=(a, b), dims=v.dims)
    lam = ip.view_lam(st, v)
    w = ip.subview(v, (b - a,), lambda x: [x[0] + args[2]], "C")
    x = freshv()
    ip.view_store(st, w, Lam((x,), lam(pof(x) + a)))
    return UNIT


# ------------------------------------------------------------------ iterators
def range_it(lo, hi, st):
    return It(D("range", lo, ONE), ZERO, clampsub(st, hi, lo))


def to_it(ip, st, v, call=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Agg):
        t = v.tag.rsplit("::", 1)[-1]
        if t == "Range":
            return range_it(v.fields[0], v.fields[1], st)
        if t == "RangeInclusive":
            return range_it(v.fields[0], v.fields[1] + 1, st)
        if t == "RangeFrom":
            return It(D("range", v.fields[0], ONE), ZERO, sym("u:INF"))
        if v.tag == "lanes":
            d = lanes_dims(v)
            return It(D("lanes", v.fields[0], v.fields[1]), ZERO, prod(d))
        if v.tag == "array":
            cell = ip.newcell(st, v, "arr")
            w = View(cell, (), (const(len(v.fields)),), idlam(), "C")
            return It(D("val", w), ZERO, const(len(v.fields)))
    if isinstance(v, View):
        return It(D("slice", v) if len(v.dims) == 1 else D("nd", v), ZERO, prod(v.dims))
    if isinstance(v, Ref):
        a = ip.load(st, v)
        if isinstance(a, It):
            # iteration through a mutable reference
            return It(D("byref", v.root, v.path), ZERO, clampsub(st, a.end, a.pos))
        return to_it(ip, st, ip.as_view(st, v))
    if isinstance(v, Arr):
        w = ip.as_view(st, v)
        return It(D("val", w) if len(v.dims) == 1 else D("ndval", w), ZERO, prod(v.dims))
    if isinstance(v, EnumV) and "Option" in v.name:
        raise Undecided("iteration over an option")
    raise Undecided("iteration over %s" % (v if isinstance(v, Obj) else type(v).__name__))


def idlam():
    x = freshv()
    return Lam((x,), Agg("ix", (pof(x),)))


@model("IntoIterator::into_iter")
def m_intoiter(ip, st, args, call):
    return to_it(ip, st, args[0], call)


@model("iter", "iter_mut", "IntoParallelIterator::into_par_iter", "par_iter", "par_iter_mut", "into_producer")
def m_iter(ip, st, args, call):
    v = args[0]
    if isinstance(v, Ref):
        v = ip.as_view(st, v)
    return to_it(ip, st, v)


@model("RangeInclusive::new")
def m_rinc(ip, st, args, call):
    return Agg("std::ops::RangeInclusive", (args[0], args[1]))


@model("contains")
def m_contains(ip, st, args, call):
    v = ip.load(st, args[0])
    r = as_range(v, None)
    if r is None:
        raise Undecided("contains")
    x = deref(ip, st, args[1])
    return cand(le(r[0], x), lt(x, r[1]))


def as_it(ip, st, v):
    return v if isinstance(v, It) else to_it(ip, st, v)


def rest(st, it):
    return clampsub(st, it.end, it.pos)


INF = sym("u:INF")


def isinf(p):
    return any(a is INF.single_atom() for a in p.atoms())


def minlen(st, a, b):
    if isinf(a):
        return b
    if isinf(b):
        return a
    return pmin(st, a, b)


@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def m_zip(ip, st, args, call):
    a, b = as_it(ip, st, args[0]), as_it(ip, st, args[1])
    return It(D("zip", a.desc, a.pos, b.desc, b.pos), ZERO, minlen(st, rest(st, a), rest(st, b)))


@model("enumerate")
def m_enum(ip, st, args, call):
    a = as_it(ip, st, args[0])
    return It(D("enum", a.desc, a.pos), ZERO, rest(st, a))


@model("Iterator::rev")
def m_rev(ip, st, args, call):
    a = as_it(ip, st, args[0])
    return It(D("rev", a.desc, a.end), ZERO, rest(st, a))


@model("Iterator::skip")
def m_skip(ip, st, args, call):
    a = as_it(ip, st, args[0])
    n = rest(st, a)
    k = args[1]
    if isinf(n):
        return It(a.desc, a.pos + k, a.end)
    k2 = pmin(st, k, n)
    return It(a.desc, a.pos + k2, a.end)


@model("Iterator::take")
def m_take_(ip, st, args, call):
    a = as_it(ip, st, args[0])
    return It(a.desc, a.pos, a.pos + minlen(st, rest(st, a), args[1]))


@model("Iterator::step_by")
def m_stepby(ip, st, args, call):
    a = as_it(ip, st, args[0])
    s = args[1]
    n = rest(st, a)
    return It(D("step", a.desc, a.pos, s), ZERO, ip.simp_div(st, n + s - 1, s))


@model("Iterator::map")
def m_map(ip, st, args, call):
    a = as_it(ip, st, args[0])
    cell = ip.newcell(st, args[1], "fn")
    return It(D("map", a.desc, a.pos, Ref(cell, ())), ZERO, rest(st, a))


@model("Iterator::copied", "Iterator::cloned")
def m_copied(ip, st, args, call):
    a = as_it(ip, st, args[0])
    return It(D("copied", a.desc, a.pos), ZERO, rest(st, a))


@model("Iterator::chain")
def m_chain(ip, st, args, call):
    a, b = as_it(ip, st, args[0]), as_it(ip, st, args[1])
    n = rest(st, a)
    return It(D("chain", a.desc, a.pos, n, b.desc, b.pos), ZERO, n + rest(st, b))


@model("Iterator::scan")
def m_scan(ip, st, args, call):
    a = as_it(ip, st, args[0])
    cs = ip.newcell(st, args[1], "scan")
    cf = ip.newcell(st, args[2], "fn")
    return It(D("scan", a.desc, a.pos, Ref(cs, ()), Ref(cf, ())), ZERO, rest(st, a))


@model("Iterator::by_ref")
def m_byref(ip, st, args, call):
    return args[0]


@model("iter::repeat")
def m_repeat(ip, st, args, call):
    return It(D("repeat", args[0]), ZERO, INF)


@model("iter::once")
def m_once(ip, st, args, call):
    return It(D("repeat", args[0]), ZERO, ONE)


@model("windows")
def m_windows(ip, st, args, call):
    v = ip.as_view(st, args[0])
    w = args[1]
    return It(D("windows", v, w), ZERO, clampsub(st, v.dims[0] + 1, w))


@model("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "par_chunks", "par_chunks_mut")
def m_chunks(ip, st, args, call):
    v = ip.as_view(st, args[0])
    w = args[1]
    n = v.dims[0]
    q = ip.simp_div(st, n, w)
    if "exact" in call.tr or entails(st.facts(), eq(q * w, n)):
        return It(D("chunks", v, w), ZERO, q)
    return It(D("chunksr", v, w), ZERO, ip.simp_div(st, n + w - 1, w))


PURE = ("range", "slice", "nd", "zip", "rev", "enum", "step", "copied", "chain", "lanes", "val", "ndval", "windows", "chunks", "repeat", "chunksr", "outer", "ixiter")


def pure(d):
    if not isinstance(d, D):
        return True
    if d.kind not in PURE:
        return False
    return all(pure(x) for x in d.f[1:] if isinstance(x, D))


def it_get(ip, d, k, st):
    kd = d.kind
    if kd == "range":
        return d.f[1] + d.f[2] * k
    if kd == "slice":
        return ip.elem_ref(d.f[1], [k])
    if kd == "val":
        return ip.view_get(st, d.f[1], [k])
    if kd == "nd" or kd == "ndval":
        v = d.f[1]
        ix = [loops.unfl(j, v.dims, k) for j in range(len(v.dims))]
        nd_facts(st, v.dims, ix)
        return ip.elem_ref(v, ix) if kd == "nd" else ip.view_get(st, v, ix)
    if kd == "lanes":
        v, ax = d.f[1], int(d.f[2].const())
        dims = tuple(x for i, x in enumerate(v.dims) if i != ax)
        ix = [loops.unfl(j, dims, k) for j in range(len(dims))]
        nd_facts(st, dims, ix)
        return lane_view(ip, v, ax, ix)
    if kd == "outer":
        v, ax = d.f[1], int(d.f[2].const())
        return sub_outer(ip, v, ax, k)
    if kd == "zip":
        return Agg("tuple", (it_get(ip, d.f[1], d.f[2] + k, st), it_get(ip, d.f[3], d.f[4] + k, st)))
    if kd == "rev":
        return it_get(ip, d.f[1], d.f[2] - 1 - k, st)
    if kd == "enum":
        return Agg("tuple", (k, it_get(ip, d.f[1], d.f[2] + k, st)))
    if kd == "step":
        return it_get(ip, d.f[1], d.f[2] + d.f[3] * k, st)
    if kd == "map":
        x = it_get(ip, d.f[1], d.f[2] + k, st)
        return ip.call_value(d.f[3], [x], st)
    if kd == "copied":
        return deref(ip, st, it_get(ip, d.f[1], d.f[2] + k, st))
    if kd == "chain":
        n = d.f[3]
        c = lt(k, n)
        dd = decide(st.facts(), c)
        if dd is True:
            return it_get(ip, d.f[1], d.f[2] + k, st)
        if dd is False:
            return it_get(ip, d.f[4], d.f[5] + k - n, st)
        return vite(c, it_get(ip, d.f[1], d.f[2] + k, st), it_get(ip, d.f[4], d.f[5] + k - n, st))
    if kd == "scan":
        x = it_get(ip, d.f[1], d.f[2] + k, st)
        r = ip.call_value(d.f[4], [d.f[3], x], st)
        if isinstance(r, EnumV) and len(r.cases) == 1 and r.cases[0][1] == 1:
            return r.cases[0][2][0]
        raise Undecided("scan that may stop")
    if kd == "repeat":
        return d.f[1]
    if kd == "windows":
        return ip.subview(d.f[1], (d.f[2],), lambda x: [x[0] + k], d.f[1].layout)
    if kd == "chunks":
        w = d.f[2]
        return ip.subview(d.f[1], (w,), lambda x: [x[0] + k * w], d.f[1].layout)
    if kd == "chunksr":
        w = d.f[2]
        n = d.f[1].dims[0]
        return ip.subview(d.f[1], (pmin(st, w, n - k * w),), lambda x: [x[0] + k * w], d.f[1].layout)
    if kd == "ixiter":
        v = d.f[1]
        ix = [loops.unfl(j, v.dims, k) for j in range(len(v.dims))]
        nd_facts(st, v.dims, ix)
        return Agg("tuple", (ix[0] if len(ix) == 1 else Agg("tuple", tuple(ix)), ip.elem_ref(v, ix)))
    raise Undecided("iterator " + str(kd))


def nd_facts(st, dims, ix):
    if len(dims) < 2:
        return
    for d, i in zip(dims, ix):
        st.assume(lt(i, d))


def sub_outer(ip, v, ax, k):
    dims = tuple(x for i, x in enumerate(v.dims) if i != ax)

    def fn(x):
        o = list(x)
        o.insert(ax, k)
        return o
    return ip.subview(v, dims, fn, v.layout if ax == 0 else "?")


@model("Iterator::next")
def m_next(ip, st, args, call):
    r = args[0]
    v = ip.load(st, r)
    if isinstance(v, Agg):
        v = to_it(ip, st, v)
        ip.store(st, r, v)
    if isinstance(v, Ref):
        return m_next(ip, st, [v], call)
    if not isinstance(v, It):
        raise Undecided("next on %s" % type(v).__name__)
    has = TRUE if isinf(v.end) else lt(v.pos, v.end)
    dd = decide(st.facts(), has)
    if dd is False:
        return NONE
    if pure(v.desc) or dd is True:
        if dd is not True and not impure_facts(v.desc):
            item = it_get(ip, v.desc, v.pos, st)
        elif dd is True:
            item = it_get(ip, v.desc, v.pos, st)
        else:
            s2 = st.copy()
            s2.assume(has, "b")
            item = it_get(ip, v.desc, v.pos, s2)
            # facts about the position hold whenever the item is used
            for g, c in s2.pc[len(st.pc):]:
                if c is not has:
                    st.pc = st.pc + (("a", cor(cnot(has), c)),)
        ip.store(st, r, It(v.desc, v.pos + ite(has, ONE, ZERO) if dd is not True else v.pos + 1, v.end))
        if dd is not True:
            # the exhausted iterator keeps its position; callers leave the loop
            ip.store(st, r, It(v.desc, v.pos + 1, v.end)) if INLOOP else None
        return opt(TRUE if dd is True else has, item)
    s1, s2 = st.copy(), st.copy()
    s1.assume(has, "b")
    item = it_get(ip, v.desc, v.pos, s1)
    ip.store(s1, r, It(v.desc, v.pos + 1, v.end))
    s2.assume(cnot(has), "b")
    m = ip.merge([s1, s2], len(st.pc))
    st.mem, st.pc = m.mem, m.pc
    return opt(has, item)


INLOOP = True


def impure_facts(d):
    return isinstance(d, D) and (d.kind in ("nd", "lanes", "ndval", "ixiter") or any(impure_facts(x) for x in d.f[1:] if isinstance(x, D)))


@model("DoubleEndedIterator::next_back")
def m_nextback(ip, st, args, call):
    r = args[0]
    v = ip.load(st, r)
    if isinstance(v, Agg):
        v = to_it(ip, st, v)
    has = lt(v.pos, v.end)
    item = it_get(ip, v.desc, v.end - 1, st)
    ip.store(st, r, It(v.desc, v.pos, v.end - 1))
    return opt(has, item)


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(ip, st, args, call):
    it = as_it(ip, st, args[0])
    cell = ip.newcell(st, args[1], "fn")
    ip.for_each(it, st, lambda x, s: ip.call_value(Ref(cell, ()), [x], s), ("fe", call.fr.body["id"], call.u))
    return UNIT


@model("Iterator::fold")
def m_fold(ip, st, args, call):
    it = as_it(ip, st, args[0])
    acc = ip.newcell(st, args[1], "acc")
    cell = ip.newcell(st, args[2], "fn")

    def f(x, s):
        s.mem[acc] = ip.call_value(Ref(cell, ()), [s.mem[acc], x], s)
    ip.for_each(it, st, f, ("fold", call.fr.body["id"], call.u))
    return st.mem.pop(acc)


@model("Iterator::sum", "Iterator::product")
def m_sum(ip, st, args, call):
    it = as_it(ip, st, args[0])
    p = call.tr.endswith("product")
    acc = ip.newcell(st, ONE if p else ZERO, "acc")

    def f(x, s):
        x = deref(ip, s, x)
        s.mem[acc] = s.mem[acc] * x if p else s.mem[acc] + x
    ip.for_each(it, st, f, ("sum", call.fr.body["id"], call.u))
    return st.mem.pop(acc)


@model("Iterator::count", "ExactSizeIterator::len")
def m_count(ip, st, args, call):
    v = args[0]
    if isinstance(v, Ref):
        v = ip.load(st, v)
    if isinstance(v, (Arr, View)):
        return length(ip, st, v)
    return rest(st, as_it(ip, st, v))


@model("Iterator::collect", "Array::from_iter", "FromIterator::from_iter")
def m_collect(ip, st, args, call):
    it = as_it(ip, st, args[0])
    et = arr_et_from_type(ip, call.retty())
    return m_collect_it(ip, st, it, et, call)


def m_collect_it(ip, st, it, et, call):
    if et is None:
        raise Undecided("collect of a non-scalar type")
    n = rest(st, it)
    x = freshv()
    cell = ip.newcell(st, Arr((n,), Lam((x,), UNDEF), "C", et), "col")
    kc = ip.newcell(st, ZERO, "k")
    if pure(it.desc) or True:
        # start from an explicitly opaque content so that every element must be set
        y = freshv()
        nm = "uninit~%d" % ip.cells
        st.mem[cell] = Arr((n,), Lam((y,), elem_sym(et, nm, (pof(y),))), "C", et)

    def f(v, s):
        v = deref(ip, s, v) if not isinstance(v, Agg) else v
        ip.set(s, cell, (("e", (s.mem[kc],)),), v)
        s.mem[kc] = s.mem[kc] + 1
    ip.for_each(it, st, f, ("collect", call.fr.body["id"], call.u))
    st.mem.pop(kc)
    r = st.mem.pop(cell)
    # resolve the content under "index in range"
    vs = tuple(freshv() for _ in r.dims)
    b = r.lam(*[pof(v) for v in vs])
    fs = st.facts() + [lt(pof(v), d) for v, d in zip(vs, r.dims)]
    if isinstance(b, Poly):
        b = simp(b, fs)
    return Arr(r.dims, Lam(vs, b), "C", et)


@model("Iterator::all", "Iterator::any")
def m_all(ip, st, args, call):
    a = args[0]
    it = ip.load(st, a) if isinstance(a, Ref) else a
    it = as_it(ip, st, it)
    isall = call.tr.endswith("all")
    n = rest(st, it)
    c = n.const()
    cell = ip.newcell(st, args[1], "fn")
    if it.desc.kind == "keyed":
        import mpi
        return mpi.keyed_any(ip, st, it, Ref(cell, ()), isall)
    if c is not None and c <= 8:
        cs = [ip.call_value(Ref(cell, ()), [it_get(ip, it.desc, it.pos + k, st)], st) for k in range(int(c))]
        return cand(*cs) if isall else cor(*cs)
    v = freshv()
    s2 = st.copy()
    s2.assume(lt(pof(v), n))
    r = ip.call_value(Ref(cell, ()), [it_get(ip, it.desc, it.pos + pof(v), s2)], s2)
    if not isinstance(r, Cond):
        raise Undecided("quantified predicate")
    if not isall:
        r = cnot(r)
    q = forall(v, n, r)
    return q if isall else cnot(q)


def forall(v, n, r):
    return batom("forall", n, Lam((v,), r))


# ------------------------------------------------------------------ ndarray
@model("is_standard_layout")
def m_isstd(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return layout_cond(v.layout)


@model("shape", "raw_dim", "dim")
def m_shape(ip, st, args, call):
    v = ip.as_view(st, args[0])
    if call.tr.endswith("raw_dim"):
        return Agg("ndarray::Dim", (Agg("array", v.dims),))
    if call.tr.endswith("::dim"):
        return v.dims[0] if len(v.dims) == 1 else Agg("tuple", v.dims)
    cell = ip.newcell(st, Agg("array", tuple(v.dims)), "shape")
    return View(cell, (), (const(len(v.dims)),), idlam(), "C")


@model("ndim")
def m_ndim(ip, st, args, call):
    v = args[0]
    return const(len(ip.as_view(st, v).dims))


@model("nrows")
def m_nrows(ip, st, args, call):
    return ip.as_view(st, args[0]).dims[0]


@model("ncols")
def m_ncols(ip, st, args, call):
    return ip.as_view(st, args[0]).dims[1]


@model("len_of", "shape_of")
def m_lenof(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return v.dims[const_axis(ip, st, args[1])]


@model("swap_axes")
def m_swapaxes(ip, st, args, call):
    r = args[0]
    v = ip.load(st, r)
    a, b = [const_axis(ip, st, x) for x in args[1:3]]

    def sw(l):
        l = list(l)
        l[a], l[b] = l[b], l[a]
        return l
    if isinstance(v, Arr):
        vs = tuple(freshv() for _ in v.dims)
        ps = [pof(x) for x in vs]
        ip.store(st, r, Arr(tuple(sw(v.dims)), Lam(vs, v.lam(*sw(ps))), v.layout if a == b else "?", v.et))
    else:
        v = ip.as_view(st, v)
        ip.store(st, r, ip.subview(v, sw(v.dims), lambda x: sw(x), v.layout if a == b else "?"))
    return UNIT


@model("reversed_axes", "t")
def m_t(ip, st, args, call):
    v = args[0]
    if isinstance(v, Arr):
        vs = tuple(freshv() for _ in v.dims)
        return Arr(tuple(reversed(v.dims)), Lam(vs, v.lam(*[pof(x) for x in reversed(vs)])), "?", v.et)
    v = ip.as_view(st, v)
    return ip.subview(v, tuple(reversed(v.dims)), lambda x: list(reversed(x)), "?")


@model("view", "view_mut", "into_view", "reborrow", "aview1", "ArrayView::from", "ArrayViewMut::from")
def m_view(ip, st, args, call):
    return ip.as_view(st, args[0])


@model("as_slice", "as_slice_mut", "to_slice", "into_slice", "as_slice_memory_order", "as_slice_memory_order_mut")
def m_asslice(ip, st, args, call):
    v = ip.as_view(st, args[0])
    if len(v.dims) != 1:
        w = flatten(ip, v)
        return opt(layout_cond(v.layout), w)
    return opt(layout_cond(v.layout), v)


def flatten(ip, v):
    dims = v.dims
    return ip.subview(v, (prod(dims),), lambda x: [loops.unfl(j, dims, x[0]) for j in range(len(dims))], "C")


@model("lanes", "lanes_mut")
def m_lanes(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1])
    ip.need("bounds", st, TRUE if ax < len(v.dims) else FALSE, fn=call.fr.body["base"], idx=(const(ax),), dims=v.dims)
    return Agg("lanes", (v, const(ax)))


@model("rows", "rows_mut", "genrows", "genrows_mut")
def m_rows(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return Agg("lanes", (v, const(len(v.dims) - 1)))


@model("columns", "columns_mut", "gencolumns")
def m_cols(ip, st, args, call):
    v = ip.as_view(st, args[0])
    return Agg("lanes", (v, const(0)))


@model("outer_iter", "outer_iter_mut", "axis_iter", "axis_iter_mut")
def m_outer(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1]) if len(args) > 1 else 0
    return It(D("outer", v, const(ax)), ZERO, v.dims[ax])


@model("index_axis", "index_axis_mut", "index_axis_move")
def m_indexaxis(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = const_axis(ip, st, args[1])
    ip.need("bounds", st, cand(ge0(args[2]), lt(args[2], v.dims[ax])), fn=call.fr.body["base"], idx=(args[2],), dims=v.dims)
    return sub_outer(ip, v, ax, args[2])


@model("row", "row_mut", "column", "column_mut")
def m_row(ip, st, args, call):
    v = ip.as_view(st, args[0])
    ax = 0 if call.tr.split("::")[-1].startswith("row") else 1
    ip.need("bounds", st, cand(ge0(args[1]), lt(args[1], v.dims[ax])), fn=call.fr.body["base"], idx=(args[1],), dims=v.dims)
    return sub_outer(ip, v, ax, args[1])


@model("diag", "diag_mut")
def m_diag(ip, st, args, call):
    v = ip.as_view(st, args[0])
    n = v.dims[0]
    for d in v.dims[1:]:
        n = pmin(st, n, d)
    return ip.subview(v, (n,), lambda x: [x[0]] * len(v.dims), "?")


@model("Zip::from", "ndarray::zip")
def m_zipfrom(ip, st, args, call):
    return Agg("ndzip", (producer(ip, st, args[0]),))


def producer(ip, st, v):
    if isinstance(v, Agg) and v.tag == "lanes":
        return v
    if isinstance(v, It):
        return v
    return ip.as_view(st, v)


def prod_dims(p):
    if isinstance(p, Agg):
        return lanes_dims(p)
    if isinstance(p, It):
        return (p.end - p.pos,)
    return p.dims


@model("Zip::and", "and_broadcast")
def m_zipand(ip, st, args, call):
    z = args[0]
    p = producer(ip, st, args[1])
    d0, d1 = prod_dims(z.fields[0]), prod_dims(p)
    cond = cand(*[eq(a, b) for a, b in zip(d0, d1)]) if len(d0) == len(d1) else FALSE
    ip.need("shape", st, cond, fn=call.fr.body["base"], dims=tuple(d0), dims2=tuple(d1))
    return Agg("ndzip", z.fields + (p,))


@model("Zip::for_each", "Zip::par_for_each", "par_for_each")
def m_zipfe(ip, st, args, call):
    z, f = args
    cell = ip.newcell(st, f, "fn")
    dims = prod_dims(z.fields[0])

    def item(p, ix, s):
        if isinstance(p, Agg):
            return lane_view(ip, p.fields[0], int(p.fields[1].const()), ix)
        if isinstance(p, It):
            return it_get(ip, p.desc, p.pos + ix[0], s)
        return ip.elem_ref(p, ix)

    def nest(k, ix, s):
        if k == len(dims):
            ip.call_value(Ref(cell, ()), [item(p, ix, s) for p in z.fields], s)
            return
        it = It(D("range", ZERO, ONE), ZERO, dims[k])
        ip.for_each(it, s, lambda x, s2: nest(k + 1, ix + [x], s2), ("zip", call.fr.body["id"], call.u, k))
    nest(0, [], st)
    return UNIT


@model("mapv", "map", "mapv_into", "map_collect", "to_complex")
def m_mapv(ip, st, args, call):
    v = ip.as_view(st, args[0])
    f = args[1]
    vs = tuple(freshv() for _ in v.dims)
    ps = [pof(x) for x in vs]
    s2 = st.copy()
    for p, d in zip(ps, v.dims):
        s2.assume(lt(p, d))
    lam = ip.view_lam(s2, v)
    x = lam(*ps) if "mapv" in call.tr else ip.elem_ref(v, ps)
    r = ip.call_value(f, [x], s2)
    et = arr_et_from_type(ip, call.retty())
    return Arr(v.dims, Lam(vs, deref(ip, s2, r)), "C", et)


@model("mapv_inplace", "map_inplace", "par_mapv_inplace", "par_map_inplace")
def m_mapvi(ip, st, args, call):
    v = ip.as_view(st, args[0])
    f = args[1]
    cell = ip.newcell(st, f, "fn")
    bv = "mapv" in call.tr

    def nest(k, ix, s):
        if k == len(v.dims):
            r = ip.elem_ref(v, ix)
            x = ip.load(s, r) if bv else r
            y = ip.call_value(Ref(cell, ()), [x], s)
            if bv:
                ip.store(s, r, y)
            return
        it = It(D("range", ZERO, ONE), ZERO, v.dims[k])
        ip.for_each(it, s, lambda x, s2: nest(k + 1, ix + [x], s2), ("mapv", call.fr.body["id"], call.u, k))
    nest(0, [], st)
    return UNIT


def shape_of(ip, st, v):
    lay = "C"
    while True:
        if isinstance(v, Poly):
            return (v,), lay
        if isinstance(v, Agg) and v.tag == "fshape":
            v = v.fields[0]
            lay = "F"
            continue
        if isinstance(v, Agg) and v.tag in ("array", "tuple"):
            return v.fields, lay
        if isinstance(v, Agg) and v.tag == "ndarray::Dim":
            v = v.fields[0]
            continue
        if isinstance(v, Ref):
            v = ip.load(st, v)
            continue
        raise Undecided("shape argument %s" % type(v).__name__)


@model("ShapeBuilder::f")
def m_shf(ip, st, args, call):
    return Agg("fshape", (args[0],))


@model("zeros", "ones", "from_shape_fn", "default")
def m_zeros(ip, st, args, call):
    dims, lay = shape_of(ip, st, args[0])
    et = arr_et_from_type(ip, call.retty())
    vs = tuple(freshv() for _ in dims)
    nm = call.tr.split("::")[-1]
    if nm == "from_shape_fn":
        s2 = st.copy()
        ps = tuple(pof(x) for x in vs)
        for p, d in zip(ps, dims):
            s2.assume(lt(p, d))
        b = ip.call_value(args[1], [ps[0] if len(ps) == 1 else Agg("tuple", ps)], s2)
    else:
        b = ONE if nm == "ones" else ZERO
    return Arr(tuple(dims), Lam(vs, b), lay if len(dims) > 1 else "C", et)


@model("from_elem")
def m_ndfromelem(ip, st, args, call):
    if call.tr.startswith(("std::vec", "alloc::vec")):
        return m_fromelem(ip, st, args, call)
    dims, lay = shape_of(ip, st, args[0])
    et = arr_et_from_type(ip, call.retty())
    vs = tuple(freshv() for _ in dims)
    return Arr(tuple(dims), Lam(vs, args[1]), lay if len(dims) > 1 else "C", et)


@model("eye")
def m_eye(ip, st, args, call):
    n = args[0]
    vs = (freshv(), freshv())
    et = arr_et_from_type(ip, call.retty())
    return Arr((n, n), Lam(vs, ite(eq(pof(vs[0]), pof(vs[1])), ONE, ZERO)), "C", et)


@model("from_vec", "ArrayBase::from", "aview")
def m_fromvec(ip, st, args, call):
    v = args[0]
    if isinstance(v, Agg):
        cell = ip.newcell(st, v, "arr")
        return ip.materialize(st, View(cell, (), (const(len(v.fields)),), idlam(), "C"))
    return ip.materialize(st, ip.as_view(st, v))


@model("from_diag")
def m_fromdiag(ip, st, args, call):
    v = ip.as_view(st, args[0])
    lam = ip.view_lam(st, v)
    vs = (freshv(), freshv())
    return Arr((v.dims[0], v.dims[0]), Lam(vs, ite(eq(pof(vs[0]), pof(vs[1])), lam(pof(vs[0])), ZERO)), "C", ip.view_et(st, v))


@model("ArrayBase::range", "range")
def m_ndrange(ip, st, args, call):
    """Array1::range(a, b, step): len = ceil((b-a)/step), element i = a + step*i.
    The length is a floating-point computation"""
    a, b, s = args
    q = TT.div(b - a, s)
    et = arr_et_from_type(ip, call.retty())
    x = freshv()
    if q.const() is None and not TT._isint(q):
        n = app("u:fceil", q, sort="int")
    else:
        n = q
    # the quotient is computed in floating point: exact only when the operands are integers
    exact = TT._isint(a) and TT._isint(b) and TT._isint(s)
    ip.event("frange", st, TRUE if exact else FALSE, q=q, fn=call.fr.body["base"] if call.fr else "")
    return Arr((n,), Lam((x,), a + s * pof(x)), "C", et)


@model("linspace")
def m_linspace(ip, st, args, call):
    a, b, n = args
    et = arr_et_from_type(ip, call.retty())
    x = freshv()
    return Arr((n,), Lam((x,), a + TT.div(b - a, n - 1) * pof(x)), "C", et)


@model("dot", "Dot::dot")
def m_dot(ip, st, args, call):
    v, w = ip.as_view(st, args[0]), ip.as_view(st, args[1])
    la, lb = ip.view_lam(st, v), ip.view_lam(st, w)
    k = v.dims[-1]
    ip.need("shape", st, eq(k, w.dims[0]), fn=call.fr.body["base"], dims=v.dims, dims2=w.dims)
    vs = [freshv() for _ in v.dims[:-1]]
    ws = [freshv() for _ in w.dims[1:]]
    t = freshv()
    d = la(*([pof(x) for x in vs] + [pof(t)])) * lb(*([pof(t)] + [pof(x) for x in ws]))
    r = loops.sumt(d, t, k, st.facts())
    dims = tuple(v.dims[:-1]) + tuple(w.dims[1:])
    if not dims:
        return r
    return Arr(dims, Lam(tuple(vs + ws), r), "C", ip.view_et(st, v))


@model("ArrayBase::sum", "ArrayRef::sum")
def m_ndsum(ip, st, args, call):
    v = ip.as_view(st, args[0])
    lam = ip.view_lam(st, v)
    vs = [freshv() for _ in v.dims]
    r = lam(*[pof(x) for x in vs])
    for x, d in zip(reversed(vs), reversed(v.dims)):
        r = loops.sumt(r, x, d, st.facts())
    return r


# slicing -------------------------------------------------------------
def slice_elem(v):
    if isinstance(v, Poly):
        return EnumV("ndarray::SliceInfoElem", ((TRUE, 1, (v,)),))
    r = None
    if isinstance(v, Agg):
        t = v.tag.rsplit("::", 1)[-1]
        f = v.fields
        if t == "Range":
            r = (f[0], some(f[1]), ONE)
        elif t == "RangeFrom":
            r = (f[0], NONE, ONE)
        elif t == "RangeTo":
            r = (ZERO, some(f[0]), ONE)
        elif t == "RangeFull":
            r = (ZERO, NONE, ONE)
        elif t == "RangeInclusive":
            r = (f[0], some(f[1] + 1), ONE)
        elif t == "RangeToInclusive":
            r = (ZERO, some(f[0] + 1), ONE)
        elif t == "Slice":
            r = (f[0], f[1], f[2])
        elif t == "NewAxis":
            return EnumV("ndarray::SliceInfoElem", ((TRUE, 2, ()),))
    if r is None:
        raise Undecided("slice element %r" % (v,))
    return EnumV("ndarray::SliceInfoElem", ((TRUE, 0, r),))


@model("Slice::step_by", "Slice::from", "Slice::new")
def m_slicestep(ip, st, args, call):
    v = args[0]
    if call.tr.endswith("step_by"):
        if isinstance(v, Agg) and v.tag == "ndarray::Slice":
            return Agg("ndarray::Slice", (v.fields[0], v.fields[1], v.fields[2] * args[1]))
    raise Undecided(call.tr)


@model("SliceInfo::new_unchecked")
def m_sinfo(ip, st, args, call):
    return Agg("ndarray::SliceInfo", (args[0],))


@model("next_in_dim", "next_out_dim")
def m_nid(ip, st, args, call):
    return Obj("dimphantom")


@model("slice", "slice_mut", "slice_move", "ArrayBase::slice", "ArrayRef::slice")
def m_slice(ip, st, args, call):
    v = ip.as_view(st, args[0])
    if len(args) == 1:
        return v
    info = args[1]
    while isinstance(info, (Ref, View)):
        info = ip.load(st, info)
    if isinstance(info, Agg) and info.tag.endswith("SliceInfo"):
        el = info.fields[0]
    else:
        el = info
    while isinstance(el, (Ref, View)):
        el = ip.load(st, el)
    els = el.fields
    fn = call.fr.body["base"]
    dims, maps = [], []
    ax = 0
    lay = v.layout
    for k, e in enumerate(els):
        if not isinstance(e, EnumV):
            e = slice_elem(e)
        c, var, pl = e.cases[0]
        if var == 2:
            raise Undecided("new axis")
        n = v.dims[ax]
        if var == 1:
            i = pl[0]
            i = wrapneg(st, i, n)
            ip.need("bounds", st, cand(ge0(i), lt(i, n)), fn=fn, idx=(i,), dims=(n,))
            maps.append((None, i, None))
            if k != 0:
                lay = "?"
        else:
            a, b, s = pl
            a = wrapneg(st, a, n)
            if isinstance(b, EnumV):
                if len(b.cases) != 1:
                    raise Undecided("slice end")
                b = n if b.cases[0][1] == 0 else wrapneg(st, b.cases[0][2][0], n)
            ip.need("bounds", st, cand(ge0(a), le(a, b), le(b, n)), fn=fn, idx=(a, b), dims=(n,))
            sc = s.const()
            if sc is None:
                raise Undecided("symbolic slice step")
            sc = int(sc)
            ln = b - a if abs(sc) == 1 else fdiv(b - a + abs(sc) - 1, abs(sc))
            maps.append((len(dims), a if sc > 0 else b - 1, sc))
            dims.append(ln)
            if not (k == 0 and sc == 1) and not (a is ZERO and b is n and sc == 1):
                lay = "?"
        ax += 1

    def f(x):
        o = []
        for j, a, s in maps:
            o.append(a if j is None else a + const(s) * x[j])
        return o
    return ip.subview(v, tuple(dims), f, lay)


def wrapneg(st, i, n):
    if i.const() is not None:
        return i if i.const() >= 0 else n + i
    if entails(st.facts(), ge0(i)):
        return i
    if entails(st.facts(), ge0(-i - 1)):
        return n + i
    raise Undecided("sign of a slice bound")


# ------------------------------------------------------------------ transforms back ends
def planner(name):
    def f(ip, st, args, call):
        return Obj("planner", name)
    return f


M["DctPlanner::new"] = planner("dct")
M["FftPlanner::new"] = planner("fft")
M["RealFftPlanner::new"] = planner("realfft")


@model("plan_dct1", "plan_fft_forward", "plan_fft_inverse", "plan_dct2", "plan_dct3")
def m_plan(ip, st, args, call):
    nm = call.tr.split("::")[-1]
    kind = "real" if "realfft" in call.tr.lower() or "RealFft" in call.tr else "cplx"
    if nm == "plan_dct1":
        # the planner refuses lengths below two
        kind = ""
        c = ge0(args[1] - 2)
        if not entails(st.facts(), c):
            if not feasible(st.facts() + [c]):
                raise Dead("plan_dct1")
            st.assume(c)
    return Obj("plan", nm, kind, args[1])


@model("process_dct1")
def m_dct1(ip, st, args, call):
    return transform(ip, st, "DCT1", args[0], args[1], None, call)


@model("Fft::process")
def m_fft(ip, st, args, call):
    return transform(ip, st, "FFT", args[0], args[1], None, call)


@model("RealToComplex::process")
def m_rfft(ip, st, args, call):
    return transform(ip, st, "RFFT", args[0], args[1], args[2], call)


@model("ComplexToReal::process")
def m_irfft(ip, st, args, call):
    return transform(ip, st, "IRFFT", args[0], args[1], args[2], call)


def plan_of(ip, st, p):
    """plan object (name, length, direction)"""
    while isinstance(p, (Ref, View)):
        p = ip.load(st, p)
    return p


def transform(ip, st, kind, plan, a, b, call):
    p = plan_of(ip, st, plan)
    pn = planname(p)
    v = ip.as_view(st, a)
    lam = ip.view_lam(st, v)
    fn = call.fr.body["base"]
    N = plan_len(p)
    if kind == "DCT1":
        ip.need("plan", st, eq(v.dims[0], N), fn=fn, what="buffer length", plan=pn)
        x = freshv()
        out = pof(Atom("app", ("DCT1", pn, v.dims[0], lam, pof(x)), "num"))
        ip.view_store(st, v, Lam((x,), out))
        return UNIT
    if kind == "FFT":
        # rustfft transforms every chunk of N elements of the buffer
        x = freshv()
        if entails(st.facts(), eq(v.dims[0], N)):
            ip.event("plan", st, TRUE, fn=fn, what="buffer length", plan=pn)
            ip.view_store(st, v, Lam((x,), capp("FFT", pn, v.dims[0], lam, pof(x))))
            return UNIT
        ip.need("plan", st, cand(ge0(v.dims[0] - N), eq(mod(v.dims[0], N), ZERO)), fn=fn, what="buffer length", plan=pn)
        ip.view_store(st, v, Lam((x,), capp("FFTchunks", pn, N, v.dims[0], lam, pof(x))))
        return UNIT
    w = ip.as_view(st, b)
    half = fdiv(N, 2) + 1
    x = freshv()
    if kind == "RFFT":
        good = cand(eq(v.dims[0], N), eq(w.dims[0], half))
        ip.event("plan", st, good, fn=fn, what="buffer length", plan=pn)
        st.assume(simp(good, st.facts()))
        ip.view_store(st, w, Lam((x,), capp("RFFT", pn, v.dims[0], lam, pof(x))))
        # the input buffer is used as scratch space
        y = freshv()
        ip.view_store(st, v, Lam((y,), app("scratch", pn, lam, pof(y))))
        return ok(UNIT)
    good = cand(eq(v.dims[0], half), eq(w.dims[0], N))
    ip.event("plan", st, good, fn=fn, what="buffer length", plan=pn)
    st.assume(simp(good, st.facts()))
    re0, im0 = reim(lam(ZERO))
    # real back end: the imaginary part of the first (and for even N the last) entry must vanish
    last = reim(lam(half - 1))[1]
    rl = app("IRFFT", pn, w.dims[0], lam, pof(x))
    ip.view_store(st, w, Lam((x,), rl))
    y = freshv()
    ip.view_store(st, v, Lam((y,), capp("scratch", pn, lam, pof(y))))
    zero = cand(feq0(im0), cor(feq0(last), eq(mod(N, 2), ONE)))
    zero = simp(zero, st.facts())
    ip.event("c2r", st, zero, fn=fn, plan=pn, vals=(im0, last))
    return ok(UNIT)


def feq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return batom("fzero", p)


def capp(name, *a):
    return app(name + ".re", *a) + I * app(name + ".im", *a)


def planname(p):
    if isinstance(p, Obj):
        if p.name == "plan":
            return "%s:%s:%s" % (p.f[1], p.f[2], p.f[3])
        return "obj:" + re.sub(r"[()',]", "", " ".join(str(x) for x in p.f[1:]))
    return "plan?"


PLAN_LEN = {}


def plan_len(p):
    """length the plan was made for"""
    if isinstance(p, Obj) and p.name == "plan":
        return p.f[3]
    return sym("u:planlen[%s]" % planname(p))


import models3  # noqa: E402,F401
import models4  # noqa: E402,F401
