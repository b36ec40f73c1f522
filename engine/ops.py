"""Opaque boundaries: the operations of a base, of a space, of a decomposition
as uninterpreted operators.  A caller is analysed against the contract of the
operation (extents, complete overwrite of the output), which the checks of the
lower level establish."""
import re
from terms import *
import terms as TT
from vals import *
from interp import Undecided, Obj
import models as MM

SIZES = {"forward": ("phys", "spec"), "backward": ("spec", "phys"), "to_ortho": ("spec", "orth"),
         "from_ortho": ("orth", "spec"), "gradient": ("spec", "orth")}
R_SLICE = re.compile(r"(?:^|::)(BaseTransform|BaseFromOrtho|BaseGradient)::(forward|backward|to_ortho|from_ortho|gradient)_slice$")
R_ARR = re.compile(r"(?:^|::)(BaseTransform|BaseFromOrtho|BaseGradient)::(forward|backward|to_ortho|from_ortho|gradient)(_inplace)?(_par)?$")
R_SIZE = re.compile(r"(?:^|::)BaseSize::len_(phys|spec|orth)$")
R_QUERY = re.compile(r"(?:^|::)(BaseElements|BaseMatOpDiffmat|BaseMatOpStencil|BaseMatOpLaplacian)::(base_kind|transform_kind|coords|diffmat|diffmat_pinv|stencil|stencil_inv|laplacian|laplacian_pinv)$")


def is_base(call):
    m = re.match(r"<(&*)?(?:funspace::)?([A-Za-z0-9_:]+)", call.name)
    if m is None:
        return False
    t = m.group(2)
    return not t.split("::")[-1].startswith("Space")


def basekey(ip, st, v):
    n = 0
    while isinstance(v, (Ref, View)):
        r = v
        v = ip.get(st, r.root, r.path)
        n += 1
        if n > 8:
            raise Undecided("base reference")
    if isinstance(v, Obj):
        return _objname(v)
    k = str(r.root[1])
    for s in r.path:
        if s[0] == "f":
            k += ".%d" % s[1]
        elif s[0] != "v":
            raise Undecided("base reference")
    return k


def _objname(o):
    if o.f[0] == "val":
        return str(o.f[1])
    return "(%s)" % ",".join(str(x) for x in o.f)


def size(kind, key):
    return sym("u:len_%s[%s]" % (kind, key))


R_OP = re.compile(r"op:(\w+)\[(.*)\](\.re)?$")


def op_head(body):
    """(op, key, extra, n, lam, idx, complex) when the body is one operator term"""
    a = b = None
    if TT.has_i(body):
        p, q = TT.reim(body)
        a, b = one_app(p), one_app(q)
        if a is None or b is None or not a.args[0].endswith(".re") or b.args[0] != a.args[0][:-3] + ".im" or a.args[1:] != b.args[1:]:
            return None
    else:
        a = one_app(body)
        if a is None or a.args[0].endswith(".re") or a.args[0].endswith(".im"):
            return None
    m = R_OP.match(a.args[0])
    if m is None:
        return None
    return m.group(1), m.group(2), a.args[1:-3], a.args[-3], a.args[-2], a.args[-1], b is not None


def one_app(p):
    if len(p.m) != 1:
        return None
    mo, v = p.m[0]
    if v != 1 or len(mo) != 1 or mo[0][1] != 1 or mo[0][0].kind != "app":
        return None
    return mo[0][0]


def opterm(op, key, extra, n, lam, idx, et):
    """An operator along one axis.  The same operation along different axes
    commutes (each is a fixed linear map of its lanes, C04; the element types
    leave real-to-complex steps no choice), so nested operators are kept in one
    order, by the name of the base."""
    h = op_head(lam.body) if isinstance(lam.body, Poly) else None
    if h is not None and h[0] == op and h[1] > key:
        (j,), body = TT.open_lam(lam)
        _, k2, ex2, n2, lam2, idx2, c2 = op_head(body)
        if not any(j in TT.fv(z) for z in (n2, idx2) + tuple(ex2)) and not (TT.fv(idx) & set((j,))):
            (k,), b2 = TT.open_lam(lam2)
            tin = TT.has_i(b2)
            if et == "c":
                ti, to = ("c" if not c2 or tin else "f"), "c"
            else:
                ti, to = ("f" if c2 or not tin else "c"), "f"
            inner = opterm(op, key, extra, n, Lam((j,), b2), idx, ti)
            return opterm(op, k2, ex2, n2, Lam((k,), inner), idx2, to)
    nm = "op:%s[%s]" % (op, key)
    if et == "c":
        return MM.capp(nm, *(tuple(extra) + (n, lam, idx)))
    return app(nm, *(tuple(extra) + (n, lam, idx)))


def h_size(ip, st, args, call):
    m = R_SIZE.search(call.tr)
    return size(m.group(1), basekey(ip, st, args[0]))


def h_slice(ip, st, args, call):
    op = R_SLICE.search(call.tr).group(2)
    key = basekey(ip, st, args[0])
    x = ip.as_view(st, args[1])
    y = ip.as_view(st, args[2])
    extra = (args[3],) if op == "gradient" else ()
    a, b = SIZES[op]
    ok = cand(eq(x.dims[0], size(a, key)), eq(y.dims[0], size(b, key)))
    ip.event("op", st, TRUE, op=op, key=key, level="slice", ok=ok)
    st.assume(ok)
    lam = ip.view_lam(st, x)
    v = freshv()
    et = ip.view_et(st, y)
    ip.view_store(st, y, Lam((v,), opterm(op, key, extra, size(a, key), lam, pof(v), et)))
    return UNIT


def lane_lam(view_lam, nd, axis, ix):
    v = freshv()
    js = list(ix)
    js[axis] = pof(v)
    return Lam((v,), view_lam(*js))


def along(op, key, extra, xlam, nd, axis, et):
    """the whole-array operation as a lambda over the result index"""
    vs = tuple(freshv() for _ in range(nd))
    ps = [pof(v) for v in vs]
    a = SIZES[op][0]
    return Lam(vs, opterm(op, key, extra, size(a, key), lane_lam(xlam, nd, axis, ps), ps[axis], et))


def h_arr(ip, st, args, call):
    m = R_ARR.search(call.tr)
    op, inpl, par = m.group(2), m.group(3), m.group(4)
    key = basekey(ip, st, args[0])
    args = list(args)
    x = ip.as_view(st, args[1])
    y = ip.as_view(st, args[2]) if inpl else None
    rest = args[3:] if inpl else args[2:]
    extra = (rest.pop(0),) if op == "gradient" else ()
    axis = MM.const_axis(ip, st, rest[0])
    nd = len(x.dims)
    if axis >= nd:
        raise Undecided("axis out of range")
    a, b = SIZES[op]
    ok = eq(x.dims[axis], size(a, key))
    if inpl:
        ok = cand(ok, *[eq(y.dims[i], size(b, key) if i == axis else x.dims[i]) for i in range(nd)])
    ip.event("op", st, TRUE, op=op, key=key, level="array", axis=axis, par=bool(par), ok=ok, extra=extra,
             xroot=x.root, yroot=y.root if inpl else None)
    st.assume(ok)
    xlam = ip.view_lam(st, x)
    if inpl:
        et = ip.view_et(st, y)
        ip.view_store(st, y, along(op, key, extra, xlam, nd, axis, et))
        return UNIT
    et = MM.arr_et_from_type(ip, call.retty())
    dims = tuple(size(b, key) if i == axis else d for i, d in enumerate(x.dims))
    return Arr(dims, along(op, key, extra, xlam, nd, axis, et), "C", et)


def h_query(ip, st, args, call):
    q = R_QUERY.search(call.tr).group(2)
    key = basekey(ip, st, args[0])
    if q == "coords":
        return coords_of(key)
    return Obj("q:" + q, key, *args[1:])


def coords_of(key):
    v = freshv()
    return Arr((size("phys", key),), Lam((v,), app("q:coords[%s]" % key, pof(v))), "C", "f")


def h_clone(ip, st, args, call):
    """a clone of a base is the base (bases are plain values, C21)"""
    v = args[0]
    n = 0
    while isinstance(v, (Ref, View)) and n < 8:
        v = ip.get(st, v.root, v.path)
        n += 1
    return v


R_SOLVE = re.compile(r"(?:^|::)linalg::(?:\w+::)?(tdma|pdma|pdma2)(?:_checked)?$")
BANDS = {"tdma": (-2, 0, 2), "pdma": (-2, -1, 0, 1, 2), "pdma2": (-4, -2, 0, 2, 4)}
MINN = {"tdma": 3, "pdma": 4, "pdma2": 6}


def solve_name(call):
    m = R_SOLVE.search(strip_args(call.base if call.base else call.tr))
    return m.group(1) if m else None


def strip_args(s):
    out, d = "", 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return re.sub(r"::$", "", out.replace("::::", "::"))


def h_solve(ip, st, args, call):
    """a banded solver: the solution of the system it is given (checked separately, C13)"""
    nm = solve_name(call)
    ds = [ip.as_view(st, a) for a in args[:-1]]
    y = ip.as_view(st, args[-1])
    n = y.dims[0]
    lams = tuple(ip.view_lam(st, d) for d in ds)
    rhs = ip.view_lam(st, y)
    good = cand(ge0(n - MINN[nm]), *[ge0(d.dims[0] - (n - abs(o))) for d, o in zip(ds, BANDS[nm])])
    ip.event("solve", st, good, solver=nm, diags=ds, lams=lams, rhs=rhs, n=n)
    st.assume(simp(good, st.facts()))
    v = freshv()
    ip.view_store(st, y, Lam((v,), solve_term(nm, n, lams, rhs, pof(v))))
    return UNIT


def solve_term(nm, n, lams, rhs, ix):
    vs = tuple(rhs.n)
    if TT.has_i(rhs.body):
        a, b = TT.reim(rhs.body)
        return solve_term(nm, n, lams, Lam(vs, a), ix) + I * solve_term(nm, n, lams, Lam(vs, b), ix)
    return app("slv:" + nm, n, *(lams + (rhs, ix)))


def handlers(level):
    """level 'slice': array drivers are interpreted, slice kernels are opaque;
    level 'array': the array drivers are opaque too"""
    if level == "solver":
        return [(lambda c: solve_name(c) is not None, h_solve)]
    hs = [(lambda c: R_SIZE.search(c.tr) is not None and is_base(c), h_size)]
    hs.append((lambda c: R_SLICE.search(c.tr) is not None and is_base(c), h_slice))
    if level == "array":
        hs.append((lambda c: R_ARR.search(c.tr) is not None and is_base(c), h_arr))
        hs.append((lambda c: c.tr.endswith("Clone::clone") and is_base(c), h_clone))
        hs.append((lambda c: R_QUERY.search(c.tr) is not None and is_base(c), h_query))
    return hs
