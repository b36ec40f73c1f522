"""Interior mutability and global state: cells, locks, atomics, one-time
initialisation, thread locals, statics.  A guard is the reference to the content."""
from terms import *
import re
from vals import *
from interp import Undecided, Dead
import interp as IT
import models as MM
from models import model, opt, some, NONE, OPT, RES, ok, deref

KINDS = ("Cell", "RefCell", "Mutex", "RwLock", "OnceLock", "OnceCell", "LazyLock", "LazyCell", "Lazy", "UnsafeCell", "Atomic",
         "AtomicUsize", "AtomicBool", "AtomicU64", "AtomicI64", "AtomicU32", "AtomicI32", "AtomicIsize", "SyncUnsafeCell")
ONCE = ("OnceLock", "OnceCell")
LAZY = ("LazyLock", "LazyCell", "Lazy")
F0 = ("f", 0, None)


# ------------------------------------------------------------------ roots of the state
def initial(ip, name):
    S = getattr(ip.p, "state", None)
    if S is None:
        raise Undecided("initial content of " + name)
    short = name.split("::", 1)[1] if name.startswith("funspace::") else name
    for suffix in ("", "::__RUST_STD_INTERNAL_INIT", "::__rust_std_internal_init_fn"):
        bid = S.roots.get(short + suffix)
        if bid is None and short.startswith("<"):
            # a static inside an implementation: the two dumps print different paths to its types
            same = [k for k in S.roots if k.endswith(suffix) and k.startswith("<") and barepath(k) == barepath(short + suffix)]
            bid = S.roots[same[0]] if len(same) == 1 else None
        if bid is not None and bid in S.bodies:
            break
    else:
        raise Undecided("initial content of " + name)
    ip2 = IT.Interp(S)
    st = IT.State()
    b = S.bodies[bid]
    v = ip2.exec_body(bid, [UNIT] * b["args"], st)
    if has_code(v):
        raise Undecided("initial content of %s is computed later" % name)
    if "'Ref'" in repr(v) or has_ref(v):
        raise Undecided("initial content of %s refers to other memory" % name)
    return v


def barepath(n):
    return re.sub(r"(?<=[<\s,&])(?:[a-z_0-9]+::)+(?=[A-Z])", "", n)


def has_code(v):
    return _any(v, lambda x: isinstance(x, Clo) or (isinstance(x, FnV) and x.f[1] >= 0))


def has_ref(v):
    return _any(v, lambda x: isinstance(x, (Ref, View)))


def _any(v, p):
    if isinstance(v, tuple):
        return any(_any(x, p) for x in v)
    if not isinstance(v, Val):
        return False
    return p(v) or any(_any(x, p) for x in v.f)


def static(ip, st, name):
    r = ("G", name)
    if r not in st.mem:
        st.mem[r] = initial(ip, name)
    return r


# ------------------------------------------------------------------ cells
def kind(call):
    s = [p for p in IT.strip_generics(call.tr).split("::") if p]
    return s[-2] if len(s) > 1 else ""


def m_new(ip, st, args, call):
    k = kind(call)
    if k in ONCE:
        return Agg("cell:" + k, (NONE,))
    if k in LAZY:
        return Agg("cell:" + k, (NONE, args[0]))
    return Agg("cell:" + k, (args[0],))


for _k in KINDS:
    MM.M[_k + "::new"] = m_new


def cellref(ip, st, v):
    """reference to the cell itself"""
    for _ in range(8):
        if isinstance(v, Ref):
            a = ip.load(st, v)
            if isinstance(a, Agg) and a.tag.startswith("cell:"):
                return v
            v = a
            continue
        break
    raise Undecided("cell behind %s" % type(v).__name__)


def acquire(ip, st, v, local=False):
    r = cellref(ip, st, v)
    if not local and not str(r.root[1]).startswith("tl:"):
        ip.acq += 1
        if ip.onacq:
            ip.onacq(ip, st, r, ip.acq)
    return Ref(r.root, r.path + (F0,))


@model("Mutex::lock", "RwLock::read", "RwLock::write", "Mutex::try_lock", "RwLock::try_read", "RwLock::try_write")
def m_lock(ip, st, args, call):
    return ok(acquire(ip, st, args[0]))


@model("RefCell::borrow", "RefCell::borrow_mut", "RefCell::as_ptr", "Cell::as_ptr", "UnsafeCell::get", "SyncUnsafeCell::get")
def m_borrow(ip, st, args, call):
    return acquire(ip, st, args[0])


@model("RefCell::try_borrow", "RefCell::try_borrow_mut")
def m_tryborrow(ip, st, args, call):
    return ok(acquire(ip, st, args[0]))


@model("RefCell::get_mut", "Cell::get_mut", "UnsafeCell::get_mut", "Atomic::get_mut")
def m_getmut(ip, st, args, call):
    r = cellref(ip, st, args[0])
    return Ref(r.root, r.path + (F0,))


@model("Mutex::get_mut", "RwLock::get_mut")
def m_getmut2(ip, st, args, call):
    return ok(m_getmut(ip, st, args, call))


@model("Cell::into_inner", "RefCell::into_inner", "UnsafeCell::into_inner", "Atomic::into_inner")
def m_into(ip, st, args, call):
    return args[0].fields[0]


@model("Mutex::into_inner", "RwLock::into_inner")
def m_into2(ip, st, args, call):
    return ok(args[0].fields[0])


@model("PoisonError::into_inner", "PoisonError::get_mut")
def m_poison(ip, st, args, call):
    return args[0]


def store_(ip, st, r, v):
    ip.store(st, r, v)


@model("Cell::get", "Atomic::load")
def m_load(ip, st, args, call):
    return ip.load(st, acquire(ip, st, args[0]))


@model("Cell::set", "Atomic::store")
def m_store(ip, st, args, call):
    store_(ip, st, acquire(ip, st, args[0]), args[1])
    return UNIT


@model("Cell::replace", "RefCell::replace", "Atomic::swap")
def m_swap(ip, st, args, call):
    r = acquire(ip, st, args[0])
    old = ip.load(st, r)
    store_(ip, st, r, args[1])
    return old


def default_of(v):
    if isinstance(v, Poly):
        return ZERO
    if isinstance(v, Cond):
        return FALSE
    if isinstance(v, Arr):
        return Arr((ZERO,) * len(v.dims), v.lam, "C", v.et)
    if isinstance(v, EnumV) and v.name.endswith("Option"):
        return NONE
    if isinstance(v, Agg) and v.tag == "HMap":
        return Agg("HMap", ())
    raise Undecided("default value")


def default_type(ip, st, t, depth=0):
    """default value of a type, None when it is not known"""
    x = ip.p.types[t]
    e = ip.p.et(t)
    if e in ("f", "u", "i", "c"):
        return ZERO
    if e == "b":
        return FALSE
    if x["k"] == "tuple" and "a" in x:
        fs = [default_type(ip, st, a, depth + 1) for a in x["a"]]
        return None if any(f is None for f in fs) else Agg("tuple", tuple(fs))
    if x["k"] != "adt" or depth > 5:
        return None
    n = x["n"].split("::")[-1]
    if n == "Option":
        return NONE
    if n in ("HashMap", "BTreeMap"):
        return Agg("HMap", ())
    if n == "Vec":
        return Arr((ZERO,), Lam((freshv(),), UNDEF), "C", ip.p.et(x["a"][0]))
    if n in ONCE:
        return Agg("cell:" + n, (NONE,))
    if x["a"] and n in ("Arc", "Rc", "Box"):
        v = default_type(ip, st, x["a"][0], depth + 1)
        return None if v is None else shared(ip, st, v)
    if x["a"] and n in KINDS and n not in LAZY:
        v = default_type(ip, st, x["a"][0], depth + 1)
        return None if v is None else Agg("cell:" + n, (v,))
    return None


@model("Cell::take", "RefCell::take")
def m_take(ip, st, args, call):
    r = acquire(ip, st, args[0])
    old = ip.load(st, r)
    store_(ip, st, r, default_of(old))
    return old


def fetch(op):
    def f(ip, st, args, call):
        r = acquire(ip, st, args[0])
        old = ip.load(st, r)
        b = args[1]
        if op == "add":
            n = old + b
        elif op == "sub":
            n = old - b
        elif op in ("max", "min"):
            c = le(old, b)
            n = vite(c, b, old) if op == "max" else vite(c, old, b)
        elif isinstance(old, Cond):
            n = {"and": lambda: cand(old, b), "or": lambda: cor(old, b), "xor": lambda: bite(old, cnot(b), b)}[op]()
        else:
            raise Undecided("atomic " + op)
        store_(ip, st, r, n)
        return old
    return f


for _o in ("add", "sub", "max", "min", "and", "or", "xor"):
    MM.M["Atomic::fetch_" + _o] = fetch(_o)
    for _k in KINDS:
        if _k.startswith("Atomic"):
            MM.M[_k + "::fetch_" + _o] = fetch(_o)


@model("Atomic::compare_exchange", "Atomic::compare_exchange_weak")
def m_cas(ip, st, args, call):
    r = acquire(ip, st, args[0])
    old = ip.load(st, r)
    c = bite(old, args[1], cnot(args[1])) if isinstance(old, Cond) else eq(old, args[1])
    store_(ip, st, r, vite(c, args[2], old))
    return EnumV(RES, ((c, 0, (old,)), (cnot(c), 1, (old,))))


for _n in ("load", "store", "swap", "compare_exchange", "compare_exchange_weak"):
    for _k in KINDS:
        if _k.startswith("Atomic") and _k != "Atomic":
            MM.M[_k + "::" + _n] = MM.M["Atomic::" + _n]


# ------------------------------------------------------------------ one-time initialisation
def optref(ip, st, r, v):
    """Option<&T> of an Option cell"""
    return EnumV(OPT, tuple((c, k, (Ref(r.root, r.path + (("v", 1, 0, None),)),) if k == 1 else ()) for c, k, _ in v.cases))


@model("OnceLock::get", "OnceCell::get", "OnceLock::get_mut", "OnceCell::get_mut")
def m_onceget(ip, st, args, call):
    r = acquire(ip, st, args[0])
    return optref(ip, st, r, ip.load(st, r))


def force(ip, st, r, f):
    """content of an Option cell, computed when empty"""
    v = ip.load(st, r)
    c = simp(v.cond(1), st.facts())
    if c is TRUE:
        return Ref(r.root, r.path + (("v", 1, 0, None),))
    before = dict(st.mem)
    val = ip.call_value(f, [], st)
    if c is not FALSE:
        for k in before:
            if st.mem.get(k) is not before[k]:
                st.mem[k] = vite(c, before[k], st.mem[k])
        old = [p[0] for cc, k, p in v.cases if k == 1][0]
        val = vite(c, old, val)
    store_(ip, st, r, some(val))
    return Ref(r.root, r.path + (("v", 1, 0, None),))


@model("OnceLock::get_or_init", "OnceCell::get_or_init", "OnceLock::get_mut_or_init")
def m_onceinit(ip, st, args, call):
    return force(ip, st, acquire(ip, st, args[0]), args[1])


@model("OnceLock::set", "OnceCell::set")
def m_onceset(ip, st, args, call):
    r = acquire(ip, st, args[0])
    v = ip.load(st, r)
    c = v.cond(1)
    store_(ip, st, r, vite(c, v, some(args[1])))
    return EnumV(RES, ((cnot(c), 0, (UNIT,)), (c, 1, (args[1],))))


@model("LazyLock::force", "LazyCell::force")
def m_lazy(ip, st, args, call):
    r = cellref(ip, st, args[0])
    f = ip.load(st, r).fields[1]
    return force(ip, st, acquire(ip, st, args[0]), f)


_deref = MM.M["Deref::deref"]


@model("Deref::deref", "DerefMut::deref_mut")
def m_deref(ip, st, args, call):
    v = args[0]
    if isinstance(v, Ref):
        a = ip.load(st, v)
        if isinstance(a, Agg) and a.tag.startswith("cell:") and a.tag[5:] in LAZY:
            return m_lazy(ip, st, [v], call)
    return _deref(ip, st, args, call)


# ------------------------------------------------------------------ thread locals
def localcell(ip, st, v):
    k = deref(ip, st, v)
    if not isinstance(k, Obj) or k.name != "localkey":
        raise Undecided("thread-local key")
    r = ("G", "tl:" + k.f[1])
    if r not in st.mem:
        st.mem[r] = initial(ip, k.f[1])
    return Ref(r, ())


@model("LocalKey::with", "LocalKey::with_borrow", "LocalKey::with_borrow_mut")
def m_with(ip, st, args, call):
    r = localcell(ip, st, args[0])
    if not call.tr.endswith("::with"):
        r = Ref(r.root, r.path + (F0,))
    return ip.call_value(args[1], [r], st)


@model("LocalKey::try_with")
def m_trywith(ip, st, args, call):
    return ok(ip.call_value(args[1], [localcell(ip, st, args[0])], st))


@model("LocalKey::get", "LocalKey::set", "LocalKey::take", "LocalKey::replace")
def m_lk(ip, st, args, call):
    r = localcell(ip, st, args[0])
    m = {"get": m_load, "set": m_store, "take": m_take, "replace": m_swap}[call.tr.rsplit("::", 1)[1]]
    return m(ip, st, [r] + list(args[1:]), call)


# ------------------------------------------------------------------ shared ownership
@model("Arc::new", "Rc::new", "Box::new")
def m_arc(ip, st, args, call):
    return shared(ip, st, args[0])


def shared(ip, st, v):
    if _any(v, lambda x: isinstance(x, Agg) and x.tag.startswith("cell:")):
        return Ref(ip.newcell(st, v, "heap"), ())
    return v


@model("Arc::ptr_eq", "Arc::strong_count")
def m_arcx(ip, st, args, call):
    raise Undecided(call.tr)


# ------------------------------------------------------------------ raw pointers into buffers
def is_ptr(v):
    return isinstance(v, Agg) and v.tag == "rawptr"


@model("Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr", "as_ptr", "as_mut_ptr")
def m_asptr(ip, st, args, call):
    a = args[0]
    if isinstance(a, Ref):
        v = ip.load(st, a)
        if isinstance(v, Agg) and v.tag.startswith("cell:"):
            return m_borrow(ip, st, args, call)
    w = ip.as_view(st, a)
    if len(w.dims) != 1:
        if w.layout != "C" or len(w.dims) == 0:
            raise Undecided("pointer to an array of unknown layout")
        raise Undecided("pointer to a multi-dimensional array")
    return Agg("rawptr", (w, ZERO))


def ptr_of(ip, st, v):
    if isinstance(v, (View,)):
        return Agg("rawptr", (v, ZERO))
    if not is_ptr(v):
        raise Undecided("pointer %s" % type(v).__name__)
    return v


@model("const_ptr::add", "mut_ptr::add", "const_ptr::offset", "mut_ptr::offset", "const_ptr::wrapping_add", "mut_ptr::wrapping_add",
       "const_ptr::sub", "mut_ptr::sub", "NonNull::add", "NonNull::sub", "NonNull::offset")
def m_ptradd(ip, st, args, call):
    p = ptr_of(ip, st, args[0])
    w, i = p.fields
    k = args[1]
    return Agg("rawptr", (w, i - k if call.tr.endswith("sub") else i + k))


@model("const_ptr::cast", "mut_ptr::cast", "const_ptr::cast_mut", "mut_ptr::cast_const", "NonNull::as_ptr")
def m_ptrcast(ip, st, args, call):
    if call.tr.endswith("::cast") and is_ptr(args[0]):
        a = ip.p.types[call.retty()]
        w = args[0].fields[0]
        e = ip.p.et(a["t"]) if "t" in a else None
        if e not in ("f", "c", "u", "i"):
            raise Undecided("pointer cast")
        old = ip.p.types[ip.op_ty(call.fr, call.args[0])] if getattr(call, "args", None) and call.fr else None
        if old is None or ip.p.et(old.get("t")) != e:
            raise Undecided("pointer cast")
    return args[0]


def fn_of(call):
    return call.fr


@model("ptr::read", "const_ptr::read", "mut_ptr::read")
def m_ptrread(ip, st, args, call):
    return ip.load(st, ip.ptr_elem(call.fr, st, ptr_of(ip, st, args[0])) if not isinstance(args[0], Ref) else args[0])


@model("ptr::write", "mut_ptr::write")
def m_ptrwrite(ip, st, args, call):
    r = args[0] if isinstance(args[0], Ref) else ip.ptr_elem(call.fr, st, ptr_of(ip, st, args[0]))
    ip.store(st, r, args[1])
    return UNIT


@model("slice::from_raw_parts", "slice::from_raw_parts_mut")
def m_fromraw(ip, st, args, call):
    p = ptr_of(ip, st, args[0])
    w, i = p.fields
    n = args[1]
    ip.need("unchecked", st, cand(ge0(i), ge0(n), le(i + n, w.dims[0])), fn=call.fr.body["base"] if call.fr else "", idx=(i, i + n), dims=w.dims)
    return ip.subview(w, (n,), lambda x: [x[0] + i], w.layout)


@model("ptr::copy_nonoverlapping", "ptr::copy", "intrinsics::copy_nonoverlapping", "const_ptr::copy_to_nonoverlapping", "mut_ptr::copy_from_nonoverlapping", "mut_ptr::copy_from")
def m_ptrcopy(ip, st, args, call):
    a, b = args[0], args[1]
    if "copy_from" in call.tr:
        a, b = b, a
    p = m_fromraw(ip, st, [a, args[2]], call)
    q = m_fromraw(ip, st, [b, args[2]], call)
    ip.view_store(st, q, ip.view_lam(st, p))
    return UNIT
