"""Models for the distributed part: the message-passing library, keyed maps,
and the decompositions as an opaque layer for the distributed spaces."""
import re
from terms import *
import terms as TT
from vals import *
from interp import Undecided
import interp as IT
import models as MM
from models import model, opt, some
import ops as OPS

NP = sym("u:np")
R = sym("u:r")


# ------------------------------------------------------------------ processes
@model("Universe::world", "SystemCommunicator::world", "SimpleCommunicator::world")
def m_world(ip, st, args, call):
    return Obj("world")


@model("Communicator::size")
def m_wsize(ip, st, args, call):
    st.assume(ge0(NP - 1))
    return NP


@model("Communicator::rank")
def m_wrank(ip, st, args, call):
    st.assume(ge0(NP - 1))
    st.assume(lt(R, NP))
    return R


@model("Communicator::process_at_rank")
def m_proc(ip, st, args, call):
    return Obj("process", MM.deref(ip, st, args[1]))


@model("Partition::new", "PartitionMut::new")
def m_part(ip, st, args, call):
    b, c, d = args
    return Agg("partition", (ip.as_view(st, b), ip.as_view(st, c), ip.as_view(st, d)))


def message(ip, st, v):
    """(buffer view, counts, displacements): what a collective reads or writes"""
    n = 0
    while n < 8:
        if isinstance(v, Ref):
            w = ip.load(st, v)
            if isinstance(w, Agg) and w.tag == "partition":
                v = w
                continue
            if isinstance(w, (Ref, View)):
                v = w
                n += 1
                continue
            if isinstance(w, Poly):
                return ("scalar", v), None, None
        break
    if isinstance(v, Agg) and v.tag == "partition":
        b, c, d = v.fields
        return b, (c.dims[0], ip.view_lam(st, c)), (d.dims[0], ip.view_lam(st, d))
    return ip.as_view(st, v), None, None


# operation -> (position of the send message, position of the receive message)
COLL = {"all_to_all_varcount_into": (1, 2), "all_to_all_into": (1, 2), "all_gather_into": (1, 2), "all_gather_varcount_into": (1, 2),
        "gather_into_root": (1, 2), "gather_varcount_into_root": (1, 2), "gather_into": (1, None), "gather_varcount_into": (1, None),
        "scatter_into_root": (1, 2), "scatter_varcount_into_root": (1, 2), "scatter_into": (None, 1), "scatter_varcount_into": (None, 1),
        "broadcast_into": (1, 1), "reduce_into": (1, None), "reduce_into_root": (1, 2), "all_reduce_into": (1, 2), "barrier": (None, None)}


def collective(name):
    ps, pr = COLL[name]

    def f(ip, st, args, call):
        k = len([e for e in ip.ev if e["kind"] == "coll"])
        who = args[0]
        while isinstance(who, Ref):
            who = ip.load(st, who)
        root = who.f[1] if isinstance(who, Obj) and who.name == "process" else None
        snd = message(ip, st, args[ps]) if ps is not None else None
        rcv = message(ip, st, args[pr]) if pr is not None else None
        slam = None
        if snd is not None:
            b = snd[0]
            slam = ((ONE,), Lam((freshv(),), ip.load(st, b[1]))) if isinstance(b, tuple) else (tuple(b.dims), ip.view_lam(st, b))
        ip.event("coll", st, TRUE, name=name, root=root, send=slam, counts=[x[1:] if x else None for x in (snd, rcv)],
                 rdims=None if rcv is None else ((ONE,) if isinstance(rcv[0], tuple) else rcv[0].dims), k=k)
        if rcv is not None:
            b = rcv[0]
            nm = "mpi:recv%d" % k
            if isinstance(b, tuple):
                old = ip.load(st, b[1])
                v = nm_elem("c" if TT.has_i(old) else "f", nm, (ZERO,))
                if name == "broadcast_into":
                    v = vite(eq(R, root if root is not None else ZERO), old, v)
                ip.store(st, b[1], v)
            else:
                v = freshv()
                lam = Lam((v,), nm_elem(ip.view_et(st, b), nm, (pof(v),)))
                ip.view_store(st, b, lam)
        return UNIT
    return f


def nm_elem(et, nm, ix):
    return IT.elem_sym(et, nm, ix)


for _n in COLL:
    MM.M[_n] = collective(_n)


# ------------------------------------------------------------------ keyed maps
def hmap(ip, st, v):
    """(reference to the map, its value)"""
    r = v
    n = 0
    while isinstance(v, Ref) and n < 8:
        r, v = v, ip.load(st, v)
        n += 1
    if not isinstance(v, Agg) or v.tag != "HMap":
        raise Undecided("unknown map")
    return r, v


def keyof(ip, st, v):
    n = 0
    while isinstance(v, (Ref, View)) and n < 8:
        if isinstance(v, View) and v.dims:
            k = v.dims[0].const()
            if len(v.dims) != 1 or k is None or k > 8:
                raise Undecided("key of a map")
            l = ip.view_lam(st, v)
            return tuple(l(const(i)) for i in range(int(k)))
        v = ip.load(st, v)
        n += 1
    if isinstance(v, Agg) and v.tag in ("array", "tuple"):
        if all(isinstance(x, Poly) for x in v.fields):
            return tuple(v.fields)
    if isinstance(v, Arr):
        k = v.dims[0].const()
        if k is not None and k <= 8:
            return tuple(v.lam(const(i)) for i in range(int(k)))
    if isinstance(v, Poly):
        return (v,)
    raise Undecided("key of a map")


def same(a, b):
    return cand(*[eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE


def hits(m, key):
    """conditions, latest entry first"""
    out = []
    for e in reversed(m.fields):
        out.append((cand(e.fields[0], same(e.fields[1].fields, key)), e))
    return out


def find(m, key, facts):
    c, v = FALSE, None
    for h, e in reversed(hits(m, key)):
        h = simp(h, facts)
        if h is FALSE:
            continue
        v = e.fields[2] if v is None else vite(h, e.fields[2], v)
        c = cor(h, c)
    return simp(c, facts), v


def put(m, cond, key, val):
    return Agg("HMap", m.fields + (Agg("ent", (cond, Agg("key", key), val)),))


def count(m, facts):
    n = ZERO
    for i, e in enumerate(m.fields):
        c = e.fields[0]
        for p in m.fields[:i]:
            c = cand(c, cnot(cand(p.fields[0], same(p.fields[1].fields, e.fields[1].fields))))
        n = n + ite(simp(c, facts), ONE, ZERO)
    return n


@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashMap::default")
def m_hnew(ip, st, args, call):
    return Agg("HMap", ())


@model("HashMap::get", "BTreeMap::get")
def m_hget(ip, st, args, call):
    _, m = hmap(ip, st, args[0])
    c, v = find(m, keyof(ip, st, args[1]), st.facts())
    if v is None:
        return MM.NONE
    return opt(c, Ref(ip.newcell(st, v, "tmp"), ()))


@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_hhas(ip, st, args, call):
    _, m = hmap(ip, st, args[0])
    return find(m, keyof(ip, st, args[1]), st.facts())[0]


@model("HashMap::insert", "BTreeMap::insert")
def m_hins(ip, st, args, call):
    r, m = hmap(ip, st, args[0])
    key = keyof(ip, st, args[1])
    c, v = find(m, key, st.facts())
    ip.store(st, r, put(m, TRUE, key, args[2]))
    return MM.NONE if v is None else opt(c, v)


@model("HashMap::len", "BTreeMap::len")
def m_hlen(ip, st, args, call):
    return count(hmap(ip, st, args[0])[1], st.facts())


@model("HashMap::is_empty", "BTreeMap::is_empty")
def m_hempty(ip, st, args, call):
    return eq(count(hmap(ip, st, args[0])[1], st.facts()), ZERO)


@model("HashMap::keys", "HashMap::values", "HashMap::iter", "BTreeMap::keys", "BTreeMap::values")
def m_hkeys(ip, st, args, call):
    m = hmap(ip, st, args[0])[1]
    return It(D("keyed", m, call.tr.rsplit("::", 1)[-1]), ZERO, count(m, st.facts()))


def entries(ip, st, m, mode):
    """(condition, item) for every entry a map may hold"""
    for i, e in enumerate(m.fields):
        c = e.fields[0]
        for p in m.fields[i + 1:]:
            c = cand(c, cnot(cand(p.fields[0], same(p.fields[1].fields, e.fields[1].fields))))
        c = simp(c, st.facts())
        if c is FALSE:
            continue
        k = e.fields[1].fields
        k = Ref(ip.newcell(st, k[0] if len(k) == 1 else Agg("array", tuple(k)), "tmp"), ())
        v = Ref(ip.newcell(st, e.fields[2], "tmp"), ())
        yield c, (k if mode == "keys" else v if mode == "values" else Agg("tuple", (k, v)))


def keyed_any(ip, st, it, fn, isall):
    """all / any over a map"""
    if it.pos is not ZERO:
        raise Undecided("map iterator in use")
    cs = []
    for c, x in entries(ip, st, it.desc.f[1], it.desc.f[2]):
        s2 = st.copy()
        s2.assume(c)
        r = ip.call_value(fn, [x], s2)
        if not isinstance(r, Cond):
            raise Undecided("quantified predicate")
        cs.append(cor(cnot(c), r) if isall else cand(c, r))
    return cand(*cs) if isall else cor(*cs)


@model("HashMap::entry", "BTreeMap::entry")
def m_hentry(ip, st, args, call):
    r, m = hmap(ip, st, args[0])
    return Obj("entry", r, Agg("key", keyof(ip, st, args[1])))


@model("Entry::or_insert", "Entry::or_insert_with")
def m_hor(ip, st, args, call):
    e = args[0]
    if not isinstance(e, Obj) or e.name != "entry":
        raise Undecided("entry of a map")
    key = e.f[2].fields
    r, m = hmap(ip, st, e.f[1])
    c, v = find(m, key, st.facts())
    if call.tr.endswith("or_insert_with"):
        if c is TRUE:
            val = None
        else:
            before = dict(st.mem)
            val = ip.call_value(args[1], [], st)
            if c is not FALSE:
                for k in before:
                    if st.mem.get(k) is not before[k]:
                        st.mem[k] = vite(c, before[k], st.mem[k])
            r, m = hmap(ip, st, e.f[1])
    else:
        val = args[1]
    if c is not TRUE:
        ip.store(st, r, put(m, cnot(c), key, val))
        v = val if v is None else vite(c, v, val)
    return Ref(ip.newcell(st, v, "tmp"), ())


# ------------------------------------------------------------------ decompositions as an opaque layer
def loc(axis, n, p=R):
    """length of the given axis on process p, split over the processes"""
    return app("u:mpi:loc%d" % axis, n, p, sort="int")


def start(axis, n, p=R):
    return app("u:mpi:st%d" % axis, n, p, sort="int")


def extent_facts(g):
    out = []
    for a in (0, 1):
        out += [ge0(loc(a, g[a]) - 1), ge0(start(a, g[a])), ge0(g[a] - loc(a, g[a]) - start(a, g[a]))]
    return out


def decomp(P, g):
    """the decomposition of a global shape, as its contract describes it (C23)"""
    tag = [n for n in P.adts if n.endswith("::Decomp2d") or n == "Decomp2d"]
    dtag = [n for n in P.adts if n.endswith("::Distribution")]
    if len(tag) != 1 or len(dtag) != 1:
        raise Undecided("decomposition types")

    def dist(c):
        s = 1 - c
        sz = [g[0], g[1]]
        st = [ZERO, ZERO]
        sz[s], st[s] = loc(s, g[s]), start(s, g[s])

        def per(f, whole):
            v = freshv()
            xs = [None, None]
            xs[s], xs[c] = f(s, g[s], pof(v)), whole
            return Arr((NP,), Lam((v,), Agg("array", tuple(xs))), "C", ("agg", "array", ("u", "u")))
        known = {"sz": Agg("array", tuple(sz)), "st": Agg("array", tuple(st)),
                 "sz_procs": per(loc, g[c]), "st_procs": per(start, ZERO),
                 "en_procs": per(lambda a, n, p: start(a, n, p) + loc(a, n, p) - 1, g[c] - 1),
                 "en": Agg("array", tuple(a + b - 1 for a, b in zip(st, sz))),
                 "nprocs": NP, "nrank": R, "axis_contig": const(c)}
        return Agg(dtag[0], tuple(known.get(n, Obj("mpi:" + n, const(c), Agg("g", tuple(g)))) for n in P.adts[dtag[0]]["variants"][0][1]))
    known = {"n_global": Agg("array", tuple(g)), "x_pencil": dist(0), "y_pencil": dist(1), "nprocs": NP, "nrank": R,
             "world": Obj("world"), "universe": Obj("universe")}
    return Agg(tag[0], tuple(known.get(n, Obj("mpi:" + n, Agg("g", tuple(g)))) for n in P.adts[tag[0]]["variants"][0][1]))


def shape_of(ip, st, v):
    """global shape of the decomposition behind a reference"""
    n = 0
    while isinstance(v, Ref) and n < 8:
        v = ip.load(st, v)
        n += 1
    if not isinstance(v, Agg):
        raise Undecided("decomposition")
    names = ip.p.adts[v.tag]["variants"][0][1]
    g = v.fields[names.index("n_global")]
    return tuple(g.fields)


def assume_extents(st, g):
    for c in extent_facts(g):
        st.assume(c)


def h_lookup(ip, st, args, call):
    g = keyof(ip, st, args[1])
    if len(g) != 2:
        raise Undecided("shape of a decomposition")
    ip.event("lookup", st, TRUE, shape=g)
    assume_extents(st, g)
    return Ref(ip.newcell(st, decomp(ip.p, g), "tmp"), ())


def h_dnew(ip, st, args, call):
    g = keyof(ip, st, args[1])
    assume_extents(st, g)
    return decomp(ip.p, g)


R_TR = re.compile(r"transpose_([xy])_to_([xy])$")
R_EX = re.compile(r"(all_gather|gather|scatter)_([xy])(_inplace)?(_root)?$")


def pencil(g, which):
    """local extents and start along the split axis"""
    s = 1 if which == "x" else 0
    d = [g[0], g[1]]
    d[s] = loc(s, g[s])
    return tuple(d), s, start(s, g[s])


def h_transpose(ip, st, args, call):
    m = R_TR.search(call.tr)
    a, b = m.group(1), m.group(2)
    g = shape_of(ip, st, args[0])
    snd, rcv = ip.as_view(st, args[1]), ip.as_view(st, args[2])
    if a == b or len(snd.dims) != 2 or len(rcv.dims) != 2:
        raise Undecided("transpose")
    da, sa, oa = pencil(g, a)
    db, sb, ob = pencil(g, b)
    ok = cand(*[eq(x, y) for x, y in zip(tuple(snd.dims) + tuple(rcv.dims), da + db)])
    ip.event("dcp", st, TRUE, name="transpose", way=a + b, shape=g, data=ip.view_lam(st, snd), ok=ok)
    st.assume(ok)
    lam = ip.view_lam(st, snd)
    vs = (freshv(), freshv())
    ix = [pof(v) for v in vs]
    ix[sb] = ix[sb] + ob           # global position of the received element
    ix[sa] = ix[sa] - oa           # its position on the process that owned it
    e = lam(*ix)
    # the owner's own start must cancel: what is sent depends on the global position only
    if mentions(e, oa):
        raise Undecided("a redistributed field depends on its local position")
    ip.view_store(st, rcv, Lam(vs, e))
    return UNIT


def mentions(e, p):
    atom = [a for m, _ in p.m for a, _e in m][0]
    hit = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Poly):
            for m, _ in x.m:
                for a, _e in m:
                    go(a)
        elif isinstance(x, Lam):
            go(x.body)
        elif isinstance(x, Val):
            for y in x.f:
                go(y)
        elif isinstance(x, (Atom, Cond)):
            if x is atom:
                hit.append(x)
                return
            for y in x.args:
                go(y)
    go(e)
    return bool(hit)


def h_exchange(ip, st, args, call):
    m = R_EX.search(call.tr)
    fam, way, inpl, root = m.group(1), m.group(2), m.group(3), m.group(4)
    g = shape_of(ip, st, args[0])
    bufs = [ip.as_view(st, a) for a in args[1:]]
    # gather_x(data), gather_x_root(data) -> out, gather_x_inplace_root(data, out), all_gather_x(data, out)
    # scatter_x() -> out, scatter_x_inplace(out), scatter_x_root(global) -> out, scatter_x_inplace_root(global, out)
    src = out = None
    if fam == "gather":
        src, out = bufs[0], (bufs[1] if len(bufs) > 1 else None)
    elif fam == "all_gather":
        src, out = bufs[0], bufs[1]
    elif root:
        src, out = bufs[0], (bufs[1] if len(bufs) > 1 else None)
    else:
        out = bufs[0] if bufs else None
    loc_dims = pencil(g, way)[0]
    sd = g if fam == "scatter" else loc_dims
    od = loc_dims if fam == "scatter" else g
    ok = cand(*([eq(x, y) for x, y in zip(src.dims, sd)] if src is not None else []),
              *([eq(x, y) for x, y in zip(out.dims, od)] if out is not None else []))
    # who may call it: gather/scatter come in a pair for the root and the others
    who = TRUE if fam == "all_gather" else (eq(R, ZERO) if root else cnot(eq(R, ZERO)))
    ip.event("dcp", st, TRUE, name=fam, way=way, root=bool(root), shape=g, data=None if src is None else ip.view_lam(st, src), ok=ok)
    st.assume(ok)
    returns = (fam == "gather" and root and out is None) or (fam == "scatter" and out is None)
    if out is None and not returns:
        return UNIT
    et = ip.view_et(st, out) if out is not None else MM.arr_et_from_type(ip, call.retty())
    nm = "mpi:%s_%s" % (fam, way)
    vs = (freshv(), freshv())
    ps = [pof(v) for v in vs]
    extra = (g[0], g[1]) + ((ip.view_lam(st, src),) if src is not None else ())
    e = MM.capp(nm, *(extra + tuple(ps))) if et == "c" else app(nm, *(extra + tuple(ps)))
    if out is not None:
        ip.view_store(st, out, Lam(vs, e))
        return UNIT
    return Arr(tuple(od), Lam(vs, e), "C", et)


def is_decomp(call, rx):
    b = IT.strip_generics(call.tr)
    return "Decomp2d::" in b and rx.search(b) is not None


def handlers():
    hs = OPS.handlers("array")
    hs.append((lambda c: IT.strip_generics(c.tr).replace("::::", "::").endswith("DecompHandler::get_decomp_from_global_shape"), h_lookup))
    hs.append((lambda c: is_decomp(c, R_TR), h_transpose))
    hs.append((lambda c: is_decomp(c, R_EX), h_exchange))
    return hs


def space_handlers():
    """constructors: the decomposition of a shape is opaque"""
    hs = OPS.handlers("array")
    hs.append((lambda c: IT.strip_generics(c.tr).replace("::::", "::").endswith("Decomp2d::new"), h_dnew))
    return hs


_index = MM.M["Index::index"]


@model("Index::index", "IndexMut::index_mut")
def m_hindex(ip, st, args, call):
    a = args[0]
    n = 0
    while isinstance(a, Ref) and n < 4:
        a = ip.load(st, a)
        n += 1
    if isinstance(a, Agg) and a.tag == "HMap":
        c, v = find(a, keyof(ip, st, args[1]), st.facts())
        ip.need("unwrap", st, c, fn=call.fr.body["base"])
        if v is None:
            raise IT.Dead() if hasattr(IT, "Dead") else Undecided("missing key")
        return Ref(ip.newcell(st, v, "tmp"), ())
    return _index(ip, st, args, call)
