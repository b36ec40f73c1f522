"""Array value-flow analysis over the extracted MIR.

A function is interpreted once over abstract values: scalars are polynomials
over the inputs, buffers are symbolic maps index -> scalar, control flow joins
into conditional values, and every loop is summarised (closed forms for
induction variables, region formulas for array writes, recurrence definitions
where an iteration reads what an earlier one wrote).  Nothing is executed and
no path is enumerated."""
import json
import math
import re
import struct
from fractions import Fraction
from vals import *

U64 = const(2 ** 64)


def wrapint(v, n):
    """a value stored in a 32 bit integer: linear expressions of the sizes stay far below the range,
    products of them do not"""
    if v.const() is not None or max((sum(e for _, e in m) for m, _ in v.m), default=0) < 2:
        return v
    return app("wrap:" + n, v, sort="int")


def single(v):
    """rounding to single precision"""
    if not isinstance(v, Poly):
        return v
    c = v.const()
    if c is not None and Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]) == c:
        return v
    return app("f32", v)


def int_range(n):
    """bounds of a primitive integer type"""
    bits = 64 if n.endswith("size") else int(n[1:])
    return (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if n[0] == "i" else (0, 2 ** bits - 1)


class Dead(Exception):
    pass


class State(object):
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def facts(self):
        return [c for _, c in self.pc]

    def assume(self, c, tag="a"):
        if c is TRUE:
            return
        if c is FALSE:
            raise Dead()
        fs = self.facts()
        for x in conjuncts(c):
            if x not in fs:
                self.pc = self.pc + ((tag, x),)


class Frame(object):
    __slots__ = ("id", "body", "cfg")


class CFG(object):
    """reverse post order, dominators, natural loops, diverging blocks"""

    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b is None:
                continue
            t = b["term"]
            k = t["t"]
            if k == "goto":
                s = [t["to"]]
            elif k == "switch":
                s = [x for _, x in t["v"]] + [t["else"]]
            elif k in ("call", "assert"):
                s = [t["to"]] if t["to"] >= 0 else []
            else:
                s = []
            self.succ[i] = [x for x in dict.fromkeys(s) if bl[x] is not None]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {u: i for i, u in enumerate(self.rpo)}
        pred = {u: [] for u in self.rpo}
        for u in self.rpo:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for u in self.rpo[1:]:
                ps = [p for p in pred[u] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        while self.num[a] > self.num[b]:
                            a = idom[a]
                        while self.num[b] > self.num[a]:
                            b = idom[b]
                    d = a
                if idom.get(u) != d:
                    idom[u] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.num[v] <= self.num[u]:
                    if not dom(v, u):
                        raise Undecided("irreducible control flow in " + body["name"])
                    s = self.loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in s:
                            s.add(x)
                            st.extend(pred[x])
        # blocks from which no return is reachable
        live = set()
        st = [u for u in self.rpo if bl[u]["term"]["t"] == "ret"]
        while st:
            x = st.pop()
            if x not in live:
                live.add(x)
                st.extend(pred[x])
        self.live = live


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program(object):
    def __init__(self, path):
        w = json.load(open(path))
        self.types = w["types"]
        self.adts = w["adts"]
        self.bodies = {b["id"]: b for b in w["bodies"]}
        self.roots = w["roots"]
        self.auto = w.get("auto", [])
        self.cfgs = {}

    def cfg(self, b):
        c = self.cfgs.get(b["id"])
        if c is None:
            c = CFG(b)
            self.cfgs[b["id"]] = c
        return c

    def tkind(self, t):
        return self.types[t]

    def tname(self, t):
        x = self.types[t]
        return x.get("n") if x["k"] in ("adt", "prim") else x["k"]

    def et(self, t):
        """element descriptor of a scalar-ish type"""
        x = self.types[t]
        k = x["k"]
        if k == "prim":
            n = x["n"]
            if n in ("f64", "f32"):
                return "f"
            if n in ("usize", "u32", "u64", "u8", "u16", "u128"):
                return "u"
            if n == "bool":
                return "b"
            if n[0] == "i":
                return "i"
            return None
        if k == "adt":
            if x["n"] == "num_complex::Complex":
                return "c"
            if x["n"] in ("std::mem::MaybeUninit", "core::mem::MaybeUninit") and x["a"]:
                return self.et(x["a"][0])
            if "fty" in x:
                fs = [self.et(y) for y in x["fty"]]
                if all(f is not None for f in fs):
                    return ("agg", x["n"], tuple(fs))
            return None
        if k == "array":
            e = self.et(x["t"])
            return None if e is None or x["n"] < 0 or x["n"] > 16 else ("agg", "array", (e,) * x["n"])
        if k == "tuple":
            es = tuple(self.et(y) for y in x["a"])
            return None if any(e is None for e in es) else ("agg", "tuple", es)
        return None


def elem_sym(et, name, idx):
    """opaque element of a buffer"""
    if et == "f" or et is None:
        return app(name, *idx)
    if et == "u":
        return app("u:" + name, *idx, sort="int")
    if et == "i":
        return app(name, *idx, sort="int")
    if et == "c":
        return app(name + ".re", *idx) + I * app(name + ".im", *idx)
    if et == "b":
        return batom(name, *idx)
    if isinstance(et, tuple):
        return Agg(et[1], tuple(elem_sym(e, "%s.%d" % (name, i), idx) for i, e in enumerate(et[2])))
    raise Undecided("element type %r" % (et,))


def flat_elem(et, v):
    """scalar components of an element value"""
    if v is UNDEF:
        raise Undecided("uninitialised element")
    if et == "c":
        a, b = reim(v)
        return [a, b]
    if isinstance(et, tuple):
        out = []
        if not isinstance(v, Agg):
            raise Undecided("element shape")
        for e, x in zip(et[2], v.fields):
            out.extend(flat_elem(e, x))
        return out
    return [v]


def elem_names(et, name):
    if et == "c":
        return [name + ".re", name + ".im"]
    if et == "u":
        return ["u:" + name]
    if isinstance(et, tuple):
        out = []
        for i, e in enumerate(et[2]):
            out.extend(elem_names(e, "%s.%d" % (name, i)))
        return out
    return [name]


def elem_sorts(et):
    if et == "c":
        return ["num", "num"]
    if et in ("u", "i"):
        return ["int"]
    if isinstance(et, tuple):
        return [s for e in et[2] for s in elem_sorts(e)]
    return ["num"]


def unflat_elem(et, comps):
    def go(e):
        if e == "c":
            a = comps.pop(0)
            b = comps.pop(0)
            return a + I * b
        if isinstance(e, tuple):
            return Agg(e[1], tuple(go(x) for x in e[2]))
        return comps.pop(0)
    comps = list(comps)
    return go(et)


class Interp(object):
    def __init__(self, prog, opaque=None, maxsteps=400000):
        self.p = prog
        self.fid = 0
        self.opaque = opaque or []
        self.ev = []
        self.stack = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.loopguess = {}
        self.uid = 0
        self.cells = 0
        self.bodydata = {}
        self.loopdata = {}
        self.fns = set()
        self.nloops = 0
        self.keep = {}          # body id -> locals at its return
        self.acq = 0            # accesses to shared state
        self.onacq = None

    # -------------------------------------------------------------- utilities
    def fresh(self, p):
        self.uid += 1
        return "%s~%d" % (p, self.uid)

    def newcell(self, st, v, tag="cell"):
        self.cells += 1
        r = (tag, self.cells)
        st.mem[r] = v
        return r

    def site(self):
        return tuple(self.stack)

    def event(self, kind, st, cond=None, **info):
        e = {"kind": kind, "pc": st.pc, "cond": cond, "stack": tuple(self.stack)}
        e.update(info)
        self.ev.append(e)

    def need(self, kind, st, cond, **info):
        """an obligation of the operation: recorded, then assumed"""
        cond = simp(cond, st.facts())
        self.event(kind, st, cond, **info)
        st.assume(cond)

    # -------------------------------------------------------------- symbolic inputs
    def symval(self, t, name, st):
        x = self.p.types[t]
        k = x["k"]
        if k == "prim":
            e = self.p.et(t)
            if e == "u":
                return sym("u:" + name)
            if e == "i":
                return sym(name)
            if e == "f":
                return sym(name, "num")
            if e == "b":
                return batom(name)
            return Obj("val", name)
        if k in ("ref", "ptr"):
            tt = self.p.types[x["t"]]
            root = ("A", name)
            if tt["k"] == "slice":
                if root not in st.mem:
                    st.mem[root] = self.symarr(tt["t"], name, 1)
                return identity_view(root, (), st.mem[root])
            if root not in st.mem:
                st.mem[root] = self.symval(x["t"], name, st)
            return Ref(root, ())
        if k == "array":
            if x["n"] <= 16:
                return Agg("array", tuple(self.symval(x["t"], "%s.%d" % (name, i), st) for i in range(x["n"])))
            return Obj("val", name)
        if k == "tuple":
            return Agg("tuple", tuple(self.symval(y, "%s.%d" % (name, i), st) for i, y in enumerate(x["a"])))
        if k == "adt":
            n = x["n"]
            if n == "num_complex::Complex":
                return elem_sym("c", name, ())
            if n == "std::vec::Vec":
                return self.symarr(x["a"][0], name, 1)
            if n in ("ndarray::ArrayBase", "ndarray::ArrayRef"):
                m = re.search(r"\[usize; (\d+)\]", x["s"])
                if m:
                    et = x["a"][-1] if n == "ndarray::ArrayBase" else x["a"][0]
                    return self.symarr(et, name, int(m.group(1)))
            if n in ("std::option::Option", "core::option::Option") and x.get("a"):
                c = batom(name + ".some")
                return EnumV("std::option::Option", ((c, 1, (self.symval(x["a"][0], name + ".0", st),)), (cnot(c), 0, ())))
            if "fty" in x:
                fs = tuple(self.symval(y, "%s.%s" % (name, f), st)
                           for y, f in zip(x["fty"], self.p.adts[n]["variants"][0][1]))
                return Agg(n, fs)
            return Obj("val", name)
        return Obj("val", name)

    def symarr(self, elt, name, nd):
        et = self.p.et(elt)
        vs = tuple(freshv() for _ in range(nd))
        dims = (sym("u:%s.len" % name),) if nd == 1 else tuple(sym("u:%s.d%d" % (name, i)) for i in range(nd))
        return Arr(dims, Lam(vs, elem_sym(et, name, tuple(pof(v) for v in vs))), "std:" + name, et)

    # -------------------------------------------------------------- memory
    def getstep(self, v, s, st):
        k = s[0]
        if isinstance(v, IteV):
            return vite(v.f[0], self.getstep(v.f[1], s, st), self.getstep(v.f[2], s, st))
        if v is UNDEF:
            raise Undecided("read of an undetermined value")
        if k == "f":
            if isinstance(v, (Agg, Clo)):
                return v.fields[s[1]]
            if isinstance(v, Poly):
                return reim(v)[s[1]]
            if isinstance(v, Obj):
                return self.symval(s[2], "%s.%d" % (objname(v), s[1]), st)
            if isinstance(v, Ref) or isinstance(v, View):
                return v      # newtype around a pointer (Box, Unique, NonNull)
            raise Undecided("field of %s" % type(v).__name__)
        if k == "v":
            if isinstance(v, EnumV):
                for c, var, pl in v.cases:
                    if var == s[1]:
                        return pl[s[2]]
                return UNDEF
            if isinstance(v, Obj):
                return self.symval(s[3], "%s.%d.%d" % (objname(v), s[1], s[2]), st)
            raise Undecided("variant of %s" % type(v).__name__)
        if k == "e":
            if isinstance(v, Arr):
                return v.lam(*s[1])
            if isinstance(v, Agg) and v.tag == "ndarray::Dim":
                v = v.fields[0]
            if isinstance(v, Agg):
                i = s[1][0]
                c = i.const()
                if c is not None:
                    if not 0 <= c < len(v.fields):
                        raise Undecided("constant index out of range")
                    return v.fields[int(c)]
                r = v.fields[-1]
                for j in range(len(v.fields) - 2, -1, -1):
                    r = vite(eq(i, const(j)), v.fields[j], r)
                return r
            raise Undecided("element of %s" % type(v).__name__)
        raise Undecided("path step %r" % (s,))

    def setstep(self, v, path, val, st):
        if not path:
            return val
        s = path[0]
        if isinstance(v, IteV):
            return IteV(v.f[0], self.setstep(v.f[1], path, val, st), self.setstep(v.f[2], path, val, st))
        k = s[0]
        if k == "f":
            if isinstance(v, Agg):
                return v.with_(s[1], self.setstep(v.fields[s[1]], path[1:], val, st))
            if isinstance(v, Clo):
                fs = list(v.fields)
                fs[s[1]] = self.setstep(fs[s[1]], path[1:], val, st)
                return Clo(v.f[0], tuple(fs))
            if isinstance(v, Poly):
                a, b = reim(v)
                if len(path) > 1:
                    raise Undecided("store below a scalar")
                return val + I * b if s[1] == 0 else a + I * val
            if v is UNDEF:
                # piecewise initialisation of an aggregate
                fs = [UNDEF] * (s[1] + 1)
                fs[s[1]] = self.setstep(UNDEF, path[1:], val, st)
                return Agg("part", tuple(fs))
            raise Undecided("store to field of %s" % type(v).__name__)
        if k == "v":
            if isinstance(v, EnumV):
                cs = []
                for c, var, pl in v.cases:
                    if var == s[1]:
                        pl = list(pl)
                        pl[s[2]] = self.setstep(pl[s[2]], path[1:], val, st)
                        pl = tuple(pl)
                    cs.append((c, var, pl))
                return EnumV(v.name, tuple(cs))
            raise Undecided("store to variant of %s" % type(v).__name__)
        if k == "e":
            if isinstance(v, Arr):
                vs = tuple(freshv() for _ in v.dims)
                ps = [pof(x) for x in vs]
                old = v.lam(*ps)
                if len(path) > 1:
                    val = self.setstep(v.lam(*s[1]), path[1:], val, st)
                c = cand(*[eq(p, i) for p, i in zip(ps, s[1])])
                return v.with_lam(Lam(vs, vite(c, val, old)))
            if isinstance(v, Agg) and v.tag == "ndarray::Dim":
                return v.with_(0, self.setstep(v.fields[0], path, val, st))
            if isinstance(v, Agg):
                i = s[1][0]
                c = i.const()
                fs = list(v.fields)
                if c is not None:
                    fs[int(c)] = self.setstep(fs[int(c)], path[1:], val, st)
                else:
                    for j in range(len(fs)):
                        fs[j] = vite(eq(i, const(j)), self.setstep(fs[j], path[1:], val, st), fs[j])
                return Agg(v.tag, tuple(fs))
            raise Undecided("store to element of %s" % type(v).__name__)
        raise Undecided("path step %r" % (s,))

    def get(self, st, root, path):
        if root not in st.mem:
            raise Undecided("dangling reference %r" % (root,))
        v = st.mem[root]
        for s in path:
            v = self.getstep(v, s, st)
        if isinstance(v, (Poly, Cond)) and has_ite(v):
            v = simp(v, st.facts())
        elif isinstance(v, IteV):
            d = decide(st.facts(), v.f[0])
            if d is not None:
                v = v.f[1] if d else v.f[2]
        return v

    def set(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.setstep(st.mem.get(root, UNDEF), path, val, st)

    def load(self, st, v):
        """value behind a reference value"""
        if isinstance(v, Ref):
            return self.get(st, v.root, v.path)
        if isinstance(v, IteV):
            return vite(v.f[0], self.load(st, v.f[1]), self.load(st, v.f[2]))
        if isinstance(v, View) and not v.dims:
            return self.view_get(st, v, ())
        if isinstance(v, View):
            return self.materialize(st, v)
        if isinstance(v, Obj):
            return v
        raise Undecided("dereference of %s" % type(v).__name__)

    def store(self, st, v, val):
        if isinstance(v, Ref):
            return self.set(st, v.root, v.path, val)
        if isinstance(v, IteV):
            c = v.f[0]
            self.store(st, v.f[1], vite(c, val, self.load(st, v.f[1])))
            self.store(st, v.f[2], vite(c, self.load(st, v.f[2]), val))
            return
        raise Undecided("store through %s" % type(v).__name__)

    # -------------------------------------------------------------- views
    def as_view(self, st, v):
        if isinstance(v, View):
            return v
        if isinstance(v, IteV):
            return vite(v.f[0], self.as_view(st, v.f[1]), self.as_view(st, v.f[2]))
        if isinstance(v, Ref):
            a = self.get(st, v.root, v.path)
            if isinstance(a, Arr):
                return identity_view(v.root, v.path, a)
            if isinstance(a, Agg) and a.tag == "array":
                x = freshv()
                return View(v.root, v.path, (const(len(a.fields)),), Lam((x,), Agg("ix", (pof(x),))), "C")
            if isinstance(a, (View, Ref)):
                return self.as_view(st, a)
            if isinstance(a, Agg) and a.tag == "ndarray::Dim":
                return self.as_view(st, Ref(v.root, v.path + (("f", 0),)))
            raise Undecided("view of %s" % (a if isinstance(a, Obj) else type(a).__name__))
        if isinstance(v, Arr):
            r = self.newcell(st, v, "tmp")
            return identity_view(r, (), v)
        raise Undecided("view of %s" % (v if isinstance(v, Obj) else type(v).__name__))

    def vidx(self, view, idx):
        return view.ix(*idx).fields

    def view_get(self, st, view, idx):
        return self.get(st, view.root, view.path + (("e", tuple(self.vidx(view, idx))),))

    def elem_ref(self, view, idx):
        return Ref(view.root, view.path + (("e", tuple(self.vidx(view, idx))),))

    def under(self, st, view):
        return self.get(st, view.root, view.path)

    def view_et(self, st, view):
        a = self.under(st, view)
        return a.et if isinstance(a, Arr) else None

    def view_lam(self, st, view):
        """content of a view as a lambda over its own indices"""
        a = self.under(st, view)
        vs = tuple(freshv() for _ in view.dims)
        ix = self.vidx(view, [pof(v) for v in vs])
        return Lam(vs, self.getstep(a, ("e", tuple(ix)), st))

    def view_store(self, st, view, lam):
        """overwrite every element of the view"""
        a = self.under(st, view)
        if isinstance(a, Agg):
            n = view.dims[0].const()
            if n is None:
                raise Undecided("store to a symbolic part of an array")
            for i in range(int(n)):
                self.set(st, view.root, view.path + (("e", tuple(self.vidx(view, [const(i)]))),), lam(const(i)))
            return
        vs = tuple(freshv() for _ in a.dims)
        c, inv_ix = self.invert(view, [pof(v) for v in vs])
        new = lam(*inv_ix)
        full = all(x is y for x, y in zip(view.dims, a.dims)) and c is TRUE and len(view.dims) == len(a.dims)
        if full:
            body = new
        else:
            body = vite(c, new, a.lam(*[pof(v) for v in vs]))
        self.set(st, view.root, view.path, a.with_lam(Lam(vs, body)))

    def invert(self, view, js):
        """view indices of the underlying index js, and the condition that js is in the view"""
        k = len(view.dims)
        vs = [freshv() for _ in range(k)]
        ix = self.vidx(view, [pof(v) for v in vs])
        sol = {}
        conds = []
        ident = len(ix) == k and all(x is pof(v) for x, v in zip(ix, vs))
        if ident and len(js) == k:
            a = [js[i] for i in range(k)]
            return TRUE, a
        rest = list(zip(ix, js))
        # unit-coefficient variables first
        for _ in range(k + 1):
            for x, j in list(rest):
                x2 = subst(x, {v: p for v, p in sol.items()})
                free = [v for v in vs if v not in sol and v in fv(x2)]
                if not free:
                    if (x, j) in rest and all(v in sol for v in vs):
                        conds.append(eq(x2, j))
                        rest.remove((x, j))
                    elif not (fv(x) & frozenset(vs)):
                        conds.append(eq(x2, j))
                        rest.remove((x, j))
                    continue
                if len(free) > 1:
                    continue
                v = free[0]
                co = None
                for m, cf in x2.m:
                    if m == ((v, 1),):
                        co = cf
                    elif any(v in fv(at) for at, _ in m):
                        co = None
                        break
                if co is None or co.denominator != 1:
                    raise Undecided("view index map")
                r = j - (x2 - pscale(pof(v), co))
                co = int(co)
                if abs(co) != 1:
                    conds.append(eq(mod(r if co > 0 else -r, abs(co)), ZERO))
                    sol[v] = fdiv(r if co > 0 else -r, abs(co))
                else:
                    sol[v] = pscale(r, co)
                rest.remove((x, j))
        if len(sol) != k or rest:
            raise Undecided("view index map not invertible")
        out = [sol[v] for v in vs]
        for p, n in zip(out, view.dims):
            conds.append(ge0(p))
            conds.append(lt(p, n))
        return cand(*conds), out

    def materialize(self, st, view):
        return Arr(view.dims, self.view_lam(st, view), "C", self.view_et(st, view))

    def subview(self, view, dims, fn, layout="?"):
        """view of a view; fn maps new indices to old indices"""
        vs = tuple(freshv() for _ in dims)
        old = fn([pof(v) for v in vs])
        return View(view.root, view.path, tuple(dims), Lam(vs, view.ix(*old)), layout)

    def ptr_elem(self, fr, st, p):
        """element a raw pointer into a buffer points to"""
        w, i = p.fields
        self.need("unchecked", st, cand(ge0(i), lt(i, w.dims[0])), fn=fr.body["base"] if fr else "", idx=(i,), dims=w.dims)
        return self.elem_ref(w, [i])

    # -------------------------------------------------------------- operands
    def place(self, fr, st, p):
        cur = Ref(("L", fr.id, p[0]), ())
        var = None
        for e in p[1:]:
            if e == "*":
                v = self.load(st, cur) if not isinstance(cur, View) else cur
                if isinstance(v, Obj):
                    r = ("O", objname(v))
                    st.mem.setdefault(r, v)
                    v = Ref(r, ())
                if isinstance(v, Agg) and v.tag == "rawptr":
                    v = self.ptr_elem(fr, st, v)
                if not isinstance(v, (Ref, View, IteV)):
                    raise Undecided("dereference of %s" % type(v).__name__)
                cur = v
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "f":
                stp = ("f", e[1], e[2]) if var is None else ("v", var, e[1], e[2])
                var = None
                cur = self.project(st, cur, stp)
            elif e[0] == "i":
                i = self.get(st, ("L", fr.id, e[1]), ())
                cur = self.project(st, cur, ("e", (i,)))
            elif e[0] == "c":
                if isinstance(cur, View):
                    n = cur.dims[0]
                else:
                    n = self.as_view(st, cur).dims[0]
                i = n - e[1] if e[2] else const(e[1])
                cur = self.project(st, cur, ("e", (i,)))
            elif e[0] == "s":
                v = self.as_view(st, cur)
                n = v.dims[0]
                a = const(e[1])
                b = n - e[2] if e[3] else const(e[2])
                cur = self.subview(v, (b - a,), lambda x: [x[0] + a], "C")
            else:
                raise Undecided("projection")
        return cur

    def project(self, st, cur, stp):
        if isinstance(cur, IteV):
            return IteV(cur.f[0], self.project(st, cur.f[1], stp), self.project(st, cur.f[2], stp))
        if isinstance(cur, View):
            if stp[0] == "e":
                return self.elem_ref(cur, stp[1])
            raise Undecided("field of a view")
        if stp[0] == "e":
            # a local holding a fixed array, or an Arr
            pass
        return Ref(cur.root, cur.path + (stp,))

    def operand(self, fr, st, o):
        if "o" in o:
            if o["o"] == "rtc":
                return Obj("rtc")
            p = o["p"]
            if len(p) == 1:
                return self.get(st, ("L", fr.id, p[0]), ())
            return self.load(st, self.place(fr, st, p))
        return self.constant(st, o)

    def constant(self, st, o):
        k = o["c"]
        if k == "val":
            t = self.p.types[o["t"]]
            n = t.get("n")
            if t["k"] == "prim":
                if n == "bool":
                    return TRUE if o["v"] == "1" else FALSE
                if n in ("f64", "f32"):
                    return self.fconst(o["v"])
                if n in ("char", "str"):
                    return Obj("lit", o["v"])
                return const(int(o["v"]))
            if t["k"] == "adt":
                a = self.p.adts.get(t["n"])
                if a and a["kind"] == "enum":
                    return EnumV(t["n"], ((TRUE, int(o["v"]), ()),))
                if t["n"] in ("ndarray::Axis",):
                    return Agg(t["n"], (const(int(o["v"])),))
            return Obj("lit", o["v"], o.get("n", ""))
        if k == "fn":
            return FnV(o["n"], o["i"], o["tr"])
        if k == "zst":
            t = self.p.types[o["t"]]
            if t["k"] == "closure":
                return Clo(t["i"], ())
            if t["k"] == "fndef":
                return FnV(t["n"], t["i"], t["tr"])
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                if "fty" in t:
                    return Agg(t["n"], ())
                return Obj(t["n"])
            if t["k"] == "array":
                return Agg("array", ())
            return Obj("zst")
        if k == "prom":
            r = ("P", o["i"])
            if r not in st.mem:
                v = self.exec_body(o["i"], [], st)
                # the promoted body returns a reference to its own local
                st.mem[r] = v
            v = st.mem[r]
            return v
        if k == "str":
            return Obj("str", o["v"])
        if k == "static":
            import models4
            return Ref(models4.static(self, st, o["n"]), ())
        if k == "opaque" and o.get("n") and self.p.types[o["t"]].get("n") == "std::thread::LocalKey":
            return Obj("localkey", o["n"])
        return Obj("opaque", o.get("v", ""), o.get("n", ""))

    def fconst(self, s):
        if s in ("NaN", "inf", "-inf"):
            return app(s)
        if s.startswith("3.14159265358979"):
            return sym("pi", "num")
        if s.startswith("6.28318530717958"):
            return 2 * sym("pi", "num")
        return const(Fraction(s))

    def place_ty(self, fr, p):
        t = fr.body["locals"][p[0]]
        for e in p[1:]:
            x = self.p.types[t]
            if e == "*":
                t = x.get("t", t)
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = x.get("t", t)
        return t

    def op_ty(self, fr, o):
        if "o" in o:
            if o["o"] == "rtc":
                return None
            return self.place_ty(fr, o["p"])
        return o.get("t")

    # -------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty):
        k = r["r"]
        if k == "use":
            return self.operand(fr, st, r["a"])
        if k in ("ref", "rawptr"):
            pl = self.place(fr, st, r["p"])
            return pl
        if k == "bin":
            return self.binop(fr, st, r)
        if k == "un":
            v = self.operand(fr, st, r["a"])
            op = r["op"]
            if op == "Neg":
                return -v
            if op == "Not":
                if isinstance(v, Cond):
                    return cnot(v)
                return app("not", v, sort="int")
            if op == "PtrMetadata":
                w = self.as_view(st, v) if isinstance(v, (View, Ref)) else None
                if w is None or len(w.dims) != 1:
                    raise Undecided("metadata of %s" % type(v).__name__)
                return w.dims[0]
            raise Undecided("unary " + op)
        if k == "cast":
            v = self.operand(fr, st, r["a"])
            kk = r["k"]
            if kk == "IntToFloat":
                if isinstance(v, Cond):
                    return ite(v, ONE, ZERO)
                return single(v) if self.p.types[r["t"]].get("n") == "f32" else v
            if kk == "IntToInt":
                if isinstance(v, Cond):
                    return ite(v, ONE, ZERO)
                if isinstance(v, Agg) and v.tag == "disc":
                    return self.discpoly(v)
                return self.cast_int(st, v, r["t"], self.counts(fr))
            if kk == "FloatToFloat":
                return single(v) if self.p.types[r["t"]].get("n") == "f32" else v
            if kk == "FloatToInt":
                if _isint(v):
                    return v
                return app("trunc", v, sort="int")
            return v
        if k == "discr":
            pl = self.place(fr, st, r["p"])
            v = self.load(st, pl)
            return self.disc_of(st, v)
        if k == "agg":
            vs = tuple(self.operand(fr, st, a) for a in r["a"])
            kind = r["k"]
            if kind in ("tuple", "array"):
                return Agg(kind, vs)
            if kind == "closure":
                return Clo(r["i"], vs)
            if kind == "adt":
                a = self.p.adts.get(r["n"])
                if r["n"] == "num_complex::Complex":
                    return vs[0] + I * vs[1]
                if a and a["kind"] == "enum":
                    return EnumV(r["n"], ((TRUE, r["v"], vs),))
                return Agg(r["n"], vs)
            raise Undecided("aggregate")
        if k == "repeat":
            v = self.operand(fr, st, r["a"])
            n = r["n"]
            if 0 <= n <= 16:
                return Agg("array", (v,) * n)
            x = freshv()
            et = self.p.et(self.op_ty(fr, r["a"]))
            return Arr((const(n),), Lam((x,), v), "C", et)
        raise Undecided("rvalue " + str(r.get("s", k))[:60])

    def counts(self, fr):
        """the message counts of MPI are 32 bit numbers by its interface"""
        return "mpi" in fr.body["base"] or any("mpi" in x for x, _ in self.stack)

    def cast_int(self, st, v, t, count=False):
        """integer cast: 8 and 16 bit types wrap; wider ones keep the value (sizes stay far below
        their range) and leave an event"""
        n = self.p.types[t].get("n")
        if n not in ("i32", "u32", "i16", "u16", "u8", "i8") or not isinstance(v, Poly):
            return v
        l, h = int_range(n)
        c = v.const()
        if c is not None:
            return const((c - l) % (h - l + 1) + l) if c.denominator == 1 else v
        self.event("narrow", st, le(v, const(h)), value=v, to=n)
        if h > 2 ** 16:
            return v if count else wrapint(v, n)
        f = st.facts()
        if entails(f, cand(le(v, const(h)), le(const(l), v))):
            return v
        return mod(v - l, h - l + 1) + l

    def disc_of(self, st, v):
        if isinstance(v, IteV):
            raise Undecided("discriminant of merged objects")
        if isinstance(v, EnumV):
            return Agg("disc", (v,))
        if isinstance(v, Obj):
            return app("disc:" + objname(v), sort="int")
        raise Undecided("discriminant of %s" % type(v).__name__)

    def discpoly(self, d):
        e = d.fields[0]
        r = const(e.cases[-1][1])
        for c, v, _ in reversed(e.cases[:-1]):
            r = ite(c, const(v), r)
        return r

    def binop(self, fr, st, r):
        op = r["op"]
        a = self.operand(fr, st, r["a"])
        b = self.operand(fr, st, r["b"])
        t = self.op_ty(fr, r["a"])
        et = self.p.et(t) if t is not None else None
        if isinstance(a, Agg) and a.tag == "disc":
            a = self.discpoly(a)
        if isinstance(b, Agg) and b.tag == "disc":
            b = self.discpoly(b)
        v = self.arith(st, op, a, b, et, t)
        if et in ("u", "i") and self.p.types[t].get("n") in ("u32", "i32") and not self.counts(fr):
            n = self.p.types[t]["n"]
            if isinstance(v, Poly):
                return wrapint(v, n)
            if isinstance(v, Agg) and v.tag == "tuple" and isinstance(v.fields[0], Poly):
                return Agg("tuple", (wrapint(v.fields[0], n),) + v.fields[1:])
        return v

    def arith(self, st, op, a, b, et, t=None):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == "Eq":
                return bite(a, b, cnot(b))
            if op == "Ne":
                return bite(a, cnot(b), b)
            if op == "BitAnd":
                return cand(a, b)
            if op == "BitOr":
                return cor(a, b)
            if op == "BitXor":
                return bite(a, cnot(b), b)
            raise Undecided("bool op " + op)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if op in ("Eq", "Ne") and isinstance(a, (Ref, View)):
                raise Undecided("pointer comparison")
            # pointers into buffers are aligned and not null
            if any(isinstance(x, Agg) and x.tag == "rawptr" for x in (a, b)):
                if op == "BitAnd":
                    return ZERO
                if op in ("Eq", "Ne") and any(isinstance(x, Poly) and x.const() == 0 for x in (a, b)):
                    return FALSE if op == "Eq" else TRUE
            raise Undecided("operator %s on %s" % (op, type(a).__name__))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = a + b if op[0] == "A" else a - b if op[0] == "S" else a * b
            if v.const() is None and op[0] == "M" and len(v.m) > 200:
                raise Undecided("large product")
            n = self.p.types[t].get("n") if t is not None else None
            l, h = int_range(n or ("usize" if et == "u" else "i64"))
            if et == "u":
                ov = lt(a, b) if op[0] == "S" else ge0(v - h - 1)
            else:
                ov = cor(ge0(v - h - 1), ge0(const(l - 1) - v))
            if op[0] != "S" or et != "u":
                ov = Cond("ovf", (v, ov)) if ov.kind not in ("true", "false") else ov
            return Agg("tuple", (v, ov))
        if op in ("Add", "AddUnchecked"):
            return a + b
        if op in ("Sub", "SubUnchecked"):
            return a - b
        if op in ("Mul", "MulUnchecked"):
            return a * b
        if et == "f":
            if op == "Div":
                return div(a, b)
            if op in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne"):
                return fcmp(op, a, b)
            raise Undecided("float op " + op)
        if op == "Div":
            return self.simp_div(st, a, b)
        if op == "Rem":
            q = self.simp_div(st, a, b)
            if b.const() is None:
                return a - q * b
            m = const(abs(int(b.const())))
            if m.const() == 2 and self.parity(a) is not None:
                return self.parity(a)
            if a.const() is None and not entails(st.facts(), ge0(a)) and not _nonneg(a):
                return ite(ge0(a), mod(a, m), -mod(-a, m))
            return mod(a, m) if a.const() is None or a.const() >= 0 else -mod(-a, m)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return cnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "BitAnd":
            if b.is_int_const() and (int(b.const()) + 1) & int(b.const()) == 0:
                x = self.parity(a) if int(b.const()) == 1 else None
                return x if x is not None else mod(a, int(b.const()) + 1)
            if a.is_int_const() and not b.is_int_const():
                return self.arith(st, op, b, a, et, t)
        if op in ("Shl", "ShlUnchecked") and b.is_int_const():
            return a * (1 << int(b.const()))
        if op in ("Shr", "ShrUnchecked") and b.is_int_const():
            return fdiv(a, 1 << int(b.const()))
        if op == "BitXor" and b.is_int_const() and int(b.const()) == 1:
            return a + 1 - 2 * mod(a, 2)
        if op in ("BitAnd", "BitOr", "BitXor") and et == "u":
            from models import intfn
            return intfn({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], *sorted((a, b), key=str))
        raise Undecided("int op " + op)

    def parity(self, a):
        """the last bit of a bitwise combination"""
        c = a.single_atom()
        if c is None or c.kind != "app" or c.args[0] not in ("i:and", "i:or", "i:xor"):
            return None
        x, y = (self.parity(v) or mod(v, 2) for v in c.args[1:])
        return x * y if c.args[0] == "i:and" else mod(x + y, 2) if c.args[0] == "i:xor" else x + y - x * y

    def simp_div(self, st, a, b):
        c = b.const()
        if c is not None and c != 0:
            if a.const() is None and not entails(st.facts(), ge0(a)) and not _nonneg(a):
                # truncates towards zero
                m = const(abs(int(c)))
                q = ite(ge0(a), fdiv(a, m), -fdiv(-a, m))
                return q if c > 0 else -q
            if a.const() is not None and a.const() < 0:
                return -fdiv(-a, b) if c > 0 else fdiv(-a, -b)
            return fdiv(a, b) if c > 0 else -fdiv(a, -b)
        # symbolic divisor: drop exact multiples
        q = ZERO
        rest = {}
        sb = b.single_atom()
        if sb is not None:
            for m, v in a.m:
                d = dict(m)
                if d.get(sb, 0) >= 1:
                    d[sb] -= 1
                    mm = tuple((x, e) for x, e in m if x is not sb) if d[sb] == 0 else tuple((x, e if x is not sb else e - 1) for x, e in m)
                    q = q + Poly(((mm, v),))
                else:
                    rest[m] = v
            r = mk(rest)
            if r is ZERO:
                return q
            if entails(st.facts(), cand(ge0(r), lt(r, b))):
                return q
            if q is not ZERO and entails(st.facts(), ge0(r)):
                return q + fdiv(r, b)
        return fdiv(a, b)

    # -------------------------------------------------------------- control flow
    def exec_body(self, bid, args, st):
        """interprets a body; returns the result value (st is updated), raises Dead
        if it cannot return"""
        b = self.p.bodies[bid]
        if len(self.stack) > 60:
            raise Undecided("recursion")
        self.fid += 1
        fr = Frame()
        fr.id = self.fid
        fr.body = b
        fr.cfg = self.p.cfg(b)
        self.fns.add(b["base"])
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        s0 = st.copy()
        back, exits = self.region(fr, None, 0, [s0])
        rets = exits.get("ret", [])
        if not rets:
            raise Dead()
        s = self.merge(rets, len(st.pc))
        v = s.mem.get(("L", fr.id, 0), UNIT)
        loc = [k for k in s.mem if k[0] == "L" and k[1] == fr.id]
        if bid in self.keep:
            self.keep[bid] = {k[2]: s.mem[k] for k in loc}
        if b["promoted"] >= 0:
            v2 = v
            if isinstance(v, Ref) and v.root[0] == "L":
                r = ("PR", bid, v.root[2])
                s.mem[r] = s.mem[v.root]
                v = Ref(r, v.path)
            for k in loc:
                del s.mem[k]
        else:
            for k in loc:
                del s.mem[k]
        st.mem = s.mem
        st.pc = s.pc
        return v

    def merge(self, states, base):
        if len(states) == 1:
            return states[0]
        pcs = [s.pc for s in states]
        k = base
        while all(len(p) > k for p in pcs) and all(p[k] == pcs[0][k] for p in pcs):
            k += 1
        suff = [p[k:] for p in pcs]
        bc = [cand(*[c for g, c in s if g == "b"]) for s in suff]
        pc = pcs[0][:k]
        common = [c for g, c in suff[0] if g == "a" and all(("a", c) in s for s in suff[1:])]
        alt = cor(*bc)
        if alt is not TRUE:
            if not entails([c for _, c in pc], alt):
                pc = pc + (("b", alt),)
        for c in common:
            pc = pc + (("a", c),)
        extra = 0
        for s, b in zip(suff, bc):
            for g, c in s:
                if g == "a" and c not in common and extra < 6:
                    extra += 1
                    pc = pc + (("a", cor(cnot(b), c)),)
        mem = dict(states[-1].mem)
        conds = _minimise(bc)
        for s, b in reversed(list(zip(states[:-1], conds[:-1]))):
            keys = set(mem) | set(s.mem)
            for r in keys:
                x = s.mem.get(r, UNDEF)
                y = mem.get(r, UNDEF)
                if x is not y:
                    mem[r] = vite(b, x, y)
        return State(mem, pc)

    def region(self, fr, nodes, entry, instates):
        """interprets the (acyclic after collapsing inner loops) region; returns
        (states at back edges to entry, {exit target: [states]})"""
        cfg = fr.cfg
        inbox = {entry: list(instates)}
        back = []
        exits = {}
        order = [u for u in cfg.rpo if nodes is None or u in nodes]
        base = len(instates[0].pc)

        def send(v, s):
            if nodes is not None and v == entry:
                back.append(s)
            elif nodes is not None and v not in nodes:
                exits.setdefault(v, []).append(s)
            else:
                inbox.setdefault(v, []).append(s)
        inner = set()
        for u in order:
            if u in inner:
                continue
            if u not in inbox:
                continue
            ss = inbox.pop(u)
            s = self.merge(ss, min(base, min(len(x.pc) for x in ss)))
            if u in cfg.loops and not (nodes is not None and u == entry):
                ln = cfg.loops[u]
                inner |= ln
                for tgt, s2 in self.loop_cfg(fr, u, ln, s):
                    if tgt == "ret":
                        exits.setdefault("ret", []).append(s2)
                    else:
                        send(tgt, s2)
                continue
            for tgt, s2 in self.block(fr, u, s):
                if tgt == "ret":
                    exits.setdefault("ret", []).append(s2)
                else:
                    send(tgt, s2)
        return back, exits

    def block(self, fr, u, st):
        """list of (target, state)"""
        blk = fr.body["blocks"][u]
        self.steps += 1 + len(blk["s"])
        if self.steps > self.maxsteps:
            raise Undecided("step budget")
        try:
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(fr, st, s[2], None)
                    p = s[1]
                    if len(p) == 1:
                        st.mem[("L", fr.id, p[0])] = v
                    else:
                        self.store(st, self.place(fr, st, p), v)
                elif s[0] == "sd":
                    raise Undecided("set-discriminant")
            t = blk["term"]
            k = t["t"]
            if k == "goto":
                return [(t["to"], st)]
            if k == "ret":
                return [("ret", st)]
            if k == "unreachable":
                return []
            if k == "assert":
                return self.do_assert(fr, u, st, t)
            if k == "switch":
                return self.do_switch(fr, u, st, t)
            if k == "call":
                return self.do_call(fr, u, st, t)
            raise Undecided("terminator " + str(t.get("s", k))[:60])
        except Dead:
            return []

    def do_assert(self, fr, u, st, t):
        c = self.operand(fr, st, t["c"])
        want = c if t["e"] else cnot_ov(c)
        info = {"fn": fr.body["base"], "op": t.get("op"), "sp": fr.body["blocks"][u]["sp"]}
        if isinstance(c, Cond) and c.kind == "ovf":
            self.event("overflow", st, cnot(c.args[1]), value=c.args[0], **info)
            return [(t["to"], st)]
        self.need(t["k"], st, want, **info)
        return [(t["to"], st)]

    def do_switch(self, fr, u, st, t):
        d = self.operand(fr, st, t["d"])
        conds = []
        els = TRUE
        bl = fr.body["blocks"]
        if isinstance(d, Cond) and d.kind == "ovf":
            raise Undecided("branch on an overflow flag")
        for v, tgt in t["v"]:
            v = int(v)
            if isinstance(d, Cond):
                c = cnot(d) if v == 0 else d
            elif isinstance(d, Agg) and d.tag == "disc":
                c = d.fields[0].cond(v)
            elif isinstance(d, Poly):
                c = eq(d, const(v))
            else:
                raise Undecided("switch on %s" % type(d).__name__)
            conds.append((c, tgt))
            els = cand(els, cnot(c))
        if isinstance(d, Agg) and d.tag == "disc":
            covered = set(int(v) for v, _ in t["v"])
            els = cor(*[c for c, k, _ in d.fields[0].cases if k not in covered])
        conds.append((els, t["else"]))
        out = []
        fs = st.facts()
        alive = []
        for c, tgt in conds:
            if bl[tgt] is None or bl[tgt]["term"]["t"] == "unreachable" and not bl[tgt]["s"]:
                continue
            dv = decide(fs, c)
            if dv is False:
                continue
            if dv is True:
                alive = [(TRUE, tgt)]
                break
            alive.append((c, tgt))
        livet = [x for x in alive if x[1] in fr.cfg.live]
        for c, tgt in alive:
            s2 = st.copy() if len(alive) > 1 else st
            try:
                c2 = simp(c, fs) if c.kind in ("and", "or") and has_ite(c) else c
                s2.assume(c2, "a" if len(livet) == 1 and tgt in fr.cfg.live else "b")
            except Dead:
                continue
            out.append((tgt, s2))
        return out

    def do_call(self, fr, u, st, t):
        args = [self.operand(fr, st, a) for a in t["a"]]
        f = t["f"]
        if f.get("c") == "fn":
            name, i, tr = f["n"], f["i"], f["tr"]
        else:
            fv_ = self.operand(fr, st, f)
            if isinstance(fv_, FnV):
                name, i, tr = fv_.f
            else:
                raise Undecided("indirect call")
        call = Call(name, i, tr, t, fr, u, self)
        v = self.call(call, args, st)
        if t["to"] < 0:
            return []
        d = t["d"]
        if len(d) == 1:
            st.mem[("L", fr.id, d[0])] = v
        else:
            self.store(st, self.place(fr, st, d), v)
        return [(t["to"], st)]

    def call(self, call, args, st):
        base = strip_generics(call.tr)
        self.stack.append((call.fr.body["base"], call.u))
        try:
            for pred, h in self.opaque:
                if pred(call):
                    return h(self, st, args, call)
            if call.i >= 0:
                b = self.p.bodies[call.i]
                if b["closure"] and len(args) == 2 and isinstance(args[1], Agg):
                    args = [args[0]] + list(args[1].fields)
                return self.exec_body(call.i, args, st)
            import models
            m = models.lookup(call)
            if m is None:
                raise Undecided("no model for " + call.tr)
            return m(self, st, args, call)
        finally:
            self.stack.pop()

    def call_value(self, f, args, st):
        """call of a closure / function value; f is the callable or a Ref to it"""
        g = f
        if isinstance(f, Ref):
            g = self.get(st, f.root, f.path)
        if isinstance(g, Ref):
            return self.call_value(g, args, st)
        if isinstance(g, FnV):
            if g.f[1] >= 0:
                return self.exec_body(g.f[1], list(args), st)
            import models
            call = Call(g.f[0], g.f[1], g.f[2], {"at": [], "ga": [], "dt": -1, "unsafe": False}, None, -1, self)
            m = models.lookup(call)
            if m is None:
                raise Undecided("no model for " + g.f[2])
            return m(self, st, list(args), call)
        if isinstance(g, Clo):
            b = self.p.bodies[g.f[0]]
            selfty = self.p.types[b["locals"][1]]
            cell = None
            if selfty["k"] == "ref":
                if isinstance(f, Ref):
                    env = f
                else:
                    cell = self.newcell(st, g, "clo")
                    env = Ref(cell, ())
            else:
                env = g
            self.stack.append((b["base"], 0))
            try:
                r = self.exec_body(g.f[0], [env] + list(args), st)
            finally:
                self.stack.pop()
            if cell is not None and cell in st.mem:
                del st.mem[cell]
            return r
        raise Undecided("call of %s" % type(g).__name__)

    # -------------------------------------------------------------- loops
    def loop_cfg(self, fr, header, nodes, st):
        def step(s):
            return self.region(fr, nodes, header, [s])
        key = (fr.body["id"], header)
        self.stack.append((fr.body["base"], header))
        try:
            return self.summarise(st, step, key)
        finally:
            self.stack.pop()

    def for_each(self, it, st, fn, key):
        """iterates an iterator value, calling fn(item, st)"""
        cell = self.newcell(st, it, "it")

        def step(s):
            i = s.mem[cell]
            has = lt(i.pos, i.end)
            d = decide(s.facts(), has)
            exits = []
            back = []
            if d is not True:
                e = s.copy()
                e.assume(cnot(has), "b")
                exits.append(e)
            if d is not False:
                e = s.copy()
                e.assume(has, "b")
                try:
                    item = self.it_get(i.desc, i.pos, e)
                    e.mem[cell] = It(i.desc, i.pos + 1, i.end)
                    fn(item, e)
                    back.append(e)
                except Dead:
                    pass
            return back, {"x": exits} if exits else {}
        outs = self.summarise(st, step, key)
        if not outs:
            raise Dead()
        s = outs[0][1]
        st.mem = s.mem
        st.pc = s.pc
        st.mem.pop(cell, None)

    def leaves(self, a, b, root, path, out):
        """leaf locations at which a (start of iteration) and b (end) differ"""
        if a is b:
            return
        if a is UNDEF:
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fields) == len(b.fields) and a.tag == b.tag:
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.leaves(x, y, root, path + (("f", i),), out)
            return
        if isinstance(a, Clo) and isinstance(b, Clo) and a.f[0] == b.f[0]:
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.leaves(x, y, root, path + (("f", i),), out)
            return
        if isinstance(a, It) and isinstance(b, It) and a.desc is b.desc:
            if a.pos is not b.pos:
                out.append((root, path + (("pos",),)))
            if a.end is not b.end:
                out.append((root, path + (("end",),)))
            return
        if isinstance(a, EnumV) and isinstance(b, EnumV) and len(a.cases) == 1 and len(b.cases) == 1 \
                and a.cases[0][1] == b.cases[0][1]:
            for i, (x, y) in enumerate(zip(a.cases[0][2], b.cases[0][2])):
                self.leaves(x, y, root, path + (("v", a.cases[0][1], i),), out)
            return
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
            for i, (x, y) in enumerate(zip(a.dims, b.dims)):
                if x is not y:
                    out.append((root, path + (("dim", i),)))
            if a.lam is not b.lam:
                out.append((root, path + (("lam",),)))
            return
        out.append((root, path))

    def leaf_get(self, mem, leaf):
        root, path = leaf
        v = mem.get(root, UNDEF)
        for s in path:
            if v is UNDEF:
                return UNDEF
            if s[0] == "f":
                v = v.fields[s[1]]
            elif s[0] == "pos":
                v = v.pos
            elif s[0] == "end":
                v = v.end
            elif s[0] == "v":
                pl = None
                for c, k, p in v.cases:
                    if k == s[1]:
                        pl = p[s[2]]
                v = UNDEF if pl is None else pl
            elif s[0] == "dim":
                v = v.dims[s[1]]
            elif s[0] == "lam":
                v = v.lam
        return v

    def leaf_set(self, mem, leaf, val):
        root, path = leaf

        def go(v, path):
            if not path:
                return val
            s = path[0]
            if s[0] == "f":
                fs = list(v.fields)
                fs[s[1]] = go(fs[s[1]], path[1:])
                return Agg(v.tag, tuple(fs)) if isinstance(v, Agg) else Clo(v.f[0], tuple(fs))
            if s[0] == "pos":
                return It(v.desc, val, v.end)
            if s[0] == "end":
                return It(v.desc, v.pos, val)
            if s[0] == "v":
                cs = []
                for c, k, p in v.cases:
                    if k == s[1]:
                        p = list(p)
                        p[s[2]] = go(p[s[2]], path[1:])
                        p = tuple(p)
                    cs.append((c, k, p))
                return EnumV(v.name, tuple(cs))
            if s[0] == "dim":
                d = list(v.dims)
                d[s[1]] = val
                return Arr(tuple(d), v.lam, v.layout, v.et)
            if s[0] == "lam":
                return v.with_lam(val)
            raise Undecided("leaf")
        mem[root] = go(mem[root], path)

    def summarise(self, st, step, key):
        import loops
        self.nloops += 1
        return loops.summarise(self, st, step, key)

    # -------------------------------------------------------------- iterators
    def it_get(self, d, k, st):
        import models
        return models.it_get(self, d, k, st)


class Call(object):
    __slots__ = ("name", "i", "tr", "t", "fr", "u", "ip", "base")

    def __init__(self, name, i, tr, t, fr, u, ip):
        self.name, self.i, self.tr, self.t, self.fr, self.u, self.ip = name, i, tr, t, fr, u, ip
        self.base = ip.p.bodies[i]["base"] if i >= 0 else tr

    def argty(self, k):
        return self.t["at"][k]

    def retty(self):
        return self.t["dt"]


def objname(o):
    a = o.f
    if a[0] == "val":
        return str(a[1])
    return "(%s)" % ",".join(str(x) for x in a)


def cnot_ov(c):
    if c.kind == "ovf":
        return c
    return cnot(c)


def fcmp(op, a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        r = {"Lt": ca < cb, "Gt": ca > cb, "Le": ca <= cb, "Ge": ca >= cb, "Eq": ca == cb, "Ne": ca != cb}[op]
        return TRUE if r else FALSE
    if all(x.sort == "int" for x in a.atoms()) and all(x.sort == "int" for x in b.atoms()):
        # converted integers: decided over the integers
        d = b - a
        k = 1
        for _, v in d.m:
            k = k * v.denominator // math.gcd(k, v.denominator)
        d = d * k
        return {"Lt": ge0(d - 1), "Le": ge0(d), "Gt": ge0(-d - 1), "Ge": ge0(-d), "Eq": eq0(d), "Ne": cnot(eq0(d))}[op]
    if op == "Lt":
        return batom("flt", a, b)
    if op == "Gt":
        return batom("flt", b, a)
    if op == "Le":
        return batom("fle", a, b)
    if op == "Ge":
        return batom("fle", b, a)
    c = batom("feq", *sorted((a, b), key=lambda x: x.h))
    return c if op == "Eq" else cnot(c)


def _isint(p):
    return all(x.sort == "int" for x in p.atoms()) and all(v.denominator == 1 for _, v in p.m)


def _nonneg(p):
    return all(v >= 0 and all(nonneg_atom(a) for a, _ in m) for m, v in p.m)


def _minimise(bc):
    """shorter equivalent merge conditions: a state that comes earlier may be
    selected by any condition that excludes the later ones"""
    return bc
