"""C21: operations leave bases and spaces unchanged and do not remember earlier calls."""
import re
from core import *
import models4 as SM
from c_spaces import ob

RULE = "no state survives an operation that a later or concurrent one can observe"
CALL = re.compile(r"^(std|core)::(cell|sync)::(?!Arc\b)|^once_cell::|thread::LocalKey|^(std|core)::ptr::(write|replace|swap|copy)|\bptr::(mut_ptr|const_ptr)::.*\b(write|replace|swap|copy_from|copy_to)|<impl \*mut .*>::(write|replace|swap|copy_from|copy_to)|^lazy_static|^parking_lot")
FREE = re.compile(r"^(std|core)::sync::(Arc|Weak)\b|::sync::atomic::Ordering")


def items_of(P, bid, memo):
    """state touched by one body, and the bodies it refers to"""
    if bid in memo:
        return memo[bid]
    b = P.bodies[bid]
    out, nxt = set(), set()
    memo[bid] = (out, nxt)

    def pty(p):
        t = b["locals"][p[0]]
        for e in p[1:]:
            x = P.types[t]
            t = x.get("t", t) if e == "*" or e[0] in "ic" else e[2] if e[0] == "f" else t
        return t

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
            return
        if not isinstance(x, dict):
            return
        c = x.get("c")
        if c == "fn":
            if x["i"] >= 0:
                nxt.add(x["i"])
            for nm in (x["tr"], x["n"]):
                nm = nm.lstrip("<")
                if CALL.search(nm) and not FREE.search(nm):
                    out.add(("call", re.sub(r"<.*", "", nm), ""))
        elif c == "prom":
            nxt.add(x["i"])
        elif c == "static":
            if not x.get("frozen"):
                out.add(("static", x["n"], ""))
        elif c == "opaque" and x.get("n") and P.types[x["t"]].get("n") == "std::thread::LocalKey":
            out.add(("thread-local", x["n"], ""))
        if c in ("zst", "opaque", "val"):
            t = P.types[x["t"]]
            if t["k"] in ("closure", "fndef") and t.get("i", -1) >= 0:
                nxt.add(t["i"])
        if x.get("r") == "agg" and x.get("k") == "closure":
            nxt.add(x["i"])
        if x.get("r") == "cast":
            t = P.types[x["t"]]
            if t["k"] == "ptr" and t["m"]:
                a = x["a"]
                s = pty(a["p"]) if "p" in a else a.get("t")
                s = P.types[s] if s is not None else {"k": ""}
                if s["k"] in ("ptr", "ref") and not s["m"]:
                    out.add(("cast", "shared pointer made mutable", b["span"]))
            if "Transmute" in x.get("k", ""):
                s = pty(x["a"]["p"]) if "p" in x["a"] else None
                if s is not None and P.types[s]["k"] == "ref" and not P.types[s]["m"] and t["k"] == "ref" and t["m"]:
                    out.add(("cast", "shared reference made mutable", b["span"]))
        for y in x.values():
            if isinstance(y, (list, dict)):
                go(y)
    for bl in b["blocks"]:
        if bl is not None:
            go(bl)
    return memo[bid]


def reach(P, bid, memo):
    seen, todo, out = set(), [bid], {}
    while todo:
        i = todo.pop()
        if i in seen or i not in P.bodies:
            continue
        seen.add(i)
        its, nxt = items_of(P, i, memo)
        for x in its:
            out.setdefault(x, set()).add(i)
        todo += nxt
    return out, seen


class Scan(object):
    def __init__(self, P):
        memo = {}
        self.items, self.seen = {}, {}
        for name, bid in P.roots.items():
            if name.split("::")[0] in ("m", "mpi", "ctype") or "::" not in name:
                continue
            self.items[name], self.seen[name] = reach(P, bid, memo)

    def kernel_bodies(self):
        s = set()
        for n, it in self.items.items():
            if n.startswith(("k::", "stat::")):
                for bs in it.values():
                    s |= bs
        return s


def is_mpi(t):
    return "mpi" in t.lower() or "decomp" in t.lower() or "Distribution" in t


def t_auto(P):
    out = []
    vis = {i["path"]: i["reachable"] for i in P.inventory["items"] if i["k"] == "adt"}
    for a in P.auto:
        t = a["t"]
        base = re.sub(r"<.*", "", t)
        if is_mpi(t) or not vis.get(base.split("::", 1)[1], True):
            continue
        s = "ok" if a["send"] and a["sync"] else "bad"
        out.append(dict(id="type " + t, status=s, rule="every base and space type can be shared by reference between threads",
                        detail="" if s == "ok" else "%s is not %s" % (t, " and not ".join(n for n, v in (("Send", a["send"]), ("Sync", a["sync"])) if not v)), fns=[]))
    return out


def t_scan(P, sc, group):
    out = []
    for n in sorted(sc.items):
        if n.split("::")[0] != group or n in HIST_ROOTS:
            continue
        it = sc.items[n]
        fns = sorted(set(P.bodies[i]["base"] for i in sc.seen[n]))
        if not it:
            out.append(dict(id=n, status="ok", rule=RULE, fns=fns, detail="%d bodies reached, none touches a mutable static, a thread local, a cell, a lock, an atomic, or shared memory through a mutable pointer" % len(fns)))
        else:
            out.append(dict(id=n, status="unknown", rule=RULE, fns=fns, detail="touches " + ", ".join(sorted("%s %s" % x[:2] for x in it))[:200]))
    return out


HIST_ROOTS = set()


# ------------------------------------------------------------------ histories
def ctor(P, bid):
    """(block, local) of the constructor call an entry point starts with"""
    b = P.bodies[bid]
    u = 0
    for _ in range(6):
        t = b["blocks"][u]["term"]
        if t["t"] == "call":
            if t["f"].get("c") == "fn" and t["f"]["i"] >= 0 and len(t["d"]) == 1:
                return u, t["d"][0]
            return None
        if t["t"] != "goto":
            return None
        u = t["to"]
    return None


class One(object):
    """one call; obj: (value, memory) of an object to use instead of a new one"""

    def __init__(self, P, name, hist=False, after=None, obj=None, same_n=False, onacq=None, state=None):
        self.cap = {}
        bid = P.roots[name]
        ct = ctor(P, bid)

        def h(ip, st, args, call):
            if obj is not None:
                return obj
            v = ip.exec_body(call.i, args, st)
            self.cap["obj"], self.cap["mem"] = v, dict(st.mem)
            return v
        op = [(lambda call: ct is not None and call.fr is not None and call.fr.body["id"] == bid and call.u == ct[0], h)]

        def setup(ip, st, b):
            ip.keep[b] = None
            ip.onacq = onacq
            if state:
                st.mem.update(state)
        rn = (lambda x: x if same_n and x == "n" else x + "_h") if hist else None
        self.r = run(P, name, op, rename=rn, after=after, setup=setup)
        self.final = None
        if self.r.status == "ok" and ct is not None and self.r.ip.keep.get(bid):
            self.final = self.r.ip.keep[bid].get(ct[1])


def globals_of(r):
    return {k: v for k, v in r.st.mem.items() if k[0] in ("G", "heap")}


def outputs(r):
    o = [("result", r.ret)]
    for k in sorted(k for k in r.mem0 if k[0] == "A" and not str(k[1]).endswith("_h")):
        o.append((str(k[1]), r.st.mem[k]))
    return o


def compare(r2, r0, r1, what):
    if r2.status == "undecided":
        return [("unknown", "%s: %s" % (what, r2.why))]
    if r2.status == "dead":
        return [("bad", "%s: the call fails" % what)]
    its = []
    base = list(r0.facts()) + [c for c in r1.facts() if c not in r0.facts()]
    for c in r2.facts():
        if c in base:
            continue
        s, d = PV.check_cond(c, base)
        if s != "ok":
            its.append((s, "%s: the call is refused unless %s %s" % (what, str(c)[:120], d)))
    f = base + [c for c in r2.facts() if c not in base]
    for (n, a), (_, b) in zip(outputs(r2), outputs(r0)):
        if a is None and b is None:
            continue
        its += cmp_vals(a, b, f, secs=25, what="%s: %s" % (what, n))
    return its or [("ok", what)]


def plain(v):
    """an object without the content of its cells"""
    if isinstance(v, Agg) and v.tag.startswith("cell:") and v.tag != "cell:UnsafeCell" and v.tag != "cell:SyncUnsafeCell":
        return Agg(v.tag, ())
    if isinstance(v, Agg):
        return Agg(v.tag, tuple(plain(x) for x in v.fields))
    return v


def leaves(a, b, f, what):
    if a is b:
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and len(a.fields) == len(b.fields):
        out = []
        for x, y in zip(a.fields, b.fields):
            out += leaves(x, y, f, what)
        return out
    return cmp_vals(a, b, f, secs=15, what=what)


def grow(v0, v1):
    """(content after some number of further calls, whether it differs):
    integers in cells that a call increases by a constant"""
    if isinstance(v0, Agg) and isinstance(v1, Agg) and v0.tag == v1.tag and len(v0.fields) == len(v1.fields):
        if v0.tag.startswith("cell:") and len(v0.fields) == 1 and isinstance(v0.fields[0], Poly) and isinstance(v1.fields[0], Poly):
            d = (v1.fields[0] - v0.fields[0]).const()
            if d is not None and d > 0 and d.denominator == 1:
                return Agg(v0.tag, (v0.fields[0] + const(int(d)) * sym("u:calls_h"),)), True
            return v1, False
        fs = [grow(x, y) for x, y in zip(v0.fields, v1.fields)]
        if any(x for _, x in fs):
            return Agg(v1.tag, tuple(x for x, _ in fs)), True
    return v1, False


def counters(mem0, mem1):
    out, any_ = {}, False
    for k, v1 in mem1.items():
        if k in mem0:
            out[k], x = grow(mem0[k], v1)
            any_ = any_ or x
    return out if any_ else None


def t_hist(P, name, partners, objs, statics):
    r0 = One(P, name)
    fns = sorted(fns_of(r0.r))
    if r0.r.status != "ok":
        return [dict(id=name, status="unknown", detail="%s %s" % (r0.r.status, r0.r.why), rule=RULE, fns=fns)]
    its = []
    for a in partners:
        for obj in ([False] if not objs else [True] if not statics else [False, True]):
            if obj and name.rsplit("::", 2 if name.count("::") > 2 else 1)[0].split("::")[1] != a.split("::")[1]:
                continue
            r1 = One(P, a, hist=True, same_n=obj)
            if r1.r.status != "ok":
                if r1.r.status == "undecided":
                    its.append(("unknown", "%s: %s" % (a, r1.r.why)))
                continue
            what = "after %s%s" % (a, " on the same value" if obj else "")
            if obj and r1.final is None:
                its.append(("unknown", what))
                continue
            # the shared value itself
            if obj and r1.cap.get("obj") is not None:
                for s, d in leaves(plain(r1.cap["obj"]), plain(r1.final), r1.r.facts(), "writes to the shared value"):
                    if s != "ok":
                        its.append((s, "%s %s" % (a, d)))
            r2 = One(P, name, after=r1.r, obj=r1.final if obj else None)
            its += compare(r2.r, r0.r, r1.r, what)
            # schedules: the other call completes between two accesses
            for j in range(2, min(r0.r.ip.acq, 5) + 1):
                its += interleave(P, name, a, r0, r1, obj, j)
            if not obj:
                st = counters(init_state(P, r1.r), globals_of(r1.r))
                if st:
                    r3 = One(P, name, state=st)
                    its += compare(r3.r, r0.r, r0.r, "after many calls of " + a)
            else:
                ms = r1.r.st.mem
                m0 = dict(r1.cap["mem"])
                st = counters({k: v for k, v in m0.items() if k[0] == "heap"}, {k: v for k, v in ms.items() if k[0] == "heap"})
                ob_, x = grow(r1.cap["obj"], r1.final)
                if st or x:
                    m = dict(ms)
                    m.update(st or {})
                    r3 = One(P, name, after=Frozen(r1.r, m), obj=ob_)
                    its += compare(r3.r, r0.r, r1.r, "after many calls of %s on the same value" % a)
            if any(s == "bad" for s, _ in its):
                break
        if any(s == "bad" for s, _ in its):
            break
    s, d = worst(its) if its else ("unknown", "no history analysed")
    if s == "ok":
        s, d = general(P, name, r0)
    return [dict(id=name, status=s, detail=d, rule=RULE, fns=fns)]


def init_state(P, r):
    ip, st = Interp(P), State()
    out = {}
    for k in r.st.mem:
        if k[0] == "G":
            out[k] = SM.initial(ip, k[1][3:] if k[1].startswith("tl:") else k[1])
    return out


def interleave(P, name, a, r0, r1, obj, j):
    """another thread runs the whole call `a` just before access j"""
    seen, kinds, fail = [], set(), []

    def onacq(ip, st, ref, n):
        if ref not in seen:
            seen.append(ref)
        kinds.add(ip.get(st, ref.root, ref.path).tag)
        if n != j:
            return
        o = r1.cap.get("obj") if obj else None
        here = o is not None and ref.root[0] not in ("G", "heap")
        if here:
            o = ip.get(st, ref.root, ())
            if not isinstance(o, Agg) or o.tag != r1.cap["obj"].tag:
                fail.append(1)
                return
        before = st.mem
        w = One(P, a, hist=True, same_n=obj, after=Frozen2(ip, State(dict(st.mem), st.pc)), obj=o)
        if w.r.status != "ok" or (here and w.final is None):
            fail.append(1)
            return
        for k, v in w.r.st.mem.items():
            if k[0] in ("G", "heap") and k in before:
                st.mem[k] = v
        if here:
            st.mem[ref.root] = w.final
        st.pc = w.r.st.pc
        ip.cells, ip.uid, ip.fid, ip.nloops = w.r.ip.cells, w.r.ip.uid, w.r.ip.fid, w.r.ip.nloops
    if obj:
        q = One(P, name, after=Frozen(r1.r, dict(r1.cap["mem"])), obj=r1.cap["obj"], onacq=onacq)
    else:
        q = One(P, name, after=Frozen(r1.r, {}), onacq=onacq)
    atom = all("Atomic" in k for k in kinds)
    if fail or (not atom and (len(seen) != 1 or not all("Mutex" in k for k in kinds))):
        return []
    return compare(q.r, r0.r, r1.r, "while another thread completes %s between access %d and %d of the shared state" % (a, j - 1, j))


class Frozen2(object):
    def __init__(self, ip, st):
        self.ip, self.st = ip, st


class Frozen(object):
    """the end of a run, with another memory"""

    def __init__(self, r, mem):
        self.ip = r.ip
        self.st = State(dict(mem), r.st.pc)


def general(P, name, r0):
    """independence of any content of the state"""
    st, ok_ = {}, True
    for k, v in r0.r.st.mem.items():
        if k[0] == "G":
            h = havoc(v, "hist%d" % len(st))
            if h is None:
                ok_ = False
            else:
                st[k] = h
    ob_, m = None, dict(r0.cap.get("mem", {}))
    cells = False
    if r0.cap.get("obj") is not None:
        ob_ = inner(r0.cap["obj"], "obj")
        if ob_ is None:
            ok_ = False
        cells = plain(r0.cap["obj"]) is not r0.cap["obj"] and has_cell(r0.cap["obj"])
        for k, v in r0.cap["mem"].items():
            if k[0] == "heap":
                h = inner(v, "heap%d" % len(m))
                if h is None:
                    ok_ = False
                else:
                    m[k] = h
                    cells = True
    elif any(k[0] == "heap" for k in r0.r.st.mem):
        ok_ = False
    if not ok_:
        return "unknown", "two-call histories agree"
    if cells:
        m.update(st)
        r = One(P, name, after=Frozen(r0.r, m), obj=ob_)
    else:
        r = One(P, name, state=st)
    s, d = worst(compare(r.r, r0.r, r0.r, "any earlier history"))
    return ("ok", "independent of the content of the state") if s == "ok" else ("unknown", "two-call histories agree; not independent of arbitrary content")


def has_cell(v):
    return SM._any(v, lambda x: isinstance(x, Agg) and x.tag.startswith("cell:"))


def inner(v, nm):
    """the value with arbitrary content in its cells"""
    if isinstance(v, Agg) and v.tag.startswith("cell:"):
        return havoc(v, nm)
    if isinstance(v, Agg) and has_cell(v):
        fs = [inner(x, "%s.%d" % (nm, i)) for i, x in enumerate(v.fields)]
        return None if any(x is None for x in fs) else Agg(v.tag, tuple(fs))
    return None if has_cell(v) else v


def havoc(v, nm):
    if isinstance(v, Poly):
        return sym("u:" + nm) if IT._isint(v) else sym(nm, "num")
    if isinstance(v, Cond):
        return batom(nm)
    if isinstance(v, Agg):
        fs = [havoc(x, "%s.%d" % (nm, i)) for i, x in enumerate(v.fields)]
        return None if any(x is None for x in fs) else Agg(v.tag, tuple(fs))
    if isinstance(v, Arr):
        vs = tuple(freshv() for _ in v.dims)
        return Arr(tuple(sym("u:%s.d%d" % (nm, i)) for i in range(len(v.dims))),
                   Lam(vs, IT.elem_sym(v.et, nm, tuple(pof(x) for x in vs))), "C", v.et)
    return None


def tasks(P, tier):
    sc = Scan(P)
    HIST_ROOTS.clear()
    kb = sc.kernel_bodies()
    T = {}
    for n, it in sc.items.items():
        if not it:
            continue
        bs = set().union(*it.values())
        if n.startswith(("k::", "stat::")) or (not n.startswith("u::") and not bs <= kb):
            T[n] = it
    names = {n: set(x for x in it if x[0] in ("static", "thread-local")) for n, it in T.items()}
    out = [("types", t_auto, ())]
    lst = sorted(T)
    for n in lst[:160]:
        HIST_ROOTS.add(n)
        base = n.split("::")[1]
        share = [m for m in lst if m != n and (names[m] & names[n] if names[n] else m.split("::")[:2] == n.split("::")[:2])]
        share.sort(key=lambda m: (m.split("::")[-1] != n.split("::")[-1], m.split("::")[1] == base, m))
        lim = 5 if tier == "quick" else 12
        own = any(x[0] in ("call", "cast") for x in T[n])
        out.append(("history " + n, t_hist, (n, [n] + share[:lim], own and not names[n], bool(names[n]))))
    for g in sorted(set(n.split("::")[0] for n in sc.items)):
        out.append(("scan " + g, t_scan, (sc, g)))
    return out


CHECKS = {"C21": tasks}
