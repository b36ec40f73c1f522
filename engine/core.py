"""Running an entry point through the analysis, and comparing results."""
import re
import time
from terms import *
import terms as TT
from vals import *
import interp as IT
from interp import Interp, State, Program, Dead
import models as MM
import ops as OPS
import prove as PV


class Missing(Exception):
    pass


class Res(object):
    """outcome of one entry point: how it ends (ok/dead/undecided), the facts
    under which it returns, the returned value and the memory"""

    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.why = ""
        self.ret = None
        self.ip = None
        self.st = None
        self.mem0 = {}
        self.args = {}

    def facts(self):
        return self.st.facts()

    def buf(self, name):
        return self.st.mem[("A", name)]

    def buf0(self, name):
        return self.mem0[("A", name)]


def anchor(P, name):
    """the analysed function an entry point calls first"""
    return name


def run(P, name, opaque=None, pre=None, rename=None, after=None, setup=None):
    r = Res(name)
    bid = P.roots.get(name)
    if bid is None:
        r.status, r.why = "undecided", "entry point absent"
        return r
    b = P.bodies[bid]
    ip = Interp(P, opaque)
    st = State()
    r.ip, r.st = ip, st
    if after is not None:
        # continues in the memory another run left behind
        st.mem.update(after.st.mem)
        st.pc = after.st.pc
        ip.cells, ip.uid, ip.fid, ip.nloops = after.ip.cells, after.ip.uid, after.ip.fid, after.ip.nloops
    if setup:
        setup(ip, st, bid)
    names = [b["names"].get(str(i + 1), chr(97 + i)) for i in range(b["args"])]
    try:
        rn = rename or (lambda x: x)
        args = [ip.symval(b["locals"][i + 1], rn(names[i]), st) for i in range(b["args"])]
        r.mem0 = dict(st.mem)
        r.args = dict(zip(names, args))
        if pre:
            a2 = pre(ip, st, r.args)
            if a2:
                r.args.update(a2)
                args = [r.args[n] for n in names]
            r.mem0 = dict(st.mem)
        r.ret = ip.exec_body(bid, args, st)
    except Dead:
        r.status = "dead"
    except Undecided as e:
        r.status, r.why = "undecided", str(e)[:200]
    except RecursionError:
        r.status, r.why = "undecided", "recursion"
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, ZeroDivisionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.status, r.why = "undecided", "analysis error %s %s (%s:%d)" % (type(e).__name__, str(e)[:80], tb.filename.split("/")[-1], tb.lineno)
    return r


def fns_of(r):
    return set(getattr(r.ip, "fns", ()) or ()) if r.ip else set()


def nolayout(facts):
    """facts without the memory-layout conditions"""
    out = []
    for f in facts:
        for c in conjuncts(f):
            if c.kind == "atom" and c.args[0] in ("std", "contiguous", "fortran"):
                continue
            out.append(c)
    return out


LAYOUT = ("std", "contiguous", "fortran")


def drop_layout(c):
    """conditions with owned standard-layout arguments"""
    k = c.kind
    if k == "atom" and c.args[0] in LAYOUT:
        return TRUE if c.args[0] != "fortran" else FALSE
    if k == "not":
        return cnot(drop_layout(c.args[0]))
    if k == "and":
        return cand(*[drop_layout(x) for x in c.args])
    if k == "or":
        return cor(*[drop_layout(x) for x in c.args])
    return c


def lemmas(x, facts):
    """bounds of flattened indices occurring in x"""
    out = []
    seen = set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if not isinstance(y, (Poly, Cond, Atom)) or y in seen:
            return
        seen.add(y)
        if isinstance(y, Poly):
            for m, _ in y.m:
                for a, _e in m:
                    go(a)
        elif isinstance(y, Cond):
            for a in y.args:
                go(a)
        else:
            if y.kind == "app" and y.args[0] == "u:flat":
                dims, ix = y.args[1], y.args[2]
                if all(entails(facts, ge0(i)) and entails(facts, lt(i, d)) for d, i in zip(dims, ix)):
                    pr = ONE
                    for d in dims:
                        pr = pr * d
                    out.append(ge0(pr - 1 - pof(y)))
            for a in y.args:
                if not isinstance(a, Lam):
                    go(a)
    go(x)
    return out


def cmp_vals(a, b, facts, secs=40, hi=9, what="", unfold=0):
    """compare two abstract values: list of (status, detail)"""
    facts = list(facts)
    if a is b:
        return [("ok", what)]
    if isinstance(a, IteV) or isinstance(b, IteV):
        c = (a if isinstance(a, IteV) else b).f[0]
        out = []
        for lit, k in ((c, 1), (cnot(c), 2)):
            f2 = facts + conjuncts(lit)
            if not feasible(f2):
                continue
            out += cmp_vals(PV.pick(a, c, k), PV.pick(b, c, k), f2, secs, hi, what, unfold)
        return out
    if isinstance(a, Poly) and isinstance(b, Poly):
        if "u:flat" in TT.app_names((a, b) + tuple(facts)):
            # linearised positions: equal extents by name
            sub = {k: v for k, v in PV.eqsubst(facts) if k.kind == "sym" and not k.args[0].startswith("u:i")}
            if sub:
                a, b = PV.subst_any(a, sub), PV.subst_any(b, sub)
                facts = [PV.subst_cond(c, sub) for c in facts]
        f2 = facts + lemmas((a, b), facts)
        s, d = PV.check_eq(a, b, f2, secs=secs, hi=hi, unfold=unfold)
        return [(s, what + (": " + d if d else ""))]
    if isinstance(a, Cond) and isinstance(b, Cond):
        if PV.eqv(a, b, facts):
            return [("ok", what)]
        for x, y in ((a, b), (b, a)):
            env = PV.differ_cond(cor(cnot(x), y), facts, secs=secs)
            if env is not None:
                return [("bad", "%s: conditions differ at %s" % (what, PV.showenv(env)))]
        return [("unknown", what)]
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) != len(b.dims):
            return [("bad", what + ": rank differs")]
        out = []
        for i, (x, y) in enumerate(zip(a.dims, b.dims)):
            out += cmp_vals(x, y, facts, secs, hi, what + " extent %d" % i)
        if any(s != "ok" for s, _ in out):
            return out
        vs = [pof(freshv()) for _ in a.dims]
        vs = [sym("u:i%d" % i) for i in range(len(a.dims))]
        f = facts + [ge0(v) for v in vs] + [lt(v, d) for v, d in zip(vs, a.dims)]
        return out + cmp_vals(a.lam(*vs), b.lam(*vs), f, secs, hi, what + " element", unfold)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.fields) != len(b.fields):
            return [("unknown", what + ": different aggregates")]
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            out += cmp_vals(x, y, facts, secs, hi, "%s.%d" % (what, i), unfold)
        return out
    if isinstance(a, EnumV) and isinstance(b, EnumV) and a.name == b.name:
        out = []
        for c1, v1, p1 in a.cases:
            f1 = facts + conjuncts(c1)
            if not feasible(f1):
                continue
            for c2, v2, p2 in b.cases:
                f2 = f1 + conjuncts(c2)
                if not feasible(f2):
                    continue
                if v1 != v2:
                    if next(iter(PV.models(f2, (), count=1)), None) is not None:
                        out.append(("bad", "%s: variant %s vs %s" % (what, v1, v2)))
                    else:
                        out.append(("unknown", what))
                    continue
                for i, (x, y) in enumerate(zip(p1, p2)):
                    out += cmp_vals(x, y, f2, secs, hi, "%s.%d" % (what, i), unfold)
        return out or [("ok", what)]
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.name.startswith("q:") and b.name.startswith("q:"):
            if a.name == b.name and a.f[1] == b.f[1] and len(a.f) == len(b.f):
                out = []
                for x, y in zip(a.f[2:], b.f[2:]):
                    if isinstance(x, Val) or isinstance(x, Poly):
                        out += cmp_vals(x, y, facts, secs, hi, what)
                return out or [("ok", what)]
            return [("bad", "%s: %s of %s instead of %s of %s" % (what, a.name[2:], a.f[1], b.name[2:], b.f[1]))]
        if a.name == "plan" and b.name == "plan":
            if a.f[1:3] != b.f[1:3]:
                return [("bad", "%s: plan %s instead of %s" % (what, a.f[1:3], b.f[1:3]))]
            return cmp_vals(a.f[3], b.f[3], facts, secs, hi, what + " plan length")
    return [("unknown", "%s: incomparable %s / %s" % (what, type(a).__name__, type(b).__name__))]


def worst(items):
    for s in ("bad", "unknown"):
        for x in items:
            if x[0] == s:
                return x
    return ("ok", "%d comparisons" % len(items))


def cmp_pc(got, want, base=(), what="completes when"):
    """the entry point returns exactly under the facts `want`
    (each: list of Cond); returns list of (status, detail)"""
    out = []
    got = [drop_layout(simp(c, [])) for c in got]
    want = list(want)
    g = []
    for c in got:
        if c not in g and c is not TRUE:
            g.append(c)
    for c in want:
        for x in conjuncts(c):
            s, d = PV.check_cond(x, list(base) + g)
            out.append((s, "" if s == "ok" else "accepted although not %s; %s" % (str(x)[:160], d)))
    for c in g:
        if c.kind == "atom" and c.args[0] not in ("fzero",):
            pass
        s, d = PV.check_cond(c, list(base) + want)
        out.append((s, "" if s == "ok" else "refused although allowed: needs %s; %s" % (str(c)[:160], d)))
    return out
