"""Loop summaries.

The body of a loop is interpreted once for a symbolic iteration number t.
Induction variables get closed forms in t, buffers are opaque at the start of
the iteration; the change the body makes to them, as a function of t and the
index, is then solved for the content after all iterations."""
from vals import *
from interp import Dead, State, elem_sym, flat_elem, elem_names, elem_sorts, unflat_elem
import terms as TT

MAXUNROLL = 8
_lc = [0]


def summarise(ip, st, step, key):
    _lc[0] += 1
    if _lc[0] > 20000:
        raise Undecided("loop budget")
    t = Atom("sym", ("u:t~%d" % _lc[0],), "int")
    tp = pof(t)
    guess = ip.loopguess.setdefault(key, {})
    M = {}           # leaf -> kind
    closed = {}      # leaf -> Poly/Cond in t
    guessed = set()
    names = {}
    init = {}
    tag = _lc[0]

    def valid(leaf):
        if leaf[0] not in st.mem:
            return False
        try:
            ip.leaf_get(st.mem, leaf)
            return True
        except Exception:
            return False

    def addleaf(leaf):
        v = ip.leaf_get(st.mem, leaf)
        init[leaf] = v
        if leaf[1] and leaf[1][-1] == ("lam",):
            M[leaf] = "arr"
        elif isinstance(v, Poly):
            M[leaf] = "num"
        elif isinstance(v, Cond):
            M[leaf] = "bool"
        else:
            M[leaf] = "other"
        names[leaf] = "X%d.%d" % (tag, len(names))

    for leaf, g in list(guess.items()):
        # a leaf below another one that is also guessed may not exist here
        if not valid(leaf):
            continue
        # keyed by frame-local numbers: only reuse when the root is present
        addleaf(leaf)
        if g is not None and M[leaf] == "num":
            closed[leaf] = init[leaf] + g * tp
            guessed.add(leaf)

    def arrof(leaf):
        return ip.leaf_get(st.mem, (leaf[0], leaf[1][:-1]))

    def instantiate(s, at, arr=None):
        """sets the modified leaves to their value at iteration `at`"""
        for leaf, k in M.items():
            if leaf in closed:
                v = closed[leaf]
                v = subst(v, {t: at}) if at is not tp else v
                if isinstance(v, (Poly, Cond)) and at is not tp:
                    v = simp(v, s.facts()) if has_ite(v) else v
            elif k == "num":
                if at is not tp:
                    raise Undecided("no closed form for a loop variable")
                v = havoc(leaf)
            elif k == "bool":
                v = batom("bh:" + names[leaf], tp)
            elif k == "arr":
                a = arrof(leaf)
                if arr is not None:
                    v = arr[leaf]
                else:
                    vs = tuple(freshv() for _ in a.dims)
                    v = Lam(vs, elem_sym(a.et, names[leaf], tuple(pof(x) for x in vs)))
            else:
                v = UNDEF
            ip.leaf_set(s.mem, leaf, v)

    cplx = set()

    def havoc(leaf):
        v = init[leaf]
        if leaf in cplx or has_i(v):
            cplx.add(leaf)
            return app("h:" + names[leaf] + ".re", tp) + I * app("h:" + names[leaf] + ".im", tp)
        if TT._isint(v):
            e = None
            return pof(Atom("app", ("h:" + names[leaf], tp), "int"))
        return app("h:" + names[leaf], tp)

    ev0 = list(ip.ev)
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            raise Undecided("loop analysis does not converge")
        ip.ev = []
        s0 = st.copy()
        instantiate(s0, tp)
        start = dict(s0.mem)
        base = len(s0.pc)
        back, exits = step(s0)
        ev = ip.ev
        if not back:
            if not M:
                ip.ev = ev0 + ev
                return [(k, s) for k, ss in exits.items() for s in ss]
            break
        sb = ip.merge(back, base)
        new = []
        for r in st.mem:
            if r in start and start[r] is not sb.mem.get(r, start[r]):
                ip.leaves(start[r], sb.mem[r], r, (), new)
        fresh_leaves = [x for x in new if x not in M]
        if fresh_leaves:
            # a whole value replaces leaves below it
            for x in fresh_leaves:
                for y in [y for y in M if y[0] == x[0] and y[1][:len(x[1])] == x[1]]:
                    M.pop(y)
                    closed.pop(y, None)
                    guessed.discard(y)
                addleaf(x)
                if x[1] and x[1][-1] == ("pos",):
                    closed[x] = init[x] + tp
                    guessed.add(x)
            continue
        # ---- closed forms
        changed = False
        facts = sb.facts()
        for leaf in list(M):
            k = M[leaf]
            if k == "bool":
                # last value: usable only when it does not depend on the loop
                nv = ip.leaf_get(sb.mem, leaf)
                if leaf not in closed and isinstance(nv, Cond) and not dep(nv, names):
                    prev = subst(nv, {t: tp - 1})
                    closed[leaf] = bite(eq(tp, ZERO), init[leaf], prev)
                    changed = True
                elif leaf not in closed and isinstance(nv, Cond):
                    h = batom("bh:" + names[leaf], tp)
                    for w, neg in ((nv, False), (cnot(nv), True)):
                        hh = cnot(h) if neg else h
                        if w.kind == "and" and any(x is hh for x in w.args):
                            rest = cand(*[x for x in w.args if x is not hh])
                            if not dep(rest, names):
                                v = freshv()
                                g = batom("forall", tp, Lam((v,), subst(rest, {t: pof(v)})))
                                closed[leaf] = cor(init[leaf], cnot(g)) if neg else cand(init[leaf], g)
                                changed = True
                                break
                continue
            if k == "other":
                continue
            if k != "num":
                continue
            nv = ip.leaf_get(sb.mem, leaf)
            if not isinstance(nv, Poly):
                M[leaf] = "other"
                closed.pop(leaf, None)
                changed = True
                continue
            if has_i(nv) and leaf not in cplx:
                cplx.add(leaf)
                closed.pop(leaf, None)
                guessed.discard(leaf)
                changed = True
                continue
            if leaf in closed:
                want = subst(closed[leaf], {t: tp + 1})
                d = nv - want
                if d is not ZERO and simp(d, facts) is not ZERO:
                    if leaf in guessed:
                        guessed.discard(leaf)
                        closed.pop(leaf)
                        changed = True
                    elif leaf in getattr(summarise, "never", ()):
                        pass
                continue
            cf = closed_form(init[leaf], havoc(leaf), nv, t, names, facts)
            if cf is not None:
                closed[leaf] = cf
                changed = True
        if changed:
            continue
        break
    # remember
    for leaf in M:
        g = None
        if leaf in closed and M[leaf] == "num":
            d = closed[leaf] - init[leaf]
            q = subst(d, {t: ONE})
            if d is q * tp and q.const() is not None:
                g = q
        guess[leaf] = g
    if not back:
        # the body never comes back: zero or one pass
        ip.ev = ev0
        s0 = st.copy()
        b2, exits = step(s0)
        return [(k, s) for k, ss in exits.items() for s in ss]
    # ---- number of iterations
    live = [(k, ss) for k, ss in exits.items()]
    T, dead = trip_count(ip, live, t, base, st, key)
    c = T.const()
    if c is not None and c <= MAXUNROLL:
        ip.ev = ev0
        return unroll(ip, st, step, int(c))
    scal = [l for l in M if M[l] == "num" and l not in closed]
    # events of the body: 0 <= t < T holds there by construction of the path
    arrs = [l for l in M if M[l] == "arr"]
    virt = {}
    if scal:
        # scalars the buffers depend on, or that depend on the buffers, are
        # solved together with them
        hn = {}
        for l in scal:
            h = havoc(l)
            for x in (reim(h) if has_i(h) else (h,)):
                hn[x.single_atom().args[0]] = l
        rd = set()
        for l in arrs:
            rd |= TT.app_names(ip.leaf_get(sb.mem, l)) & set(hn)
        coupled = bool(rd)
        if not coupled:
            try:
                solve_scalars(ip, st, sb, M, scal, closed, init, names, havoc, t, T, cplx)
            except Undecided:
                if not arrs:
                    raise
                coupled = True
        if coupled:
            for l in scal:
                h, nv = havoc(l), ip.leaf_get(sb.mem, l)
                if not isinstance(nv, Poly):
                    raise Undecided("loop variable")
                hs = reim(h) if has_i(h) else (h,)
                for x, v, i0 in zip(hs, reim(nv) if has_i(h) else (nv,), reim(init[l]) if has_i(h) else (init[l],)):
                    x = x.single_atom()
                    virt[x.args[0]] = (l, v, i0, x.sort)
    # ---- buffers
    fin = {}
    if arrs:
        try:
            fin = solve_arrays(ip, st, sb, arrs, arrof, names, closed, t, T, virt)
        except Undecided as e:
            if virt:
                raise
            fin = solve_iter(ip, st, sb, arrs, arrof, names, closed, t, T, e)
        if virt:
            for l in scal:
                h = havoc(l)
                vs = [fin[x.single_atom().args[0]] for x in (reim(h) if has_i(h) else (h,))]
                closed[l] = vs[0] + I * vs[1] if len(vs) == 2 else vs[0]
    body_ev = ev
    # ---- leave the loop
    s1 = st.copy()
    if T.const() is None and not entails(s1.facts(), ge0(T)):
        raise Undecided("negative trip count")
    instantiate(s1, T, fin)
    lift(s1, sb.pc[base:], t, T, names)
    ip.ev = []
    b2, ex2 = step(s1)
    exit_ev = ip.ev
    ip.ev = ev0 + body_ev + ([] if b2 else exit_ev)
    out = []
    for k, ss in ex2.items():
        if k in dead:
            continue
        out.extend((k, s) for s in ss)
    for k in dead:
        out.extend((k, s) for s in exits[k])
    return out


DATAC = ("flt", "fle", "feq", "fzero", "is_nan", "is_finite")


def datacond(c):
    """is c a condition on data (possibly for all indices of a range)?"""
    k = c.kind
    if k == "atom":
        if c.args[0] == "forall":
            vs, b = open_lam(c.args[2])
            return isinstance(b, Cond) and datacond(b)
        return c.args[0] in DATAC
    if k in ("and", "or", "not"):
        return any(datacond(x) for x in c.args)
    return False


LOST = [0]


def lift(s, pc, t, T, names):
    """what every pass of the body requires holds after the loop, unless the
    loop makes no pass"""
    base = s.facts() + [ge0(T - 1)]
    if not feasible(base):
        return
    some = entails(s.facts(), ge0(T - 1))
    for _, c in pc:
        if dep(c, names):
            LOST[0] += 1
            continue
        if t in fv(c):
            if datacond(c):
                v = freshv()
                g = batom("forall", T, Lam((v,), subst(c, {t: pof(v)})))
                s.assume(g)
                continue
            if c.kind != "ge0":
                continue
            a = lincoef(c.args[0], t)
            if a is None or not a[0].const():
                continue
            g = subst(c, {t: ZERO if a[0].const() > 0 else T - 1})
        else:
            g = c
        if entails(base, g):
            continue
        s.assume(g if some else cor(cnot(ge0(T - 1)), g))


def unroll(ip, st, step, n):
    cur = [st]
    out = []
    s = st
    for i in range(n + 2):
        b, ex = step(s.copy())
        for k, ss in ex.items():
            out.extend((k, x) for x in ss)
        if not b:
            return out
        s = ip.merge(b, len(st.pc))
    raise Undecided("unrolling does not end")


def dep(x, names):
    """does x mention havocked loop state?"""
    for n in TT.app_names(x):
        if isinstance(n, str):
            m = n[2:] if n.startswith(("h:", "u:")) else n[3:] if n.startswith("bh:") else n
            for v in names.values():
                if m == v or m.startswith(v + "."):
                    return True
    return cdep(x, names)


def cdep(x, names):
    for c in TT._bat(x) if isinstance(x, Cond) else ():
        n = c.args[0]
        for v in names.values():
            if n == "bh:" + v or n == v or n.startswith(v + "."):
                return True
    return False


def pdiff(p, h):
    if h.single_atom() is None or not (has_ite(p)):
        return p - h
    x = p.single_atom()
    if x is not None and x.kind == "ite":
        return ite(x.args[0], pdiff(x.args[1], h), pdiff(x.args[2], h))
    return p - h


def closed_form(init, h, nv, t, names, facts):
    tp = pof(t)
    if not has_i(h):
        d = pdiff(nv, h)
        if not dep(d, names):
            d = simp(d, facts) if has_ite(d) else d
            if t not in fv(d):
                return init + tp * d
            return init + sumt(d, t, tp, facts)
        ha = h.single_atom()
        # multiplicative
        if all(sum(e for a, e in m if a is ha) == 1 for m, _ in nv.m):
            q = Poly(tuple((tuple(z for z in m if z[0] is not ha), v) for m, v in nv.m)) if True else None
            q = TT.mk({tuple(z for z in m if z[0] is not ha): v for m, v in nv.m})
            if not dep(q, names) and t not in fv(q):
                return init * power(q, tp)
    else:
        d = nv - h
        if not dep(d, names):
            if t not in fv(d):
                return init + tp * d
            return init + sumt(d, t, tp, facts)
        ra, ia = reim(nv)
        hr, hi = reim(h)
        hra, hia = hr.single_atom(), hi.single_atom()
        # nv = q*h with q free of h
        q = TT.div(nv, h)
        if not dep(q, names) and t not in fv(q):
            return init * power(q, tp)
        # try coefficient matching: re = a*hr - b*hi, im = b*hr + a*hi
        a = subst_atoms(ra, {hra: ONE, hia: ZERO})
        b = subst_atoms(ia, {hra: ONE, hia: ZERO})
        if not dep(a, names) and not dep(b, names) and t not in fv(a) and t not in fv(b):
            if (ra - (a * hr - b * hi)) is ZERO and (ia - (b * hr + a * hi)) is ZERO:
                return init * power(a + I * b, tp)
    if not dep(nv, names):
        prev = subst(nv, {t: tp - 1})
        return ite(eq(tp, ZERO), init, prev)
    return None


# ------------------------------------------------------------------ sums
_bern = {0: lambda T: T,
         1: lambda T: pscale(T * (T - 1), Fraction(1, 2)),
         2: lambda T: pscale((T - 1) * T * (2 * T - 1), Fraction(1, 6)),
         3: lambda T: pscale(T * T * (T - 1) * (T - 1), Fraction(1, 4))}


def sumt(d, t, T, facts):
    """sum_{0<=t<T} d(t)"""
    if has_i(d):
        a, b = reim(d)
        return sumt(a, t, T, facts) + I * sumt(b, t, T, facts)
    x = d.single_atom()
    if x is not None and x.kind == "ite":
        c, a, b = x.args
        if t not in fv(c):
            return ite(c, sumt(a, t, T, facts), sumt(b, t, T, facts))
        if b is ZERO or a is ZERO:
            if a is ZERO:
                c, a, b = cnot(c), b, a
            r = solve_t(conjuncts(c), t, facts)
            if r is not None:
                tau, gs = r
                g = cand(ge0(tau), lt(tau, T), *gs)
                return ite(g, subst(a, {t: tau}), ZERO)
        elif solve_t(conjuncts(c), t, facts) is not None:
            return sumt(b, t, T, facts) + sumt(ite(c, a - b, ZERO), t, T, facts)
        elif solve_t(conjuncts(cnot(c)), t, facts) is not None:
            return sumt(a, t, T, facts) + sumt(ite(c, ZERO, b - a), t, T, facts)
    out = ZERO
    dd = {}
    for m, v in d.m:
        free = tuple(z for z in m if t not in fv(z[0]))
        rest = tuple(z for z in m if t in fv(z[0]))
        dd.setdefault(free, {})[rest] = v
    for free, rs in dd.items():
        f = Poly(((free, Fraction(1)),))
        hard = {}
        for rest, v in rs.items():
            if rest == ():
                out = out + f * pscale(T, v)
            elif len(rest) == 1 and rest[0][0] is t and rest[0][1] in _bern:
                out = out + f * pscale(_bern[rest[0][1]](T), v)
            elif len(rest) == 1 and rest[0][1] == 1 and rest[0][0].kind == "ite" and (len(rs) > 1 or free or v != 1):
                out = out + f * pscale(sumt(pof(rest[0][0]), t, T, facts), v)
            else:
                hard[rest] = v
        if hard:
            out = out + f * mksum(ZERO, T, Lam((t,), TT.mk(hard)))
    return out


# ------------------------------------------------------------------ solving for t
def lincoef(p, t):
    """p = a*t + r with a free of t; None if t occurs otherwise"""
    a, r = {}, {}
    for m, v in p.m:
        e = 0
        for at, x in m:
            if at is t:
                e = x
            elif t in fv(at):
                return None
        if e == 0:
            r[m] = v
        elif e == 1:
            a[tuple(z for z in m if z[0] is not t)] = v
        else:
            return None
    return TT.mk(a), TT.mk(r)


def solve_t(lits, t, facts):
    """literals -> (tau, remaining guards with t replaced) or None"""
    best = None
    for l in lits:
        if l.kind != "eq0" or t not in fv(l):
            continue
        r = lincoef(l.args[0], t)
        if r is None:
            continue
        a, b = r
        c = a.const()
        if c is None:
            continue
        if best is None or abs(c) < abs(best[1]):
            best = (l, c, b)
    if best is None:
        # flat iteration over several axes:  u_k == unfl_k(t)
        r = solve_flat(lits, t)
        if r is not None:
            return r
        return solve_block(lits, t, facts)
    l, c, b = best
    extra = []
    if abs(c) == 1:
        tau = pscale(b, -c)
    else:
        q = -b if c > 0 else b
        n = int(abs(c))
        extra.append(eq(mod(q, n), ZERO))
        tau = fdiv(q, n)
    gs = [subst(x, {t: tau}) for x in lits if x is not l]
    return tau, extra + gs


def solve_flat(lits, t):
    atoms = {}
    for l in lits:
        if l.kind == "eq0":
            for at in l.args[0].atoms():
                if at.kind == "app" and at.args[0] == "u:unfl" and at.args[3] is pof(t):
                    r = lincoef(l.args[0], at)
                    if r is None or abs(r[0].const() or 0) != 1:
                        continue
                    k = int(at.args[1].const())
                    atoms.setdefault((at.args[2]), {})[k] = (l, pscale(r[1], -r[0].const()))
    for dims, sol in atoms.items():
        if len(sol) == len(dims):
            tau = flat(dims, [sol[k][1] for k in range(len(dims))])
            used = [sol[k][0] for k in sol]
            gs = [subst(x, {t: tau}) for x in lits if x not in used]
            for k in range(len(dims)):
                gs.append(ge0(sol[k][1]))
                gs.append(lt(sol[k][1], dims[k]))
            return tau, gs
    return None


def flat(dims, ix):
    return pof(Atom("app", ("u:flat", tuple(dims), tuple(ix)), "int"))


def unfl(k, dims, t):
    a = t.single_atom()
    if a is not None and a.kind == "app" and a.args[0] == "u:flat" and a.args[1] == tuple(dims):
        return a.args[2][k]
    if len(dims) == 1:
        return t
    return pof(Atom("app", ("u:unfl", const(k), tuple(dims), t), "int"))


TT.APPSIMP["u:unfl"] = lambda sort, k, dims, t: unfl(int(k.const()), dims, t)


def solve_block(lits, t, facts):
    """lower bound a*t+b <= j and upper bound j <= a*t+b+a-1  =>  t = (j-b) div a"""
    lows, ups = [], []
    for l in lits:
        if l.kind != "ge0" or t not in fv(l):
            continue
        r = lincoef(l.args[0], t)
        if r is None:
            continue
        a, b = r
        lows.append((l, -a, b)) # b - A*t >= 0 with A = -a
        ups.append((l, a, b))   # A*t + b >= 0
    for l1, A1, b1 in lows:
        if not entails(facts, ge0(A1 - 1)):
            continue
        for l2, A2, b2 in ups:
            if l1 is l2 or A1 is not A2:
                continue
            # b1 - A t >= 0 ; A t + b2 >= 0, b2 = A-1-b1
            if (b1 + b2) is (A1 - 1):
                tau = fdiv(b1, A1)
                gs = [subst(x, {t: tau}) for x in lits if x is not l1 and x is not l2]
                return tau, gs + [ge0(b1)]
            if entails(facts, ge0(A1 - 1 - b1 - b2)):
                # windows with gaps between them
                tau = fdiv(b1, A1)
                gs = [subst(x, {t: tau}) for x in lits if x is not l1]
                return tau, gs + [ge0(b1)]
    return None


# ------------------------------------------------------------------ trip count
def trip_count(ip, exits, t, base, st, key):
    """first iteration at which the loop is left; targets that diverge are
    returned separately"""
    tp = pof(t)
    cands = []
    dead = set()
    fr_live = None
    for k, ss in exits:
        for s in ss:
            cs = [c for g, c in s.pc[base:] if g == "b" and t in fv(c)]
            if not cs:
                dead.add(k)
                continue
            cands.append((k, cs, s))
    live = []
    cfg = ip.p.cfgs.get(key[0]) if isinstance(key, tuple) else None
    for k, cs, s in cands:
        if cfg is not None and isinstance(k, int) and k not in cfg.live:
            dead.add(k)
            continue
        live.append((k, cs, s))
    if len(live) != 1:
        raise Undecided("loop with %d exits" % len(live))
    k, cs, s = live[0]
    dead.discard(k)
    if len(cs) != 1:
        cs2 = cs
        # drop literals implied by the others
        cs = [c for c in cs2 if not entails([x for x in cs2 if x is not c] + st.facts(), c)]
        if len(cs) != 1:
            raise Undecided("compound loop condition")
    c = cs[0]
    facts = st.facts()
    if c.kind == "ge0":
        r = lincoef(c.args[0], t)
        if r is None:
            raise Undecided("loop condition")
        a, b = r
        ac = a.const()
        if ac is None or ac <= 0:
            if ac is None and entails(facts, ge0(a - 1)):
                n = fdiv(a - 1 - b, a)
                return (n if entails(facts, ge0(-b)) else ite(ge0(-b), n, ZERO)), dead
            raise Undecided("loop condition is not monotone")
        n = fdiv(const(int(ac) - 1) - b, int(ac)) if ac != 1 else -b
        n = clean(n, facts)
        d = decide(facts, ge0(-b))
        if d is True:
            return n, dead
        if d is False:
            return ZERO, dead
        return ite(ge0(-b), n, ZERO), dead
    if c.kind == "eq0":
        r = lincoef(c.args[0], t)
        if r is None:
            raise Undecided("loop condition")
        a, b = r
        ac = a.const()
        if ac is None or abs(ac) != 1:
            raise Undecided("loop condition")
        n = pscale(b, -ac)
        if not entails(facts, ge0(n)):
            raise Undecided("loop may not end")
        return n, dead
    if c.kind == "or":
        # leaves when any of several thresholds is reached
        ns = []
        for x in c.args:
            if x.kind != "ge0":
                raise Undecided("loop condition")
            r = lincoef(x.args[0], t)
            if r is None or r[0].const() != 1:
                raise Undecided("loop condition")
            ns.append(-r[1])
        n = ns[0]
        for m in ns[1:]:
            n = ite(le(n, m), n, m)
        return (n if entails(facts, ge0(n)) else ite(ge0(n), n, ZERO)), dead
    raise Undecided("loop condition " + c.kind)


def clean(n, facts):
    return simp(n, facts) if has_ite(n) else n


# ------------------------------------------------------------------ scalar recurrences
def solve_scalars(ip, st, sb, M, scal, closed, init, names, havoc, t, T, cplx):
    tp = pof(t)
    comps, inits, steps, atoms = [], [], [], []
    for l in scal:
        h = havoc(l)
        nv = ip.leaf_get(sb.mem, l)
        if not isinstance(nv, Poly):
            raise Undecided("loop variable")
        hs = reim(h) if has_i(h) else (h,)
        vs = reim(nv) if has_i(h) else (nv,)
        is_ = reim(init[l]) if has_i(h) else (init[l],)
        for a, b, c in zip(hs, vs, is_):
            atoms.append(a.single_atom())
            steps.append(b)
            inits.append(c)
        comps.append((l, has_i(h), len(atoms) - len(hs)))
    # the steps may only read the scalars themselves
    nm = {l: n for l, n in names.items()}
    for s in steps:
        if dep(subst_atoms(s, {a: ZERO for a in atoms}), nm):
            raise Undecided("coupled loop recurrence")
    rec = mkrec(atoms, inits, steps, t)
    for l, cx, k in comps:
        closed[l] = rec(k, tp) + I * rec(k + 1, tp) if cx else rec(k, tp)


def recdepth(x):
    d = 0
    for n in TT.app_names(x):
        if isinstance(n, str) and n.startswith("@r"):
            d = max(d, int(n[2:].split("_")[0]))
    return d


def mkrec(atoms, inits, steps, t):
    """simultaneous scalar recurrence: (component, passes) -> value; atoms are
    the values before pass t, steps the values after it"""
    tp = pof(t)
    uses = []
    for s in steps:
        fvs = fvx(s)
        uses.append([j for j, a in enumerate(atoms) if a in fvs])
    made = {}

    def rec(i, at):
        if i not in made:
            need = [i]
            for j in need:
                need.extend(z for z in uses[j] if z not in need)
            d = 1 + max(recdepth(steps[j]) for j in need)
            ren = {atoms[j]: app("@r%d_%d" % (d, q), tp, sort=atoms[j].sort) for q, j in enumerate(need)}
            lams = tuple(Lam((t,), subst_atoms(steps[j], ren)) for j in need)
            made[i] = (tuple(inits[j] for j in need), lams, const(d))
        ini, lams, d = made[i]
        return app("rec", ZERO, ini, lams, d, at, sort=atoms[i].sort)
    return rec


def unfold_rec(a):
    """value after T+1 passes by the values after T"""
    i, inits, lams, d, at = int(a.args[1].const()), a.args[2], a.args[3], int(a.args[4].const()), a.args[5]
    body = lams[i](at - 1)
    pre = "@r%d_" % d

    def f(x):
        if x.kind == "app" and isinstance(x.args[0], str) and x.args[0].startswith(pre):
            return app("rec", const(int(x.args[0][len(pre):])), inits, lams, const(d), at - 1, sort=x.sort)
        return None
    return rewrite(body, f)


def _recsimp(sort, i, inits, lams, d, at):
    c = at.const()
    if c is None:
        return None
    if c <= 0:
        return inits[int(i.const())]
    if c > 12:
        return None
    pre = "@r%d_" % int(d.const())
    cur = list(inits)
    for k in range(int(c)):
        now = cur

        def f(x):
            if x.kind == "app" and isinstance(x.args[0], str) and x.args[0].startswith(pre):
                return now[int(x.args[0][len(pre):])]
            return None
        cur = [rewrite(lam(const(k)), f) for lam in lams]
    return cur[int(i.const())]


TT.APPSIMP["rec"] = _recsimp


# ------------------------------------------------------------------ arrays
class Node(object):
    """one written region of one scalar component"""
    __slots__ = ("comp", "lits", "val", "tau", "guard", "def_", "deps", "kind", "name")


def split_ites(p, unchanged, facts, pre=(), depth=0, deep=False, rel=None):
    """top-level case analysis: [(literals, value)]"""
    x = p.single_atom()
    if x is not None and x.kind == "ite" and (rel is None or fv(x.args[0]) & rel):
        c, a, b = x.args
        out = []
        for cc, v in ((c, a), (cnot(c), b)):
            if cc.kind == "or":
                # split disjunctive guards
                if v is unchanged:
                    out.append((list(pre) + [cc], v))
                    continue
                neg = []
                for alt in cc.args:
                    out += split_ites(v, unchanged, facts, list(pre) + conjuncts(alt) + neg, depth + 1, deep, rel)
                    neg = neg + conjuncts(cnot(alt)) if cnot(alt).kind != "or" else neg + [cnot(alt)]
                continue
            out += split_ites(v, unchanged, facts, list(pre) + conjuncts(cc), depth + 1, deep, rel)
        return out
    if deep and has_ite(p):
        cs = [c for c in outer_ites(p) if rel is None or fv(c) & rel]
        if cs:
            c = cs[0]
            out = []
            for cc in (c, cnot(c)):
                fs = list(facts) + list(pre) + conjuncts(cc)
                if not feasible(fs):
                    continue
                out += split_ites(simp(p, fs), unchanged, facts, list(pre) + conjuncts(cc), depth + 1, deep, rel)
            return out
    return [(list(pre), p)]


def solve_arrays(ip, st, sb, arrs, arrof, names, closed, t, T, virt={}):
    tp = pof(t)
    virt = dict(virt)
    facts0 = st.facts()
    comps = {}      # component name -> (leaf, component number, sort, rank)
    for l in arrs:
        a = arrof(l)
        for j, (nm, so) in enumerate(zip(elem_names(a.et, names[l]), elem_sorts(a.et))):
            comps[nm] = (l, j, so, len(a.dims))
    info = {}
    idxvars = {}
    for l in arrs:
        a = arrof(l)
        vs = tuple(freshv() for _ in a.dims)
        ps = tuple(pof(v) for v in vs)
        idxvars[l] = (vs, ps)
        newl = ip.leaf_get(sb.mem, l)
        b = newl(*ps)
        if b is UNDEF:
            raise Undecided("buffer content lost in a loop")
        i0 = a.lam(*ps)
        new = flat_elem(a.et, b)
        old = flat_elem(a.et, i0) if i0 is not UNDEF else None
        for nm, nv, j in zip(elem_names(a.et, names[l]), new, range(len(new))):
            info[nm] = (l, nv, None if old is None else old[j])
    # a loop-carried scalar is a buffer of its values per iteration
    for nm, (leaf, v, i0, so) in virt.items():
        vs = (freshv(),)
        l = ("virt", nm)
        idxvars[l] = (vs, (pof(vs[0]),))
        comps[nm] = (l, 0, so, 1)
    # -- classify each component
    nodes = {}      # comp -> [Node] in priority order
    point = {}      # comp -> closed final value as function (idx, t)
    inT = [ge0(tp), lt(tp, T)]
    cnames = set(info) | set(virt)

    def reads(x):
        return TT.app_names(x) & cnames

    idx_facts = {}
    for l in arrs:
        vs, ps = idxvars[l]
        a = arrof(l)
        idx_facts[l] = [ge0(p) for p in ps] + [lt(p, d) for p, d in zip(ps, sbdims(ip, sb, l))]
    for nm, (l, nv, i0) in info.items():
        vs, ps = idxvars[l]
        me = pof(Atom("app", (nm,) + ps, comps[nm][2])) if comps[nm][2] != "b" else None
        if isinstance(nv, Cond):
            raise Undecided("boolean buffer in a loop")
        rel = frozenset((t,)) | frozenset(vs)
        fs = facts0 + inT + idx_facts[l]
        nv = simp(nv, fs) if has_ite(nv) else nv
        ns = []
        ok = True
        for deep, rl in ((False, rel), (True, rel), (False, None), (True, None)):
            ns = []
            ok = True
            for lits, val in split_ites(nv, me, fs, (), 0, deep, rl):
                if val is me:
                    continue
                lits = [x for x in lits if not entails(fs, x)]
                if not feasible(fs + lits):
                    continue
                r = solve_t(lits, t, fs)
                n = Node()
                n.comp, n.lits, n.val = nm, lits, val
                if r is None:
                    if any(t in fv(x) for x in lits) or reads(val):
                        # written in many iterations
                        n.kind = "multi"
                        ok = False
                    else:
                        n.kind = "stat"
                else:
                    n.kind = "once"
                    n.tau, n.guard = r
                ns.append(n)
            if ok:
                break
        if not ok:
            # pointwise accumulation
            d = pdiff(nv, me)
            if not reads(d):
                d = simp(d, fs) if has_ite(d) else d
                point[nm] = (l, "sum", d, i0)
                continue
            if all(sum(e for a_, e in m if a_ is me.single_atom()) == 1 for m, _ in nv.m):
                q = TT.mk({tuple(z for z in m if z[0] is not me.single_atom()): v for m, v in nv.m})
                if not reads(q) and t not in fv(q):
                    point[nm] = (l, "mul", q, i0)
                    continue
            raise Undecided("buffer updated repeatedly in a loop")
        nodes[nm] = ns
    for nm, (leaf, v, i0, so) in virt.items():
        l = ("virt", nm)
        (kv,), (kp,) = idxvars[l]
        idx_facts[l] = [ge0(kp), ge0(T - kp)]
        n = Node()
        n.comp, n.lits, n.val, n.kind, n.tau, n.guard = nm, [], v, "once", kp - 1, []
        nodes[nm] = [n]
        info[nm] = (l, v, i0)
    # -- accumulators read by other components are not supported
    for nm, ns in nodes.items():
        for n in ns:
            if reads(n.val) & set(point):
                raise Undecided("accumulator read inside its loop")
            for g in n.lits:
                if reads(g):
                    raise Undecided("data-dependent write position")
    for nm, ns in nodes.items():
        l = info[nm][0]
        vs, ps = idxvars[l]
        fs = facts0 + idx_facts[l]
        for n in ns:
            if n.kind == "once":
                n.guard = [simp(g, fs) for g in n.guard]
        # priority: later writer first
        ns[:] = order_nodes(ns, fs, T, t)
    # -- resolve reads
    allnodes = [n for ns in nodes.values() for n in ns]
    for k, n in enumerate(allnodes):
        n.name = "@n%d" % k
    byname = {n.name: n for n in allnodes}

    def content(nm, ix, at, facts):
        """value of component nm at index ix at the start of iteration `at`"""
        l, nv, i0 = info[nm]
        vs, ps = idxvars[l]
        if nm in virt:
            cur = i0
        else:
            a = arrof(l)
            cur = a.lam(*ix)
            cur = UNDEF if cur is UNDEF else flat_elem(a.et, cur)[comps[nm][1]]
        chain = []
        s = dict(zip(vs, ix))
        for n in nodes[nm]:
            if n.kind == "once":
                tau = subst(n.tau, s)
                g = cand(ge0(tau), lt(tau, at), *[subst(x, s) for x in n.guard])
                v = pof(Atom("app", (n.name,) + tuple(ix), comps[nm][2]))
            else:
                g = cand(ge0(at - 1), *[subst(x, s) for x in n.lits])
                v = pof(Atom("app", (n.name,) + tuple(ix) + (at - 1,), comps[nm][2]))
            d = decide(facts, g)
            if d is False:
                continue
            if d is True:
                chain.append((TRUE, v))
                break
            chain.append((simp(g, facts) if g.kind in ("and", "or") else g, v))
        if chain and chain[-1][0] is TRUE:
            cur = chain.pop()[1]
        if cur is UNDEF and chain:
            if nm in virt or not any(entails(facts, ge0(x - d)) for x, d in zip(ix, arrof(l).dims)):
                raise Undecided("possibly uninitialised element")
            # beyond the length at the start of the loop: exists only once pushed
            cur = chain.pop()[1]
        for g, v in reversed(chain):
            cur = ite(g, v, cur)
        return cur

    for n in allnodes:
        l = info[n.comp][0]
        vs, ps = idxvars[l]
        if n.kind == "once":
            v = subst(n.val, {t: n.tau})
            fs = facts0 + idx_facts[l] + [ge0(n.tau), lt(n.tau, T)] + n.guard
            at = n.tau
        else:
            v = n.val
            fs = facts0 + idx_facts[l] + inT + n.lits
            at = tp

        def rd(x, facts):
            """resolve reads, tracking the conditions of conditionals"""
            return resolve_reads(x, cnames, lambda nm, ix, f: content(nm, ix, at, f), facts)
        v = simp(v, fs) if has_ite(v) else v
        n.def_ = rd(v, fs)
        if n.def_ is UNDEF:
            raise Undecided("uninitialised element")
        n.deps = TT.app_names(n.def_) & set(byname)
    # -- inline acyclic definitions, tie the rest with "fix"
    names_in_cycle = cycles(byname)
    done = {}

    def node_lam(n):
        """definition as function of the index (and t for stationary writes)"""
        if n.name in done:
            return done[n.name]
        vs = idxvars[info[n.comp][0]][0]
        args = vs if n.kind == "once" else vs + (t,)
        if n.name in names_in_cycle:
            scc = sorted(names_in_cycle[n.name])
            # definitions with references outside the component inlined
            inl = [inline(byname[m].def_, set(scc)) for m in scc]
            d = 1 + max(selfdepth(b) for b in inl)
            bodies = []
            for m, b in zip(scc, inl):
                q = byname[m]
                b = rename_self(b, {x: "@%d.%d" % (d, i) for i, x in enumerate(scc)})
                qa = idxvars[info[q.comp][0]][0]
                if q.kind != "once":
                    qa = qa + (t,)
                bodies.append(Lam(qa, b))
            bodies = tuple(bodies)
            if len(scc) == 1 and len(bodies[0].n) == 1 and comps[byname[scc[0]].comp][2] == "int":
                cf = telescoped(bodies[0], "@%d.0" % d)
                if cf is not None:
                    done[scc[0]] = cf
                    return cf
            for i, m in enumerate(scc):
                q = byname[m]
                qa = idxvars[info[q.comp][0]][0]
                if q.kind != "once":
                    qa = qa + (t,)
                done[m] = Lam(qa, pof(Atom("app", ("fix", const(i), bodies, const(d)) + tuple(pof(x) for x in qa), comps[q.comp][2])))
        else:
            done[n.name] = Lam(args, inline(n.def_, set()))
        return done[n.name]

    def inline(x, keep):
        def f(a):
            if a.kind == "app" and a.args[0] in byname and a.args[0] not in keep:
                return node_lam(byname[a.args[0]])(*a.args[1:])
            return None
        return rewrite(x, f)

    # -- final contents
    out = {}
    for nm in virt:
        out[nm] = inline(content(nm, (T,), T, facts0), set())
    for l in arrs:
        a = arrof(l)
        vs, ps = idxvars[l]
        fs = facts0 + idx_facts[l]
        vals = []
        for nm in elem_names(a.et, names[l]):
            if nm in point:
                _, k, d, i0 = point[nm]
                if i0 is None:
                    raise Undecided("accumulation into an uninitialised buffer")
                if k == "sum":
                    vals.append(i0 + sumt(d, t, T, fs))
                else:
                    vals.append(i0 * power(d, T))
                continue
            v = content(nm, ps, T, fs)
            if v is not UNDEF:
                v = inline(v, set())
            vals.append(v)
        if any(v is UNDEF for v in vals):
            out[l] = Lam(vs, UNDEF)
        else:
            out[l] = Lam(vs, unflat_elem(a.et, vals))
    return out


def solve_iter(ip, st, sb, arrs, arrof, names, closed, t, T, err):
    """whole-buffer iteration: the content after T passes as the T-th iterate
    of one pass"""
    comps, inits, steps = [], [], []
    for l in arrs:
        a = arrof(l)
        vs = tuple(freshv() for _ in a.dims)
        ps = tuple(pof(v) for v in vs)
        newl = ip.leaf_get(sb.mem, l)
        b = newl(*ps)
        i0 = a.lam(*ps)
        if b is UNDEF or i0 is UNDEF:
            raise err
        fs = st.facts() + [ge0(pof(t)), lt(pof(t), T)] + [ge0(p) for p in ps] + [lt(p, d) for p, d in zip(ps, sbdims(ip, sb, l))]
        for nm, so, nv, ov in zip(elem_names(a.et, names[l]), elem_sorts(a.et), flat_elem(a.et, b), flat_elem(a.et, i0)):
            if isinstance(nv, Cond) or isinstance(ov, Cond):
                raise err
            comps.append((nm, so))
            inits.append(Lam(vs, ov))
            steps.append(((t,) + vs, simp(nv, fs) if has_ite(nv) else nv))
    cn = {c[0]: i for i, c in enumerate(comps)}
    own = {names[l]: 1 for l in arrs}
    for _, s in steps:
        rest = rewrite(s, lambda a: ZERO if a.kind == "app" and a.args[0] in cn else None)
        if dep(rest, names):
            raise err
    pt = pointwise(comps, inits, steps, t, T)
    if pt is not None:
        out, k = {}, 0
        for l in arrs:
            a = arrof(l)
            vs = tuple(freshv() for _ in a.dims)
            vals = []
            for _ in elem_names(a.et, names[l]):
                vals.append(pt(k, tuple(pof(v) for v in vs)))
                k += 1
            out[l] = Lam(vs, unflat_elem(a.et, vals))
        return out
    d = 1 + max(selfdepth(s) for _, s in steps)
    lams = tuple(Lam(vs, rename_self(s, {nm: "@%d.%d" % (d, i) for nm, i in cn.items()})) for vs, s in steps)
    out = {}
    k = 0
    for l in arrs:
        a = arrof(l)
        vs = tuple(freshv() for _ in a.dims)
        vals = []
        for nm in elem_names(a.et, names[l]):
            vals.append(pof(Atom("app", ("iter", const(k), T, tuple(inits), lams, const(d)) + tuple(pof(v) for v in vs), comps[k][1])))
            k += 1
        out[l] = Lam(vs, unflat_elem(a.et, vals))
    return out


def pointwise(comps, inits, steps, t, T):
    """every pass updates an element from the element itself, everywhere or at
    one position that stays the same: a recurrence per position"""
    n = len(steps[0][0]) - 1
    if any(len(vs) - 1 != n for vs, _ in steps):
        return None
    idx = [sym("u:pw%d" % i) for i in range(n)]
    ia = [next(iter(x.atoms())) for x in idx]
    cn = {c[0]: i for i, c in enumerate(comps)}
    st2, where = [], None
    for (vs, s), (nm, so) in zip(steps, comps):
        s = subst(s, dict(zip(vs[1:], idx)))
        st2.append(s)
    me = [app(nm, *idx, sort=so) for nm, so in comps]
    for k, s in enumerate(st2):
        if s is me[k]:
            continue
        a = s.single_atom()
        if a is None or a.kind != "ite":
            where = None
            break
        c, u, v = a.args
        if u is me[k]:
            c, v, u = cnot(c), u, v
        if v is not me[k]:
            where = None
            break
        w = position(c, ia, t, cn)
        if w is None or (where is not None and where != w):
            where = None
            break
        where = w
        st2[k] = ("at", u)
    if where is None:
        st2 = [subst(s, dict(zip(vs[1:], idx))) for vs, s in steps]
        at = idx
    else:
        st2 = [s[1] if isinstance(s, tuple) else s for s in st2]
        at = list(where)
    out = []
    atoms = [sym("u:pws%d" % i, so) for i, (_, so) in enumerate(comps)]
    aa = [next(iter(x.atoms())) for x in atoms]
    for k, s in enumerate(st2):
        bad = []

        def f(x):
            if x.kind == "app" and x.args[0] in cn:
                if all(p is q for p, q in zip(x.args[1:], at)) or all(p is q for p, q in zip(x.args[1:], idx)):
                    return atoms[cn[x.args[0]]]
                bad.append(x)
            return None
        s = rewrite(s, f)
        if bad or any(nm in TT.app_names(s) for nm in cn):
            return None
        if where is not None:
            sub = {}
            for w, i in zip(at, idx):
                wa = w.single_atom()
                if wa is not None and wa.kind == "sym":
                    sub[wa] = i
            s = subst_atoms(s, sub)
        out.append(s)

    def val(k, ix):
        sub = dict(zip(ia, ix))
        ini = [i(*ix) for i in inits]
        r = mkrec(aa, ini, [subst(s, sub) for s in out], t)(k, T)
        if where is None:
            return r
        hit = cand(*[eq(i, w) for i, w in zip(ix, at)])
        return ite(hit, r, ini[k])
    return val


def position(c, ia, t, cn):
    """the fixed position w of a condition idx = w, or None"""
    w = {}
    for x in conjuncts(c):
        if x.kind != "eq0":
            return None
        p = x.args[0]
        f = fvx(p)
        hit = [a for a in ia if a in f]
        if len(hit) != 1 or hit[0] in w or t in f or any(n in TT.app_names(p) for n in cn):
            return None
        r = lincoef(p, hit[0])
        if r is None or r[0].const() is None or abs(r[0].const()) != 1:
            return None
        w[hit[0]] = pscale(r[1], -r[0].const())
    return tuple(w[a] for a in ia) if len(w) == len(ia) else None


def _itersimp(sort, i, at, inits, steps, d, *ix):
    c = at.const()
    if c is not None and c <= 0:
        return inits[int(i.const())](*ix)
    return None


TT.APPSIMP["iter"] = _itersimp


def unfold_iter(a):
    """content after T+1 passes expressed by the content after T passes"""
    i, at, inits, steps, d = int(a.args[1].const()), a.args[2], a.args[3], a.args[4], int(a.args[5].const())
    body = steps[i](at - 1, *a.args[6:])
    pre = "@%d." % d

    def f(x):
        if x.kind == "app" and isinstance(x.args[0], str) and x.args[0].startswith(pre):
            return app("iter", const(int(x.args[0][len(pre):])), at - 1, inits, steps, const(d), *x.args[1:], sort=x.sort)
        return None
    return rewrite(body, f)


def sbdims(ip, sb, l):
    return ip.leaf_get(sb.mem, (l[0], l[1][:-1])).dims


def resolve_reads(x, cnames, fn, facts):
    """replace reads app(nm, idx) by fn(nm, idx, facts-in-scope)"""
    memo = {}

    def go(x, facts, fk):
        if isinstance(x, tuple):
            return tuple(go(y, facts, fk) for y in x)
        if not isinstance(x, (Poly, Cond, Atom, Lam)):
            if hasattr(x, "map"):
                return x.map(lambda y: go(y, facts, fk))
            return x
        if not (TT.app_names(x) & cnames):
            return pof(x) if isinstance(x, Atom) else x
        k = (x, fk)
        r = memo.get(k)
        if r is not None:
            return r
        if isinstance(x, Poly):
            acc = {}
            for m, v in x.m:
                tm = const(v)
                for a, e in m:
                    na = go(a, facts, fk)
                    tm = pmul(tm, ppow(na, e) if e >= 0 else ppow(inv(na), -e))
                addto(acc, tm)
            r = mk(acc)
        elif isinstance(x, Atom):
            if x.kind == "ite":
                c = go(x.args[0], facts, fk)
                f1 = facts + conjuncts(c)
                f2 = facts + conjuncts(cnot(c))
                r = ite(c, go(x.args[1], f1, fk + (c, 1)), go(x.args[2], f2, fk + (c, 0)))
            elif x.kind == "app" and x.args[0] in cnames:
                ix = tuple(go(a, facts, fk) for a in x.args[1:])
                r = fn(x.args[0], ix, facts)
                if r is UNDEF:
                    raise Undecided("uninitialised element read")
            elif x.kind == "sum":
                lo, hi = go(x.args[0], facts, fk), go(x.args[1], facts, fk)
                vs, b = open_lam(x.args[2])
                f2 = facts + [ge0(pof(vs[0]) - lo), lt(pof(vs[0]), hi)]
                r = mksum(lo, hi, Lam(vs, go(b, f2, fk + (x, 2))))
            else:
                na = tuple(go(a, facts, fk) for a in x.args)
                r = rebuild_atom(x, na)
        elif isinstance(x, Cond):
            r = rebuild_cond(x.kind, tuple(go(a, facts, fk) for a in x.args))
        else:
            vs, b = open_lam(x)
            r = Lam(vs, go(b, facts, fk))
        memo[k] = r
        return r
    return go(x, list(facts), ())


def order_nodes(ns, facts, T, t):
    """later writers first; raises when the order depends on the index"""
    if len(ns) < 2:
        return ns
    after = {i: set() for i in range(len(ns))}
    for i in range(len(ns)):
        for j in range(i + 1, len(ns)):
            a, b = ns[i], ns[j]
            if a.kind == "stat" and b.kind == "stat":
                continue        # same iteration: the path conditions are exclusive
            if a.kind == "stat" or b.kind == "stat":
                s, o = (a, b) if a.kind == "stat" else (b, a)
                both = facts + s.lits + o.guard + [ge0(o.tau), lt(o.tau, T)]
                if feasible(both):
                    raise Undecided("mixed writes")
                continue
            both = facts + a.guard + b.guard + [ge0(a.tau), lt(a.tau, T), ge0(b.tau), lt(b.tau, T)]
            if not feasible(both):
                continue
            if not feasible(both + [ge0(b.tau - a.tau)]):
                after[j].add(i)     # a always later: a first
            elif not feasible(both + [ge0(a.tau - b.tau)]):
                after[i].add(j)
            else:
                if not feasible(both + [cnot(eq(a.tau, b.tau))]):
                    continue        # same iteration: exclusive by path condition
                raise Undecided("write order")
    out = []
    left = set(range(len(ns)))
    while left:
        ready = [i for i in sorted(left) if not (after[i] & left)]
        if not ready:
            raise Undecided("cyclic write order")
        out.append(ns[ready[0]])
        left.discard(ready[0])
    return out


def cycles(byname):
    """name -> frozenset of its strongly connected component, for cyclic ones"""
    index, low, onst, stack, res = {}, {}, set(), [], {}
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        onst.add(v)
        for w in sorted(byname[v].deps):
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = set()
            while True:
                w = stack.pop()
                onst.discard(w)
                c.add(w)
                if w == v:
                    break
            if len(c) > 1 or v in byname[v].deps:
                for w in c:
                    res[w] = frozenset(c)
    for v in sorted(byname):
        if v not in index:
            go(v)
    return res


def selfdepth(x):
    d = 0
    for n in TT.app_names(x):
        if isinstance(n, str) and n[0] == "@" and n[1:2].isdigit():
            d = max(d, int(n[1:].split(".")[0]))
    return d


def telescoped(lam, me):
    """closed form of F(i) = c(i) + (i >= s ? F(i-1) : b(i)), or None"""
    vs, b = open_lam(lam)
    i = pof(vs[0])
    if not isinstance(b, Poly):
        return None
    hit, rest = None, {}
    for m, v in b.m:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite" and me in TT.app_names(m[0][0]):
            if hit is not None or v != 1:
                return None
            hit = m[0][0]
        else:
            rest[m] = v
    if hit is None:
        return None
    c = TT.mk(rest)
    cond, x, y = hit.args
    if cond.kind != "ge0" or me in TT.app_names(c) or me in TT.app_names(y):
        return None
    a = x.single_atom()
    if a is None or a.kind != "app" or a.args[0] != me or (a.args[1] - (i - 1)) is not ZERO:
        return None
    s = i - cond.args[0]
    if vs[0] in fv(s):
        return None
    if vs[0] in fv(c):
        w = freshv()
        up = sumt(subst(c, {vs[0]: pof(w) + s}), w, i - s + 1, [])
        c0 = subst(c, {vs[0]: s - 1})
    else:
        up, c0 = c * (i - s + 1), c
    y0 = subst(y, {vs[0]: s - 1})
    return Lam(vs, ite(ge0(i - s + 1), up + c0 + (simp(y0, []) if has_ite(y0) else y0), c + y))


def rename_self(x, m):
    def f(a):
        if a.kind == "app" and a.args[0] in m:
            return pof(Atom("app", (m[a.args[0]],) + a.args[1:], a.sort))
        return None
    return rewrite(x, f)


def unfold_fix(a):
    """one unfolding of a fix application (an Atom)"""
    i, bodies, d = int(a.args[1].const()), a.args[2], int(a.args[3].const())
    body = bodies[i](*a.args[4:])
    pre = "@%d." % d

    def f(x):
        if x.kind == "app" and isinstance(x.args[0], str) and x.args[0].startswith(pre):
            return pof(Atom("app", ("fix", const(int(x.args[0][len(pre):])), bodies, const(d)) + x.args[1:], x.sort))
        return None
    return rewrite(body, f)


def fix_inner(a):
    """definitions nested inside the definition of a fix application"""
    out, seen = set(), set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if isinstance(y, Lam):
            go(y.body)
            return
        if not isinstance(y, (Poly, Cond, Atom)) or y in seen:
            return
        seen.add(y)
        if isinstance(y, Poly):
            for m, _ in y.m:
                for z, _e in m:
                    go(z)
            return
        if isinstance(y, Atom) and y.kind == "app" and y.args[0] == "fix":
            out.add(y.args[2])
        for z in y.args:
            go(z)
    go(a.args[2])
    return out
