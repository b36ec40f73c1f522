"""Rational identities over recursively defined sequences.

A sum of products of normal forms is compared with zero by evaluating it in a
large prime field with random values for its leaves (Schwartz-Zippel; the
chance of accepting a non-zero form is below 1e-40).  Applications of recursive definitions are
leaves until they are unfolded; each unfolding replaces one application by its
definition, so a sum that vanishes for arbitrary leaf values vanishes for the
actual ones."""
import random
from terms import *
import terms as TT
import loops as LL
import prove as PV


def _prime(n):
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


MOD = (1 << 61) - 3
while not (MOD % 4 == 1 and _prime(MOD)):
    MOD -= 4
_a = 2
while pow(_a, (MOD - 1) // 2, MOD) != MOD - 1:
    _a += 1
ROOT = pow(_a, (MOD - 1) // 4, MOD)


class Pole(Exception):
    pass


class Field(object):
    def __init__(self, seed, unfolded):
        self.rng = random.Random(seed)
        self.unfolded = unfolded
        self.memo = {}
        self.busy = set()

    def poly(self, x):
        k = self.memo.get(x)
        if k is not None:
            return k
        s = 0
        for m, v in x.m:
            t = v.numerator % MOD * pow(v.denominator, -1, MOD)
            for a, e in m:
                w = self.atom(a)
                if e < 0:
                    if w == 0:
                        raise Pole()
                    w, e = pow(w, -1, MOD), -e
                t = t * pow(w, e, MOD) % MOD
            s += t
        self.memo[x] = s % MOD
        return s % MOD

    def atom(self, a):
        k = self.memo.get(a)
        if k is not None:
            return k
        if a in self.unfolded:
            if a in self.busy:
                raise Pole()
            self.busy.add(a)
            k = self.poly(self.unfolded[a])
            self.busy.discard(a)
        elif a.kind == "inv":
            w = self.poly(a.args[0])
            if w == 0:
                raise Pole()
            k = pow(w, -1, MOD)
        elif a.kind == "I":
            k = ROOT
        else:
            k = self.rng.randrange(1, MOD)
        self.memo[a] = k
        return k


def vanishes(products, unfolded, rounds=3):
    for k in range(rounds):
        v = Field(k * 7919 + 1, unfolded)
        try:
            if sum(v.poly(c) * v.poly(x) for c, x in products) % MOD:
                return False
        except Pole:
            return False
    return True


class Conditional(Exception):
    pass


def identity(products, facts, closed, steps=40):
    """the sum of the products is zero under the facts (without conditionals);
    `closed`: facts that involve no index"""
    def norm(x):
        while True:
            q = simp(x, closed)
            if q is x:
                break
            x = q
        x = simp(x, facts)
        if TT.outer_ites(x):
            raise Conditional()
        return x
    try:
        out = [(norm(c), norm(x)) for c, x in products]
    except Conditional:
        return False
    done, un = {}, {}
    for k in range(steps):
        if vanishes(out, done):
            return True
        leaves = set()
        for c, x in out:
            leaves |= PV.fix_atoms(x) | PV.fix_atoms(c)
        for x in done.values():
            leaves |= PV.fix_atoms(x)
        cs = []
        for a in leaves:
            if a in done:
                continue
            if a not in un:
                try:
                    un[a] = norm(LL.unfold_fix(a))
                except Conditional:
                    un[a] = None
            cs.append(a)
        at = {a: PV.fix_atoms(un[a]) if un[a] is not None else set() for a in cs}
        free = [a for a in cs if un[a] is not None and not any(a in at[c] for c in cs if c is not a)]
        if not free:
            return False
        known, open_ = set(cs) | set(done), set(cs)

        def rank(a):
            new = at[a] - known
            if at[a] & open_ - {a} and not any(c.args[2] == a.args[2] for c in new):
                return (0, -int(a.args[3].const()), a.key)
            return (1, len(new), a.key)
        best = min(free, key=rank)
        done[best] = un[best]
    return False
