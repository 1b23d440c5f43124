"""Matching of path outcomes up to what the path knows (linear normal forms)."""
from .common import *


def arg(an, n):
    a = an.fn.args[n]
    return ("arg", a[0], a[1] or (an.fn.names.get(a[0]) or [""])[0])


class P:
    """one path outcome with convenient matching"""

    def __init__(self, o):
        self.o = o
        self.st = o.st
        self.an = o.an

    def true(self, c):
        return self.an.eval_cond(self.st, c) is True

    def eq(self, a, b):
        if a == b:
            return True
        d = sub(a, b)
        if is_c(d):
            return d[1] == 0
        if self.true(mk_cmp("eq", a, b)):
            return True
        # substitute known single-atom constants
        lo, hi, _ = self.an.interval(self.st, d)
        if lo == hi == 0:
            return True
        return self._subst_zero(d)

    def _subst_zero(self, d):
        """d reduces to 0 by the path's equality facts (T == c), one at a time"""
        if is_c(d):
            return d[1] == 0
        c, p = lin_parts(d)
        for T, f in self.st.facts.items():
            if f[0] == f[1]:
                for s in (1, -1):
                    r = sub(d, mk_lin(-f[0] * s, {a: k * s for a, k in T}))
                    if is_c(r):
                        if r[1] == 0:
                            return True
        return False

    def le(self, a, b):
        d = sub(a, b)
        if is_c(d):
            return d[1] <= 0
        return self.true(le(a, b)) or self.true(eq(a, b)) or self.entails(d)

    def entails(self, L, cap=120):
        """L <= 0 follows from the path's linear facts (Fourier-Motzkin elimination)"""
        rows = []
        N, Q = self.an.NEG, self.an.POS
        for T, f in self.st.facts.items():
            if f[1] < Q:
                rows.append((dict(T), -f[1]))
            if f[0] > N:
                rows.append(({a: -k for a, k in T}, f[0]))
        c, d = lin_parts(L)
        goal = ({a: -k for a, k in d.items()}, 1 - c)       # L >= 1, to be refuted
        for a in set(d):
            lo, hi, _ = self.an.interval(self.st, a)
            if hi < Q:
                rows.append(({a: 1}, -hi))
            if lo > N:
                rows.append(({a: -1}, lo))
        for a in {a for r, _ in rows for a in r} | set(d):
            if a[0] == "op" and a[1] == "div" and is_c(a[3]) and a[3][1] > 0 and self.an.interval(self.st, a[2])[0] >= 0:
                k = a[3][1]
                c2, d2 = lin_parts(a[2])
                up = {x: -y for x, y in d2.items()}
                up[a] = up.get(a, 0) + k
                rows.append((up, -c2))                               # k*q <= x
                rows.append(({x: -y for x, y in up.items()}, c2 - k + 1))  # x <= k*q + k-1
        # only facts connected to the goal
        reach, ch = set(d), True
        while ch:
            ch = False
            for r, _ in rows:
                if not reach.isdisjoint(r) and not reach.issuperset(r):
                    reach |= set(r)
                    ch = True
        if d:
            rows = [r for r in rows if not reach.isdisjoint(r[0])]
        elif c <= 0:
            return True
        else:
            for a in {a for r, _ in rows for a in r}:
                lo, hi, _ = self.an.interval(self.st, a)
                if hi < Q:
                    rows.append(({a: 1}, -hi))
                if lo > N:
                    rows.append(({a: -1}, lo))
            goal = ({}, 0)
        rows = rows[:cap] + [goal]
        while True:
            if any(not r and c > 0 for r, c in rows):
                return True
            rows = [r for r in rows if r[0]]
            if not rows:
                return False
            cnt = {}
            for r, _ in rows:
                for a, k in r.items():
                    p, n = cnt.get(a, (0, 0))
                    cnt[a] = (p + (k > 0), n + (k < 0))
            a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
            pos = [r for r in rows if r[0].get(a, 0) > 0]
            neg = [r for r in rows if r[0].get(a, 0) < 0]
            out = {}
            for r, c in rows:
                if a not in r:
                    self._row(out, r, c)
            for r, c in pos:
                for s, e in neg:
                    k, m = -s[a], r[a]
                    t = {}
                    for x, y in r.items():
                        t[x] = t.get(x, 0) + y * k
                    for x, y in s.items():
                        t[x] = t.get(x, 0) + y * m
                    self._row(out, {x: y for x, y in t.items() if y}, c * k + e * m)
            if len(out) > 4 * cap:
                return False
            rows = [(dict(T), c) for T, c in out.items()]

    def contra(self):
        """the path's linear facts contradict each other"""
        if self.entails(C1):
            return True
        known = {T[0][0]: const(f[0] * T[0][1]) for T, f in self.st.facts.items() if len(T) == 1 and f[0] == f[1] and T[0][1] in (1, -1)}
        if known:
            for T, f in self.st.facts.items():
                if len(T) > 1 and f[2]:
                    r = C0
                    for a, k in T:
                        r = add(r, scale(known.get(a, a), k))
                    if is_c(r) and r[1] in f[2]:
                        return True
        return False

    def simp(self, v):
        """v with the comparisons inside that the path decides replaced by 0/1"""
        if v[0] in ("cmp", "not"):
            t = self.an.eval_cond(self.st, v)
            if t is None and v[0] == "cmp" and v[1] == "slt":
                t = True if self.lt(v[2], C0) else False if self.le(C0, v[2]) else None
            return v if t is None else const(int(t))
        if v[0] == "L":
            r = const(v[1])
            for a, k in v[2]:
                r = add(r, scale(self.simp(a), k))
            return r
        return v

    @staticmethod
    def _row(out, r, c):
        T = frozenset(r.items())
        if T not in out or out[T] < c:
            out[T] = c

    def lt(self, a, b):
        d = sub(a, b)
        if is_c(d):
            return d[1] < 0
        return self.true(lt(a, b)) or self.entails(add(d, C1))

    def modeq(self, e, x, n):
        """e == x mod n (0 <= x < 2n)"""
        e = strip(e)
        if e[0] == "op" and e[1] == "rem" and self.eq(e[3], n):
            x2 = e[2]
            return self.eq(x2, x) or self.eq(sub(x2, x), n) or self.eq(sub(x, x2), n)
        if self.eq(e, x) and self.lt(x, n):
            return True
        if self.eq(e, sub(x, n)) and (self.le(n, x)):
            return True
        if self.eq(e, C0) and self.eq(x, n):
            return True
        if self.eq(e, x) and self.true(mk_cmp("ne", x, n)):
            return True      # x <= n known by the caller's invariant
        return False

    def known(self, e):
        return self.an.interval(self.st, e)


def strip(e):
    while e[0] == "op" and e[1].startswith("trunc") and len(e) == 3:
        e = e[2]
    return e


def muls(e):
    return e


def ev_calls(o, *names):
    return [e for e in o.ev if e[0] == "call" and e[1] in names]


def returns(outs):
    return [o for o in outs if not o.died]


class View:
    """view of an outcome in which loads of the named fields (prefixes) are compared without versions"""

    def __init__(self, o, prefixes):
        settle = self.settle = lambda e: unver_fields(e, prefixes) if isinstance(e, tuple) and e and isinstance(e[0], str) else e
        self.raw, self.an, self.inst, self.died = o, o.an, o.inst, o.died
        self.infeasible = False
        self.val = settle(o.val) if o.val is not None else None
        self.ev = tuple((e[0], e[1], tuple(settle(x) for x in e[2]), e[3], settle(e[4]), e[5]) if e[0] == "call" else
                        ("store", settle(e[1]), settle(e[2]), e[3]) if e[0] == "store" else
                        tuple(settle(x) for x in e) for e in o.ev)
        for k in ("dst", "src"):
            if hasattr(o, k):
                setattr(self, k, getattr(o, k))
        if hasattr(o, "raw"):
            self.next = {k: settle(v) for k, v in o.raw.items()}
        self.st = o.st.copy()
        f = {}
        for T, g in o.st.facts.items():
            L = settle(mk_lin(0, dict(T)))
            if is_c(L):
                continue
            T2, s, c = o.an.term(L)
            lo, hi, ne = g
            N, Q = o.an.NEG, o.an.POS
            lo, hi, ne = (lo - c if lo > N else N), (hi - c if hi < Q else Q), frozenset(x - c for x in ne)
            if s < 0:
                lo, hi, ne = (-hi if hi < Q else N), (-lo if lo > N else Q), frozenset(-x for x in ne)
            if T2 in f:
                lo, hi, ne = max(lo, f[T2][0]), min(hi, f[T2][1]), ne | f[T2][2]
            f[T2] = (lo, hi, ne)
            if lo > hi or lo == hi and lo in ne:
                self.infeasible = True
        self.st.facts = f
        if not self.infeasible:
            self.infeasible = self.contradictory()

    def contradictory(self):
        """substitute atoms known to be constant and reduce rem(a, b) with 0 <= a < b"""
        known = {T[0][0]: g[0] for T, g in self.st.facts.items() if len(T) == 1 and T[0][1] == 1 and g[0] == g[1]}
        an = self.an

        def simp(L):
            c, d = lin_parts(L)
            r = const(c)
            for a, k in d.items():
                if a in known:
                    v = const(known[a])
                elif a[0] == "op" and a[1] == "rem":
                    n = simp(a[2])
                    v = n if an.interval(self.st, sub(n, a[3]))[1] < 0 and an.interval(self.st, n)[0] >= 0 else a
                elif a[0] == "op" and a[1] == "mul":
                    v = mulall(simp(x) for x in a[2:])
                else:
                    v = a
                r = add(r, scale(v, k))
            return r
        for T, g in self.st.facts.items():
            L = simp(mk_lin(0, dict(T)))
            if is_c(L) and (L[1] < g[0] or L[1] > g[1] or L[1] in g[2]):
                return not (len(T) == 1 and T[0][0] in known)
        return False

    def read(self, a):
        return self.settle(self.an.read(self.raw.st, a))

    def truth(self, c):
        return self.an.eval_cond(self.st, c)

    def interval(self, e):
        return self.an.interval(self.st, e)

    def trail(self):
        return self.raw.trail()

    def where(self):
        return self.raw.where()


# ---- evaluation under an assignment of numbers to terms
def evaluate(e, env):
    """the number a term is under the assignment, None if it depends on more"""
    if e in env:
        return env[e]
    k = e[0]
    if k == "c":
        return e[1]
    if k == "L":
        s = e[1]
        for a, c in e[2]:
            v = evaluate(a, env)
            if v is None:
                return None
            s += c * v
        return s
    if k == "cmp":
        v = evaluate(e[2], env)
        return None if v is None else int(v == 0 if e[1] == "eq" else v < 0)
    if k == "not":
        v = evaluate(e[1], env)
        return None if v is None else int(not v)
    if k == "sel":
        v = evaluate(e[1], env)
        return None if v is None else evaluate(e[2] if v else e[3], env)
    if k == "op" and len(e) == 4:
        x, y = evaluate(e[2], env) if isinstance(e[2], tuple) else None, evaluate(e[3], env) if isinstance(e[3], tuple) else None
        if e[1] in ("and", "mul") and (x == 0 or y == 0):
            return 0
        if x is None or y is None:
            return None
        if e[1] == "and":
            return x & y
        if e[1] == "or":
            return x | y
        if e[1] == "xor":
            return x ^ y
        if e[1] == "mul":
            return x * y
        if e[1] == "rem" and y:
            return x - y * int(x / y)
        if e[1] == "div" and y:
            return int(x / y)
    if k == "mul":
        x, y = evaluate(e[1], env), evaluate(e[2], env)
        return None if x is None or y is None else x * y
    return None


def consistent(o, env, st=None):
    """can the path be taken under the assignment, as far as its facts decide"""
    st = st or o.st
    for T, (lo, hi, ne) in st.facts.items():
        s = 0
        for a, c in T:
            v = evaluate(a, env)
            if v is None:
                s = None
                break
            s += c * v
        if s is None:
            continue
        if (lo is not None and s < lo) or (hi is not None and s > hi) or s in ne:
            return False
    return True
