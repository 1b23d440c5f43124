"""Cut-point decomposition: a function is split at its loop headers into acyclic
fragments.  Every fragment starts at the function's entry or at a loop header (all
live values symbolic, memory unknown) and ends at the next loop header or at
a return.  A property that holds of every fragment, given an invariant at each
cut point, holds of every execution, whatever the number of iterations."""
from .norm import *


class FragRule(Collect):
    def __init__(self, calls=None, stores=None, maxev=60):
        Collect.__init__(self, calls, stores, maxev)
        self.arr = []

    def arrive(self, an, st, b, s, raw, inst):
        o = Outcome(an, st.copy(), inst, None, False)
        o.dst, o.raw = s, raw
        self.arr.append(o)


class Fragments:
    """All fragments of a function.  What is carried across a cut point is inferred:
    facts and values known on every arrival are assumed at the start of the fragment
    and re-checked on every arrival until the set is inductive (Houdini)."""

    def __init__(self, ctx, prog, fname, make, assume=None, infer=True):
        self.ctx, self.prog, self.make, self.assume = ctx, prog, make, assume
        self.fn = prog.fn(fname)
        self.headers = sorted(self.fn.loops)
        self.inv = {h: {} for h in self.headers}
        self.sub = {h: {} for h in self.headers}
        self.msub = {h: {} for h in self.headers}      # values of locals in memory
        self._go([0] + self.headers)
        if infer and self.headers:
            # what was considered before is not proposed again
            self.tried = {h: set() for h in self.headers}
            for n in range(3 if len(self.headers) > 1 else 1):
                kept = ([dict(x) for x in self.inv.values()], [dict(x) for x in self.sub.values()], [dict(x) for x in self.msub.values()])
                if not self._candidates(n > 0):
                    break
                for _ in range(12):
                    self._go(self.headers)
                    if not self._filter():
                        break
                else:
                    self.inv, self.sub, self.msub = (dict(zip(self.headers, x)) for x in kept)
                    self._go(self.headers)
                    break

    def _go(self, starts):
        if not hasattr(self, "frag"):
            self.frag, self.an = {}, {}
        for s in starts:
            r = self.make()

            def asm(an, st, s=s):
                if self.assume:
                    self.assume(an, st)
                for a, v in self.msub.get(s, {}).items():
                    st.mem[a] = v
                for T, f in self.inv.get(s, {}).items():
                    an.assume_range(st, T, f)
            a = ir.Analysis(self.prog, self.fn, r, asm)
            a.preset = self.sub.get(s, {})
            a.start = s
            a.run(start=s, cut=set(self.headers))
            self.ctx.steps += a.steps
            self.ctx.functions.add(self.fn.name)
            self.frag[s], self.an[s] = r, a
            for o in r.outs + r.arr:
                o.src = s

    # -- loop counters
    def rounds(self, h):
        """write the loop's counters as start + step * round; returns the symbol of the round"""
        R = ("in", -1 - h)
        outside = [o for o in self.arrivals(dst=h) if o.src != h]
        back = [o for o in self.arrivals(dst=h) if o.src == h]
        pre = {}
        for i in (i.id for i in self.fn.blocks[h] if i.op == "phi"):
            v0 = {self.portable(o, o.raw[i]) for o in outside if i in o.raw}
            steps = {sub(o.raw[i], ("in", i)) for o in back if i in o.raw}
            if len(v0) == 1 and len(steps) == 1 and None not in v0 and is_c(list(steps)[0]):
                pre[i] = (v0.pop(), steps.pop()[1])
        old = dict(self.sub[h])
        for i, (v0, k) in pre.items():
            self.sub[h][i] = add(v0, scale(R, k))
        T, s, c = self.an[h].term(R)
        self.inv[h][T] = (0, self.an[h].POS, frozenset())
        self._go([h])
        for o in self.arrivals(h, h):
            for i, (v0, k) in pre.items():
                if i in o.raw and sub(o.raw[i], add(v0, scale(R, k))) != const(k):
                    raise AnalysisError("%s: counter of the loop is not regular" % self.fn.name)
        return R

    def same(self, h, v):
        """v, and the values kept from before the loop that were equal to it there"""
        r = [v]
        outside = [o for o in self.arrivals(dst=h) if o.src != h]
        for i in self.fn.live[h]:
            if outside and all(unversioned(self.env_at(o, i)) == v for o in outside):
                r.append(("in", i))
        return r

    # -- translation between the symbols of two fragments
    def env_at(self, o, i):
        if i in o.raw:
            return o.raw[i]
        v = o.st.env.get(i)
        if v is not None:
            return v
        pre = self.sub.get(o.src, {}).get(i)
        return pre if pre is not None else ("in", i)

    def tr(self, o, e, memo=None):
        """e over the start of fragment o.dst -> its value at the end of o"""
        k = e[0]
        t = lambda x: self.tr(o, x)
        if k == "in":
            return self.env_at(o, e[1])
        if k == "ld":
            return o.an.read(o.st, t(e[1])) if e[2] == 0 else ("undef",)
        if k == "L":
            r = const(e[1])
            for a, c in e[2]:
                r = add(r, scale(t(a), c))
            return r
        if k == "op" and e[1] == "mul":
            return mulall(t(x) for x in e[2:])
        if k == "op" and e[1] == "div":
            return div(t(e[2]), t(e[3]))
        if k == "cmp":
            return mk_cmp("eq" if e[1] == "eq" else "slt", t(e[2]), C0)
        if k == "not":
            return mk_not(t(e[1]))
        if k in ("c", "arg", "al", "glob", "fn", "str", "undef"):
            return e
        if k in ("call", "phi", "ssa", "old", "join", "memphi"):
            return ("undef",)
        return tuple(t(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)

    def portable(self, o, e):
        """e at the end of o, written in the symbols of the next fragment, or None"""
        k = e[0]
        if k == "in":
            return e if self.env_at(o, e[1]) == e else None
        if k == "ld":
            a = self.portable(o, e[1])
            return ("ld", a, 0) if a is not None and o.an.read(o.st, e[1]) == e else None
        if k in ("c", "arg", "al", "glob", "fn", "str"):
            return e
        if k == "L":
            r = const(e[1])
            for a, c in e[2]:
                a = self.portable(o, a)
                if a is None:
                    return None
                r = add(r, scale(a, c))
            return r
        if k in ("fld", "op", "not", "cmp"):
            out = []
            for x in e[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    x = self.portable(o, x)
                    if x is None:
                        return None
                out.append(x)
            return (k,) + tuple(out)
        # a value the next fragment still has under an SSA name
        return None

    def _candidates(self, again=False):
        new = 0
        for h in self.headers:
            if again:
                keep = (dict(self.inv[h]), dict(self.sub[h]), dict(self.msub[h]))
                self.inv[h], self.sub[h], self.msub[h] = {}, {}, {}
            self._propose(h)
            tried = self.tried[h]
            for k, d in enumerate((self.inv[h], self.sub[h], self.msub[h])):
                for x in list(d):
                    if (k, x) in tried:
                        del d[x]
                    else:
                        tried.add((k, x))
                        new += 1
            if again:
                fresh = {("in", i): v for i, v in self.sub[h].items()}
                for d, o in zip((self.inv[h], self.sub[h], self.msub[h]), keep):
                    d.update(o)
                if fresh:
                    for d in (self.sub[h], self.msub[h]):
                        for k, v in d.items():
                            d[k] = subst(v, fresh)
        return new

    def _propose(self, h):
        for h in (h,):
            live = self.fn.live[h]
            phis = {i.id for i in self.fn.blocks[h] if i.op == "phi"}
            outside = [o for o in self.arrivals(dst=h) if o.src != h]
            if not outside:
                continue
            o0 = outside[0]
            for i in live - phis:
                d = self.fn.defs.get(i)
                if d is None or d.op == "alloca":
                    continue
                v = self.env_at(o0, i)
                if v == ("in", i):
                    continue
                if i in self.sub.get(h, {}):
                    continue
                pv = self.portable(o0, v)
                if pv is not None and pv != ("in", i):
                    self.sub[h][i] = pv
            for a, v in o0.st.mem.items():
                if a[0] == "al":
                    pv = self.portable(o0, v)
                    if pv is not None and not mentions(pv, lambda y: y == ("ld", a, 0)):
                        self.msub[h][a] = pv
            for o in outside:
                byval = {}
                for i in live:
                    v = self.env_at(o, i)
                    if v[0] in ("call", "ssa") or v[0] == "ld":
                        byval.setdefault(v, ("in", i))
                for T, f in o.st.facts.items():
                    r = C0
                    for a, c in T:
                        pa = self.portable(o, a)
                        if pa is None:
                            pa = byval.get(a)
                        if pa is None:
                            r = None
                            break
                        r = add(r, scale(pa, c))
                    if r is None or is_c(r):
                        continue
                    self._cand(h, r, f)
                for i in phis:
                    st = self.fn.affine.get(h, {}).get(i)
                    v = o.raw.get(i)
                    if v is None:
                        continue
                    if st is None and is_c(v):
                        self._cand(h, ("in", i), (v[1], v[1], frozenset()))
                        continue
                    pv = self.portable(o, v)
                    if pv is None:
                        continue
                    if st is not None:
                        self._cand(h, sub(("in", i), pv), (0, ir.Analysis.POS, frozenset()) if st > 0 else (ir.Analysis.NEG, 0, frozenset()))

    def _cand(self, h, L, f):
        an = self.an[h]
        T, s, c = an.term(L)
        lo, hi, ne = f
        N, P_ = an.NEG, an.POS
        lo, hi, ne = (lo - c if lo > N else N), (hi - c if hi < P_ else P_), frozenset(x - c for x in ne)
        if s < 0:
            lo, hi, ne = (-hi if hi < P_ else N), (-lo if lo > N else P_), frozenset(-x for x in ne)
        g = self.inv[h].get(T)
        if g is not None:       # weaken
            lo, hi, ne = min(lo, g[0]), max(hi, g[1]), ne & g[2]
        self.inv[h][T] = (lo, hi, ne)

    def _filter(self):
        """drop what some arrival does not establish; True if anything changed"""
        ch = False
        for h in self.headers:
            for o in self.arrivals(dst=h):
                for i, v in list(self.sub[h].items()):
                    if self.tr(o, v) != self.env_at(o, i):
                        del self.sub[h][i]
                        ch = True
                for a, v in list(self.msub[h].items()):
                    if self.tr(o, v) != o.an.read(o.st, a):
                        del self.msub[h][a]
                        ch = True
                for T, f in list(self.inv[h].items()):
                    L = self.tr(o, mk_lin(0, dict(T)))
                    if mentions(L, lambda y: y[0] == "undef"):
                        ok = False
                    else:
                        lo, hi, ne = o.an.interval(o.st, L)
                        nlo, nhi = max(lo, f[0]) if f[0] <= lo else None, None
                        ok = lo >= f[0] and hi <= f[1] and all(x in ne or x < lo or x > hi for x in f[2])
                    if not ok:
                        # keep the part that holds
                        if not mentions(L, lambda y: y[0] == "undef"):
                            g = (f[0] if lo >= f[0] else ir.Analysis.NEG, f[1] if hi <= f[1] else ir.Analysis.POS,
                                 frozenset(x for x in f[2] if x in ne or x < lo or x > hi))
                            if g[0] > ir.Analysis.NEG or g[1] < ir.Analysis.POS or g[2]:
                                if g != f:
                                    self.inv[h][T] = g
                                    ch = True
                                continue
                        del self.inv[h][T]
                        ch = True
        return ch

    def returns(self, s=None):
        return [o for k, r in self.frag.items() if s is None or k == s for o in r.outs if not o.died]

    def arrivals(self, src=None, dst=None):
        live = self.reachable()
        return [o for k, r in self.frag.items() if k in live and (src is None or k == src) for o in r.arr if dst is None or o.dst == dst]

    def reachable(self):
        """start points reachable from the entry"""
        seen, todo = set(), [0]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            todo += [o.dst for o in self.frag[s].arr]
        return seen

    def npaths(self):
        return sum(len(r.outs) + len(r.arr) for r in self.frag.values())


def subst(e, m):
    """e with the symbols of m replaced"""
    if e in m:
        return m[e]
    if e[0] == "L":
        r = const(e[1])
        for a, k in e[2]:
            r = add(r, scale(subst(a, m), k))
        return r
    if e[0] == "op" and e[1] == "mul":
        return mulall(subst(x, m) for x in e[2:])
    return tuple(subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)


def unversioned(e):
    """e with every load as of the start"""
    if e[0] == "ld":
        return ("ld", unversioned(e[1]), 0)
    if e[0] == "L":
        r = const(e[1])
        for a, k in e[2]:
            r = add(r, scale(unversioned(a), k))
        return r
    return tuple(unversioned(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
