from .frag import *
from .c18 import V, VRule, make_op, fl, PFX, K, replace

TECHNIQUE = "symbolic origin tracing over every string operation's path outcomes: where each final byte comes from, the terminator, and the bounds of every read"
LEVEL_NOTE = "every path of every string operation for symbolic lengths, positions and bounds; loops by inferred invariants"
EXPLANATION = (
    "Every string operation is inlined (array code included) into path outcomes with symbolic lengths. The final contents are described piecewise by the operation's definition; a symbolic position is placed in each piece and traced backwards "
    "through the stores, copies and moves of the path to the byte it comes from, which must be the defined one; the byte at the recorded length must trace to a zero and lie inside the allocation. "
    "Operations with a bound or an explicit length must prove every read of their operand to lie inside it.")
ASSUMPTIONS = ["strings are terminated on entry (each operation proves it on exit)", "lengths are below 2^31", "operands do not overlap the string written (declared restrict)",
               "memmem, strcasestr, strlen, strnlen and vsnprintf behave as the C library documents"]

BEG = ("arg", 9003, "begin")


class SRule(VRule):
    """string paths: elements are bytes, searches return a place inside the text searched"""

    def __init__(self, subst, pre, S=None):
        VRule.__init__(self, subst, pre)
        self.cap = 400
        self.S = S

    def entry(self, an, st):
        s = self.S or arg(an, 0)
        for f, v in (("_elem_size", C1),):
            st.mem[fl(f, s)] = v
        VRule.entry(self, an, st)

    def after(self, an, st, inst, name, args, res):
        VRule.after(self, an, st, inst, name, args, res)
        if name in ("strlen", "strnlen", "vsnprintf"):
            an.assume(st, le(C0, res), True)
            if name == "strnlen":
                an.assume(st, le(res, args[1]), True)


class S(V):
    def __init__(self, o, S_):
        o2 = View(o, PFX)
        self.o, self.p, self.S = o2, P(o2), S_
        g = lambda n: ("ld", fl(n, S_), 0)
        self.data, self.size, self.alloc, self.es = g("data"), g("size"), g("_alloc"), C1
        rd = lambda f: o2.read(fl(f, S_))
        self.data2, self.size2, self.alloc2, self.es2 = rd("data"), rd("size"), rd("_alloc"), rd("_elem_size")
        self.moves, self.same_es = [], []
        d, al = self.data, self.alloc
        self.evd = []
        self.writes = []
        for e in o2.ev:
            if e[0] == "store" and e[1] == fl("data", S_):
                d = e[2]
                for q in o2.ev:
                    if q[0] == "call" and q[4] == d and q[1] in ("malloc", "realloc"):
                        al = q[2][-1]
            self.evd.append((e, d))
            if e[0] == "call" and e[1] in ("memcpy", "memmove", "memset") and self.off(e[2][0], d) is not None:
                self.moves.append((e[1], e[2], d))
                self.writes.append((self.off(e[2][0], d), e[2][2], al))
            elif e[0] == "call" and e[1] in ("vsnprintf", "snprintf") and e[2][0] != C0 and self.off(e[2][0], d) is not None:
                self.writes.append((self.off(e[2][0], d), e[2][1], al))
            elif e[0] == "store" and e[1][0] not in ("fld", "al") and self.off(e[1], d) is not None:
                self.writes.append((self.off(e[1], d), C1, al))
        self.reallocs = [e for e in ev_calls(o2, "realloc", "malloc", "calloc", "free") ]

    def elems(self, e):
        return e

    def off(self, a, d):
        o = sub(a, d)
        if is_c(o):
            return o
        c, dd = lin_parts(o)
        for t, k in dd.items():
            if t[0] == "al" or t[0] == "call" and t[1] in ("malloc", "realloc", "calloc") or t == d or t[0] == "ld" and t[1][0] == "fld" and t[1][1] in ("vec.data", "stringview.data") or t in self.ptrs():
                return None
        return o

    def ptrs(self):
        """parameters that are pointers"""
        an = self.o.an
        return {arg(an, i) for i in range(len(an.fn.args)) if str(an.fn.args[i][2] if len(an.fn.args[i]) > 2 else "") in ("ptr", "p")}

    def cap(self):
        """allocation of the final data holds size + 1 bytes and what is recorded"""
        p = self.p
        if self.es2 != C1 and self.es2 != ("ld", fl("_elem_size", self.S), 0):
            return "element size %s" % show(self.es2)
        if not p.le(add(self.size2, C1), self.alloc2):
            return "length %s with %s bytes: no room for the terminator" % (show(self.size2), show(self.alloc2))
        if self.data2 == self.data:
            return p.eq(self.alloc2, self.alloc) or "capacity changes without allocation"
        for e in self.reallocs:
            if e[1] in ("realloc", "malloc") and e[4] == self.data2:
                n = e[2][1] if e[1] == "realloc" else e[2][0]
                return p.eq(n, self.alloc2) or "records %s of %s bytes" % (show(self.alloc2), show(n))
        return "data is %s" % show(self.data2)

    def trace(self, z, cons, upto=None, fresh=False):
        """where the byte at position z (subject to cons) comes from: (kind, value) or (None, reason); () if no such position"""
        st = self.o.st
        p = P(self.o)
        p.st = st.copy()
        for c in cons:
            if not p.an.assume(p.st, c, True):
                return ()
            if is_c(c):
                continue
        evs = self.evd if upto is None else self.evd[:upto]
        for n in range(len(evs) - 1, -1, -1):
            e, d = evs[n]
            if e[0] == "store":
                if e[1][0] == "fld" or e[1][0] == "al":
                    continue
                o = self.off(e[1], d)
                if o is None:
                    continue
                if p.eq(o, z):
                    return ("val", e[2])
                if p.lt(z, o) or p.lt(o, z):
                    continue
                return (None, "a byte is stored at %s" % show(o))
            if e[0] != "call":
                continue
            f, a = e[1], e[2]
            if f in ("memcpy", "memmove", "memset"):
                t = self.off(a[0], d)
                if t is None:
                    continue
                if p.lt(z, t) or p.le(add(t, a[2]), z):
                    continue
                if not (p.le(t, z) and p.lt(z, add(t, a[2]))):
                    return (None, "cannot place position %s in the bytes written at %s (%s)" % (show(z), show(t), show(a[2])))
                if f == "memset":
                    return ("val", a[1])
                s = self.off(a[1], d)
                if s is None:
                    x = add(a[1], sub(z, t))
                    for q, _ in reversed(evs[:n]):
                        if q[0] == "store" and p.eq(q[1], x):
                            return ("val", q[2])
                    return ("src", x)
                z = add(sub(z, t), s)
            elif f in ("vsnprintf", "snprintf"):
                t = self.off(a[0], d)
                if t is None or a[0] == C0:
                    continue
                m = [x for x, _ in evs[:n] if x[0] == "call" and x[1] == f and x[2][0] == C0 and x[2][2] == a[2]]
                if t == C0 and m and p.eq(a[1], add(m[-1][4], C1)):
                    if p.eq(z, m[-1][4]):
                        return ("val", C0)
                    return ("text", sub(z, t)) if p.lt(z, m[-1][4]) else (None, "beyond the text")
                return (None, "text of unknown length")
            elif f == "realloc" and a[0] == d or f == "realloc" and e[4] == self.data2:
                if not p.lt(z, a[1]):
                    return (None, "byte %s cut off by reallocation" % show(z))
        if p.le(z, self.size):
            return ("init", z)
        return (None, "position %s is behind the old contents" % show(z))


def run(ctx):
    p = ctx.prog("util", keep=[])
    Z = ("arg", 9004, "z")

    def strop(f, what, size, pieces, pre=None, si=0, ret=None, subst=None, rule=None, least=1, extra=None):
        fn = p.fn(f)
        A = lambda i: ("arg", fn.args[i][0], fn.args[i][1] or (fn.names.get(fn.args[i][0]) or [""])[0])
        s = A(si)
        g = lambda n: ("ld", fl(n, s), 0)
        env = dict(data=g("data"), size=g("size"), alloc=g("_alloc"), A=A)
        base = [le(C0, env["size"]), le(add(env["size"], C1), env["alloc"])]
        r = SRule(subst(env) if subst else {}, base + (pre(env) if pre else []), s)
        ctx.analyse(p, fn, r)
        outs = [o for o in r.outs if not o.died]
        bad, n = None, 0
        for o in outs:
            v = S(o, s)
            if v.o.infeasible or v.p.contra():
                continue
            v.A, v.rule = A, r
            n += 1
            m = judge(v, size(v) if callable(size) else size, pieces(v), ret, extra)
            if m is not True:
                bad = (v, m)
                break
        if bad is None:
            ctx.need(n, least, "paths of " + f)
        ctx.ob("%s: %s (%d paths)" % (f, what, n), bad is None, bad[0].o.where() if bad else "", bad[1] if bad else "", bad[0].o.trail() if bad else None)

    def judge(v, size, pieces, ret, extra=None):
        if not v.p.eq(v.size2, size):
            return "length becomes %s, not %s" % (show(v.size2), show(size))
        m = v.cap()
        if m is not True:
            return m
        # the terminator
        t = v.trace(v.size2, [])
        ok = t and (t[0] == "val" and strip(t[1]) == C0 or t[0] == "init" and v.p.eq(t[1], v.size) or t[0] == "src" and zero_src(v, t[1]))
        if not ok:
            return "not terminated at its length %s%s" % (show(v.size2), ": " + t[1] if t and t[0] is None else "")
        for lo, hi, kind, f in pieces:
            if v.p.le(hi, lo):
                continue
            t = v.trace(Z, [le(lo, Z), lt(Z, hi)])
            if t == ():
                continue
            if t[0] is None:
                return t[1]
            w = f(Z) if callable(f) else f
            if t[0] != kind or not (strip(t[1]) == strip(w) or v.p.eq(t[1], w)):
                return "byte at %s in %s..%s comes from %s %s, not %s %s" % (show(Z), show(lo), show(hi), t[0], show(t[1]), kind, show(w))
        # nothing is read or written outside the string
        for t, n, al in v.writes:
            if not v.p.le(C0, t) or not v.p.le(add(t, n), al):
                return "writes %s bytes at %s of %s" % (show(n), show(t), show(al))
        if ret is not None:
            w = ret(v)
            if v.o.val is None or not v.p.eq(v.o.val, w):
                return "returns %s, not %s" % (show(v.o.val) if v.o.val else "nothing", show(w))
        if extra:
            return extra(v)
        return True

    def zero_src(v, a):
        """the byte at address a is the terminator of the text it belongs to"""
        for e in ev_calls(v.o, "strlen"):
            if v.p.eq(a, add(e[2][0], e[4])):
                return True
        # the terminator of another string
        c, d = lin_parts(a)
        for t in d:
            if t[0] == "ld" and t[1][0] == "fld" and t[1][1] == "vec.data":
                if v.p.eq(sub(a, t), ("ld", fl("size", t[1][2]), 0)):
                    return True
        return False

    def slen(v, i):
        for e in ev_calls(v.o, "strlen"):
            if e[2][0] == v.A(i):
                return e[4]
        return ("undef",)

    def snlen(v, i, n):
        for e in ev_calls(v.o, "strnlen"):
            if e[2][0] == v.A(i) and e[2][1] == n:
                return e[4]
        return ("undef",)
    whole = lambda v: (C0, v.size, "init", lambda z: z)
    svd = lambda v, i: ("ld", ("fld", "stringview.data", v.A(i)), 0)
    svl = lambda v, i: ("ld", ("fld", "stringview.len", v.A(i)), 0)
    od = lambda v, i, f: ("ld", fl(f, v.A(i)), 0)
    nn = lambda *ix: (lambda e: [le(C0, e["A"](i)) for i in ix])

    ctx.rule("C19.term", "after every operation the length is the defined one, the byte behind the last is zero and inside the allocation, and every byte comes from where the operation defines")
    none = lambda v: []
    strop("string_construct", "empty and terminated", C0, none)
    strop("string_clear", "empty and terminated", C0, none)
    strop("string_resize", "terminated at the new length, contents kept", lambda v: v.A(1), lambda v: [(C0, mn(v, v.size, v.A(1)), "init", lambda z: z)], pre=nn(1))
    strop("string_copy", "the other string's bytes", lambda v: od(v, 1, "size"), lambda v: [(C0, od(v, 1, "size"), "src", lambda z: add(od(v, 1, "data"), z))],
          pre=lambda e: [le(C0, ("ld", fl("size", e["A"](1)), 0))])
    strop("string_append_stringview", "the view's bytes follow", lambda v: add(v.size, svl(v, 1)),
          lambda v: [whole(v), (v.size, add(v.size, svl(v, 1)), "src", lambda z: add(svd(v, 1), sub(z, v.size)))],
          pre=lambda e: [le(C0, ("ld", ("fld", "stringview.len", e["A"](1)), 0))])
    strop("string_push_back", "the character follows", lambda v: add(v.size, C1), lambda v: [whole(v), (v.size, add(v.size, C1), "val", v.A(1))])
    strop("string_strcat", "the text follows", lambda v: add(v.size, slen(v, 1)),
          lambda v: [whole(v), (v.size, add(v.size, slen(v, 1)), "src", lambda z: add(v.A(1), sub(z, v.size)))])
    strop("string_strncat", "at most n characters of the text follow", lambda v: add(v.size, snlen(v, 1, v.A(2))),
          lambda v: [whole(v), (v.size, add(v.size, snlen(v, 1, v.A(2))), "src", lambda z: add(v.A(1), sub(z, v.size)))], pre=nn(2))
    strop("string_strcpy", "the text", lambda v: slen(v, 1), lambda v: [(C0, slen(v, 1), "src", lambda z: add(v.A(1), z))])
    strop("string_sprintf", "the formatted text", lambda v: next((e[4] for e in ev_calls(v.o, "vsnprintf") if e[2][0] == C0 and e[2][2] == v.A(1)), ("undef",)),
          lambda v: [(C0, v.size2, "text", lambda z: z)], pre=lambda e: [])

    def export(v):
        return v.o.val == v.data and v.data2 != v.data or "does not hand over its buffer"
    strop("string_export", "hands over its buffer and starts empty", C0, none, extra=export)
    take(ctx, p)

    ctx.rule("C19.replace", "replacing a found text puts the new text in its place and keeps everything before and behind it; the position behind the new text is returned")
    for f, lim in (("string_find_replace_one_limited", True), ("string_find_replace_one_nocase_limited", True)):
        replace_one(ctx, p, f, judge)
    wrappers(ctx, p)

    ctx.rule("C19.bound", "an operation with a bound reads its operand only inside it")
    strncpy(ctx, p, strop, snlen)
    bounds(ctx, p)

    ctx.rule("C19.view", "a view records the text and length given")
    views(ctx, p)


def mn(v, a, b):
    return a if v.p.le(a, b) else b


def take(ctx, p):
    fn = p.fn("string_construct_take")
    outs, an = collect(ctx, p, fn, None, {"all"})
    s, src = arg(an, 0), arg(an, 1)
    bad = None
    for o in returns(outs):
        v = S(o, s)
        ln = next((e[4] for e in ev_calls(v.o, "strlen") if e[2][0] == src), None)
        if ln is None or v.data2 != src or not v.p.eq(v.size2, ln) or not v.p.eq(v.alloc2, add(ln, C1)) or v.es2 != C1:
            bad = v
    ctx.ob("string_construct_take: the text with its terminator", bad is None, bad.o.where() if bad else "", "length or capacity is not that of the text taken")


def replace_one(ctx, p, f, judge):
    fn = p.fn(f)
    A = lambda i: ("arg", fn.args[i][0], fn.args[i][1] or (fn.names.get(fn.args[i][0]) or [""])[0])
    s, bi, nl = A(0), A(3), A(4)
    size, alloc, data = ("ld", fl("size", s), 0), ("ld", fl("_alloc", s), 0), ("ld", fl("data", s), 0)
    pre = [le(C0, size), le(add(size, C1), alloc), le(C0, bi), le(bi, size), le(C0, nl)]

    class R(SRule):
        def call_result(self, an, st, inst, name, args):
            if name in ("memmem", "strcasestr"):
                pos = ("arg", 9200, "found")
                ol = next((e[4] for e in st.t if e[0] == "call" and e[1] == "strlen" and e[2][0] == A(1)), None)
                if ol is not None:
                    an.assume(st, le(C0, pos), True)
                    an.assume(st, le(add(add(bi, pos), ol), size), True)
                return add(args[0], pos)
            return None
    r = R({}, pre, s)
    ctx.analyse(p, fn, r)
    bad, n, kinds = None, 0, set()
    Zp = ("arg", 9200, "found")
    for o in r.outs:
        if o.died:
            continue
        v = S(o, s)
        if v.o.infeasible or v.p.contra():
            continue
        v.A = A
        n += 1
        ol = next((e[4] for e in ev_calls(v.o, "strlen") if e[2][0] == A(1)), ("undef",))
        fc = ev_calls(v.o, "memmem", "strcasestr")
        k = add(bi, Zp)
        changed = v.moves or v.data2 != v.data or not v.p.eq(v.size2, v.size)
        if not changed:
            kinds.add("none")
            # legal when nothing was found, the needle is empty or it is replaced by nothing of no length
            nf = fc and v.o.truth(eq(add(fc[0][2][0], Zp), C0)) is True
            if nf or v.p.eq(ol, C0) and not fc:
                if not v.p.eq(v.o.val, add(v.data, v.size)):
                    bad = (v, "returns %s although nothing was replaced" % show(v.o.val))
                continue
            if not (v.p.eq(nl, ol) and v.p.eq(nl, C0)):
                bad = (v, "a found text is not replaced")
            continue
        kinds.add("some")
        if len(fc) != 1 or not v.p.eq(fc[0][2][0], add(v.data, bi)) or fc[0][1] == "memmem" and (not v.p.eq(fc[0][2][1], sub(v.size, bi)) or fc[0][2][2] != A(1) or fc[0][2][3] != ol) or fc[0][1] != "memmem" and fc[0][2][1] != A(1):
            bad = (v, "does not search the string from the given position")
            break
        new = add(v.size, sub(nl, ol))
        pieces = [(C0, k, "init", lambda z: z), (k, add(k, nl), "src", lambda z: add(A(2), sub(z, k))), (add(k, nl), new, "init", lambda z: add(sub(z, nl), ol))]
        m = judge(v, new, pieces, lambda v: add(v.data2, add(k, nl)))
        if m is not True:
            bad = (v, m)
            break
    if bad is None:
        ctx.need(n, 3, "paths of " + f)
        ctx.need(len(kinds), 2, "outcomes of " + f)
    ctx.ob("%s: replaces exactly the found text (%d paths)" % (f, n), bad is None, bad[0].o.where() if bad else "", bad[1] if bad else "", bad[0].o.trail() if bad else None)
    # an empty text is found everywhere: it must not be replaced without end
    w = [o for o in r.outs if not o.died and not View(o, PFX).infeasible]
    empty = [S(o, s) for o in w]
    msg = None
    for v in empty:
        ol = next((e[4] for e in ev_calls(v.o, "strlen") if e[2][0] == A(1)), None)
        if ol is not None and v.o.truth(eq(ol, C0)) is not False and (v.moves or ev_calls(v.o, "memmem", "strcasestr")):
            msg = v
    ctx.ob("%s: an empty text is never replaced" % f, msg is None, msg.o.where() if msg else "", "an empty text is searched for and replaced: replacing all of them never ends")


def wrappers(ctx, p):
    """find_replace and its variants go on behind the replacement until the end"""
    q = ctx.prog("util", keep=["string_find_replace_one_limited", "string_find_replace_one_nocase_limited"])
    for f, one in (("string_find_replace_limited", "string_find_replace_one_limited"), ("string_find_replace_nocase_limited", "string_find_replace_one_nocase_limited"),
                   ("string_find_replace", "string_find_replace_one_limited"), ("string_find_replace_nocase", "string_find_replace_one_nocase_limited"),
                   ("string_find_replace_one", "string_find_replace_one_limited"), ("string_find_replace_one_nocase", "string_find_replace_one_nocase_limited")):
        fn = q.fn(f)
        F = Fragments(ctx, q, f, lambda: FragRule(None, {"all"}))
        an = F.an[0]
        A = [arg(an, i) for i in range(len(fn.args))]
        size, data = ("ld", fl("size", A[0]), 0), ("ld", fl("data", A[0]), 0)
        msg, ncall = None, 0
        for o in F.arrivals() + F.returns():
            for e in ev_calls(o, one):
                ncall += 1
                a = e[2]
                if a[0] != A[0] or a[1] != A[1] or a[2] != A[2]:
                    msg = msg or (o, "passes other texts on")
                nl = A[-1] if f.endswith("_limited") else None
                if nl is not None and a[4] != nl:
                    msg = msg or (o, "passes length %s" % show(a[4]))
                if nl is None and not (strip(a[4])[0] == "call" and strip(a[4])[1] == "strlen" and ("L", 0, ()) and strip(a[4]) == slen_of(o, F, A[2], a[4])) and not def_strlen(fn, F, a[4], A[2]):
                    msg = msg or (o, "passes length %s" % show(a[4]))
        loops = F.headers
        if "_one" in f:
            rets = F.returns()
            if loops or any(strip(o.val) != ev_calls(o, one)[0][4] for o in rets if ev_calls(o, one)) or any(len(ev_calls(o, one)) != 1 for o in rets):
                msg = msg or (rets[0], "does not replace once and return the position behind")
            if any(e[2][3] != A[3] for o in rets for e in ev_calls(o, one)):
                msg = msg or (rets[0], "starts elsewhere")
        else:
            # loop: starts at 0, next position is the one returned, ends when it reaches the end
            if len(loops) != 1:
                raise AnalysisError("C19: %s: expected one loop" % f)
            h = loops[0]
            for o in F.arrivals(dst=h):
                c = ev_calls(o, one)
                if o.src == h:
                    if len(c) != 1:
                        msg = msg or (o, "an iteration does not replace once")
                        continue
                    nxt = sub(c[0][4], an_read(o, fl("data", A[0])))
                    if not any(strip(v) in (nxt, c[0][4]) for v in o.raw.values()):
                        msg = msg or (o, "does not go on behind the replacement")
                else:
                    if not any(v in (C0, data) for v in o.raw.values()):
                        msg = msg or (o, "does not start at the beginning")
            for o in F.returns():
                if o.src == h and ev_calls(o, one):
                    msg = msg or (o, "stops although text may follow")
        if msg is None:
            ctx.need(ncall, 1, "calls of %s in %s" % (one, f))
        ctx.ob("%s: every occurrence in turn" % f if "_one" not in f else "%s: passes its operands on" % f, msg is None, msg[0].where() if msg else "", msg[1] if msg else "")


def an_read(o, a):
    return o.an.read(o.st, a)


def slen_of(o, F, a, e):
    for x in list(o.ev) + [y for r in F.frag.values() for q in r.outs + r.arr for y in q.ev]:
        if x[0] == "call" and x[1] == "strlen" and x[2][0] == a:
            if x[4] == strip(e):
                return x[4]
    return None


def def_strlen(fn, F, e, a):
    """e is a value carried into a loop that was computed as strlen(a)"""
    e = strip(e)
    if e[0] != "in":
        return False
    for o in F.arrivals(src=0):
        v = F.env_at(o, e[1])
        if slen_of(o, F, a, v) is None:
            return False
    return bool(F.arrivals(src=0)) and fn.defs[e[1]].op != "phi"


class LoadRule(FragRule):
    """collects reads through the named bases with whether they are inside their bound"""

    def __init__(self, bases, bound):
        FragRule.__init__(self, None, {"all"})
        self.bases, self.bound, self.n, self.bad = bases, bound, 0, []

    def entry(self, an, st):
        for b in self.bases(an).values():
            an.assume(st, le(C0, b), True)

    def load(self, an, st, inst, addr, val):
        if addr[0] in ("fld", "al"):
            return
        b = self.bases(an)
        for x, bd in b.items():
            o = sub(addr, x)
            c, d = lin_parts(o)
            if x in d or any(t in b for t in d):
                continue
            c0, d0 = lin_parts(addr)
            if x not in d0:
                continue
            self.n += 1
            q = P(Dummy(an, st))
            if not (q.le(C0, o) and q.lt(o, bd)):
                self.bad.append((Dummy(an, st.copy(), inst), o, bd))


class Dummy:
    def __init__(self, an, st, inst=None):
        self.an, self.st, self.inst = an, st, inst

    def where(self):
        return self.an.fn.loc(self.inst)


def strncpy(ctx, p, strop, snlen):
    f = "string_strncpy"
    fn = p.fn(f)
    if not fn.loops:
        strop(f, "at most n characters of the text", lambda v: snlen(v, 1, v.A(2)), lambda v: [(C0, snlen(v, 1, v.A(2)), "src", lambda z: add(v.A(1), z))], pre=lambda e: [le(C0, e["A"](2))])
        return
    rules = []

    def make():
        r = LoadRule(lambda an: {arg(an, 1): arg(an, 2)}, None)
        rules.append(r)
        return r

    def asm(an, st):
        s = arg(an, 0)
        st.mem[fl("_elem_size", s)] = C1
        if an.start == 0:
            an.assume(st, le(C0, ("ld", fl("size", s), 0)), True)
            an.assume(st, le(add(("ld", fl("size", s), 0), C1), ("ld", fl("_alloc", s), 0)), True)
            an.assume(st, le(C0, arg(an, 2)), True)
    F = Fragments(ctx, p, f, make, asm)
    an = F.an[0]
    s, src, lim = arg(an, 0), arg(an, 1), arg(an, 2)
    rd = lambda o, x: strip(o.an.read(o.st, fl(x, s)))
    msg = None
    loads = sum(F.frag[k].n for k in F.frag)
    for k in F.reachable():
        for d, o, bd in F.frag[k].bad:
            msg = msg or (d, "reads the source at %s before the bound %s is known to lie behind" % (show(o), show(bd)))
    h = F.headers[0]
    if len(F.headers) != 1:
        raise AnalysisError("C19: string_strncpy: expected one loop")
    # the loop's counter
    ctr = None
    for o in F.arrivals(src=0, dst=h):
        z = [i for i, v in o.raw.items() if v == C0]
        ctr = z[0] if z else ctr
        if not P(o).le(add(lim, C1), rd(o, "_alloc")):
            msg = msg or (o, "makes no room for %s characters and the terminator" % show(lim))
    if ctr is None:
        raise AnalysisError("C19: string_strncpy: no counter")
    i = ("in", ctr)
    for o in F.arrivals(src=h, dst=h):
        if not P(o).eq(o.raw.get(ctr, i), add(i, C1)):
            msg = msg or (o, "skips characters")
        stv = [e for e in o.ev if e[0] == "store" and e[1][0] != "fld"]
        if len(stv) != 1 or not P(o).eq(stv[0][1], add(("ld", fl("data", s), 0), i)) or strip(stv[0][2])[0] != "ld" or strip(stv[0][2])[1] != add(src, i):
            msg = msg or (o, "does not copy the character at the counter to its place")
    for o in F.returns():
        if o.src != h:
            continue
        q = P(o)
        size2, alloc2, data2 = rd(o, "size"), rd(o, "_alloc"), rd(o, "data")
        if not q.eq(size2, i):
            msg = msg or (o, "length becomes %s" % show(size2))
        done = q.le(lim, i) or any(e for e in [1] if o.truth(eq(("ld", add(src, i), 0), C0)) is True)
        if not done:
            msg = msg or (o, "stops before the bound or the end of the text")
        term = [e for e in o.ev if e[0] == "store" and e[1][0] != "fld" and q.eq(e[1], add(data2, i)) and strip(e[2]) == C0]
        if not term:
            msg = msg or (o, "not terminated")
    ctx.need(loads, 1, "reads of the source of string_strncpy")
    ctx.ob("string_strncpy: at most n characters of the text, none read behind the bound", msg is None, msg[0].where() if msg else "", msg[1] if msg else "")


def bounds(ctx, p):
    def chk(f, bases, calls=None, least=1):
        fn = p.fn(f)
        r = LoadRule(bases, None)
        r.cap = 400
        an = ctx.analyse(p, fn, r)
        msg = None
        for d, o, bd in r.bad:
            msg = msg or (d, "reads at %s, which is not known to be below %s" % (show(o), show(bd)))
        n = r.n
        b = bases(an)
        if msg and fn.loops:        # merged paths lose what a loop invariant keeps
            def make():
                r = LoadRule(bases, None)
                return r
            F = Fragments(ctx, p, f, make)
            bad = [x for k in F.reachable() for x in F.frag[k].bad]
            if not bad:
                msg = None
            n = sum(x.n for x in F.frag.values())
        for o in r.outs:
            for e in ev_calls(o, "strncmp", "strncasecmp", "memcmp"):
                n += 2
                for a in e[2][:2]:
                    if a not in b or not P(o).le(strip(e[2][2]), b[a]):
                        msg = msg or (o, "compares %s bytes of %s" % (show(e[2][2]), show(a)))
        ctx.need(n, least, "reads in " + f)
        ctx.ob("%s: reads inside the bound (%d reads)" % (f, n), msg is None, msg[0].where() if msg else "", msg[1] if msg else "")
    two = lambda an: {("ld", ("fld", "stringview.data", arg(an, i)), 0): ("ld", ("fld", "stringview.len", arg(an, i)), 0) for i in (0, 1)}
    for f in ("stringview_compare", "stringview_compare_nocase", "stringview_compare_rtrim", "stringview_compare_nocase_rtrim"):
        chk(f, two, least=2)
    chk("charncount", lambda an: {arg(an, 0): arg(an, 2)})


def views(ctx, p):
    def chk(f, want):
        outs, an = collect(ctx, p, p.fn(f), None, {"all"})
        bad = None
        for o in returns(outs):
            A = [arg(an, i) for i in range(len(an.fn.args))]
            v = View(o, PFX)
            r = o.read
            d, l = v.read(("fld", "stringview.data", A[0])), v.read(("fld", "stringview.len", A[0]))
            wd, wl = want(A, o)
            if d != wd or strip(l) != strip(wl):
                bad = (o, "view of %s, %s bytes" % (show(d), show(l)))
        ctx.ob("%s: the text and its length" % f, bad is None, bad[0].where() if bad else "", bad[1] if bad else "")
    chk("stringview_construct", lambda A, o: (A[1], A[2]))
    chk("stringview_nset", lambda A, o: (A[1], A[2]))
    chk("stringview_set", lambda A, o: (A[1], next((e[4] for e in ev_calls(o, "strlen") if e[2][0] == A[1]), C0)))
    chk("stringview_set_string", lambda A, o: (("ld", fl("data", A[1]), 0), ("ld", fl("size", A[1]), 0)))
