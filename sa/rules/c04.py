from .norm import *

TECHNIQUE = "path-sensitive value-numbering dataflow: every path's position update, copies and result matched against ring arithmetic"
LEVEL_NOTE = "all paths of all pipe operations with symbolic positions, capacities and counts; loops abstracted"
EXPLANATION = (
    "Every pipe operation is reduced, with all helpers inlined, to its path outcomes: which memory is copied where (start, source, byte count), the new read and write "
    "positions, and the result, as linear forms over the positions, capacity and arguments plus the branch facts of the path. Each outcome must match "
    "the ring-buffer rule of its operation: one element at the old position and an advance by one modulo capacity; bulk transfers of min(wanted, available/receivable) elements "
    "split at the wrap, contiguous only when no wrap is possible, leaving the untransferred tail in the caller's buffer; counts derived from the same positions.")
ASSUMPTIONS = ["0 <= positions < capacity on entry", "unsigned differences are compared as mathematical integers (a negative difference plays the role of the wrapped one)",
               "fifo_add is called only with room (checked by its callers, C05/C07)"]


class PipeCollect(Collect):
    """adds a snapshot of the pipe's fields after each lock acquisition"""

    def __init__(self, base):
        Collect.__init__(self, {"memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait", "exit", "pthread_mutex_init", "pthread_cond_init"},
                         {"all"}, 60)
        self.base = base

    def entry(self, an, st):
        self.entry_snap = self.snap(an, st)
        self.inv(an, st, self.entry_snap)

    def inv(self, an, st, s):
        """invariant of every pipe: both positions lie inside the ring"""
        for n in ("h", "t"):
            an.assume(st, lt(s[n], s["size"]), True)
            an.assume(st, le(C0, s[n]), True)

    def snap(self, an, st):
        b = self.base
        g = lambda n: an.read(st, ("fld", "fifo." + n, b))
        buf = g("buf")
        v = lambda n: an.read(st, ("fld", "vec." + n, buf))
        return dict(h=g("head"), t=g("tail"), ic=g("input_count"), it=g("_iter_head"), size=v("size"), data=v("data"), es=v("_elem_size"), buf=buf)

    def after(self, an, st, inst, name, args, res):
        Collect.after(self, an, st, inst, name, args, res)
        if name in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait"):
            s = self.snap(an, st)
            self.inv(an, st, s)
            if not any(e[0] == "store" and e[1][0] == "fld" and e[1][2] == self.base and e[1][1] in ("fifo.head", "fifo.tail") for e in st.t):
                # only the positions read last before one is moved matter
                st.t = tuple(e for e in st.t if e[0] != "snap") + (("snap", name, tuple(sorted(s.items())), inst.id, res),)


RING = ("vec.", "fifo.buf")     # the ring itself is fixed while an operation runs


def settle(e):
    return unver_fields(e, RING) if isinstance(e, tuple) else e


def Settled(o):
    return View(o, RING)


class Pipe:
    """a path outcome of a pipe operation"""

    def __init__(self, o, S, locked):
        self.S = S
        pos = [n for n, e in enumerate(o.ev) if e[0] == "store" and e[1][0] == "fld" and e[1][2] == S and e[1][1] in ("fifo.head", "fifo.tail")]
        sn = [e for n, e in enumerate(o.ev) if e[0] == "snap" and (not pos or n < pos[0])]
        self.raw = o
        self.entry = o.an.rule.entry_snap
        o = self.o = Settled(o)
        self.p = P(o)
        self.s = {k: settle(v) for k, v in (dict(sn[-1][2]) if locked and sn else self.entry).items()}
        for k, v in self.s.items():
            setattr(self, k, v)
        self.stores = {}
        for e in o.ev:
            if e[0] == "store" and e[1][0] == "fld" and e[1][2] == S:
                self.stores.setdefault(e[1][1].split(".")[1], []).append(e[2])
        self.copies = [(e[2][0], e[2][1], e[2][2], e[1]) for e in ev_calls(o, "memcpy", "memmove")]

    def slot(self, i):
        return add(self.data, mul(i, self.es))

    def avail(self):
        """(expr, ...) known to be the number of elements on this path"""
        d = sub(self.h, self.t)
        p = self.p
        r = []
        if p.lt(self.size, d) or p.lt(d, C0):
            r.append(add(d, self.size))
        if p.le(d, self.size) or p.le(C0, d):
            r.append(d)
        r += [("op", "rem", add(d, self.size), self.size), ("op", "rem", sub(add(self.h, self.size), self.t), self.size)]
        return r

    def empty(self):
        p = self.p
        return p.true(eq(self.h, self.t)) or any(p.eq(a, C0) or p.le(a, C0) for a in self.avail())

    def nonempty(self):
        p = self.p
        return p.true(mk_cmp("ne", self.h, self.t)) or any(p.lt(C0, a) or p.true(mk_cmp("ne", a, C0)) for a in self.avail())


def nmul(a, b):
    return mul(a, b)


def run(ctx):
    p = ctx.prog("util", keep=[])
    tot = [0, 0]

    def outs(f, locked):
        fn = p.fn(f)
        S = ("arg", fn.args[0][0], fn.args[0][1] or (fn.names.get(fn.args[0][0]) or [""])[0])
        r = PipeCollect(S)
        a = ctx.analyse(p, fn, r)
        os_ = [Pipe(o, S, locked) for o in r.outs]
        tot[0] += len(os_)
        return a, [x for x in os_ if not x.o.died and not x.o.infeasible], os_

    def judge(f, os_, test, what):
        bad = None
        for x in os_:
            m = test(x)
            if m is not True:
                bad = (x, m)
                break
        ctx.need(len(os_), 1, "paths of " + f)
        ctx.ob("%s: %s (%d paths)" % (f, what, len(os_)), bad is None, bad[0].o.where() if bad else "", (bad[1] or "does not hold") if bad else "",
               bad[0].o.trail() if bad else None)

    # ---------------------------------------------------------------- counts
    ctx.rule("C04.counts", "emptiness, fullness, available and free counts follow from the two positions")
    a, o, _ = outs("fifo_available", False)
    judge("fifo_available", o, lambda x: any(x.p.eq(strip(x.o.val), c) for c in x.avail()) or "returns %s" % show(x.o.val), "head - tail, plus capacity when wrapped")
    a, o, _ = outs("fifo_receivable", False)
    judge("fifo_receivable", o, lambda x: any(x.p.eq(strip(x.o.val), sub(sub(x.size, c), x.ic)) for c in x.avail()) or "returns %s" % show(x.o.val),
          "capacity - available - reserved")

    def boolres(x, c):
        v = as_bool(strip(x.o.val))
        if v == c:
            return True
        t = x.o.truth(v)
        return t is not None and x.o.truth(c) == t
    a, o, _ = outs("fifo_is_empty", False)
    judge("fifo_is_empty", o, lambda x: boolres(x, eq(x.h, x.t)) or "returns %s" % show(x.o.val), "head == tail")
    a, o, _ = outs("fifo_is_full", False)

    def full(x):
        v = as_bool(strip(x.o.val))
        for c in (eq(("op", "rem", add(x.h, C1), x.size), x.t),):
            if boolres(x, c):
                return True
        t = x.o.truth(v)
        if t is True:
            return any(x.p.eq(c, sub(x.size, C1)) for c in x.avail()) or "true without being full"
        if t is False:
            return any(x.p.true(mk_cmp("ne", c, sub(x.size, C1))) for c in x.avail()) or "false without room"
        for c in x.avail():
            if v == eq(c, sub(x.size, C1)) or v == mk_cmp("sge", c, sub(x.size, C1)):
                return True
        return "returns %s" % show(x.o.val)
    judge("fifo_is_full", o, full, "next write position is the read position")

    # ---------------------------------------------------------------- single elements
    ctx.rule("C04.single", "a single transfer touches the slot at the old position and advances that position by one, modulo capacity")

    def pos_untouched(x, *names):
        for n in names:
            if n in x.stores:
                return "changes %s" % n
        return True

    def advanced(x, which, n):
        w = x.stores.get({"h": "head", "t": "tail"}[which])
        old = getattr(x, which)
        if not w:
            return "position not advanced"
        return x.p.modeq(w[-1], add(old, n), x.size) or "new position %s" % show(w[-1])

    def t_add(x):
        r = [e for e in x.o.ev if e[0] == "snap" and e[1] == "pthread_mutex_trylock"]
        if r:
            got = x.o.truth(eq(r[-1][4], C0))
            if got is not True:
                if x.copies or x.stores:
                    return "changes the pipe without its lock"
                if x.o.truth(eq(strip(x.o.val), C0)) is not False:
                    return "reports success without the lock"
                return True
            if not x.p.eq(strip(x.o.val), C0):
                return "reports failure after adding"
        d = arg(x.o.an, 1)
        if len(x.copies) != 1:
            return "%d copies" % len(x.copies)
        dst, src, n, k = x.copies[0]
        if not x.p.eq(dst, x.slot(x.h)):
            return "stores at %s" % show(dst)
        if not x.p.eq(src, d):
            return "stores from %s" % show(src)
        if not x.p.eq(n, x.es):
            return "stores %s bytes" % show(n)
        return pos_untouched(x, "tail") if advanced(x, "h", C1) is True else advanced(x, "h", C1)

    for f in ("fifo_add", "fifo_add_try"):
        a, o, _ = outs(f, True)
        judge(f, o, t_add, "one element at the write position")

    def t_get(x, need=False):
        if x.copies:
            return "copies data"
        if need and not x.nonempty():
            return "takes from a pipe that may be empty"
        r = advanced(x, "t", C1)
        if r is not True:
            return r
        if x.o.val is not None and not x.p.eq(x.o.val, x.slot(x.t)):
            return "returns %s" % show(x.o.val)
        return pos_untouched(x, "head")

    for f in ("fifo_get", "fifo_consume"):
        a, o, _ = outs(f, True)
        judge(f, o, t_get, "one element from the read position")
    a, o, _ = outs("fifo_get_or_wait", True)

    def t_gow(x):
        # fields re-read after the waits: judge by the last snapshot taken
        return t_get(x, True)
    judge("fifo_get_or_wait", o, t_gow, "one element from the read position once there is one")
    a, o, _ = outs("fifo_advance", True)
    judge("fifo_advance", o, lambda x: "copies data" if x.copies else (advanced(x, "h", C1) if pos_untouched(x, "tail") is True else "moves tail"), "write position +1")
    a, o, _ = outs("fifo_peek", False)
    judge("fifo_peek", o, lambda x: (x.p.eq(x.o.val, x.slot(x.t)) and not x.stores) or "returns %s" % show(x.o.val), "element at the read position")
    a, o, _ = outs("fifo_safe_peek", True)
    judge("fifo_safe_peek", o, lambda x: (not x.stores and ((x.o.val == C0 and x.empty()) or (x.p.eq(x.o.val, x.slot(x.t)) and x.nonempty()))) or "returns %s" % show(x.o.val),
          "element at the read position or nothing when empty")
    a, o, _ = outs("fifo_look_ahead", False)

    def t_look(x):
        v = x.o.val
        if x.stores:
            return "moves the pipe"
        if v == C0:
            return any(x.p.lt(c, const(2)) for c in x.avail()) or "nothing returned although two elements may be there"
        if not any(x.p.le(const(2), c) for c in x.avail()):
            return "looks past the last element"
        c, d = lin_parts(sub(v, x.data))
        for t, k in d.items():
            if t[0] == "op" and t[1] == "mul" and k == 1 and c == 0:
                i = t[2] if t[3] == x.es else t[3]
                if x.p.modeq(i, add(x.t, C1), x.size):
                    return True
        if x.p.eq(v, x.slot(add(x.t, C1))):
            return "returns the slot after the read position without wrapping"
        return "returns %s" % show(v)
    judge("fifo_look_ahead", o, t_look, "second element or nothing")

    # ---------------------------------------------------------------- lock-free iteration
    ctx.rule("C04.iter", "iteration covers exactly the elements between the read position and the write position at its start")
    a, o, _ = outs("fifo_begin", False)

    def t_begin(x):
        it = x.stores.get("_iter_head")
        if not it or not x.p.modeq(it[-1], x.h, x.size) and not x.p.eq(it[-1], x.h):
            return "end of iteration is %s" % (show(it[-1]) if it else "not set")
        return (x.p.eq(x.o.val, x.slot(x.t)) and pos_untouched(x, "head", "tail") is True) or "starts at %s" % show(x.o.val)
    judge("fifo_begin", o, t_begin, "starts at the read position, ends at the current write position")
    a, o, _ = outs("fifo_iter", False)

    def t_iter(x):
        r = advanced(x, "t", C1)
        if r is not True:
            return r
        if "_iter_head" in x.stores or "head" in x.stores:
            return "moves the end of the iteration"
        nt = x.stores["tail"][-1]
        return x.p.eq(x.o.val, x.slot(nt)) or "returns %s" % show(x.o.val)
    judge("fifo_iter", o, t_iter, "consumes one element, returns the next")
    a, o, _ = outs("fifo_end", False)
    judge("fifo_end", o, lambda x: (x.p.eq(x.o.val, x.slot(x.it)) and not x.stores) or "returns %s" % show(x.o.val), "slot at the end position")
    for f in ("fifo_update", "fifo_update_try", "fifo_wait_for_add", "fifo_wait_for_get", "fifo_wait_for_add_either", "fifo_wait_for_add_both"):
        a, o, _ = outs(f, True)
        judge(f, o, lambda x: (not x.copies and pos_untouched(x, "head", "tail", "_iter_head") is True) or "moves the pipe", "leaves positions and data alone")

    # ---------------------------------------------------------------- bulk get
    ctx.rule("C04.nget", "bulk get moves min(available, max) elements rounded down to whole blocks, in order, and reports what is left")
    a, o, full_ = outs("fifo_nget", True)
    an = a
    B, BL, MX = (arg(an, i) for i in (1, 2, 3))

    def t_nget(x):
        p_ = x.p
        if "tail" not in x.stores:
            if x.copies:
                return "copies without consuming"
            nothing = x.empty() and p_.eq(strip(x.o.val), C0)
            if nothing:
                return True
            # returning early with nothing moved: must be less than one block
            for A in x.avail():
                for T in (A, MX):
                    if p_.le(T, A) and p_.le(T, MX) and p_.eq(sub(T, ("op", "rem", T, BL)), C0) and p_.eq(strip(x.o.val), A):
                        return True
            return "nothing moved but reports %s" % show(x.o.val)
        if pos_untouched(x, "head") is not True:
            return "moves the write position"
        nt = x.stores["tail"][-1]
        bdat0 = None
        why = "new read position %s" % show(nt)
        for A in x.avail():
            for T in (A, MX):
                if not (p_.le(T, A) and p_.le(T, MX)):
                    continue
                n = sub(T, ("op", "rem", T, BL))
                alt = ("op", "mul",) + tuple(sorted((("op", "div", T, BL), BL), key=skey))
                for n in (n, alt):
                    if not p_.modeq(nt, add(x.t, n), x.size):
                        continue
                    if not p_.eq(strip(x.o.val), sub(A, n)):
                        why = "reports %s left" % show(x.o.val)
                        continue
                    r = ring_out(x, nt, n, B)
                    if r is True:
                        return True
                    why = r
        return why

    def ring_out(x, nt, n, B):
        """elements [t, t+n) appended to vec B"""
        p_ = x.p
        cs = [c for c in x.copies]
        g = lambda f: x.o.read(("fld", "vec." + f, B))
        es = None
        # element size of the caller's buffer: whatever the copies use
        sizes = [e[2] for e in x.o.ev if e[0] == "store" and e[1] == ("fld", "vec.size", B)]
        newsize = g("size")
        if len(cs) == 0 and p_.eq(n, C0):
            return True
        if len(cs) not in (1, 2):
            return "%d copies" % len(cs)

        def cnt(c):
            """element count of a copy: bytes / element size"""
            for E in [("ld",) + e for e in ()]:
                pass
            return c[2]
        ES = elem_sizes(x, B)
        for es in ES:
            if len(cs) == 1:
                dst, src, nb, k = cs[0]
                if p_.eq(src, x.slot(x.t)) and p_.eq(nb, mul(n, es)):
                    okc = p_.eq(nt, C0) or p_.lt(x.t, nt) or p_.le(x.t, nt) or p_.le(add(x.t, n), x.size) or p_.lt(add(x.t, n), x.size)
                    if not okc:
                        return "one block copied although the data may wrap"
                    return buf_grown(x, B, es, [(dst, n)])
            else:
                first = sub(x.size, x.t)
                d1, s1, n1, _ = cs[0]
                d2, s2, n2, _ = cs[1]
                if p_.eq(s1, x.slot(x.t)) and p_.eq(n1, mul(first, es)) and p_.eq(s2, x.data) and (p_.eq(n2, mul(nt, es)) or p_.eq(n2, mul(sub(n, first), es))):
                    second = nt if p_.eq(n2, mul(nt, es)) else sub(n, first)
                    if not (p_.le(nt, x.t) or p_.lt(nt, x.t) or p_.lt(x.size, add(x.t, n)) or p_.le(x.size, add(x.t, n))):
                        return "two blocks copied although the data may not wrap"
                    return buf_grown(x, B, es, [(d1, first), (d2, second)])
        return "copies %s" % "; ".join("%s <- %s, %s bytes" % tuple(show(y) for y in c[:3]) for c in cs)

    def elem_sizes(x, B):
        r = [("ld", ("fld", "vec._elem_size", B), 0)]
        if x.es not in r:
            r.append(x.es)
        return r

    def buf_grown(x, B, es, parts):
        p_ = x.p
        sz0 = ("ld", ("fld", "vec.size", B), None)
        cand = {y for e in [d for d, _ in parts] for y in walk(e) if y[0] == "ld" and y[1] == ("fld", "vec.size", B)}
        total = C0
        for _, n in parts:
            total = add(total, n)
        ns = x.o.read(("fld", "vec.size", B))
        for s0 in cand or {None}:
            if s0 is None:
                continue
            pos = s0
            ok = True
            for d, n in parts:
                base = [y for y in walk(d) if (y[0] == "ld" and y[1] == ("fld", "vec.data", B)) or (y[0] == "call" and y[1] == "realloc")]
                if not any(p_.eq(d, add(b, mul(pos, es))) for b in base):
                    ok = False
                pos = add(pos, n)
            if ok and (p_.eq(ns, pos) or x.o.truth(eq(total, C0)) is True and p_.eq(ns, s0)):
                return True
        return "buffer gets %s, size %s" % ("; ".join(show(d) for d, _ in parts), show(ns))
    judge("fifo_nget", o, t_nget, "min(available, max) in whole blocks")

    # ---------------------------------------------------------------- bulk add
    ctx.rule("C04.nadd", "bulk add moves min(receivable, offered) elements, in order, and leaves exactly the rest in the caller's buffer")

    def t_nadd(x):
        p_ = x.p
        r = [e for e in x.o.ev if e[0] == "snap" and e[1] == "pthread_mutex_trylock"]
        src = arg(x.o.an, 1)
        if r:
            got = x.o.truth(eq(r[-1][4], C0))
            if got is not True:
                if x.copies or x.stores:
                    return "changes the pipe without its lock"
                return x.o.truth(eq(strip(x.o.val), C0)) is False or "reports success without the lock"
            if not p_.eq(strip(x.o.val), C0):
                return "reports failure with the lock held"
        g = lambda f: x.o.read(("fld", "vec." + f, src))
        Rs = [sub(sub(x.size, c), x.ic) for c in x.avail()]
        srcsz = {y for e in list(x.o.st.facts) for t, _ in e for y in walk(t) if y[0] == "ld" and y[1] == ("fld", "vec.size", src)}
        srcsz |= {y for c in x.copies for y in walk(c[2]) if y[0] == "ld" and y[1] == ("fld", "vec.size", src)}
        srcsz |= {y for w in x.stores.get("head", []) for y in walk(w) if y[0] == "ld" and y[1] == ("fld", "vec.size", src)}
        if "head" not in x.stores:
            if x.copies:
                return "copies without publishing"
            return any(p_.eq(R, C0) for R in Rs) or any(p_.eq(s, C0) for s in srcsz) or "nothing moved although there is room"
        if pos_untouched(x, "tail") is not True:
            return "moves the read position"
        nh = x.stores["head"][-1]
        ses = elem_sizes(x, src)
        why = "new write position %s" % show(nh)
        sdata = {y for c in x.copies for y in walk(c[1]) if y[0] == "ld" and y[1] == ("fld", "vec.data", src)}
        for R in Rs:
            for S0 in srcsz:
                for n in (R, S0):
                    if not (p_.le(n, R) and p_.le(n, S0)):
                        continue
                    if not p_.modeq(nh, add(x.h, n), x.size):
                        continue
                    r = ring_in(x, nh, n, src, sdata, ses)
                    if r is not True:
                        why = r
                        continue
                    r = leftover(x, src, S0, n, ses, sdata)
                    if r is True:
                        return True
                    why = r
        return why

    def ring_in(x, nh, n, src, sdata, ses):
        p_ = x.p
        cs = [c for c in x.copies if mentions(c[0], lambda y: y == x.data) or mentions(c[0], lambda y: y[0] == "ld" and y[1] == ("fld", "vec.data", x.buf))]
        if not cs and p_.eq(n, C0):
            return True
        first = sub(x.size, x.h)
        for sd in sdata:
            if len(cs) == 1:
                d, s, nb, _ = cs[0]
                if p_.eq(d, x.slot(x.h)) and p_.eq(s, sd) and p_.eq(nb, mul(n, x.es)):
                    if p_.eq(nh, C0) or p_.le(x.h, nh) or p_.le(add(x.h, n), x.size):
                        return True
                    return "one block copied although the room may wrap"
            elif len(cs) == 2:
                d1, s1, n1, _ = cs[0]
                d2, s2, n2, _ = cs[1]
                if p_.eq(d1, x.slot(x.h)) and p_.eq(s1, sd) and p_.eq(n1, mul(first, x.es)) and p_.eq(d2, x.data) and \
                        any(p_.eq(s2, add(sd, mul(first, e))) for e in ses) and p_.eq(n2, mul(sub(n, first), x.es)):
                    if p_.le(nh, x.h) or p_.lt(x.size, add(x.h, n)) or p_.le(x.size, add(x.h, n)):
                        return True
                    return "two blocks copied although the room may not wrap"
        return "copies %s" % "; ".join("%s <- %s, %s bytes" % tuple(show(y) for y in c[:3]) for c in cs)

    def leftover(x, src, S0, n, ses, sdata):
        p_ = x.p
        ns = x.o.read(("fld", "vec.size", src))
        if p_.eq(sub(S0, n), C0):
            return p_.eq(ns, C0) or "buffer keeps %s elements after everything was moved" % show(ns)
        if not (p_.true(mk_cmp("ne", S0, n)) or p_.lt(n, S0)):
            # equality undecided on this path: final size must be the difference either way
            pass
        if not p_.eq(ns, sub(S0, n)) and not ns == S0:
            return "buffer keeps %s elements" % show(ns)
        if p_.eq(n, C0):
            return True
        # the rest moves to the front
        mv = [c for c in x.copies if c[3] == "memmove" or not (mentions(c[0], lambda y: y == x.data))]
        mv = [c for c in mv if any(p_.eq(c[0], sd) for sd in sdata)]
        for c in mv:
            for sd in sdata:
                for e in ses:
                    if p_.eq(c[1], add(sd, mul(n, e))):
                        # enough bytes: at least (S0-n)*e
                        return True
        return "rest of the buffer not moved to its front"

    for f in ("fifo_nadd", "fifo_nadd_try"):
        a, o, _ = outs(f, True)
        judge(f, o, t_nadd, "min(receivable, offered), rest kept")

    # ---------------------------------------------------------------- set-up
    ctx.rule("C04.setup", "a new, reset or resized pipe is empty and open, a filled one holds capacity - 1 elements, capacity is at least 2")

    def zeroed(o, f):
        return any(e[0] == "call" and e[1] == "memset" and e[2][0] == arg(o.an, 0) and e[2][1] == C0 for e in o.ev)

    def t_construct(x):
        g = lambda n: x.o.read(("fld", "fifo." + n, x.S))
        st = {k: v[-1] for k, v in x.stores.items()}
        z = zeroed(x.o, "fifo")
        for n in ("head", "tail", "_iter_head", "input_count", "shared_mutex_fifo"):
            if n in st and st[n] != C0 or n not in st and not z:
                return "%s not initialised to 0" % n
        if x.o.truth(as_bool(st.get("is_open", C0))) is not True:
            return "pipe not open"
        inits = {e[2][0][1] for e in ev_calls(x.o, "pthread_mutex_init", "pthread_cond_init") if e[2][0][0] == "fld"}
        for m in ("head_mutex", "tail_mutex", "cond_add", "cond_get"):
            if "fifo." + m not in inits:
                return "%s not initialised" % m
        return capacity(x, arg(x.o.an, 2))

    def capacity(x, n):
        buf = x.o.read(("fld", "fifo.buf", x.S))
        sz = x.o.read(("fld", "vec.size", buf))
        if x.p.le(const(2), n):
            return x.p.eq(sz, n) or "capacity %s" % show(sz)
        return x.p.eq(sz, const(2)) or x.p.eq(sz, n) and x.p.le(const(2), sz) or "capacity %s may be below 2" % show(sz)
    a, o, _ = outs("fifo_construct", False)
    judge("fifo_construct", o, t_construct, "empty, open, capacity max(2, n)")

    def t_reset(x):
        if x.o.truth(eq(x.S, C0)) is True:
            return not x.stores or "writes through NULL"
        st = {k: v[-1] for k, v in x.stores.items()}
        for n in ("head", "tail"):
            if st.get(n) != C0:
                return "%s not reset" % n
        return x.o.truth(as_bool(st.get("is_open", C0))) is True or "not reopened"
    a, o, _ = outs("fifo_reset", False)
    judge("fifo_reset", o, t_reset, "empty and open")
    a, o, _ = outs("fifo_resize", False)
    judge("fifo_resize", o, lambda x: ([x.stores.get(n, [None])[-1] == C0 or x.p.eq(x.stores.get(n, [C1])[-1], C0) for n in ("head", "tail")] == [True, True] and capacity(x, arg(x.o.an, 1)))
          or "positions not reset", "empty, capacity max(2, n)")
    a, o, _ = outs("fifo_set_full", False)

    def t_full(x):
        h, t = x.stores.get("head", [x.h])[-1], x.stores.get("tail", [x.t])[-1]
        return (x.p.eq(t, C0) and x.p.eq(h, sub(x.size, C1))) or "positions %s..%s" % (show(t), show(h))
    judge("fifo_set_full", o, t_full, "positions 0 .. capacity-1")
    a, o, _ = outs("fifo_set_open", True)

    def t_open(x):
        v = x.stores.get("is_open")
        w = arg(x.o.an, 1)
        return (v and pos_untouched(x, "head", "tail") is True and (as_bool(v[-1]) == as_bool(w) or x.o.truth(as_bool(v[-1])) is not None and x.o.truth(as_bool(v[-1])) == x.o.truth(as_bool(w)))) or \
            "open flag set to %s" % (show(v[-1]) if v else "nothing")
    judge("fifo_set_open", o, t_open, "sets the open flag to its argument")
    ctx.need(tot[0], 60, "path outcomes")
