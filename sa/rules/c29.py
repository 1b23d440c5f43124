from .frag import *
from .c18 import replace

TECHNIQUE = "shape-sensitive dataflow: link updates of every list operation per neighbour case, loop-cursor induction for walks, and per-element effects of every graph operation"
LEVEL_NOTE = "every path of every list and graph operation, for lists and graphs of any length, split at loop heads"
EXPLANATION = (
    "List operations are inlined and split by which neighbours exist; on each path the final value of every link written is compared with what the operation defines: "
    "an element taken out leaves its neighbours linked to each other, one put in is linked on both sides, the head moves exactly when the first element changes, the data returned and the memory released are the removed element's. "
    "Walks are decided by induction over their cursor. Graph operations are decided per visited element: which edges are cleared, which nodes are queued, counted and returned, and that sweeps cover every node.")
ASSUMPTIONS = ["lists are doubly linked and the head has no predecessor on entry (kept by every operation)", "imported elements are unlinked",
               "allocation failure ends the process (checked by C20)"]

PFX = ("vec.", "dnode.")


def nx(a):
    return ("fld", "node.next", a)


def pv(a):
    return ("fld", "node.prev", a)


def ld(a):
    return ("ld", a, 0)


class L:
    """what a path did to a list"""

    def __init__(self, o):
        self.o, self.p, self.mem, self.ends = o, P(o), {}, False
        self.w = {}
        for e in o.ev:
            if e[0] == "store" and not (e[1][0] == "al" or addr_root(e[1]) and addr_root(e[1])[0] == "al"):
                self.w[e[1]] = e[2]
        self.freed = [e[2][0] for e in ev_calls(o, "free")]

    def final(self, a):
        for k, v in self.w.items():
            if k == a or k[0] == a[0] == "fld" and k[1] == a[1] and self.p.eq(k[2], a[2]):
                return v
        return self.mem.get(a, ld(a))

    def null(self, e):
        """True / False / None"""
        if e == C0:
            return True
        return self.p.o.truth(mk_cmp("eq", e, C0))

    def want(self, want, what):
        """the links in want have their value; nothing else is written (except links of the elements in free)"""
        for a, v in want.items():
            f = self.final(a)
            if not (f == v or self.p.eq(f, v)):
                return "%s: leaves %s as %s instead of %s" % (what, show(a), show(f), show(v))
        return True

    def only(self, addrs, own):
        for k, v in self.w.items():
            if any(k == a or k[0] == a[0] == "fld" and k[1] == a[1] and self.p.eq(k[2], a[2]) for a in addrs):
                continue
            if k[0] == "fld" and any(k[2] == x or self.p.eq(k[2], x) for x in own):
                continue
            if self.p.eq(v, self.mem.get(k, ld(k))):
                continue
            return "writes %s" % show(k)
        return True


def split(a):
    """every neighbour case of the element a: (has predecessor, has successor, memory)"""
    return [(p_, n, {pv(a): PRV if p_ else C0, nx(a): NXT if n else C0}) for p_ in (0, 1) for n in (0, 1)]


def run(ctx):
    p = ctx.prog("util", keep=[])
    lists(ctx, p)
    graphs(ctx)


NXT, PRV, HEAD = ("arg", 9001, "next"), ("arg", 9002, "prev"), ("arg", 9003, "first")     # distinct elements


class LRule(FragRule):
    pure_callbacks = True


def outs_of(ctx, p, f, pre, mem):
    fn = p.fn(f)
    r = LRule(None, {"all"}, 60)

    def asm(an, st):
        for c in pre:
            an.assume(st, c, True)
        st.mem.update(mem)
        for x in mem.values():
            if x != C0:
                an.assume(st, mk_cmp("ne", x, C0), True)
    a = ir.Analysis(p, fn, r, asm)
    a.start = 0
    a.run(start=0, cut=set(fn.loops))
    ctx.steps += a.steps
    ctx.functions.add(fn.name)
    return [o for o in r.outs if not o.died and not P(o).contra()], r.arr


def lists(ctx, p):
    A = lambda f, i: ("arg", p.fn(f).args[i][0], p.fn(f).args[i][1] or (p.fn(f).names.get(p.fn(f).args[i][0]) or [""])[0])

    def case(f, what, pre, test, mem={}, least=1):
        outs, arr = outs_of(ctx, p, f, pre, mem)
        bad = None
        for o in outs:
            l = L(o)
            l.mem = mem
            m = test(l)
            if m is not True:
                bad = (o, m)
                break
        if arr and bad is None:
            bad = (arr[0], "loops where it should act on one element")
        if bad is None:
            ctx.need(len(outs), least, "paths of " + f)
        ctx.ob("%s: %s (%d paths)" % (f, what, len(outs)), bad is None, bad[0].where() if bad else "", bad[1] if bad else "", bad[0].trail() if bad else None)

    def unlinked(X, head, isfirst, frees, ret):
        """X is taken out"""
        def t(l):
            n, q = l.mem[nx(X)], l.mem[pv(X)]
            want, own = {}, [X]
            if n != C0:
                want[pv(n)] = C0 if isfirst else q
            if q != C0:
                want[nx(q)] = n
            if head is not None:
                want[head] = n if isfirst else l.mem[head]
            m = l.want(want, "element taken out")
            if m is True:
                m = l.only(list(want), own)
            if m is True and frees:
                if l.freed != [X] and not (len(l.freed) == 1 and l.p.eq(l.freed[0], X)):
                    m = "releases %s" % [show(x) for x in l.freed]
            if m is True and not frees:
                if l.freed:
                    m = "releases %s" % [show(x) for x in l.freed]
                elif l.final(nx(X)) != C0 or l.final(pv(X)) != C0:
                    m = "the element taken out keeps a link into the list"
            if m is True and ret is not None:
                v, w = l.o.val, ret
                if not (v == w or l.p.eq(v, w)):
                    m = "returns %s instead of %s" % (show(v), show(w))
            return m
        return t

    ctx.rule("C29.remove", "taking an element out links its neighbours to each other, moves the head exactly when it was the first, and returns that element or its data")
    dat = lambda x: ld(("fld", "node.data", x))
    for f, fr, rt in (("node_pop", True, dat), ("node_pop_export", False, lambda x: x)):
        h = A(f, 0)
        X = HEAD
        for pr, ne, mem in split(X):
            if pr:
                continue
            case(f, "element taken off the head%s" % (", others follow" if ne else ""), [], unlinked(X, h, True, fr, rt(X)), {h: X, **mem})
        case(f, "empty list", [mk_cmp("eq", ld(h), C0)], lambda l: (l.null(l.o.val) is True and l.only([], []) is True and not l.freed) or "changes an empty list")
    f = "node_export"
    X = A(f, 0)
    for pr, ne, mem in split(X):
        case(f, "element unlinked (%s, %s)" % ("has predecessor" if pr else "first", "has successor" if ne else "last"), [mk_cmp("ne", X, C0)], unlinked(X, None, False, False, X), mem)
    case(f, "no element", [mk_cmp("eq", X, C0)], lambda l: (l.null(l.o.val) is True and l.only([], []) is True) or "acts on no element")
    for f, free_data in (("node_remove", False), ("node_delete", True)):
        h, X = A(f, 0), A(f, 1)
        for first in (True, False):
            for pr, ne, mem in split(X):
                if first == bool(pr):
                    continue
                mem[h] = X if first else HEAD
                pre = [mk_cmp("ne", X, C0), mk_cmp("ne", X, HEAD)]
                t = unlinked(X, h, first, True, None if free_data else dat(X))
                if free_data:
                    def t(l, X=X, t=t):
                        fr = list(l.freed)
                        d = dat(X)
                        same = lambda a, b: a == b or l.p.eq(a, b)
                        l.freed = [x for x in fr if not same(x, d)]
                        if len([x for x in fr if same(x, d)]) != (0 if l.null(d) is True else 1):
                            return "does not release the element's data exactly once"
                        return t_(l)
                    t_ = unlinked(X, h, first, True, None)
                case(f, "%s element%s" % ("first" if first else "inner", ", others follow" if ne else ", last"), pre, t, mem)
    case("node_remove", "no element", [mk_cmp("eq", A("node_remove", 1), C0)], lambda l: (l.null(l.o.val) is True and l.only([], []) is True and not l.freed) or "acts on no element")

    ctx.rule("C29.insert", "an element put in is linked on both sides, at the end asked for, and every other link is kept")

    def pushed(new, h, ret, data=None):
        def t(l):
            X = new(l)
            if X is None:
                return "no element created"
            H = l.mem[h]
            want = {h: X, nx(X): H, pv(X): C0}
            if H != C0:
                want[pv(H)] = X
            m = l.want(want, "element pushed")
            if m is True:
                m = l.only(list(want), [X])
            if m is True and not (l.o.val == X or l.p.eq(l.o.val, X)):
                m = "returns %s" % show(l.o.val)
            if m is True and data is not None:
                m = holds(l, X, data)
            return m
        return t

    def created(l):
        m = [e[4] for e in ev_calls(l.o, "malloc", "calloc")]
        return m[0] if len(m) == 1 else None

    def holds(l, X, data):
        """the new element's data is data"""
        for e in l.o.ev:
            if e[0] == "store" and e[1] == ("fld", "node.data", X):
                return l.p.eq(e[2], data) or "stores %s as data" % show(e[2])
        for e in ev_calls(l.o, "memcpy"):
            if e[2][0] == X and e[2][1][0] == "al":
                w = [x[2] for x in l.o.ev if x[0] == "store" and x[1] == ("fld", "node.data", e[2][1])]
                return (len(w) > 0 and w[-1] == data) or "element does not hold the data given"
        return "element does not hold the data given"

    for H in (0, 1):
        f = "node_push_import"
        h = A(f, 0)
        X = A(f, 1)
        mem = {h: HEAD if H else C0}
        case(f, "element becomes the head%s" % (" of others" if H else ""), [mk_cmp("ne", X, C0)], pushed(lambda l, X=X: X, h, X), mem)
        f = "node_push"
        h, d = A(f, 0), A(f, 1)
        case(f, "new element becomes the head%s" % (" of others" if H else ""), [], pushed(created, h, None, d), {h: HEAD if H else C0})

    # walking to the end, then linking there
    def walk(f, di, test_end, start, empty, what):
        """every loop of f follows the di links from start; test_end(l, c) on the path that leaves it with c the last element"""
        F = Fragments(ctx, p, f, lambda: LRule(None, {"all"}))
        bad, ends = None, 0
        for o in F.returns():
            if P(o).contra() or o.src not in F.reachable():
                continue
            if o.src == 0:
                m = empty(L(o))
            else:
                cur = cursor(F, o.src, di)
                if cur is None:
                    m = "the walk does not follow the links"
                elif any(L(a).w for a in F.arrivals(src=o.src, dst=o.src)):
                    m = "writes while walking"
                else:
                    c, first = cur
                    l = joined(F, o, c)
                    tail = trailing(F, o.src, c)
                    if tail is not None and l.null(c) is True and l.null(tail) is False:
                        c = tail        # the element before the one walked off
                        l.ends = True
                    if tail is not None and l.null(tail) is False and any(l.null(x) is True for x in first):
                        m = True        # only an empty list has no element behind the cursor
                    elif not all(start(x) for x in first):
                        m = "the walk starts at %s" % show(first[0])
                    elif l.null(c) is True:
                        # only reached when the list is empty
                        m = True if tail is not None and l.null(tail) is True and any(l.null(x) is False for x in first) else \
                            empty(l) if tail is not None and l.null(tail) is True else True if all(P(a).an.eval_cond(a.st, mk_cmp("eq", F.env_at(a, c[1]), C0)) is False for a in F.arrivals(dst=o.src)) else "walks off the list"
                    elif not l.ends and l.null(ld(di(c))) is not True:
                        m = "stops before the end"
                    else:
                        ends += 1
                        m = test_end(l, c)
            if m is not True:
                bad = (o, m)
                break
        if bad is None and not ends:
            bad = (None, "never reaches the end of a list")
        ctx.ob("%s: %s (%d paths)" % (f, what, F.npaths()), bad is None, bad[0].where() if bad and bad[0] else f, bad[1] if bad else "", bad[0].trail() if bad and bad[0] else None)

    def cursor(F, h, di):
        """(cursor value, its initial values) of a loop that steps through the di links"""
        for ph in [i.id for i in F.fn.blocks[h] if i.op == "phi"]:
            back = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src == h]
            first = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src != h]
            if back and first and all(v == ld(di(("in", ph))) for v in back):
                return ("in", ph), first
        return None

    for f in ("node_enqueue_import", "node_enqueue"):
        h = A(f, 0)
        new = (lambda l, X=A(f, 1): X) if f.endswith("import") else created
        data = None if f.endswith("import") else A(f, 1)
        # the new element may be created before the walk: it is then a value carried across the loop
        def fresh(l, new=new, f=f):
            X = new(l)
            if X is None and l.o.val is not None and l.o.val[0] == "in":
                X = l.o.val
            return X

        def end(l, c, fresh=fresh, h=h, data=data):
            X = fresh(l)
            if X is None:
                return "no element linked"
            want = {nx(c): X, pv(X): c, nx(X): C0, h: ld(h)}
            m = l.want(want, "element appended")
            if m is True:
                m = l.only(list(want), [X])
            if m is True and not l.p.eq(l.o.val, X):
                m = "returns %s" % show(l.o.val)
            return m

        def empty(l, fresh=fresh, h=h, data=data):
            X = fresh(l)
            if X is None:
                return "no element linked"
            m = l.want({h: X, nx(X): C0}, "first element")
            if m is True:
                m = l.only([h], [X])
            if m is True and data is not None and X[0] != "in":
                m = holds(l, X, data)
            return m
        walk(f, nx, end, lambda x, h=h: x == ld(h), empty, "element linked behind the last one; head of an empty list")
    # data of an element created before the walk
    F = Fragments(ctx, p, "node_enqueue", lambda: LRule(None, {"all"}))
    ar = [o for o in F.arrivals(src=0) if ev_calls(o, "malloc", "calloc")]
    ctx.ob("node_enqueue: the element created holds the data given", all(holds(L(o), created(L(o)), A("node_enqueue", 1)) is True for o in ar), "node_enqueue", "element does not hold the data given")
    ld_ends(ctx, walk, A)

    ctx.rule("C29.index", "positions and counts step one link at a time")
    for f in ("node_at", "node_data_at"):
        F = Fragments(ctx, p, f, lambda: LRule(None, {"all"}))
        bad = None
        h, k = A(f, 0), A(f, 1)
        n = 0
        for o in F.returns():
            if P(o).contra() or o.src not in F.reachable():
                continue
            l = L(o)
            m = True
            if o.src == 0:
                c, i = h, C0
            else:
                cur = cursor(F, o.src, nx)
                cnt = counter(F, o.src, k)
                if cur is None or not all(x == h for x in cur[1]) or cnt is None:
                    m = "does not step through the list one at a time"
                c, i = (cur[0], cnt) if m is True else (None, None)
            if m is True:
                n += 1
                if l.null(c) is True:
                    m = l.null(l.o.val) is True or "returns %s past the end" % show(l.o.val)
                else:
                    w = c if f == "node_at" else dat(c)
                    # i <= k holds throughout (the loop goes on only while i < k)
                    if not l.p.le(k, i):
                        m = "stops before the position"
                    elif not (l.o.val == w or l.p.eq(l.o.val, w)):
                        m = "returns %s" % show(l.o.val)
            if m is not True:
                bad = (o, m)
                break
        for o in F.arrivals():
            if bad is None and o.src == o.dst and counter(F, o.dst, k) is not None:
                i = counter(F, o.dst, k)
                if not P(o).lt(i, k) and not P(o).true(mk_cmp("ne", sub(k, i), C0)):
                    bad = (o, "steps on past the position")
        ctx.ob("%s: the element idx steps from the head (%d paths)" % (f, F.npaths()), bad is None and n >= 2, bad[0].where() if bad else f, bad[1] if bad else "no path", bad[0].trail() if bad else None)
    f = "node_count"
    F = Fragments(ctx, p, f, lambda: LRule(None, {"all"}))
    bad, n = None, 0
    h = A(f, 0)
    for o in F.returns():
        if P(o).contra() or o.src not in F.reachable():
            continue
        l = L(o)
        if o.src == 0:
            m = (l.null(h) is True and l.o.val == C0) or l.null(h) is False and l.null(ld(nx(h))) is True and l.o.val == C1 or "returns %s" % show(l.o.val)
        else:
            cur = cursor(F, o.src, nx)
            cs = [i.id for i in F.fn.blocks[o.src] if i.op == "phi" and ("in", i.id) != (cur or [None])[0]]
            m = "does not count one per element"
            for c in cs:
                back = [a.raw.get(c) for a in F.arrivals(dst=o.src) if a.src == o.src]
                first = {a.raw.get(c) for a in F.arrivals(dst=o.src) if a.src != o.src}
                if cur and all(x == h for x in cur[1]) and back and all(v == add(("in", c), C1) for v in back) and len(first) == 1 and is_c(min(first)):
                    c0 = min(first)
                    if l.null(cur[0]) is True:
                        w = sub(("in", c), c0)
                    elif l.null(ld(nx(cur[0]))) is True:
                        w = add(sub(("in", c), c0), C1)
                    else:
                        continue
                    if l.p.eq(l.o.val, w):
                        m = True
            n += m is True
        if m is not True:
            bad = (o, m)
            break
    ctx.ob("node_count: one per element (%d paths)" % F.npaths(), bad is None and n >= 1, bad[0].where() if bad else f, bad[1] if bad else "no counting loop", bad[0].trail() if bad else None)

    ctx.rule("C29.free", "freeing a list releases every element from the first on, once, and leaves an empty list")
    for f, kind in (("node_free", None), ("node_free_data", "data"), ("node_free_func", "func")):
        F = Fragments(ctx, p, f, lambda: LRule(None, {"all"}))
        h = A(f, 0)
        bad, freed, tops = None, 0, 0
        live = F.reachable()
        for s in live:
            for o in F.frag[s].outs + F.frag[s].arr:
                if o in F.frag[s].outs and o.died or P(o).contra():
                    continue
                l = L(o)
                fr = [e for e in o.ev if e[0] == "call" and e[1] == "free"]
                calls = [e for e in o.ev if e[0] == "call" and e[1] == "<indirect>"]
                m = True
                if fr or calls:
                    X = ld(h)
                    same = lambda a, b: a == b or l.p.eq(a, b)
                    # the head as this round begins (loads are versioned: first use)
                    els = [e for e in fr if same(unver(e[2][0]), unver(X))]
                    oth = [e for e in fr if e not in els]
                    if len(els) != 1:
                        m = "does not release the element exactly once"
                    elif kind == "data" and (len(oth) != 1 or unver(oth[0][2][0]) != unver(dat(X))):
                        m = "does not release the element's data exactly once"
                    elif kind != "data" and oth:
                        m = "releases %s" % show(oth[0][2][0])
                    elif kind == "func" and (len(calls) != 1 or unver(calls[0][2][0]) != unver(dat(X)) or calls[0][5] != A(f, 1) or o.ev.index(calls[0]) > o.ev.index(els[0])):
                        m = "does not hand the element's data to the function once, before releasing it"
                    elif kind != "func" and calls:
                        m = "calls a function"
                    else:
                        w = o.st.mem.get(h)
                        if w is None or unver(w) != ld(nx(X)):
                            m = "does not go on to the next element"
                        freed += 1
                elif hasattr(o, "dst"):
                    if o.src == o.dst:
                        cur = cursor(F, o.src, pv)
                        m = cur is not None and all(x == ld(h) for x in cur[1]) or "a round that releases nothing"
                        tops += m is True
                else:
                    m = l.null(o.an.read(o.st, h)) is True or "returns before the list is empty"
                if m is not True and bad is None:
                    bad = (o, m)
        ctx.ob("%s: every element released once (%d paths)" % (f, F.npaths()), bad is None and freed and tops, bad[0].where() if bad else f, bad[1] if bad else "does not start at the first element", bad[0].trail() if bad else None)


def trailing(F, h, c):
    """the value that is one round behind the cursor c (none before the first)"""
    for ph in [i.id for i in F.fn.blocks[h] if i.op == "phi"]:
        back = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src == h]
        first = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src != h]
        if back and first and all(v == c for v in back) and all(v == C0 for v in first):
            return ("in", ph)
    return None


def joined(F, o, c):
    """what the path into the loop and the path o out of it did together; values set before the loop are
    carried under their name at the loop head"""
    l = L(o)
    fst = [a for a in F.arrivals(dst=o.src) if a.src == 0]
    if len(fst) == 1:
        a = fst[0]
        live = {("in", i): F.env_at(a, i) for i in F.fn.live[o.src]}
        back = {v: k for k, v in live.items() if k != c and v[0] in ("call", "ssa")}
        w = {replace(k, back): replace(v, back) for k, v in L(a).w.items()}
        w.update(l.w)
        l.w = w
    return l


def counter(F, h, k=None):
    """number of rounds made by the loop at h, from a variable that counts up from 0 or down from k"""
    for ph in [i.id for i in F.fn.blocks[h] if i.op == "phi"]:
        back = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src == h]
        first = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src != h]
        if back and first and all(v == add(("in", ph), C1) for v in back) and all(v == C0 for v in first):
            return ("in", ph)
        if k is not None and back and first and all(v == sub(("in", ph), C1) for v in back) and all(v == k for v in first):
            return sub(k, ("in", ph))
    return None


def ld_ends(ctx, walk, A):
    ctx.rule("C29.ends", "the ends of a list are found by following its links to the last one")
    for f, di in (("node_top", pv), ("node_front", pv), ("node_bottom", nx), ("node_back", nx)):
        a = A(f, 0)

        def end(l, c):
            return l.only([], []) is True and (l.o.val == c or l.p.eq(l.o.val, c)) or "returns %s" % show(l.o.val)

        def empty(l, a=a, di=di):
            if l.null(a) is True:
                return l.null(l.o.val) is True or "returns %s for no list" % show(l.o.val)
            return l.null(ld(di(a))) is True and l.p.eq(l.o.val, a) or "returns %s" % show(l.o.val)
        walk(f, di, end, lambda x, a=a: x == a, empty, "last element in its direction")


# ------------------------------------------------------------------ graphs
MUT = ["vec_push_back", "vec_erase_one", "vec_erase_at", "vec_erase", "vec_extend", "vec_append", "vec_clear", "vec_resize",
       "fifo_add", "fifo_get", "fifo_resize", "fifo_is_empty", "fifo_reset", "dgraph_get_roots"]


class GRule(FragRule):
    """also remembers what the memory behind a call's arguments holds"""

    def call(self, an, st, inst, name, args):
        if isinstance(name, str) and name in ("vec_push_back", "fifo_add", "vec_erase_one"):
            v = an.read(st, args[1])
            self._ev(st, ("held", name, (args[0], v), inst.id, None, None))
            self.kept = (inst.id, args[1], v)

    kept = None

    def after(self, an, st, inst, name, args, res):
        if self.kept and self.kept[0] == inst.id:      # these copy from their argument and leave it alone
            st.mem[self.kept[1]] = self.kept[2]
            self.kept = None
        FragRule.after(self, an, st, inst, name, args, res)


UNROLL = "function(loop(loop-unroll-full))"      # loops with a constant number of rounds


def graphs(ctx):
    p = ctx.prog("util", keep=MUT, post=UNROLL)
    A = lambda f, i: ("arg", p.fn(f).args[i][0], p.fn(f).args[i][1] or (p.fn(f).names.get(p.fn(f).args[i][0]) or [""])[0])
    g = lambda f, n: ("fld", "dgraph." + n, A(f, 0))
    out = lambda n, k: add(("fld", "dnode.out", n), const(8 * k))
    vc = lambda n: ("fld", "dnode.visit_count", n)
    E8 = const(8)

    def frags(f, vecs=("nodes", "_roots")):
        def asm(an, st):
            for n in vecs:
                v = ld(g(f, n))
                st.mem[("fld", "vec._elem_size", v)] = E8
                an.assume(st, le(C0, ld(("fld", "vec.size", v))), True)
        F = Fragments(ctx, p, f, lambda: GRule(None, {"all"}, maxev=80), asm)
        F.views = {}
        return F

    def views(F, s=None):
        live = F.reachable()
        for k in sorted(live):
            if s is not None and k != s:
                continue
            for o in F.frag[k].outs + F.frag[k].arr:
                if o.died:
                    continue
                v = F.views.get(id(o))
                if v is None:
                    v = F.views[id(o)] = View(o, PFX)
                    v.isret = o in F.frag[k].outs
                    v.p = P(v)
                if v.infeasible or v.p.contra():
                    continue
                yield v

    def data(v):
        return ld(("fld", "vec.data", v))

    def size(v):
        return ld(("fld", "vec.size", v))

    def sweep(F, h, vec):
        """address of the element visited in a round of the loop at h, if it runs over every element of vec; else None"""
        settle = lambda e: unver_fields(e, PFX)
        for ph in [i.id for i in F.fn.blocks[h] if i.op == "phi"]:
            back = [a.raw.get(ph) for a in F.arrivals(dst=h) if a.src == h]
            first = [settle(a.raw.get(ph)) for a in F.arrivals(dst=h) if a.src != h]
            if not back or not first:
                continue
            x = ("in", ph)
            if all(b == add(x, E8) for b in back) and all(unver(f) == unver(data(vec)) for f in first):
                return x, sub(x, add(data(vec), scale(size(vec), 8)))
            if all(b == add(x, C1) for b in back) and all(f == C0 for f in first):
                return add(data(vec), scale(x, 8)), scale(sub(x, size(vec)), 8)
        return None

    def report(f, what, bad, n, least=1):
        if bad is None:
            ctx.need(n, least, "paths of " + f)
        ctx.ob("%s: %s (%d paths)" % (f, what, n), bad is None, bad[0].where() if bad else "", bad[1] if bad else "", bad[0].trail() if bad else None)

    def stores(v, *fields):
        d = {}
        for e in v.ev:
            if e[0] == "store" and not (addr_root(e[1]) and addr_root(e[1])[0] == "al"):
                d[e[1]] = e[2]
        return d

    def rounds(f, F, h, vec, test, what):
        """test(v, element address) on every round; every round visits the next element and the loop ends only after the last"""
        s = sweep(F, h, vec)
        bad, n = None, 0
        for v in views(F, h):
            n += 1
            if s is None:
                bad = (v, "the loop does not run over every element")
                break
            x, left = s
            if not v.isret and v.dst == h:
                m = test(v, x)
            else:
                m = v.p.le(C0, left) or v.p.eq(left, C0) or "leaves the loop before the last element"
            if m is not True:
                bad = (v, m)
                break
        report(f, what, bad, n, 2)

    ctx.rule("C29.graph", "graph operations keep every other node and edge")
    f = "dgraph_remove"
    F = frags(f)
    nodes = ld(g(f, "nodes"))
    X = ld(A(f, 1))

    def clears(v, x):
        N = ld(x)
        w = stores(v)
        for k in (0, 1):
            a = out(N, k)
            isx = v.truth(mk_cmp("eq", ld(a), X))
            new = w.pop(a, ld(a))
            if isx is False:
                if not v.p.eq(new, ld(a)):
                    return "changes an edge to another node"
            elif isx is True:
                if new != C0:
                    return "keeps an edge to the removed node"
            elif not (new != ld(a) and False):
                return "edge %d not compared with the removed node" % k
        return not w or "writes %s" % show(list(w)[0])
    hs = [h for h in F.headers if h in F.reachable()]
    ctx.ob("dgraph_remove: one sweep over the nodes", len(hs) == 1, f, "%d loops" % len(hs))
    for h in hs[:1]:
        rounds(f, F, h, nodes, clears, "clears the edges to the removed node, of every node, and no others")
    bad, n = None, 0
    for v in views(F):
        if not v.isret:
            continue
        n += 1
        er = [e for e in v.ev if e[0] == "call" and e[1].startswith("vec_erase")]
        fr = ev_calls(v, "free")
        w = stores(v)
        m = True
        if len(er) != 1 or er[0][2][0] != nodes or not (er[0][1] == "vec_erase_one" and er[0][2][1] == A(f, 1) or er[0][1] == "vec_erase" and er[0][2][1:] == (A(f, 1), C1)
                                                        or er[0][1] == "vec_erase_at" and v.p.eq(scale(er[0][2][1], 8), sub(A(f, 1), data(nodes))) and er[0][2][2] == C1):
            m = "does not erase exactly the node's entry"
        elif [e[2][0] for e in fr] != [X]:
            m = "does not release exactly the node"
        elif not v.p.eq(v.val, ld(("fld", "dnode.data", X))):
            m = "returns %s" % show(v.val)
        elif w.get(g(f, "_roots_good")) != C0:
            m = "cached roots stay valid"
        elif [k for k in w if k not in (g(f, "_roots_good"), A(f, 1))]:
            m = "writes %s" % show([k for k in w if k not in (g(f, "_roots_good"), A(f, 1))][0])
        if m is not True:
            bad = (v, m)
            break
    report(f, "erases and releases the node, returns its data, forgets cached roots", bad, n)

    f = "dgraph_add_node"
    F = frags(f)
    bad, n = None, 0
    for v in views(F):
        n += 1
        w = stores(v)
        h = [e for e in v.ev if e[0] == "held" and e[1] == "vec_push_back"]
        m = True
        if len(h) != 1 or h[0][2] != (ld(g(f, "nodes")), A(f, 1)):
            m = "node not added to the nodes"
        elif w.get(g(f, "newest")) != A(f, 1) or w.get(g(f, "_roots_good")) != C0 or len(w) != 2:
            m = "newest node or cached roots not updated"
        elif v.val != A(f, 1):
            m = "returns %s" % show(v.val)
        if m is not True:
            bad = (v, m)
    report(f, "adds the node, remembers it as newest, forgets cached roots", bad, n)
    f = "dgraph_add_data"
    F = frags(f)
    bad, n = None, 0
    for v in views(F):
        n += 1
        w = stores(v)
        h = [e for e in v.ev if e[0] == "held" and e[1] == "vec_push_back"]
        N = [e[4] for e in ev_calls(v, "malloc", "calloc")]
        m = True
        if len(N) != 1 or len(h) != 1 or h[0][2] != (ld(g(f, "nodes")), N[0]):
            m = "new node not added to the nodes"
        elif w.get(g(f, "newest")) != N[0] or w.get(g(f, "_roots_good")) != C0:
            m = "newest node or cached roots not updated"
        elif v.val != N[0]:
            m = "returns %s" % show(v.val)
        else:
            for fld_, val in (("dnode.data", A(f, 1)), ("dnode.visit_count", C0), ("dnode.is_root", C0)):
                if not init_of(v, N[0], fld_, val):
                    m = "new node's %s is not %s" % (fld_, show(val))
        if m is not True:
            bad = (v, m)
    report(f, "creates an unlinked node holding the data and adds it", bad, n)

    f = "dgraph_consume"
    F = frags(f, ())
    bad, n = None, 0
    src = A(f, 1)
    sf = lambda x: ld(("fld", "dgraph." + x, src))
    for v in views(F):
        n += 1
        ex = [e for e in v.ev if e[0] == "call" and e[1] in ("vec_extend", "vec_append")]
        fr = [e[2][0] for e in ev_calls(v, "free")]
        m = True
        if len(ex) != 1 or not (ex[0][1] == "vec_extend" and ex[0][2] == (ld(g(f, "nodes")), sf("nodes")) or ex[0][1] == "vec_append" and ex[0][2] == (ld(g(f, "nodes")), data(sf("nodes")), size(sf("nodes")))):
            m = "does not take over the other graph's nodes"
        elif stores(v).get(g(f, "_roots_good")) != C0:
            m = "cached roots stay valid"
        elif sum(x == src for x in fr) != 1 or any(mentions(x, lambda y: y[0] == "fld" and y[1].startswith("dnode")) for x in fr):
            m = "does not release exactly the shell of the other graph"
        elif v.ev.index(ex[0]) > min(v.ev.index(e) for e in ev_calls(v, "free")):
            m = "takes over nodes after releasing them"
        if m is not True:
            bad = (v, m)
    report(f, "takes over all nodes, releases only the other graph's shell", bad, n)

    ctx.rule("C29.roots", "the cached roots are every node marked as root, or every node without an incoming edge when none is marked")
    f = "dgraph_get_roots"
    F = frags(f)
    nodes, roots = ld(g(f, "nodes")), ld(g(f, "_roots"))
    isroot = lambda N: ("fld", "dnode.is_root", N)
    good = ld(g(f, "_roots_good"))
    hs = [h for h in F.headers if h in F.reachable()]
    seen = set()

    def pushes(v):
        return [e for e in v.ev if e[0] == "call" and e[1] == "vec_push_back"]

    for h in hs:
        s = sweep(F, h, nodes)
        bad, kinds, n = None, set(), 0
        for v in views(F, h):
            n += 1
            if s is None:
                bad = (v, "the loop does not run over every node")
                break
            x, left = s
            N = ld(x)
            w, pu = stores(v), pushes(v)
            if v.isret or v.dst != h:
                if not (v.p.le(C0, left) or v.p.eq(left, C0)):
                    bad = (v, "leaves the loop before the last node")
                continue
            # one round: what kind of sweep is this
            tr = lambda a: v.truth(mk_cmp("ne", ld(a), C0))
            addm = [e for e in pu if e[2][0] == roots and e[2][1] == x]
            if len(pu) != len(addm):
                bad = (v, "adds something other than the node visited to the roots")
                break
            if tr(isroot(N)) is not None and isroot(N) not in w and not w:
                kinds.add("marked")
                if bool(addm) != tr(isroot(N)) or len(addm) > 1:
                    bad = (v, "marked node not added to the roots once, or unmarked node added")
                    break
            elif tr(vc(N)) is not None and (w.get(isroot(N)) == C1) == (tr(vc(N)) is False):
                kinds.add("unreached")
                if bool(addm) != (tr(vc(N)) is False) or len(addm) > 1:
                    bad = (v, "node without incoming edge not added to the roots once, or another one added")
                    break
            elif w == {vc(N): C0}:
                kinds.add("reset")
            elif all(tr(out(N, k)) is not None for k in (0, 1)):
                kinds.add("count")
                want = {}
                for k in (0, 1):
                    if tr(out(N, k)):
                        a = vc(ld(out(N, k)))
                        want[a] = 1
                for a, val in w.items():
                    if a not in want or not plus_one(val, a):
                        bad = (v, "counts something other than incoming edges")
                if set(w) != set(want):
                    bad = (v, "does not count every incoming edge")
                if bad:
                    break
            else:
                bad = (v, "a sweep that is neither counting, resetting nor collecting roots")
                break
        if bad is None and len(kinds) != 1:
            bad = (next(iter(views(F, h))), "rounds of one sweep differ: %s" % sorted(kinds))
        seen |= kinds
        report(f, "sweep over every node: %s" % "/".join(sorted(kinds)), bad, n, 2)
    ctx.ob("dgraph_get_roots: marked roots collected, else counts reset, incoming edges counted and unreached nodes collected", seen == {"marked", "reset", "count", "unreached"} or bool(ctx.viol), f, "sweeps found: %s" % sorted(seen))
    # order of the sweeps and the cache flag
    bad, n = None, 0
    order = {}
    for h in hs:
        for v in views(F, h):
            if not v.isret and v.dst == h:
                order.setdefault(h, set()).update(kind_of(v, ld(sweep(F, h, nodes)[0]), isroot, vc, out) if sweep(F, h, nodes) else {"?"})
    kname = {h: "/".join(sorted(k)) for h, k in order.items()}
    allowed = {("entry", "marked"), ("marked", "reset"), ("reset", "count"), ("count", "unreached")}
    for v in views(F):
        n += 1
        src_k = "entry" if v.src == 0 else kname.get(v.src)
        m = True
        if v.isret:
            w = stores(v)
            cl = [e for e in v.ev if e[0] == "call" and e[1] == "vec_clear"]
            if v.val != roots:
                m = "returns %s" % show(v.val)
            elif v.truth(mk_cmp("ne", good, C0)) is True and v.src == 0:
                m = not cl and not w or "changes roots that are still valid"
            elif src_k == "entry":
                m = "returns without collecting"
            else:
                if w.get(g(f, "_roots_good"), C0) != C1:
                    m = "does not remember that the roots are valid"
                if src_k == "marked" and not (v.truth(mk_cmp("eq", size(roots), C0)) is False or v.p.lt(C0, size(roots)) or v.truth(mk_cmp("eq", size(nodes), C0)) is True):
                    m = "no root marked and none derived"
                if src_k not in ("marked", "unreached"):
                    m = "returns after the %s sweep" % src_k
        elif v.dst != v.src:
            dk = kname.get(v.dst)
            if (src_k, dk) not in allowed:
                m = "%s sweep follows %s" % (dk, src_k)
            elif dk == "marked":
                cl = [e for e in v.ev if e[0] == "call" and e[1] in ("vec_clear", "vec_resize") and e[2][0] == roots]
                if len(cl) != 1 and not (stores(v).get(("fld", "vec.size", roots)) == C0):
                    m = "old roots not dropped"
            elif dk == "reset" and not (v.truth(mk_cmp("eq", size(roots), C0)) is True):
                m = "roots derived although some are marked"
        if m is not True and bad is None:
            bad = (v, m)
    report(f, "order of the sweeps; valid roots kept, collected ones remembered", bad, n, 4)

    ctx.rule("C29.traverse", "a traversal starts at the first root with all counts zero, queues both unvisited successors of each node visited, and goes on to every unvisited root")
    f = "dgraph_traverse_reset"
    F = frags(f)
    nodes, roots, trav = ld(g(f, "nodes")), ld(g(f, "_roots")), ld(g(f, "_trav"))
    hs = [h for h in F.headers if h in F.reachable()]
    ctx.ob("dgraph_traverse_reset: one sweep over the nodes", len(hs) == 1, f, "%d loops" % len(hs))
    for h in hs[:1]:
        rounds(f, F, h, nodes, lambda v, x: stores(v) == {vc(ld(x)): C0} or "does not reset exactly the node's count", "resets the count of every node")
    # everything done outside the sweep, before and after it
    bad, n = None, 0
    pre = [v for v in views(F, 0) if not v.isret]
    post = [v for h in hs for v in views(F, h) if v.isret]
    for a in pre:
        for b in post:
            n += 1
            ev = a.ev + b.ev
            w = {}
            for v in (a, b):
                w.update(stores(v))
            c = [e for e in ev if e[0] == "call"]
            gr = [k for k, e in enumerate(c) if e[1] == "dgraph_get_roots"]
            rs = [e for e in c if e[1] == "fifo_resize"]
            ad = [e for e in c if e[1] == "fifo_add"]
            m = True
            if not gr or any(mentions(e[2][1], lambda y: y == roots) for e in c[:gr[0]] if len(e[2]) > 1):
                m = "roots not brought up to date first"
            elif len(rs) != 1 or rs[0][2][0] != trav or not a.p.le(size(nodes), rs[0][2][1]):
                m = "queue not sized for every node"
            elif len(ad) != 1 or ad[0][2][0] != trav or ad[0][2][1] != data(roots) or c.index(ad[0]) < c.index(rs[0]):
                m = "does not start at the first root"
            elif w != {g(f, "_root_idx"): C1}:
                m = "root position not reset: %s" % {show(k): show(x) for k, x in w.items()}
            if m is not True and bad is None:
                bad = (b, m)
    report(f, "roots current, queue emptied and sized, first root queued", bad, n)

    f = "dgraph_traverse"
    F = frags(f)
    roots, trav, idx = ld(g(f, "_roots")), ld(g(f, "_trav")), ld(g(f, "_root_idx"))
    bad, n, kinds = None, 0, set()
    for v in views(F):
        if v.src == 0 and not v.isret and not stores(v) and not ev_calls(v, "fifo_add", "fifo_get"):
            continue
        n += 1
        w = stores(v)
        ad = ev_calls(v, "fifo_add")
        gt = ev_calls(v, "fifo_get")
        rec = ev_calls(v, f)
        emp = [e for e in ev_calls(v, "fifo_is_empty") if e[2][0] == trav]
        R = add(data(roots), scale(idx, 8))
        m = True
        if gt:
            k = [e for e in emp if v.ev.index(e) < v.ev.index(gt[0])]
            N = ("ld", gt[0][4], 0)
            N = next((x for x in {unver(v.val)} if x == unver(N)), None)
            if not k or v.truth(mk_cmp("eq", k[-1][4], C0)) is not True:
                m = "takes from a queue not known to be nonempty"
            elif N is None:
                m = "returns something other than the node taken: %s" % show(v.val)
            elif len(gt) != 1 or gt[0][2][0] != trav:
                m = "takes more than one node"
            else:
                kinds.add("visit")
                U = lambda e: unver(e)
                w = {U(a): U(b) for a, b in w.items()}
                if w != {U(vc(N)): add(U(ld(vc(N))), C1)}:
                    m = "does not count exactly this visit"
                f_ = {frozenset((U(a), c) for a, c in T): r for T, r in v.st.facts.items()}
                adds = [U(e[2][1]) for e in ad]
                for j in (0, 1):
                    a = U(out(N, j))
                    S = U(ld(a))
                    have = adds.count(a) 
                    null = known0(f_, S)
                    cnt = known0(f_, U(ld(vc(S))))
                    if null is True or cnt is False:
                        if have:
                            m = "queues a missing or visited successor"
                    elif null is False and cnt is True:
                        if have != 1:
                            m = "does not queue an unvisited successor once"
                    elif have:
                        m = "queues successor %d without checking it" % j
                    else:
                        m = "successor %d never considered" % j
                if len(adds) != sum(adds.count(U(out(N, j))) for j in (0, 1)):
                    m = "queues something else"
        elif v.isret and not rec and not ad:
            kinds.add("end")
            m = v.val == C0 and not w and (v.p.le(size(roots), idx)) and bool(emp) and v.truth(mk_cmp("eq", emp[-1][4], C0)) is False or "ends before every root was visited"
        else:
            # next root: skipped when visited, else queued
            seen_ = known0({T: r for T, r in v.st.facts.items()}, ld(vc(ld(R))))
            if not emp or v.truth(mk_cmp("eq", emp[0][4], C0)) is not False:
                m = "moves to another root while nodes are queued"
            elif not v.p.lt(idx, size(roots)):
                m = "reads a root past the last"
            elif w != {g(f, "_root_idx"): add(idx, C1)}:
                m = "does not move to the next root"
            elif seen_ is False:
                kinds.add("skip")
                m = not ad or "queues a visited root"
            elif seen_ is True:
                kinds.add("root")
                m = len(ad) == 1 and ad[0][2][0] == trav and ad[0][2][1] == R or "does not queue the root"
                if m is True and v.isret and not (len(rec) == 1 and rec[0][2][0] == A(f, 0) and v.val == rec[0][4]):
                    m = "returns something else than the next node"
            else:
                m = "does not check whether the root was visited"
        if m is not True and bad is None:
            bad = (v, m)
    if bad is None and kinds != {"visit", "end", "skip", "root"}:
        bad = (next(iter(views(F))), "only %s handled" % sorted(kinds))
    report(f, "visits the node queued, queues its unvisited successors, then the next unvisited root", bad, n, 4)


def known0(facts, a):
    c, d = lin_parts(a)
    for T, r in facts.items():
        if dict(T) == d:
            if r[0] == r[1] == -c:
                return True
            if r[0] > -c or r[1] < -c or -c in r[2]:
                return False
    return None


def plus_one(val, a):
    """val is what a held plus one (its previous value may have been written on this path)"""
    c, d = lin_parts(val)
    return c == 1 and len(d) == 1 and all(k == 1 and x[0] == "ld" and unver(x[1]) == unver(a) for x, k in d.items())


def kind_of(v, N, isroot, vc, out):
    tr = lambda a: v.truth(mk_cmp("ne", ("ld", a, 0), C0))
    w = {e[1]: e[2] for e in v.ev if e[0] == "store"}
    if tr(isroot(N)) is not None and not w:
        return {"marked"}
    if tr(vc(N)) is not None and (w.get(isroot(N)) == C1) == (tr(vc(N)) is False):
        return {"unreached"}
    if w == {vc(N): C0}:
        return {"reset"}
    return {"count"}


def init_of(v, N, f, val):
    w = [e[2] for e in v.ev if e[0] == "store" and e[1] == ("fld", f, N)]
    if w:
        return w[-1] == val
    for e in ev_calls(v, "memcpy"):
        if e[2][0] == N and e[2][1][0] == "al":
            w = [x[2] for x in v.ev if x[0] == "store" and x[1] == ("fld", f, e[2][1])]
            if w:
                return w[-1] == val
            return val == C0 and any(x[2][0] == e[2][1] and x[2][1] == C0 for x in ev_calls(v, "memset"))
    return val == C0 and any(e[1] == "calloc" for e in ev_calls(v, "calloc"))
