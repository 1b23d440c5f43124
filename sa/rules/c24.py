"""C24: ORDER BY."""
from .norm import *
from .frag import Fragments, FragRule, subst
from .c15 import FC

TECHNIQUE = "loop-fragment analysis of the comparator and of the code that stores sort keys, from the compiler's intermediate representation: sign of the result for every ordering of the two keys and both directions"
LEVEL_NOTE = "every column type, direction and ordering of the keys; any number of rows and columns by induction over the loops"
EXPLANATION = (
    "The comparator is cut at its loop. Round R must look at key R of each of the two rows and column R, and for each type and direction and for a smaller, equal or larger first key its result must be negative, zero or positive as the direction asks; a nonzero result ends the comparison, zero goes on to the next column, and after the last column the rows are equal. "
    "Because both rows' keys are read alike and the result's sign is decided by their ordering alone, swapping the rows negates the result. The keys compared are the ones stored: each row stores one key per column in the columns' order, read from the column by the reader of its type, beginning at the index kept for the row. "
    "The sort covers all rows with this comparator, happens before the first row is put out, and the rows are put out in the sorted sequence.")
ASSUMPTIONS = ["qsort_r orders the array consistently with its comparator", "floating keys are not NaN"]

TYPES = {"FIELD_INT": "expression_get_int", "FIELD_FLOAT": "expression_get_float", "FIELD_STRING": "expression_get_stringview"}
ORDERS = (("smaller", -1), ("equal", 0), ("larger", 1))
TEXT = "stringview_compare_nocase_rtrim"


def run(ctx):
    p = ctx.prog("engine", keep=["_compare", "flex_at", "flex_pair_at", "stringview_compare_nocase_rtrim", "stringview_compare_rtrim", "stringview_compare", "stringview_compare_nocase"])
    name = comparator(ctx, p)
    compare(ctx, p, name)
    keys(ctx)
    output(ctx)


def comparator(ctx, p):
    ctx.rule("C24.sort", "the rows are sorted as a whole by the comparator, and sorted before the first one is put out")
    q = ctx.prog("engine", keep=["vec_sort_r"])
    f = q.fn("order_sort")
    outs, an = collect(ctx, q, f, {"vec_sort_r"}, {"order.sorted"})
    names = set()
    self_ = arg(an, 0)
    for o in returns(outs):
        c = [e for e in o.ev if e[0] == "call"]
        why = None
        if o.val is not None and o.an.eval_cond(o.st, eq(o.val, const(-5))) is True:
            names |= {e[2][1][1] for e in c if e[2][1][0] == "fn"}
            continue
        if len(c) != 1:
            why = "succeeds without sorting"
        elif c[0][2][0] != fld("order.entries", self_) or c[0][2][1][0] != "fn" or c[0][2][2] != self_:
            why = "sorts %s by %s" % (show(c[0][2][0]), show(c[0][2][1]))
        else:
            names.add(c[0][2][1][1])
        ctx.ob("order_sort", why is None, o.where(), why or "", o.trail() if why else None)
    if len(names) != 1:
        raise AnalysisError("comparator of the sort not found: %s" % sorted(names))
    q = ctx.prog("engine", inline=False)
    f = q.fn("fql_orderby")
    F = Fragments(ctx, q, "fql_orderby", lambda: FragRule(None, set()), infer=False)
    an = F.an[0]
    outs = [o for h in [0] + [h for h in F.headers if h in F.reachable()] for o in F.returns(h) + F.arrivals(h)]
    n = 0
    for o in outs:
        o = View(o, ("process.", "order."))
        sel = [k for k, e in enumerate(o.ev) if e[1] == "<indirect>" and e[5] is not None and "order.select__" in repr(e[5])]
        if not sel:
            continue
        n += 1
        srt = [k for k, e in enumerate(o.ev) if e[1] == "order_sort"]
        order = ("ld", fld("process.proc_data", arg(an, 0)), 0)
        done = o.an.eval_cond(o.st, eq(("ld", fld("order.sorted", order), 0), C0)) is False
        ok = done or srt and srt[0] < sel[0]
        ctx.ob("fql_orderby", ok, o.where(), "" if ok else "puts rows out that were not sorted", o.trail() if not ok else None)
    ctx.need(n, 1, "paths of fql_orderby that put rows out")
    # the library's sort covers every element
    q = ctx.prog("util", keep=[])
    f = q.fn("vec_sort_r")
    outs, an = collect(ctx, q, f, {"qsort_r"}, set())
    for o in returns(outs):
        c = [e for e in o.ev if e[0] == "call"]
        v = arg(an, 0)
        want = (("ld", fld("vec.data", v), 0), ("ld", fld("vec.size", v), 0), ("ld", fld("vec._elem_size", v), 0), arg(an, 1), arg(an, 2))
        small = o.an.interval(o.st, want[1])[1] <= 1
        ok = small and not c or len(c) == 1 and c[0][2] == want
        ctx.ob("vec_sort_r", ok, o.where(), "" if ok else "sorts %s" % [show(e[4]) for e in c])
    return names.pop()


class Sign:
    """value of an expression when the first key is smaller than, equal to or larger than the second"""

    def __init__(self, o, order, side, xy):
        self.o, self.order, self.side, self.xy = o, order, side, xy
        self.st = o.st.copy()
        self.possible = True
        if xy:
            x, y = xy
            for c, t in ((mk_cmp("slt", x, y), order < 0), (mk_cmp("slt", y, x), order > 0), (eq(x, y), order == 0)):
                if o.an.assume(self.st, c, t) is False:
                    self.possible = False

    def num(self, e):
        k = e[0]
        if k == "c":
            return e[1]
        if k == "L":
            t = e[1]
            for a, c in e[2]:
                v = self.num(a)
                if v is None:
                    return None
                t += c * v
            return t
        if k == "op" and e[1] == "fcmp":
            x, y = self.side(e[3]), self.side(e[4])
            if x is None or y is None:
                return None
            case = self.order + 1
            if x == y:
                case = 1
            elif x > y:
                case = 2 - case
            return int(FC[e[2][1]][case])
        if k == "op" and e[1] in ("zext", "sext", "trunc") and len(e) == 3:
            return self.num(e[2])
        if k == "call":
            s = self.side(e)
            return None if s is None else s * self.order
        if k == "not":
            v = self.num(e[1])
            return None if v is None else int(not v)
        if k == "sel":
            v = self.num(e[1])
            return None if v is None else self.num(e[2] if v else e[3])
        if k == "cmp":
            v = self.o.an.eval_cond(self.st, e)
            if v is not None:
                return int(v)
            v = self.num(e[2])
            if v is not None and (e[2][0] != "call"):
                return int(v == 0 if e[1] == "eq" else v < 0)
            if v is not None:
                return int(v == 0 if e[1] == "eq" else v < 0)
            return None
        lo, hi, _ = self.o.an.interval(self.st, e)
        return lo if lo == hi else None

    def feasible(self):
        if not self.possible:
            return False
        for T, (lo, hi, ne) in self.o.st.facts.items():
            if len(T) == 1 and T[0][0] in (self.xy or ()):
                continue
            v = self.num(mk_lin(0, dict(T)))
            if v is None:
                continue
            text = any(mentions(a, lambda y: y[0] == "call" and y[1] == TEXT) for a, _ in T)
            # of a text comparison only the sign is known
            vals = (v, 2 * v, 1000 * v) if text else (v,)
            if not any(lo <= x <= hi and x not in ne for x in vals):
                return False
        return True


def compare(ctx, p, name):
    ctx.rule("C24.compare", "round R compares key R of both rows by the type of column R; the first that differs decides, reversed when the column is descending; rows with equal keys are equal")
    calls = {"flex_at", "flex_pair_at", "stringview_compare_nocase_rtrim", "stringview_compare_rtrim", "stringview_compare", "stringview_compare_nocase"}
    F = Fragments(ctx, p, name, lambda: FragRule(calls, {"all"}))
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    an = F.an[h]
    a, b, ctxt = (arg(an, i) for i in range(3))
    idx = [("ld", fld("_entry.idx", x), 0) for x in (a, b)]
    exprs = fld("order.expressions", ctxt)
    data = fld("order.order_data", ctxt)
    carriers = {o.val[1] for o in F.returns(h) if o.val is not None and o.val[0] == "in" and o.val != R}
    if len(carriers) > 1:
        raise AnalysisError("%s: result carried in %d variables" % (name, len(carriers)))
    car = carriers.pop() if carriers else None
    for o in F.arrivals(0, h):
        if car is not None:
            ok = o.raw.get(car) == C0
            ctx.ob(name + ": start", ok, o.where(), "" if ok else "starts as %s" % show(o.raw.get(car)))
    for o in F.returns(0):
        ok = o.val == C0
        ctx.ob(name + ": start", ok, o.where(), "" if ok else "gives %s before the first column" % show(o.val))
    E = p.enumval
    es = ("ld", fld("vec._elem_size", exprs), 0)
    col = ("ld", add(("ld", fld("vec.data", exprs), 0), scale(R, 8)), 0)
    cols = (col, ("ld", add(("ld", fld("vec.data", exprs), 0), mulall([R, es])), 0))
    vals = {}
    n = 0
    for o in F.arrivals(h, h) + F.returns(h):
        o = View(o, ("expression.", "order.", "vec.", "_entry."))
        if o.infeasible:
            continue
        isret = not hasattr(o, "dst")
        known = lambda c: o.an.eval_cond(o.st, c)
        V = o.val if isret else (o.next.get(car, C0) if car is not None else C0)
        desc = typ = None
        seen = False
        for c in cols:
            d = known(eq(("ld", fld("expression.descending", c), 0), C0))
            desc = desc if d is None else not d
            t = ("ld", fld("expression.field_type", c), 0)
            for k in TYPES:
                if known(eq(t, const(E[k]))) is True:
                    typ = k
            seen = seen or any(known(eq(t, const(E[k]))) is not None for k in TYPES)
        carried = ("in", car) if car is not None else None
        if not seen and not [e for e in o.ev if e[0] == "call"]:
            # no column was looked at: the end, or an earlier difference
            why = None
            if not isret:
                why = "skips a column"
            elif carried is not None and known(eq(carried, C0)) is False:
                why = None if V == carried else "a difference found before becomes %s" % show(V)
            else:
                sz = ("ld", fld("vec.size", exprs), 0)
                end = known(eq(scale(R, 8), mulall([sz, es]))) is True or known(eq(R, sz)) is True or known(mk_cmp("slt", R, sz)) is False
                if not end:
                    why = "ends before the last column"
                elif V != carried and known(eq(V, C0)) is not True:
                    why = "rows with equal keys give %s" % show(V)
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
            continue
        if typ is None:
            continue
        if carried is not None and known(eq(carried, C0)) is not True:
            ctx.ob(name, False, o.where(), "compares a column although an earlier one differs", o.trail())
            continue
        n += 1

        def which(call):
            i = call[3][1] if call[0] == "call" and len(call) > 3 and len(call[3]) > 1 and call[3][0] == data else None
            for k in (0, 1):
                if i is not None and P(o).eq(i, add(idx[k], R)):
                    return k
            return None

        def key(e):
            """which row's key the value is"""
            if e[0] == "ld" and e[1][0] == "call" and e[1][1] == "flex_at":
                return which(e[1])
            return None
        xy, why = None, None
        calls_ = [e for e in o.ev if e[0] == "call"]
        if typ == "FIELD_STRING":
            cmps = [e for e in calls_ if e[1].startswith("stringview")]
            if len(cmps) != 1 or cmps[0][1] != TEXT:
                ctx.ob(name, False, o.where(), "texts are compared by %s" % [e[1] for e in cmps], o.trail())
                continue
            sides = []
            for x in cmps[0][2]:
                pair = {}
                for e in o.ev:
                    if e is cmps[0]:
                        break
                    if e[0] == "store" and e[1][0] == "fld" and e[1][2] == x:
                        pair[e[1][1]] = origin(F.fn, e[2], calls_)
                ks = {which(c[4]) if c else None for c in pair.values()}
                sides.append(ks.pop() if len(pair) == 2 and len(ks) == 1 else None)
            if sides == [0, 1]:
                m = 1
            elif sides == [1, 0]:
                m = -1
            else:
                ctx.ob(name, False, o.where(), "the texts compared are not key R of the two rows", o.trail())
                continue
            side = lambda e, m=m, r=cmps[0][4]: m if e == r else None
        else:
            side = key
            if typ == "FIELD_INT":
                found = {}
                for e in calls_:
                    k = which(e[4])
                    if k is not None:
                        found[k] = e[4]
                if set(found) != {0, 1}:
                    ctx.ob(name, False, o.where(), "the numbers compared are not key R of the two rows", o.trail())
                    continue
                xy = tuple(("ld", found[k], 0) for k in (0, 1))
        for word, c in ORDERS:
            S = Sign(o, c, side, xy)
            if not S.feasible():
                continue
            v = S.num(V)
            for d in ((False, True) if desc is None else (desc,)):
                want = -c if d else c
                if v is None:
                    why = "the result for a %s first key is %s" % (word, show(V))
                elif (v > 0) - (v < 0) != want:
                    why = "a %s first key gives %d %s" % (word, v, "descending" if d else "ascending")
                elif isret and v == 0:
                    sz = ("ld", fld("vec.size", exprs), 0)
                    why = "equal keys end the comparison" if known(eq(add(R, const(1)), sz)) is not True else None
                elif not isret and v != 0 and car is None:
                    why = "a difference does not end the comparison"
                if why:
                    break
                vals[typ, d, c] = 1
            if why:
                break
        ctx.ob("%s: %s" % (name, typ[6:].lower()), why is None, o.where(), why or "", o.trail() if why else None, n=3)
    for t in TYPES:
        for d in (False, True):
            miss = [w for w, c in ORDERS if (t, d, c) not in vals]
            ctx.ob("%s: %s %s" % (name, t[6:].lower(), "descending" if d else "ascending"), not miss, p.fn(name).loc(None), "" if not miss else "no path for a key that is %s" % ", ".join(miss))


def origin(fn, v, calls):
    """the call a member of a returned pair comes from"""
    if v[0] == "op" and isinstance(v[1], str) and v[1].startswith("extractvalue"):
        d = fn.defs.get(int(v[1][12:]))
        if d is not None:
            for c in calls:
                if c[3] == d.a[0]:
                    return c
    return None


def keys(ctx):
    ctx.rule("C24.keys", "a row stores one key per column, in the columns' order, read by the reader of the column's type, and remembers where its keys start")
    calls = set(TYPES.values()) | {"flex_push_back", "vec_push_back"}
    p = ctx.prog("engine", keep=sorted(calls))
    name = "order_add_record"
    F = Fragments(ctx, p, name, lambda: FragRule(calls, {"_entry.idx", "_entry.offset", "_entry.len", "all"}))
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    an = F.an[h]
    self_, rg = arg(an, 0), arg(an, 1)
    exprs, data = fld("order.expressions", self_), fld("order.order_data", self_)
    es = ("ld", fld("vec._elem_size", exprs), 0)
    E = p.enumval
    done = set()
    sizes = F.same(h, ("ld", fld("vec.size", exprs), 0))
    bases = F.same(h, ("ld", fld("vec.data", exprs), 0))
    ends = F.same(h, add(bases[0], mulall([sizes[0], es])))
    for o in F.arrivals(h, h) + F.returns(h):
        o = View(o, ("expression.", "order.", "vec."))
        if o.infeasible:
            continue
        isret = not hasattr(o, "dst")
        known = lambda c: o.an.eval_cond(o.st, c)
        if isret and known(eq(o.val, const(-5))) is True:
            continue
        cs = [e for e in o.ev if e[0] == "call"]
        why = None
        if isret:
            last = [e for e in cs if e[1] == "vec_push_back"]
            if [e for e in cs if e[1] != "vec_push_back"]:
                why = "ends after a key"
            elif len(last) != 1 or last[0][2][0] != fld("order.entries", self_):
                why = "the row is not added"
            elif not any(known(eq(R, sz)) is True or known(mk_cmp("slt", R, sz)) is False for sz in sizes) and \
                    not any(known(eq(add(b, scale(R, 8)), e)) is True for b in bases for e in ends):
                why = "ends before the last column"
        else:
            g = [e for e in cs if e[1] in TYPES.values()]
            w = [e for e in cs if e[1] == "flex_push_back"]
            typ = None
            col = None
            for c in [("ld", add(b, k), 0) for b in bases for k in (scale(R, 8), mulall([R, es]))]:
                t = ("ld", fld("expression.field_type", c), 0)
                for k in TYPES:
                    if known(eq(t, const(E[k]))) is True:
                        typ, col = k, c
            if typ is None:
                why = "goes on without storing a key of the column's type"
            elif len(g) != 1 or g[0][1] != TYPES[typ] or not same_col(g[0][2][1], col, es) or g[0][2][2] != rg:
                why = "reads the key by %s" % [show(e[4]) for e in g]
            elif len(w) != 1 or w[0][2][0] != data:
                why = "stores %d keys for the column" % len(w)
            else:
                slot = g[0][2][0]
                d, n = w[0][2][1], w[0][2][2]
                if typ == "FIELD_STRING":
                    ok = "stringview.data" in repr(d) and "stringview.len" in repr(n) and mentions(d, lambda y: y == slot) and mentions(n, lambda y: y == slot)
                else:
                    ok = d == slot and n == const(8)
                if not ok:
                    why = "stores %s, %s" % (show(d), show(n))
                done.add(typ)
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    for t in TYPES:
        ctx.ob("%s: %s" % (name, t[6:].lower()), t in done, p.fn(name).loc(None), "" if t in done else "no path stores such a key")
    for o in F.arrivals(0, h) + F.returns(0):
        st = {}
        for e in o.ev:
            if e[0] == "store" and e[1][0] == "fld" and e[1][1].startswith("_entry."):
                st[e[1][1]] = e[2]
        top = ("ld", fld("node.data", rg), 0)
        want = {"_entry.idx": ("ld", fld("vec.size", fld("flex._pairs", data)), 0), "_entry.offset": ("ld", fld("record.offset", top), 0), "_entry.len": ("ld", fld("record.select_len", top), 0)}
        for k, v in want.items():
            got = st.get(k) or o.an.read(o.st, fld(k, next((x[1][2] for x in o.ev if x[0] == "store" and x[1][0] == "fld" and x[1][1].startswith("_entry.")), ("al", -1))))
            ok = got == v
            ctx.ob("%s: %s" % (name, k[7:]), ok, o.where(), "" if ok else "the row remembers %s" % show(got))


def same_col(a, col, es):
    m = {es: const(8)}
    return subst(a, m) == subst(col, m)


def output(ctx):
    ctx.rule("C24.output", "the rows are put out in the sorted sequence, each from its own place")
    p = ctx.prog("engine", keep=[])
    name = "_order_select"
    F = Fragments(ctx, p, name, lambda: FragRule({"fwrite"}, set()))
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    self_ = arg(F.an[h], 0)
    n = 0
    ents = fld("order.entries", self_)
    es = ("ld", fld("vec._elem_size", ents), 0)
    base = ("ld", fld("vec.data", ents), 0)
    for o in F.arrivals(h, h) + F.returns(h):
        o = View(o, ("_entry.", "order.", "vec."))
        if o.infeasible:
            continue
        w = [e for e in o.ev if e[0] == "call"]
        if hasattr(o, "dst"):
            n += 1
            ok = len(w) == 1
            msg = "writes %d rows in one round" % len(w)
            if ok:
                a = w[0][2]
                ents_ = set()
                for x in a[:3]:
                    mentions(x, lambda y: y[0] == "fld" and y[1].startswith("_entry.") and ents_.add((y[1], y[2])))
                places = {subst(e, {es: const(24)}) for _, e in ents_}
                ok = {k for k, _ in ents_} == {"_entry.offset", "_entry.len"} and places == {add(base, scale(R, 24))} and \
                    (a[0] == add(("ld", fld("order.mmap", self_), 0), ("ld", fld("_entry.offset", list(ents_)[0][1]), 0)) or
                     P(o).eq(a[0], add(("ld", fld("order.mmap", self_), 0), ("ld", fld("_entry.offset", list(ents_)[0][1]), 0))))
                msg = "row %s is written from %s" % (show(R), show(a[0]))
            ctx.ob(name, ok, o.where(), "" if ok else msg, o.trail() if not ok else None)
        else:
            ctx.ob(name, not w, o.where(), "" if not w else "ends with a row of its own")
    ctx.need(n, 1, "rows written by " + name)
