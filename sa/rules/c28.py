"""C28: TOP and row counts of SELECT."""
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "path analysis of every fragment between loop heads, on the compiler's intermediate representation: what is known about the counters when a row is selected, and what is counted before the next one"
LEVEL_NOTE = "every call that selects or puts out a row; any number of rows by induction over the loops"
EXPLANATION = (
    "At every call that selects a row, and at every place a sorted row is put out, the path must have established that fewer rows than the limit were counted, and exactly one row is counted on both counters before the next one; nothing else counts. "
    "When the limit is reached the stage stops asking for input. A sorted result that is stepped over ends only after the step that delivers no row. "
    "The limit itself: it starts out unlimited (the largest unsigned number, in members of unsigned type), a negative, non-integer or non-constant TOP is refused, and the resolved limit goes to the sort when there is one and no union, otherwise to the operation. "
    "The count reported for a plan is the count of the stage that executes the operation.")
ASSUMPTIONS = ["fewer than 2^63 rows"]

FAIL = const(-5)


class Rows(FragRule):
    """events of the counters, and at each row what the path knows"""

    def __init__(self, isrow, room, watch):
        FragRule.__init__(self, None, set(watch))
        self.isrow, self.room = isrow, room

    def call(self, an, st, inst, name, args):
        if self.isrow(name, args):
            self._ev(st, ("row", self.room(an, st, args), inst.id))


def judge(ctx, o, name, counters, after=None):
    """every row is within the limit and counted once on each counter"""
    open_, why = None, None
    for e in o.ev:
        if e[0] == "row":
            if open_:
                why = "another row before the last one was counted"
            elif not e[1]:
                why = "a row although the limit may have been reached"
            open_ = dict.fromkeys(counters, 0)
            call = True
        elif e[0] == "store" and e[1][0] == "fld" and e[1][1] in counters:
            c = e[1][1]
            d = sub(e[2], ("ld", e[1], ldver(e[2], e[1])))
            if open_ is None:
                why = "%s changes without a row" % c.split(".")[1] if d != C0 else why
            elif d != C1:
                why = "%s becomes %s" % (c, show(e[2]))
            else:
                open_[c] += 1
        if why:
            break
    failed = o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
    if why is None and open_ is not None and not failed:
        bad = ["%s is counted %d times" % (c, n) for c, n in open_.items() if n != 1]
        why = "; ".join(bad) or None
    return why, open_ is not None


def ldver(v, a):
    for x in lin_parts(v)[1]:
        if x[0] == "ld" and x[1] == a:
            return x[2]
    return 0


def run(ctx):
    select(ctx)
    orderby(ctx)
    limit(ctx)
    count(ctx)


def below(an, st, rows, top):
    return an.eval_cond(st, mk_cmp("slt", rows, top)) is True or an.eval_cond(st, eq(rows, C0)) is True and an.eval_cond(st, eq(top, C0)) is False


def select(ctx):
    ctx.rule("C28.select", "a row is selected only while fewer than TOP rows were, and counted once; when the limit is reached no more input is asked for")
    p = ctx.prog("engine", keep=["fifo_begin", "fifo_iter", "fifo_end", "fifo_update", "fifo_add", "fifo_is_empty", "fifo_receivable", "fqlprocess_recycle", "_fqlprocess_recycle", "fqlselect_next_union", "writer_close", "fifo_set_open", "_fqlprocess_print_iter_states"])
    name = "fql_select"
    f = p.fn(name)
    holder = {}

    def isrow(n, args):
        return not isinstance(n, str) and "fqlselect.select__" in repr(n)

    def room(an, st, args):
        sel = args[0]
        rows = an.read(st, fld("fqlselect.rows_affected", sel))
        cur = an.read(st, fld("fqlselect.current_select", sel))
        cs = [cur] + holder.get(an.fn.name, [])
        return any(below(an, st, rows, an.read(st, fld("fqlselect.top_count", c))) for c in cs)

    C = ("fqlselect.rows_affected", "process.rows_affected")
    make = lambda: Rows(isrow, room, C + ("process.wait_for_in0",))
    F = Fragments(ctx, p, name, make, infer=False)
    proc = arg(F.an[0], 0)
    sel = ("ld", fld("process.proc_data", proc), 0)
    # values the loops keep from before
    keep = {h: F.same(h, ("ld", fld("fqlselect.current_select", sel), 0))[1:] for h in F.headers if h in F.reachable()}
    selects = {h: [sel] + F.same(h, sel)[1:] for h in keep}
    holder[name] = sorted({x for v in keep.values() for x in v})
    F._go([0] + F.headers)
    n = 0
    for h in [0] + sorted(keep):
        for o in F.arrivals(h) + F.returns(h):
            why, has = judge(ctx, o, name, C)
            n += has
            if why is None and not hasattr(o, "dst") and o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True and h:
                for s in selects[h]:
                    for c in [o.an.read(o.st, fld("fqlselect.current_select", s))] + keep[h]:
                        if o.an.eval_cond(o.st, mk_cmp("slt", o.an.read(o.st, fld("fqlselect.rows_affected", s)), o.an.read(o.st, fld("fqlselect.top_count", c)))) is False:
                            w = o.an.read(o.st, fld("process.wait_for_in0", proc))
                            if w != C0 and o.an.eval_cond(o.st, eq(w, C0)) is not True:
                                why = "the limit is reached and the stage waits for more input"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths that select a row")


def orderby(ctx):
    ctx.rule("C28.order", "of the sorted rows at most TOP are put out, each counted once, and a step that delivers a row is never the last")
    p = ctx.prog("engine", keep=[])
    rows = lambda an, st, proc: an.read(st, fld("process.rows_affected", proc))
    C = ("process.rows_affected",)
    for name, isrow in (("_order_select", lambda n, a: n == "fwrite"),):
        f = p.fn(name)

        def room(an, st, args):
            return below(an, st, rows(an, st, arg(an, 1)), an.read(st, fld("order.top_count", arg(an, 0))))
        F = Fragments(ctx, p, name, lambda: Rows(isrow, room, C), infer=False)
        n = 0
        for o in F.arrivals() + F.returns():
            why, has = judge(ctx, o, name, C)
            n += has
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 1, "rows put out by " + name)
    # one row per step
    name = "_order_select_api"
    p = ctx.prog("engine", keep=["string_copy_from_stringview", "string_c_str"])
    F = Fragments(ctx, p, name, lambda: FragRule(set(), {"process.rows_affected", "order.entry_iter"}), infer=False)
    n = 0
    an = F.an[0]
    self_, proc = arg(an, 0), arg(an, 1)
    for h in [0] + [h for h in F.headers if h in F.reachable()]:
        for o in F.returns(h):
            why = None
            known = lambda c: o.an.eval_cond(o.st, c)
            if known(eq(o.val, FAIL)) is True:
                continue
            cnt = [e for e in o.ev if e[0] == "store" and e[1] == fld("process.rows_affected", proc)]
            it = [e for e in o.ev if e[0] == "store" and e[1] == fld("order.entry_iter", self_)]
            if known(eq(o.val, C0)) is True:
                if cnt or it:
                    why = "counts a row it does not deliver"
            elif len(cnt) != 1 or sub(cnt[0][2], ("ld", cnt[0][1], ldver(cnt[0][2], cnt[0][1]))) != C1:
                why = "the row is not counted once"
            elif len(it) != 1 or sub(it[0][2], ("ld", it[0][1], ldver(it[0][2], it[0][1]))) != const(24):
                why = "the next row is not the next of the sequence"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
            n += 1
        if h == 0:
            for o in F.arrivals(0):
                ok = below(o.an, o.st, rows(o.an, o.st, proc), o.an.read(o.st, fld("order.top_count", self_)))
                ctx.ob(name, ok, o.where(), "" if ok else "delivers a row although the limit may have been reached", o.trail() if not ok else None)
                end = add(("ld", fld("vec.data", fld("order.entries", self_)), 0), mulall([("ld", fld("vec.size", fld("order.entries", self_)), 0), ("ld", fld("vec._elem_size", fld("order.entries", self_)), 0)]))
                ok = o.an.eval_cond(o.st, eq(("ld", fld("order.entry_iter", self_), 0), end)) is False
                ctx.ob(name, ok, o.where(), "" if ok else "delivers a row beyond the last", o.trail() if not ok else None)
    ctx.need(n, 2, "returns of " + name)
    q = ctx.prog("engine", inline=False)
    name = "fql_orderby"
    F = Fragments(ctx, q, name, lambda: FragRule(None, set()), infer=False)
    n = 0
    for o in F.returns():
        s = [e for e in o.ev if e[1] == "<indirect>" and e[5] is not None and "order.select__" in repr(e[5])]
        if not s:
            continue
        n += 1
        known = lambda c: o.an.eval_cond(o.st, c)
        r = s[-1][4]
        why = None
        if known(eq(r, FAIL)) is True:
            continue
        for none in (True, False):
            st = o.st.copy()
            if known(eq(r, C0)) is (not none) or o.an.assume(st, eq(r, C0), none) is False:
                continue
            done = o.an.eval_cond(st, eq(o.val, C0))
            if none and done is not True:
                why = "goes on although the last step delivered no row"
            elif not none and done is not False:
                why = "may end in the step that delivered a row, which is lost to a caller that steps (%s)" % show(o.val)
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "paths of fql_orderby that put rows out")


def limit(ctx):
    ctx.rule("C28.limit", "without TOP there is no limit; a TOP that is negative or no integer constant is refused; the limit reaches the sort or the operation unchanged")
    p = ctx.prog("engine", keep=[])
    structs = {k: v for k, v in p.structs.items() if any(m[0] == "top_count" for m in v.get("members", []))}
    ctx.need(len(structs), 3, "kinds of objects with a limit")
    for k, v in sorted(structs.items()):
        for m in v["members"]:
            if m[0] in ("top_count", "rows_affected"):
                ok = m[3] == 8 and (m[1] == "size_t" or m[1].startswith("unsigned") or m[1].startswith("uint"))
                ctx.ob("%s.%s" % (k, m[0]), ok, v.get("file", k), "" if ok else "has type %s" % m[1])
    for name, t in (("fqlselect_construct", "fqlselect"), ("order_construct", "order"), ("query_construct", "query")):
        q = ctx.prog("engine", inline=False)
        outs, an = collect(ctx, q, q.fn(name), set(), {"all"})
        for o in returns(outs):
            st = [e[2] for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1] == t + ".top_count"]
            v = o.an.read(o.st, fld(t + ".top_count", arg(an, 0)))
            ok = v == const(-1) or bool(st) and st[-1] == const(-1) or is_c(v) and v[1] in (-1, 2**64 - 1)
            ctx.ob(name, ok, o.where(), "" if ok else "starts with a limit of %s" % show(v))
    name = "op_set_top_count"
    f = p.fn(name)
    outs, an = collect(ctx, p, f, set(), {"all"})
    n = 0
    kind = ("ld", arg(an, 0), 0)
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        k = [x for x in ("FQL_SELECT",) if known(eq(kind, const(p.enumval[x]))) is True]
        st = [e for e in o.ev if e[0] == "store"]
        if k:
            n += 1
            ok = len(st) == 1 and st[0][1][0] == "fld" and st[0][1][1] == "fqlselect.top_count" and st[0][2] == arg(an, 1)
            ctx.ob("%s: %s" % (name, k[0]), ok, o.where(), "" if ok else "stores %s" % [(show(e[1]), show(e[2])) for e in st])
    ctx.need(n, 1, "cases of " + name)
    name = "query_set_top_count"
    q = ctx.prog("engine", keep=["str2long"])
    outs, an = collect(ctx, q, q.fn(name), {"str2long"}, {"query.top_count"})
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store"]
        c = [e for e in o.ev if e[0] == "call"]
        why = None
        if st:
            v = st[-1][2]
            if not c or o.an.eval_cond(o.st, eq(c[0][4], C0)) is not True:
                why = "takes a limit that is no number"
            elif o.an.interval(o.st, v)[0] < 0:
                why = "takes a negative limit"
            elif not mentions(v, lambda y: y == c[0][2][0]):
                why = "takes %s" % show(v)
        elif o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
            why = "succeeds without a limit"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    resolve(ctx)


def resolve(ctx):
    q = ctx.prog("engine", inline=False)
    users = [n for n in sorted(q._raw) if any(i.callee_name() == "op_set_top_count" for i in q.fn(n).calls())]
    ctx.need(len(users), 1, "functions that pass the limit on")
    for name in users:
        F = Fragments(ctx, q, name, lambda: FragRule({"op_set_top_count"}, {"order.top_count", "query.top_count"}), infer=False)
        n = 0
        for o in F.arrivals() + F.returns():
            o = View(o, ("query.", "expression.", "vec."))
            if o.infeasible:
                continue
            known = lambda c: o.an.eval_cond(o.st, c)
            qs = {e[1][2] for e in o.ev if e[0] == "store"}
            sets = [e for e in o.ev if e[0] == "call" or e[0] == "store" and e[1][1] == "order.top_count"]
            tops = [e for e in o.ev if e[0] == "store" and e[1][1] == "query.top_count"]
            why = None
            for e in tops:
                v = e[2]
                if v[0] == "ld" and v[1][0] == "fld" and v[1][1].startswith("expression.field"):
                    x = v[1][2]
                    x = x[2] if x[0] == "fld" else x
                    if known(eq(("ld", fld("expression.expr", x), 0), const(q.enumval["EXPR_CONST"]))) is not True:
                        why = "the limit is no constant"
                    elif known(eq(("ld", fld("expression.field_type", x), 0), const(q.enumval["FIELD_INT"]))) is not True:
                        why = "the limit is no integer"
                    elif o.an.interval(o.st, v)[0] < 0:
                        why = "the limit may be negative"
                else:
                    why = "the limit is %s" % show(v)
            for e in sets:
                n += 1
                v = e[2][1] if e[0] == "call" else e[2]
                want = tops[-1][2] if tops else None
                if want is not None and v != want or want is None and not (v[0] == "ld" and v[1][0] == "fld" and v[1][1] == "query.top_count"):
                    why = "passes %s on" % show(v)
                else:
                    ob = None
                    for T, g in o.st.facts.items():
                        for a, _ in T:
                            if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "query.orderby":
                                ob = known(eq(a, C0))
                    un = [known(eq(a, C0)) for a in ([x for T, g in o.st.facts.items() for x, _ in T]) if a[0] == "call" and a[1] == "vec_empty"] 
                    un += [None if z is None else (not z) for z in [known(eq(a, C0)) for a in [x for T, g in o.st.facts.items() for x, _ in T] if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "vec.size" and "query.unions" in repr(a)]]
                    # un: whether the list of unions has entries
                    tosort = e[0] == "store"
                    if tosort and ob is not False:
                        why = "the sort gets the limit although there may be none"
                    elif tosort and False not in un:
                        why = "the sort gets the limit of a union"
                    elif not tosort and ob is False and not any(x is True for x in un):
                        why = "the rows are limited before they are sorted"
            if len(sets) > 1:
                why = why or "the limit is passed on twice"
            if sets or tops:
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 2, "paths of %s that pass the limit on" % name)


def count(ctx):
    ctx.rule("C28.count", "the count of a plan is the count of the stage that executes its operation")
    p = ctx.prog("engine", inline=False)
    n = 0
    for name in sorted(p._raw):
        f = p.fn(name)
        if f.file.split("/")[-1] not in ("process.c", "fqlplan.c", "libfql.c"):
            continue
        if not any(i.op == "store" for b in f.blocks for i in b) or "rows_affected" not in str(p._raw[name]["blocks"]):
            continue
        F = Fragments(ctx, p, name, lambda: FragRule(set(), {"fqlplan.rows_affected", "plan.rows_affected"}), infer=False)
        for o in F.arrivals() + [o for r in F.frag.values() for o in r.outs]:
            for e in o.ev:
                if e[0] != "store":
                    continue
                v = e[2]
                if v == C0 and ("construct" in name or "reset" in name):
                    continue
                why = None
                if not (v[0] == "ld" and v[1][0] == "fld" and v[1][1] == "process.rows_affected"):
                    why = "becomes %s" % show(v)
                else:
                    n += 1
                    pr = v[1][2]
                    flag = fld("process.is_op_true", pr)
                    ok = any(o.an.eval_cond(o.st, eq(("ld", flag, k), C0)) is False for k in range(60)) or o.an.eval_cond(o.st, eq(o.an.read(o.st, flag), C0)) is False
                    ok = ok or any(a[0] == "ld" and "op_true" in repr(a) and g[0] == g[1] == 0 and len(T) == 2 for T, g in o.st.facts.items() for a, _ in T)
                    if not ok:
                        why = "is taken from a stage that need not be the operation"
                ctx.ob("%s: count" % name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "places that report a plan's count")
