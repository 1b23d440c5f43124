"""C12: SELECT INTO never overwrites without permission."""
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "path analysis on the compiler's intermediate representation: what must be known about the target when planning succeeds and when it is opened, plus who-may-call and who-may-write rules over the whole program"
LEVEL_NOTE = "every path of planning and of starting a query; every call in the program that opens a file for writing or replaces one"
EXPLANATION = (
    "On every path on which planning a query with an INTO target succeeds, or the target is created, the target was looked up first and did not exist, or the statement is no SELECT, or overwriting is on. "
    "On every path on which the target of a SELECT is opened for output, either the target was looked up and does not exist, or overwriting is on, or the statement runs for the first time with a target that planning has checked (a target named by a variable is only known at run time and is always looked up). "
    "Whether a statement ran before comes from its plan and is passed down unchanged. "
    "Files are opened for writing, replaced or removed nowhere else, the name of a target reaches the statement unchanged, and the overwrite setting starts off and is changed by its setter only.")
ASSUMPTIONS = ["no other program creates the target between the look-up and its use"]

FAIL = const(-5)
PLAN = ['_assign_expressions', '_assign_expressions_limited', '_group_validation', '_map_groups', '_resolve_asterisk', '_resolve_join_conditions', '_resolve_query', '_resolve_source', '_resolve_unions', 'expression_destroy', 'hashmap_nset', 'op_get_additional_exprs', 'op_get_expressions', 'op_get_schema', 'op_set_schema', 'op_set_top_count', 'op_writer_init', 'order_preresolve_expressions', 'schema_preflight', 'table_resolve_schema', 'vec_at', 'vec_begin', 'vec_construct', 'vec_destroy', 'vec_empty', 'vec_end', 'vec_push_back']
START = ['_resolve_into_table_variable', 'fqldelete_reset', 'fqlselect_reset', 'fqlupdate_reset', 'op_get_writer', 'order_init_io', 'string_c_str', 'vec_at', 'writer_export_temp', 'writer_open', 'writer_take_filename']


def uv(e):
    """terms of the query and its handle without versions"""
    return unver_fields(e, ("query.", "fqlhandle.", "fqlprops."))


class Known:
    """what a path knows, loads of the query's members compared without versions"""

    def __init__(self, o):
        self.v = View(o, ("query.", "fqlhandle.", "fqlprops."))

    def true(self, c):
        return self.v.an.eval_cond(self.v.st, c)

    def no(self, a):
        return self.true(eq(a, C0)) is False

    def zero(self, a):
        return self.true(eq(a, C0)) is True


def run(ctx):
    planning(ctx)
    starting(ctx)
    passed(ctx)
    files(ctx)
    setting(ctx)


def q(field, base):
    return ("ld", fld("query." + field, base), 0)


def overwrite_known(K):
    """some load of the overwrite setting is known not to be zero"""
    for T, g in K.v.st.facts.items():
        if len(T) == 1 and "overwrite" in repr(T[0][0]) and T[0][0][0] == "ld" and T[0][0][1][0] == "fld" and T[0][0][1][1].endswith(".overwrite"):
            if K.no(T[0][0]):
                return True
    return False


def not_select(K, p, base):
    """the operation is known to be another one"""
    for T in K.v.st.facts:
        if len(T) == 1 and T[0][0][0] == "ld" and T[0][0][1] == q("op", base) and K.true(eq(T[0][0], const(p.enumval["FQL_SELECT"]))) is False:
            return True
    return False


def looked_up(K, T, upto=None):
    """the target was looked up and did not exist"""
    for e in K.v.ev[:upto]:
        if e[0] == "call" and e[1] == "access" and e[2][0] == T and e[2][1] == C0 and K.no(e[4]):
            return True
    return False


def planning(ctx):
    ctx.rule("C12.plan", "planning a SELECT succeeds, and its target is created, only if the target does not exist or overwriting is on")
    p = ctx.prog("engine", keep=PLAN)
    name = "_resolve_query"
    F = Fragments(ctx, p, name, lambda: FragRule({"access", "fopen", "fclose", "realpath", "hashmap_nset", "open", "creat"}, set()), infer=False)
    n = 0
    for o in F.arrivals() + F.returns():
        K = Known(o)
        if K.v.infeasible:
            continue
        base = arg(o.an, 1)
        T = q("into_table_name", base)
        why = None
        for i, e in enumerate(K.v.ev):
            if e[1] in ("fopen", "open", "creat"):
                n += 1
                if e[1] != "fopen" or e[2][0] != T:
                    why = "opens %s" % show(e[2][0])
                elif not looked_up(K, T, i):
                    why = "the target is opened for writing although it may exist"
        if why is None and o.val is not None and K.true(eq(K.v.val, FAIL)) is not True and not K.zero(T):
            n += 1
            if not (looked_up(K, T) or not_select(K, p, base) or overwrite_known(K)):
                why = "planning succeeds although the target may exist and may not be overwritten"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "paths on which planning accepts a target")
    # planned for every statement of the batch
    ctx.rule("C12.all", "every statement of a batch is planned, with its target, before any of them runs")
    z = ctx.prog("engine", inline=False)
    users = [f for f in sorted(z._raw) if f != name and any(i.callee_name() == name for i in z.fn(f).calls())]
    ctx.need(len(users), 1, "functions that plan statements")
    for f in users:
        G = Fragments(ctx, z, f, lambda: FragRule({name}, set()), infer=False)
        for o in G.arrivals() + G.returns():
            c = [e for e in o.ev if e[0] == "call"]
            bad = o.val is not None and any(o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False for e in c) and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True
            bad = bad or o.val is None and any(o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False for e in c)
            ctx.ob(f, not bad, o.where(), "goes on although planning failed" if bad else "", o.trail() if bad else None)
    # the statements planned are all of the batch
    G = Fragments(ctx, z, "schema_resolve", lambda: FragRule({name, "vec_begin", "vec_end"}, set()), infer=False)
    an = G.an[0]
    batch = ("ld", fld("fqlhandle.query_vec", arg(an, 0)), 0)
    m = 0
    for h in G.headers:
        if h not in G.reachable():
            continue
        its = [o for o in G.arrivals(h, h)]
        for o in its:
            c = [e for e in o.ev if e[0] == "call" and e[1] == name]
            steps = [k for k, v in o.raw.items() if sub(v, ("in", k)) == const(8)]
            ok = len(c) == 1 and len(steps) == 1 and c[0][2][1][0] == "ld" and c[0][2][1][1] == ("in", steps[0]) if c or steps else False
            m += ok
            ctx.ob("schema_resolve", ok, o.where(), "" if ok else "a statement is passed over", o.trail() if not ok else None)
        for o in G.arrivals(0, h):
            ok = any(v[0] == "call" and v[1] == "vec_begin" and unversioned_(v[3][0]) == batch for v in o.raw.values())
            ctx.ob("schema_resolve", ok, o.where(), "" if ok else "does not start at the first statement", o.trail() if not ok else None)
    ctx.need(m, 1, "loops that plan the batch")


def unversioned_(e):
    from .frag import unversioned
    return unversioned(e)


def starting(ctx):
    ctx.rule("C12.start", "the target of a SELECT is opened only if it does not exist, overwriting is on, or planning has checked it and the statement has not run before")
    p = ctx.prog("engine", keep=START)
    name = "op_reset"
    F = Fragments(ctx, p, name, lambda: FragRule({"access", "writer_open", "order_init_io", "strdup"}, {"query.into_table_name"}), infer=False)
    n = 0
    for o in F.arrivals() + F.returns():
        K = Known(o)
        if K.v.infeasible:
            continue
        base, ran = arg(o.an, 0), arg(o.an, 1)
        why = None
        opened = False
        for i, e in enumerate(K.v.ev):
            if e[0] == "store":
                continue
            if e[1] == "writer_open":
                n += 1
                opened = True
                T = e[2][1]
                if not_select(K, p, base) or overwrite_known(K) or looked_up(K, T, i):
                    continue
                first = K.zero(ran) and K.true(eq(q("into_table_var_idx", base), const(-1))) is True
                if not first:
                    why = "opens the target of a SELECT that may exist without looking (the statement may have run before, or the target is named by a variable)"
                elif T != q("into_table_name", base):
                    why = "opens %s" % show(T)
            elif e[1] == "order_init_io" and not opened:
                T = q("into_table_name", base)
                st = [x for x in K.v.ev[:i] if x[0] == "store"]
                T = st[-1][2] if st else T
                if not K.zero(T):
                    why = "the sorted result is opened before the target was considered"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "paths on which a target is opened")


def passed(ctx):
    ctx.rule("C12.ran", "whether a statement has run before is what its plan recorded, and reaches the place that decides unchanged")
    z = ctx.prog("engine", keep=["query_preflight", "op_preop", "plan_reset"])
    name = "query_prepare"
    outs, an = collect(ctx, z, z.fn(name), {"query_preflight", "plan_reset"}, set())
    n = 0
    for o in returns(outs):
        v = View(o, ("query.", "fqlplan."))
        plan = ("ld", fld("query.plan", arg(an, 0)), 0)
        done = [T[0][0] for T in v.st.facts if len(T) == 1 and T[0][0][0] == "ld" and T[0][0][1] == fld("fqlplan.is_complete", plan)] + [("ld", fld("fqlplan.is_complete", plan), 0)]
        reset = False
        for e in v.ev:
            if e[1] == "plan_reset":
                reset = True
            elif e[1] == "query_preflight":
                n += 1
                x = e[2][1]
                why = None
                if e[2][0] != arg(an, 0):
                    why = "prepares another statement"
                elif reset:
                    why = "asks after the plan was reset"
                elif v.an.eval_cond(v.st, eq(plan, C0)) is True:
                    if v.an.eval_cond(v.st, eq(x, C0)) is not False:
                        why = "a statement without a plan counts as not run"
                elif v.an.eval_cond(v.st, eq(x, C0)) is not False and not is_flag(v, x, plan):
                    # not known to be true: it must be false or the plan's own flag
                    if not any(v.an.eval_cond(v.st, eq(d, C0)) is True for d in done):
                        why = "passes %s" % show(x)
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "calls that prepare a statement")
    z = ctx.prog("engine", inline=False)
    name = "query_preflight"
    n = 0
    for f in sorted(z._raw):
        for i in z.fn(f).calls():
            if i.callee_name() == "op_reset" and f != "query_preflight":
                ctx.ob(f, False, z.fn(f).loc(i), "starts a statement behind the back of query_prepare")
            if i.callee_name() == "query_preflight" and f not in ("query_preflight", "query_prepare"):
                G = Fragments(ctx, z, f, lambda: FragRule({"query_preflight"}, set()), infer=False)
                for o in G.arrivals() + G.returns():
                    for e in o.ev:
                        ok = o.an.eval_cond(o.st, eq(e[2][1], C0)) is False
                        ctx.ob(f, ok, o.where(), "" if ok else "starts a statement behind the back of query_prepare as if it had not run")
    F = Fragments(ctx, z, name, lambda: FragRule({"op_reset", "query_preflight"}, set()), infer=False)
    seen = set()
    for o in F.arrivals() + F.returns():
        for e in o.ev:
            why = None
            if e[2][1] != arg(o.an, 1):
                why = "passes %s down" % show(e[2][1])
            elif e[1] == "op_reset" and e[2][0] != arg(o.an, 0):
                why = "resets another statement"
            elif o.val is not None and o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
                why = "goes on although %s failed" % e[1]
            elif o.val is None and o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False:
                why = "goes on although %s failed" % e[1]
            n += 1
            seen.add(e[1])
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(seen), 2, "ways down from query_preflight")
    # the record is dropped only to run the statement again
    for f in sorted(z._raw):
        for i in z.fn(f).calls():
            if i.callee_name() == "plan_reset" and f != "query_prepare":
                ctx.ob(f, False, z.fn(f).loc(i), "forgets that the statement has run")
    n = 0
    for f, o, e in stores_to(ctx, z, "fqlplan.is_complete"):
        n += 1
        ok = e[2] == C1 or e[2] == C0 and f in ("plan_reset", "plan_construct")
        ctx.ob(f, ok, o.where(), "" if ok else "records that the statement has not run (%s)" % show(e[2]), o.trail() if not ok else None)
    ctx.need(n, 2, "places that record whether a statement has run")


def stores_to(ctx, z, member):
    """every store to a member, in the whole program"""
    tail = member.split(".", 1)[1]
    out = []
    for f in sorted(z._raw):
        if not any(i.callee_name() == "fld:" + member for i in z.fn(f).calls()):
            continue
        F = Fragments(ctx, z, f, lambda: FragRule(set(), {member}), infer=False)
        seen = set()
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                if e[0] == "store" and e[1][0] == "fld" and e[1][1].endswith("." + tail) and (e[2], e[3]) not in seen:
                    seen.add((e[2], e[3]))
                    out.append((f, o, e))
    return out


def is_flag(v, x, plan):
    return x[0] == "ld" and x[1] == fld("fqlplan.is_complete", plan) or x[0] in ("op", "sel") and mentions(x, lambda y: y[0] == "ld" and y[1] == fld("fqlplan.is_complete", plan))


WRITERS = {
    "fopen": {"_resolve_query", "order_init_io", "_monitor_threads"},
    "open": set(), "creat": set(), "freopen": set(), "truncate": set(), "ftruncate": set(), "openat": set(), "link": set(), "symlink": set(),
    "rename": {"fixedwriter_close"},
    "writer_open": {"op_reset"},
    "order_init_io": {"op_reset"},
    "csv_writer_open": {"writer_open"},
    "fixedwriter_open": {"writer_open"},
}
READ = {("str", "r"), ("str", "rb")}


def files(ctx):
    ctx.rule("C12.files", "a file named by the user is opened for writing only through the checked places")
    p = ctx.prog("engine", inline=False)
    n = 0
    parents = {}
    for f in sorted(p._raw):
        for i in p.fn(f).calls():
            parents.setdefault(i.callee_name(), set()).add(f)

    def only_from(f, allowed, seen=()):
        """f is an allowed place, or a helper that only allowed places use"""
        if f in allowed:
            return True
        up = parents.get(f, set()) - {f}
        return bool(up) and f not in seen and all(only_from(u, allowed, seen + (f,)) for u in up)
    for f in sorted(p._raw):
        here = {i.callee_name() for i in p.fn(f).calls()} & set(WRITERS)
        if not here:
            continue
        if not here & {"fopen", "open"}:
            bad = [c for c in sorted(here) if not only_from(f, WRITERS[c])]
            n += len(here)
            ctx.ob(f, not bad, f, "calls %s, on a way that has no look-up" % bad[0] if bad else "")
            continue
        F = Fragments(ctx, p, f, lambda: FragRule(here, set()), infer=False)
        seen = set()
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                if e[3] in seen:
                    continue
                if e[1] == "fopen" and mode(e[2][1]) in ("r", "rb") or e[1] == "open" and e[2][1] == C0:
                    continue
                seen.add(e[3])
                n += 1
                ok = only_from(f, WRITERS[e[1]])
                if e[1] == "fopen" and f == "_monitor_threads" and ok:
                    ok = text_of(e[2][0]) == "_debug.txt"
                ctx.ob(f, ok, o.where(), "" if ok else "%s(%s) opens or replaces a file on a way that has no look-up" % (e[1], show(e[2][0])), o.trail() if not ok else None)
    ctx.need(n, 6, "places that open a file for writing")


def text_of(t):
    return show(t).strip("'\"")


mode = text_of


def setting(ctx):
    ctx.rule("C12.setting", "overwriting is off in a new handle and only its setter changes it; the name of a target is kept as given")
    p = ctx.prog("engine", inline=False)
    for f, o, e in stores_to(ctx, p, "fqlhandle.props.overwrite"):
        ok = e[2] == C0
        if f == "fql_set_overwrite" and not ok:
            st = o.st.copy()
            o.an.assume(st, eq(arg(o.an, 1), C0), True)
            ok = e[2] == arg(o.an, 1) or o.an.eval_cond(st, eq(e[2], C0)) is True
        ctx.ob(f, ok, o.where(), "" if ok else "sets the permission to overwrite to %s" % show(e[2]), o.trail() if not ok else None)
    for name, field in (("query_set_into_table", "into_table_name"),):
        outs, an = collect(ctx, p, p.fn(name), set(), {"all"})
        for o in returns(outs):
            st = [e for e in o.ev if e[0] == "store" and e[1] == fld("query." + field, arg(an, 0))]
            ok = len(st) == 1 and st[0][2] == arg(an, 1) or o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
            ctx.ob(name, ok, o.where(), "" if ok else "does not keep the name of the target")
    # a target named by a variable is marked as such
    name = "query_set_into_table_var"
    z = ctx.prog("engine", keep=["scope_get_var_index", "vec_at"])
    outs, an = collect(ctx, z, z.fn(name), {"scope_get_var_index"}, {"query.into_table_var_idx"})
    n = 0
    for o in returns(outs):
        if o.an.eval_cond(o.st, eq(o.val, FAIL)) is True:
            continue
        n += 1
        c = [e for e in o.ev if e[0] == "call"]
        st = [e for e in o.ev if e[0] == "store"]
        ok = len(c) == 1 and st and st[-1][2] == c[0][4]
        ctx.ob(name, ok, o.where(), "" if ok else "does not keep which variable names the target")
    ctx.need(n, 1, "ways to name a target by a variable")
    # in a new query, and a new handle
    for name, field, val in (("query_construct", "query.into_table_var_idx", const(-1)), ("query_construct", "query.into_table_name", C0), ("fql_construct", "fqlhandle.props.overwrite", C0)):
        outs, an = collect(ctx, p, p.fn(name), {"memset"}, {"all"}, 400)
        for o in returns(outs):
            from .c27 import ctor_value
            v = ctor_value(o, an, field)
            ok = v == val
            ctx.ob("%s: %s" % (name, field), ok, o.where(), "" if ok else "starts as %s" % (show(v) if v is not None else "?"))
