"""C22: a handle can be reset and reused after success or failure."""
from .norm import *
from .frag import Fragments, FragRule, unversioned
from .c27 import ctor_value

TECHNIQUE = "effect analysis on the compiler's intermediate representation: the state a reset leaves is compared, member by member, with the state the constructor makes, and every way out of running a batch must pass the reset"
LEVEL_NOTE = "every path of fql_reset and of the functions that make, run and step plans"
EXPLANATION = (
    "fql_reset destroys every query and every variable of the batch, empties the lists of queries, variables and stepped fields (whose strings it frees), the table of schemas and the global scope, drops the schema search path resolved earlier, makes the global scope current, and gives the position and the branch state the values a new handle has. "
    "A member of the handle that is neither a setting nor reset must be rewritten by the next batch before it is used (the query text is; the last declared variable is set by every declaration). "
    "Planning that fails, running that fails, the end of a batch and the end of stepping all pass through the reset; a plan that was stepped to its end, or failed, no longer counts as being stepped.")
ASSUMPTIONS = ["the containers are emptied by their clear functions (C17, C18)"]

FAIL = const(-5)
H = "fqlhandle."


def uv(e):
    return unversioned(e)


def run(ctx):
    reset(ctx)
    scope(ctx)
    ways(ctx)


def ld(m, base):
    return ("ld", fld(H + m, base), 0)


def reset(ctx):
    ctx.rule("C22.reset", "a reset handle holds nothing of the batch before and is in the state of a new one")
    p = ctx.prog("engine", keep=["vec_begin", "vec_end", "vec_clear", "vec_resize", "hashmap_clear", "scope_reset", "query_destroy", "variable_destroy", "fqlsig_tmp_removeall", "string_destroy", "vec_destroy", "vec_at"])
    name = "fql_reset"
    F = Fragments(ctx, p, name, lambda: FragRule(None, {H + m for m in ("query_idx", "_scope", "branch_state", "schema_paths", "query_vec", "variables", "api_vec", "schema_map", "global_scope")}), infer=False)
    an = F.an[0]
    S = arg(an, 0)
    # what a new handle has
    outs, can = collect(ctx, ctx.prog("engine", inline=False), ctx.prog("engine", inline=False).fn("fql_construct"), {"memset"}, {"all"}, 400)
    fresh = {}
    for o in returns(outs):
        for m in ("query_idx", "branch_state", "schema_paths"):
            fresh[m] = ctor_value(o, can, H + m)
    # must happen on every way through: forward over the fragments
    facts = {h: None for h in [0] + F.headers}
    facts[0] = frozenset()

    def effects(o):
        s = set()
        for e in o.ev:
            if e[0] == "call":
                a = uv(e[2][0]) if e[2] else None
                s.add((e[1], a))
            else:
                s = {x for x in s if not (x[0] == "store" and x[1] == e[1])}
                s.add(("store", e[1], uv(e[2])))
        return s
    ch = True
    while ch:
        ch = False
        for h in [0] + F.headers:
            if facts[h] is None:
                continue
            for o in F.arrivals(h):
                new = facts[h] | effects(o)
                old = facts[o.dst]
                nxt = frozenset(new) if old is None else old & new
                if nxt != old:
                    facts[o.dst] = nxt
                    ch = True
    want = [
        ("the list of queries is not emptied", ("vec_clear", ld("query_vec", S))),
        ("the list of variables is not emptied", ("vec_clear", ld("variables", S))),
        ("the stepped fields are not emptied", ("vec_clear", ld("api_vec", S))),
        ("the schemas are not dropped", ("hashmap_clear", ld("schema_map", S))),
        ("the variables' names are not dropped", ("scope_reset", ld("global_scope", S))),
        ("temporary files are not removed", ("fqlsig_tmp_removeall", None)),
        ("the global scope is not made current", ("store", fld(H + "_scope", S), ld("global_scope", S))),
        ("the position is not put back to the first query", ("store", fld(H + "query_idx", S), fresh.get("query_idx"))),
        ("the branch state is not the one of a new handle", ("store", fld(H + "branch_state", S), fresh.get("branch_state"))),
    ]
    n = 0
    for o in F.returns():
        if facts.get(o.src) is None and o.src:
            continue
        have = facts[o.src] | effects(o)
        for why, x in want:
            n += 1
            alt = ("vec_resize", x[1]) if x[0] == "vec_clear" else None
            ok = x in have or alt in have
            ctx.ob("%s: %s" % (name, x[1][1] if x[0] == "store" else x[0]), ok, o.where(), "" if ok else why, o.trail() if not ok else None)
    # the resolved schema path: dropped if there is one
    for o in F.arrivals() + F.returns():
        pass
    drop = [(o, e) for o in F.arrivals() + F.returns() for e in o.ev if e[0] == "store" and e[1] == fld(H + "schema_paths", S) and e[2] == C0]
    gone = any(e[1] == "vec_destroy" and uv(e[2][0]) == ld("schema_paths", S) for o in F.arrivals() + F.returns() for e in o.ev if e[0] == "call")
    ctx.ob(name + ": schema_paths", bool(drop) and gone, F.fn.loc(F.fn.blocks[0][0]) if not drop else drop[0][0].where(), "" if drop and gone else "the schema search path of the batch before is kept")
    # skipped only if there is none
    for o in F.returns() + F.arrivals():
        k = [T for T, g in o.st.facts.items() if len(T) == 1 and uv(T[0][0]) == ld("schema_paths", S)]
        if k and any(o.an.eval_cond(o.st, eq(T[0][0], C0)) is False for T in k) and hasattr(o, "dst") is False and not any(e[0] == "store" and e[1] == fld(H + "schema_paths", S) for e in o.ev):
            ctx.ob(name + ": schema_paths", False, o.where(), "the schema search path of the batch before is kept", o.trail())
    # every element is destroyed
    for m, d, step in (("query_vec", "query_destroy", 8), ("variables", "variable_destroy", None)):
        ok, where = False, name
        for h in F.headers:
            start = [o for o in F.arrivals(dst=h) if o.src != h]
            its = F.arrivals(h, h)
            k = [i for i in its[0].raw] if its else []
            for i in k:
                if start and all(i in o.raw and o.raw[i][0] == "call" and o.raw[i][1] == "vec_begin" and uv(o.raw[i][3][0]) == ld(m, S) for o in start):
                    where = its[0].where()
                    ok = all(len([e for e in o.ev if e[0] == "call" and e[1] == d and element(e[2][0], i, step)]) == 1 for o in its)
                    exits = [o for o in F.arrivals(h) if o.dst != h] + F.returns(h)
                    ok = ok and all(ended(o, i, ld(m, S)) for o in exits)
                elif start and all(i in o.raw and o.raw[i] == C0 for o in start) and not ok and all(i in o.raw and sub(o.raw[i], ("in", i)) == C1 for o in its):
                    V = ld(m, S)
                    size = ("ld", fld("vec.size", V), 0)

                    def at(a):
                        a = uv(a)
                        a = a[1] if step is not None and a[0] == "ld" else a
                        return a[0] == "call" and a[1] == "vec_at" and uv(a[3][0]) == V and a[3][1] == ("in", i)
                    exits = [View(o, ("fqlhandle.", "vec.")) for o in [o for o in F.arrivals(h) if o.dst != h] + F.returns(h)]
                    ok = all(len([e for e in o.ev if e[0] == "call" and e[1] == d and at(e[2][0])]) == 1 for o in its)
                    ok = ok and all(any(x.an.eval_cond(x.st, mk_cmp(c, ("in", i), size)) is False for c in ("ult", "slt")) for x in exits)
        n += 1
        ctx.ob("%s: %s" % (name, m), ok, where, "" if ok else "not every element of %s is destroyed" % m)
    ctx.need(n, 9, "effects of a reset")


def element(a, i, step):
    """the element the loop stands on (a pointer to it, or the pointer stored there)"""
    a = uv(a)
    return a == ("in", i) if step is None else a == ("ld", ("in", i), 0)


def ended(o, i, vec):
    """the loop was left at the vector's end"""
    for e in o.ev:
        if e[0] == "call" and e[1] == "vec_end" and uv(e[2][0]) == vec and o.an.eval_cond(o.st, eq(("in", i), e[4])) is True:
            return True
    return False


def scope(ctx):
    ctx.rule("C22.scope", "a reset scope names nothing and stands in no block")
    p = ctx.prog("engine", keep=["hashmap_clear"])
    name = "scope_reset"
    outs, an = collect(ctx, p, p.fn(name), {"hashmap_clear"}, {"all"})
    for o in returns(outs):
        S = arg(an, 0)
        ok = any(e[0] == "call" and e[2][0] == fld("scope.variable_map", S) for e in o.ev)
        ctx.ob(name + ": names", ok, o.where(), "" if ok else "names of the batch before stay")
        st = [e for e in o.ev if e[0] == "store" and e[1] == fld("scope.is_in_block", S)]
        ok = bool(st) and st[-1][2] == C0
        ctx.ob(name + ": block", ok, o.where(), "" if ok else "stays inside the block of the batch before")


def more(v, o, S):
    """there are plans left"""
    size = ("ld", fld("vec.size", ld("query_vec", S)), 0)
    cur = v.settle(o.an.read(o.st, fld(H + "query_idx", S)))
    return any(v.an.eval_cond(v.st, mk_cmp(c, x, size)) is True for c in ("slt", "ult") for x in (cur, ld("query_idx", S)))


def ways(ctx):
    ctx.rule("C22.ways", "every end of a batch, and every failure of making or running it, passes through the reset")
    p = ctx.prog("engine", inline=False)
    n = 0

    def fails(o, e):
        return o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False

    # planning
    name = "fql_make_plans"
    steps = ("analyze_query", "schema_resolve", "plan_build")
    F = Fragments(ctx, p, name, lambda: FragRule(set(steps) | {"fql_reset", "strdup"}, {H + "query_str"}), infer=False)
    for o in F.returns():
        c = [e for e in o.ev if e[0] == "call"]
        rs = [i for i, e in enumerate(c) if e[1] == "fql_reset"]
        an_ = [i for i, e in enumerate(c) if e[1] in steps]
        why = None
        n += 1
        bad = [c[i] for i in an_ if o.an.eval_cond(o.st, eq(c[i][4], C0)) is not True]
        failed = o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
        if bad and not failed:
            why = "goes on although %s may have failed" % bad[0][1]
        elif not failed and [c[i][1] for i in an_] != list(steps):
            why = "a batch is made without %s" % ", ".join(x for x in steps if x not in [c[i][1] for i in an_])
        elif failed and an_ and not (rs and rs[-1] > an_[-1]):
            why = "a failed batch is left in the handle"
        st = [e for e in o.ev if e[0] == "store"]
        if why is None and an_:
            d = [e for e in c if e[1] == "strdup" and e[2][0] == arg(o.an, 1)]
            if not (st and d and st[-1][2] == d[-1][4] and o.ev.index(st[-1]) < o.ev.index(c[an_[0]])):
                why = "the text of another batch is read"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    # all at once
    name = "fql_exec"
    F = Fragments(ctx, p, name, lambda: FragRule({"fql_make_plans", "fql_reset", "fql_exec_all_plans", "fql_exec_plans"}, set()), infer=False)
    for o in F.returns():
        n += 1
        c = [e for e in o.ev if e[0] == "call"]
        why = None
        mk = [e for e in c if e[1] == "fql_make_plans"]
        if not mk:
            why = "runs nothing"
        elif o.an.eval_cond(o.st, eq(mk[0][4], FAIL)) is True:
            if o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
                why = "succeeds although planning failed"
        elif c[-1][1] != "fql_reset":
            why = "the batch is left in the handle"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    # some plans
    name = "fql_exec_plans"
    run_ = {"query_prepare", "process_exec_plan", "process_exec_plan_thread"}
    F = Fragments(ctx, p, name, lambda: FragRule(run_ | {"fql_reset"}, set()), infer=False)
    for o in F.arrivals() + F.returns():
        n += 1
        c = [e for e in o.ev if e[0] == "call"]
        failed = [e for e in c if e[1] in run_ and o.an.eval_cond(o.st, eq(e[4], FAIL)) is True]
        maybe = [e for e in c if e[1] in run_ and o.an.eval_cond(o.st, eq(e[4], FAIL)) is None]
        rs = [i for i, e in enumerate(c) if e[1] == "fql_reset"]
        why = None
        if failed or maybe:
            if o.val is None:
                why = "the next plan runs although %s may have failed" % (failed + maybe)[0][1]
            elif not rs or rs[-1] < c.index((failed + maybe)[-1]):
                why = "a failed batch is left in the handle"
            elif o.val != (failed + maybe)[-1][4] and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
                why = "the failure is not reported"
        elif o.val is not None and not rs:
            v = View(o, ("fqlhandle.", "vec.", "fqlplan.", "query."))
            if v.infeasible:
                continue
            S = arg(o.an, 0)
            refused = any(len(T) == 1 and "has_stepped" in repr(T[0][0]) and v.an.eval_cond(v.st, eq(T[0][0], C0)) is False for T in v.st.facts)
            if not refused and not more(v, o, S):
                why = "a finished batch is left in the handle"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    # stepping
    name = "fql_step"
    q = ctx.prog("engine", keep=["_api_connect", "fql_reset", "process_step", "query_prepare", "vec_at", "vec_begin", "vec_end", "vec_clear", "vec_empty", "_free_api_strings"])
    F = Fragments(ctx, q, name, lambda: FragRule({"process_step", "query_prepare", "_api_connect", "fql_reset", "vec_clear"}, {"fqlplan.has_stepped"}), infer=False)
    for o in F.returns():
        n += 1
        c = [e for e in o.ev if e[0] == "call"]
        rs = [e for e in c if e[1] == "fql_reset"]
        st = [e for e in o.ev if e[0] == "store"]
        S = arg(o.an, 0)
        bad = [e for e in c if e[1] in ("process_step", "query_prepare", "_api_connect") and o.an.eval_cond(o.st, eq(e[4], FAIL)) is True]
        unknown = [e for e in c if e[1] in ("query_prepare", "_api_connect") and o.an.eval_cond(o.st, eq(e[4], FAIL)) is None]
        ps = [e for e in c if e[1] == "process_step"]
        over = bad or ps and o.an.eval_cond(o.st, eq(ps[-1][4], C0)) is not False
        why = None
        if unknown:
            why = "goes on although %s may have failed" % unknown[0][1]
        elif bad and not rs:
            why = "a failed batch is left in the handle"
        elif over and not (st and st[-1][2] == C0):
            why = "the plan still counts as being stepped"
        elif over and not any(e[1] == "vec_clear" and uv(e[2][0]) == ld("api_vec", S) for e in c):
            why = "the fields of the finished query stay"
        elif over and not rs:
            v = View(o, ("fqlhandle.", "vec.", "query."))
            if not v.infeasible and not more(v, o, S):
                why = "a finished batch is left in the handle"
        if why is None and bad and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
            why = "the failure is not reported"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    # freeing a handle
    name = "fql_free"
    F = Fragments(ctx, p, name, lambda: FragRule({"fql_reset"}, set()), infer=False)
    for o in F.arrivals(0) + [o for o in F.returns(0)]:
        ok = any(e[1] == "fql_reset" and e[2][0] == arg(o.an, 0) for e in o.ev)
        n += 1
        ctx.ob(name, ok, o.where(), "" if ok else "the batch is not dropped")
    ctx.need(n, 10, "ways out of running a batch")
