"""C08: rejected and unsupported statements."""
import re
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "control-flow and effect analysis of the translator, its failure flag and the tree walk, from the compiler's intermediate representation of the C++ sources: refusal on every path, flag typestate, every cycle of the walk tests the stop flag"
LEVEL_NOTE = "every callback of the translator for an unsupported construct, the refusal and failure functions, the walk, both error listeners and the batch entry point; any statement text"
EXPLANATION = (
    "For each construct of the dialect that the engine recognises but does not implement, the translator's callback must refuse it on every path, unless the construct has come to be translated into engine calls. "
    "Refusing must set the failure code and stop the walk unless the user overrides such warnings; nothing else ever writes the failure code. The walk must test the stop flag on every cycle that calls the translator, so nothing later is translated. "
    "Both error listeners, attached before parsing, must record every syntax error; the batch entry point must fail when either recorded one, walks the tree only otherwise and hands on the translator's code; its caller plans nothing when it failed.")
ASSUMPTIONS = ["the generated parser reports every text outside the grammar to its error listeners", "the constructs that are not implemented are the ones listed in the rule"]

FAIL = const(-5)
UNSUPPORTED = """
Ddl_clause Break_statement Continue_statement Goto_statement Return_statement Throw_statement Throw_error_number Throw_message
Throw_state Try_catch_statement Print_statement Raiseerror_statement Empty_statement Entity_to Colon_colon Class_type
Class_type_for_sql_database Class_type_for_parallel_dw Lock_table Truncate_table Merge_statement Merge_matched Merge_not_matched
Insert_statement Insert_statement_value Time Output_clause Output_dml_list_elem Create_or_alter_procedure Create_or_alter_function
Func_body_returns_select Func_body_returns_table Func_body_returns_scalar Procedure_param Procedure_option Function_option
Create_table Table_options Alter_table Cursor_option Drop_procedure Drop_function Drop_table Cursor_statement Kill_statement
Kill_process Kill_query_notification Execute_statement Execute_body Execute_statement_arg Execute_var_string Transaction_statement
Go_statement Use_statement Shutdown_statement Dbcc_clause Dbcc_options Execute_clause Table_type_definition
Column_def_table_constraints Column_def_table_constraint Column_definition Column_constraint Table_constraint Index_options
Index_option Declare_cursor Declare_set_cursor_common Declare_set_cursor_common_partial Fetch_cursor Set_special Constant_LOCAL_ID
Constant_expression With_expression Common_table_expression Top_percent Option_clause Option Optimize_for_arg Udt_method_arguments
Udt_elem Schema_declaration Column_declaration Change_table Pivot_clause Unpivot_clause Full_column_name_list Bulk_option
BINARY_CHECKSUM CONVERT CHECKSUM COALESCE CURRENT_TIMESTAMP CURRENT_USER DATEADD DATEDIFF DATENAME DATEPART GETDATE GETUTCDATE
IDENTITY MIN_ACTIVE_ROWVERSION NULLIF STUFF SESSION_USER SYSTEM_USER RANKING_WINDOWED_FUNC ANALYTIC_WINDOWED_FUNC STRINGAGG
Nodes_method With_table_hints Insert_with_table_hints Table_hint Index_value Column_alias_list Table_value_constructor
Ranking_windowed_function Analytic_windowed_function Over_clause Row_or_range_clause Window_frame_extent Window_frame_bound
Window_frame_preceding Window_frame_following Entity_name Entity_name_for_azure_dw Entity_name_for_parallel_dw Simple_name
Column_name_list_with_order Column_name_list Cursor_name On_off Null_or_default Default_value Id_or_string When_matches
Alter_sequence Batch_level_statement Class_type_for_azure_dw Apply_ Cross_join Create_sequence Insert_column_name_list Unpivot
Change_table_version IIF Database_optionspec Execute_statement_arg_named Go_batch_statement Partition_function Pivot
Execute_statement_arg_unnamed Time_zone USER Algorithm Insert_column_id Execute_body_batch Execute_parameter Update_elem_merge
PARTITION_FUNC TRY_CAST Change_table_changes Dbcc_command Dbcc_special
""".split()


def run(ctx):
    p = ctx.prog("listener", inline=False)
    failing = refusers(p)
    constructs(ctx, p, failing)
    flag(ctx)
    walk(ctx)
    entry(ctx)
    caller(ctx)


def member(p, cls, name):
    """functions of a class by their plain name"""
    tag = "%d%s%d%sE" % (len(cls), cls, len(name), name)
    out = [n for n in p.names() if re.match("_ZNK?%s" % tag, n)]
    return out


def successors(blk):
    i = blk[-1]
    return list(i.succ or []) + [c[1] for c in (i.cases or [])] + ([i.dflt] if i.dflt is not None else [])


def escapes(f, stops):
    """can the function return without passing a call in stops?"""
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(i.callee_name() in stops for i in f.blocks[b]):
            continue
        last = f.blocks[b][-1]
        if last.op == "ret":
            return True
        if last.op == "invoke":
            todo.append(last.succ[0])
        else:
            todo += f.succ[b] if hasattr(f, "succ") else successors(f.blocks[b])
    return False


def refusers(p):
    """functions that refuse on every path"""
    out = set(member(p, "ListenerInterface", "_no_impl") + member(p, "ListenerInterface", "_set_failure"))
    if len(out) < 2:
        raise AnalysisError("refusal functions of the translator not found")
    todo = [n for n in p.names(["lib/antlr/listenerinterface"])]
    while True:
        new = {n for n in todo if n not in out and not escapes(p.fn(n), out)}
        if not new:
            return out
        out |= new


def effects(p, n):
    """does the callback do anything that outlives it?"""
    for i in p.fn(n).insts():
        c = i.callee_name()
        if c and re.match(r"(query|libfql|fql)_", c):
            return True
    return False


def constructs(ctx, p, failing):
    ctx.rule("C08.unsupported", "a construct that is recognised but not implemented is refused on every path")
    have = 0
    for x in UNSUPPORTED:
        fs = member(p, "ListenerInterface", "enter" + x) + member(p, "ListenerInterface", "exit" + x)
        ok = any(f in failing for f in fs) or any(effects(p, f) for f in fs)
        have += bool(fs)
        where = p.fn(fs[0]).loc(p.fn(fs[0]).blocks[0][0]) if fs else "lib/antlr/listenerinterface.cpp"
        ctx.ob(x, ok, where, "" if ok else "neither refused on every path nor translated")
    ctx.need(have, 100, "callbacks of unsupported constructs")


def flag(ctx):
    ctx.rule("C08.flag", "refusing records the failure and stops the walk unless the user overrides warnings; the recorded failure is never taken back")
    p = ctx.prog("listener", inline=False)
    sf, = member(p, "ListenerInterface", "_set_failure")
    ni, = member(p, "ListenerInterface", "_no_impl")
    sw, = member(p, "TreeWalker", "set_walking")
    rc, = member(p, "ListenerInterface", "get_return_code")
    every = set(p.names())
    small = {n for n in p.names(["lib/antlr/listenerinterface", "lib/antlr/treewalker"]) if len(p.fn(n).blocks) < 8}
    q = ctx.prog("listener", keep=sorted(every - small | {sf, ni, sw}))
    # recording
    f = q.fn(sf)
    outs, an = collect(ctx, q, f, {sw}, {"all"}, 100)
    n = 0
    for o in returns(outs):
        o = View(o, ("ListenerInterface.",))
        n += 1
        t = arg(an, 0)
        code = any(e[0] == "store" and e[1] == fld("ListenerInterface._return_code", t) and e[2] == FAIL for e in o.ev)
        stop = any(e[0] == "call" and "ListenerInterface._walker" in repr(e[2][0]) and e[2][1] == C0 for e in o.ev)
        why = "does not record the failure" if not code else "does not stop the walk" if not stop else None
        ctx.ob("_set_failure", why is None, o.where(), why or "", o.raw.trail() if why and hasattr(o.raw, "trail") else None)
    f = q.fn(sw)
    outs, an = collect(ctx, q, f, set(), {"all"}, 100)
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store" and e[1] == fld("TreeWalker._walking", arg(an, 0))]
        n += 1
        ok = bool(st) and repr(arg(an, 1)) in repr(st[-1][2])
        ctx.ob("set_walking", ok, o.where(), "" if ok else "does not store what it is told")
    f = q.fn(rc) if q.has(rc) else p.fn(rc)
    outs, an = collect(ctx, q if q.has(rc) else p, f, set(), set())
    for o in returns(outs):
        o = View(o, ("ListenerInterface.",))
        n += 1
        ok = "ListenerInterface._return_code" in repr(o.val)
        ctx.ob("get_return_code", ok, o.where(), "" if ok else "does not hand on the recorded failure")
    # refusing
    f = q.fn(ni)
    outs, an = collect(ctx, q, f, {sf}, set(), 100)
    for o in returns(outs):
        o = View(o, ("ListenerInterface.", "fqlhandle."))
        n += 1
        if any(e[1] == sf for e in o.ev):
            ctx.ob("_no_impl", True, o.where(), "")
            continue
        props = fld("fqlhandle.props", ("ld", fld("ListenerInterface._fql", arg(an, 0)), 0))
        over = ("ld", fld("fqlhandle.props.override_warnings", props), 0)
        ok = o.an.eval_cond(o.st, eq(over, C0)) is False
        ctx.ob("_no_impl", ok, o.where(), "" if ok else "goes on although the user did not override warnings")
    # nobody takes it back
    for g in p.names(["lib/antlr/"]):
        fg = p.fn(g)
        if not any((i.callee_name() or "").startswith("fld:ListenerInterface._return_code") for i in fg.insts()):
            continue
        ctor = re.match(r"_ZN17ListenerInterfaceC[12]E", g)
        outs = []
        F = Fragments(ctx, p, g, lambda: FragRule(set(), {"all"}, 400), infer=False)
        bad = None
        for o in sum([F.returns(h) + F.arrivals(h) for h in [0] + F.headers], []):
            for e in o.ev:
                if e[0] == "store" and e[1][0] == "fld" and e[1][1] == "ListenerInterface._return_code":
                    n += 1
                    if not ctor and not (is_c(e[2]) and e[2] != C0):
                        bad = "writes %s to the failure code" % show(e[2])
                    if ctor and e[2] not in (C0, FAIL):
                        bad = "starts with %s" % show(e[2])
        ctx.ob(fg.src, bad is None, fg.loc(fg.blocks[0][0]), bad or "")
    ctx.need(n, 6, "places that deal with the failure flag")


def walk(ctx):
    ctx.rule("C08.walk", "every cycle of the walk that calls the translator tests the stop flag and leaves when it is cleared")
    p = ctx.prog("listener", inline=False)
    w, = member(p, "TreeWalker", "walk")
    every = set(p.names())
    small = {n for n in p.names(["lib/antlr/treewalker"]) if n != w}
    q = ctx.prog("listener", keep=sorted(every - small))
    f = q.fn(w)
    defs = {i.id: i for i in f.insts()}

    def walking(v, depth=0):
        """does the operand hold the flag (or its negation)? +1, -1 or 0"""
        i = defs.get(v) if isinstance(v, int) else None
        if i is None or depth > 8:
            return 0
        if i.op == "load":
            a = defs.get(i.a[0]) if isinstance(i.a[0], int) else None
            return 1 if a is not None and "TreeWalker._walking" in repr(a.callee) else 0
        if i.op in ("trunc", "zext", "freeze"):
            return walking(i.a[0], depth + 1)
        if i.op == "xor":
            return -walking(i.a[0], depth + 1)
        if i.op == "icmp":
            z = [x for x in i.a if isinstance(x, list)]
            o = [x for x in i.a if not isinstance(x, list)]
            if len(z) == 1 and len(o) == 1:
                s = walking(o[0], depth + 1)
                zero = z[0][0] in ("null", "zero") or z[0][:2] == ["i", 0]
                return s * (1 if (i.pred == "ne") == zero else -1)
        if i.op == "and":
            # a conjunction with the flag is true only when the flag is
            return 1 if any(walking(x, depth + 1) == 1 for x in i.a) else 0
        if i.op == "select" and len(i.a) == 3:
            return 1 if walking(i.a[0], depth + 1) == 1 and i.a[2] in (["i", 0], ["zero"]) else 0
        return 0

    def flagged(b, s):
        """edge taken only when the flag is set"""
        i = f.blocks[b][-1]
        if i.op != "br" or not i.a or len(i.succ) != 2:
            return False
        v = i.a[0]
        d = defs.get(v) if isinstance(v, int) else None
        if d is not None and d.op == "phi":
            # short-circuit: every incoming value is false or decided by the flag
            ok = True
            for x in d.a:
                if x[2] in (["i", 0], ["zero"]):
                    continue
                if walking(x[2]) == 1:
                    continue
                pb = f.blocks[x[1]]
                pr = [k for k in range(len(f.blocks)) if x[1] in edges(k)]
                if not pr or not all(flagged(k, x[1]) for k in pr):
                    ok = False
                del pb
            return ok and s == i.succ[0]
        k = walking(v)
        return k == 1 and s == i.succ[0] or k == -1 and s == i.succ[1]

    def edges(b):
        i = f.blocks[b][-1]
        if i.op == "invoke":
            return [i.succ[0]]
        return list(f.succ[b]) if hasattr(f, "succ") else successors(f.blocks[b])

    calls = {}
    for b in range(len(f.blocks)):
        for i in f.blocks[b]:
            if i.op in ("call", "invoke") and i.callee_name() is None and not isinstance(i.callee, str):
                calls.setdefault(b, i)
    ctx.need(len(calls), 3, "calls of the translator in the walk")
    for b, i in sorted(calls.items()):
        seen, todo = set(), [s for s in edges(b) if not flagged(b, s)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [s for s in edges(x) if not flagged(x, s)]
        ctx.ob("walk: call %d" % sorted(calls).index(b), b not in seen, f.loc(i), "" if b not in seen else "can be reached again without the stop flag having been tested")
    # the flag is turned on only where the walk is started
    sw, = member(p, "TreeWalker", "set_walking")
    for g in p.names(["lib/antlr/"]):
        for i in p.fn(g).insts():
            if i.callee_name() == sw:
                off = i.a[1] in (["i", 0], ["zero"])
                ok = off or g == "analyze_query"
                ctx.ob("%s: set_walking" % p.fn(g).src, ok, p.fn(g).loc(i), "" if ok else "turns a stopped walk on again")


def entry(ctx):
    ctx.rule("C08.entry", "both error listeners are attached before the text is parsed and record every error; a batch with a syntax error fails without being walked; the translator's failure is handed on")
    p = ctx.prog("listener", inline=False)
    n = 0
    for cls in ("LexerErrorListener", "ParserErrorListener"):
        for g in member(p, cls, "syntaxError"):
            outs, an = collect(ctx, p, p.fn(g), set(), {"all"}, 100)
            for o in returns(outs):
                n += 1
                st = [e for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1].endswith("ErrorListener._error")]
                ok = bool(st) and is_c(st[-1][2]) and st[-1][2] != C0
                ctx.ob("%s::syntaxError" % cls, ok, o.where(), "" if ok else "a syntax error is not recorded")
        for g in member(p, cls, "getError"):
            outs, an = collect(ctx, p, p.fn(g), set(), {"all"}, 100)
            for o in returns(outs):
                n += 1
                ok = "ErrorListener._error" in repr(o.val)
                ctx.ob("%s::getError" % cls, ok, o.where(), "" if ok else "does not tell whether an error was recorded")
    every = set(p.names())
    small = {g for g in p.names(["lib/antlr/antlr.cpp"]) if g != "analyze_query" and p._raw[g]["file"].endswith("antlr.cpp")}
    q = ctx.prog("listener", keep=sorted(every - small))
    f = q.fn("analyze_query")
    outs, an = collect(ctx, q, f, None, set(), 400)
    for o in returns(outs):
        o_ = o
        ev = [e for e in o.ev if e[0] == "call"]
        at = {}
        for k, e in enumerate(ev):
            for name in ("addErrorListener", "tsql_file", "TreeWalker4walk", "15get_return_code"):
                if name in e[1]:
                    at.setdefault(name, []).append(k)
        n += 1
        if o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is True and not at.get("TreeWalker4walk"):
            ctx.ob("analyze_query", True, o.where(), "")
            continue
        parsed = at.get("tsql_file", [None])[0]
        why = None
        if parsed is None:
            why = "succeeds without parsing"
        else:
            lis = {repr(ev[k][2][1]) for k in at.get("addErrorListener", []) if k < parsed}
            tgt = {repr(ev[k][2][0]) for k in at.get("addErrorListener", []) if k < parsed}
            if len(lis) < 2 or len(tgt) < 2:
                why = "parses without both error listeners attached"
            else:
                for cls in ("LexerErrorListener", "ParserErrorListener"):
                    asked = [e for e in ev[parsed:] if "%s8getError" % cls in e[1]]
                    if not any(o.an.eval_cond(o.st, eq(e[4], C0)) is True or o.an.eval_cond(o.st, e[4]) is False for e in asked):
                        why = "goes on although %s may have recorded an error" % cls
        if why is None and at.get("TreeWalker4walk"):
            last = at["TreeWalker4walk"][-1]
            rcs = [ev[k][4] for k in at.get("15get_return_code", []) if k > last]
            if not any(r == o.val or o.an.eval_cond(o.st, eq(r, C0)) is True for r in rcs):
                why = "walks the tree and does not hand on the translator's code"
        ctx.ob("analyze_query", why is None, o_.where(), why or "", o_.trail() if why else None)
    ctx.need(n, 8, "paths of the parser's entry")


def caller(ctx):
    ctx.rule("C08.caller", "when translation failed nothing is planned")
    p = ctx.prog("engine", inline=False)
    n = 0
    for g in p.names():
        fs = p.fn(g)
        if not any(i.callee_name() == "analyze_query" for i in fs.insts()):
            continue
        F = Fragments(ctx, p, g, lambda: FragRule({"analyze_query", "schema_resolve", "plan_build"}, set()), infer=False)
        for o in sum([F.returns(h) + F.arrivals(h) for h in [0] + F.headers], []):
            a = [k for k, e in enumerate(o.ev) if e[1] == "analyze_query"]
            if not a:
                continue
            n += 1
            good = o.an.eval_cond(o.st, eq(o.ev[a[-1]][4], C0)) is True
            more = [e[1] for e in o.ev[a[-1] + 1:]]
            fails = o.val is not None and (o.an.eval_cond(o.st, eq(o.val, C0)) is False)
            why = None if good or not more and fails else "goes on to %s after a failed translation" % more[0] if more else "succeeds after a failed translation"
            ctx.ob(fs.src, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths that translate a batch")
