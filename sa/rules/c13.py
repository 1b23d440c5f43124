"""C13: NULL."""
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "path-outcome analysis of every scalar function, comparison, expression reader, assignment and result writer over the three results an operand can have (value, NULL, failure)"
LEVEL_NOTE = "every path of every function, for every combination of NULL, failing and valued operands"
EXPLANATION = (
    "Every function that implements an operator or scalar function is found by its type and by its address being taken; on every path through it, reading an operand that is NULL must end the function with NULL at once (the functions behind ISNULL go on to the second operand instead), "
    "a failing operand ends it with failure, and a path that yields a value has read every operand and found it present. The readers behind all expressions give NULL for the NULL literal, for a missing record, for a field the record lacks, and for a function that gave NULL. "
    "Comparisons with a NULL operand are false, IS NULL is true exactly for NULL. Assignments and result writers keep NULL: a variable becomes NULL, a subquery's NULL enters no list, a CSV column stays empty, an API field is flagged.")
ASSUMPTIONS = ["an expression reader's result is one of value, NULL and failure"]

FAIL, NULL = const(-5), const(-1)
GETS = {"expression_get_int", "expression_get_float", "expression_get_stringview"}


def run(ctx):
    p = ctx.prog("engine", keep=sorted(GETS) + ["like_to_regex"])
    functions(ctx, p)
    comparisons(ctx, p)
    readers(ctx)
    assign(ctx)
    writers(ctx)


def fns_of(p, *types):
    """functions used through a pointer whose parameters have these types"""
    out = []
    for n in sorted(p._raw):
        f = p.fn(n)
        if f.addr_taken and tuple(a[3] for a in f.args) == types:
            out.append(n)
    return out


def state(o, r):
    """what the path knows about the result r of a reader"""
    known = lambda c: o.an.eval_cond(o.st, c)
    if known(eq(r, FAIL)) is True:
        return "fail"
    if known(eq(r, NULL)) is True:
        return "null"
    if known(eq(r, FAIL)) is False and known(eq(r, NULL)) is False:
        return "value"
    if known(eq(r, C0)) is True:
        return "value"
    if known(eq(r, FAIL)) is False:
        return "no failure"
    return "unknown"


def value(o, want):
    return o.val is not None and o.an.eval_cond(o.st, eq(o.val, want)) is True


def functions(ctx, p):
    ctx.rule("C13.function", "a function with a NULL operand gives NULL without reading further, with a failing operand it fails; it gives a value only when every operand has one; ISNULL takes its second operand exactly when the first is NULL")
    n = 0
    for name in fns_of(p, "function*", "field*", "node*"):
        f = p.fn(name)
        outs = first_part(ctx, p, name)
        key = lambda e: unver_fields(e[2][1], ("vec.", "function."))
        read = {key(e) for o in outs for e in o.ev}
        if not read:
            continue
        n += 1
        second = "isnull" in name
        for o in outs:
            why = None
            states = [state(o, e[4]) for e in o.ev]
            for k, (e, s) in enumerate(zip(o.ev, states)):
                last = k == len(o.ev) - 1
                direct = last and o.val is not None and o.val == e[4]
                if s == "fail":
                    if not last or not value(o, FAIL):
                        why = "goes on after an operand failed"
                elif s == "null" and second and k == 0:
                    if last:
                        why = "the first operand is NULL and the second is not read"
                elif s == "null":
                    if not last or not value(o, NULL):
                        why = "the operand is NULL and the result is %s" % (show(o.val) if last and o.val else "computed")
                elif s == "value":
                    if second and k == 0 and not last:
                        why = "the first operand has a value and the second is read"
                    elif direct:
                        pass
                elif direct and s in ("unknown", "no failure"):
                    pass
                elif s == "no failure" and second and k == 0 and o.an.eval_cond(o.st, eq(e[4], C0)) is False:
                    pass
                else:
                    why = "goes on without knowing whether the operand is NULL"
                if why:
                    break
            if why is None and not o.ev and value(o, C0) and not sized(o):
                why = "gives a value without reading its operand"
            if why is None and o.ev and states[-1] == "value" and not second and not sized(o):
                miss = read - {key(e) for e in o.ev}
                if miss and not value(o, FAIL):
                    why = "gives a value without reading %s" % ", ".join(show(x) for x in miss)
            if why is None and o.ev and all(s == "value" for s in states) and value(o, NULL) and o.val != o.ev[-1][4]:
                why = "gives NULL although every operand has a value"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 25, "scalar functions")


def first_part(ctx, p, name):
    """outcomes up to the function's loops, which read no operand"""
    f = p.fn(name)
    if not f.loops:
        outs, an = collect(ctx, p, f, GETS, set())
        return returns(outs)
    F = Fragments(ctx, p, name, lambda: FragRule(GETS, set()), infer=False)
    for h in F.headers:
        if h in F.reachable() and any(o.ev for o in F.arrivals(h) + F.returns(h)):
            outs, an = collect(ctx, p, f, GETS, set())
            return returns(outs)
    return F.arrivals(0) + F.returns(0)


def sized(o):
    """the path depends on the number or the type of the arguments"""
    return any("vec.size" in repr(T) or "expression.field_type" in repr(T) for T in o.st.facts)


def comparisons(ctx, p):
    ctx.rule("C13.compare", "a comparison whose operand is NULL is false, one whose operand fails, fails; IS NULL is true exactly for NULL")
    n = 0
    for name in fns_of(p, "logic*", "node*"):
        f = p.fn(name)
        outs, an = collect(ctx, p, f, GETS, set())
        base = fld("logic.expr", arg(an, 0))
        isnull = "is_null" in name
        k = 0
        for o in returns(outs):
            mine = [e for e in o.ev if e[2][1][0] == "ld" and mentions(e[2][1], lambda y: y == base)]
            why = None
            for e in mine:
                k += 1
                s = state(o, e[4])
                if s == "fail":
                    why = None if value(o, FAIL) and e is o.ev[-1] else "an operand fails and the result is %s" % show(o.val)
                elif s == "null":
                    if isnull:
                        why = None if value(o, const(1)) else "IS NULL of NULL is %s" % show(o.val)
                    else:
                        why = None if value(o, C0) and e is o.ev[-1] else "an operand is NULL and the result is %s" % (show(o.val) if e is o.ev[-1] else "computed")
                elif s == "value":
                    if isnull:
                        why = None if value(o, C0) else "IS NULL of a value is %s" % show(o.val)
                elif isnull and s == "no failure":
                    why = None if o.val == eq(e[4], NULL) or o.val[0] in ("cmp", "not") and mentions(o.val, lambda y: y == e[4]) and \
                        truth(o, o.val, e[4], NULL) is True and truth(o, o.val, e[4], C0) is False else "IS NULL is %s" % show(o.val)
                else:
                    why = "compares without knowing whether the operand is NULL"
                if why:
                    break
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        if k:
            n += 1
    ctx.need(n, 20, "comparison functions")


def truth(o, c, r, v):
    s = o.st.copy()
    if o.an.assume(s, eq(r, v), True) is False:
        return None
    return o.an.eval_cond(s, c) if c[0] in ("cmp", "not") else None


def readers(ctx):
    ctx.rule("C13.read", "reading an expression gives NULL for a record that is not there, for a field the record lacks and for a function whose result is NULL, hands on the result of an expression it refers to, and gives NULL for the NULL literal")
    keep = sorted(GETS) + ["record_at", "switchcase_eval_to_int", "switchcase_eval_to_float", "switchcase_eval_to_stringview", "field_to_int", "field_to_float", "field_to_stringview"]
    p = ctx.prog("engine", keep=keep)
    for name in sorted(GETS):
        f = p.fn(name)
        outs, an = collect(ctx, p, f, None, set())
        self_ = arg(an, 1)
        kind = ("ld", fld("expression.expr", self_), 0)
        n = dict(record=0, missing=0, lacks=0, fn=0, literal=0)
        for o in returns(outs):
            o = View(o, ("expression.", "record.", "vec."))
            if o.infeasible:
                continue
            known = lambda c: o.an.eval_cond(o.st, c)
            why = None
            if name == "expression_get_stringview" and value(o, NULL):
                a = fld("stringview.len", arg(an, 0))
                if o.an.read(o.st, a) == ("ld", a, 0):
                    why = "a NULL leaves the text unset"
            for e in o.ev:
                if e[0] != "call":
                    continue
                if e[1] == "record_at":
                    n["record"] += 1
                    if known(eq(e[4], C0)) is True:
                        n["missing"] += 1
                        if not value(o, NULL):
                            why = "the record is missing and the result is %s" % show(o.val)
                    elif known(eq(e[4], C0)) is not False:
                        why = "does not ask whether the record is there"
                    else:
                        sz = ("ld", fld("vec.size", fld("record.fields", e[4])), 0)
                        rd = [x for x in o.ev if x[0] == "call" and any(mentions(a, lambda y: y == fld("record.fields", e[4])) for a in x[2])]
                        rd = rd or reads_field(o, e[4])
                        has = covered(o, sz)
                        if has is False:
                            n["lacks"] += 1
                            if not value(o, NULL):
                                why = "the record lacks the field and the result is %s" % show(o.val)
                        elif rd and has is not True:
                            why = "reads a field the record may lack"
                elif e[1] == "<indirect>":
                    n["fn"] += 1
                    s = state(o, e[4])
                    if s == "null" and not value(o, NULL):
                        why = "the function gave NULL and the result is %s" % show(o.val)
                    elif s == "fail" and not value(o, FAIL):
                        why = "the function failed and the result is %s" % show(o.val)
                    elif s in ("unknown", "no failure") and o.val != e[4]:
                        why = "goes on without knowing whether the function gave NULL"
                elif e[1] in GETS and e is o.ev[-1]:
                    if o.val != e[4]:
                        why = "does not hand on the result of %s" % e[1]
                if why:
                    break
            calls = [e for e in o.ev if e[0] == "call"]
            if not calls and value(o, NULL) and known(eq(kind, const(p.enumval["EXPR_NULL"]))) is not False:
                n["literal"] += 1
            if why is None and known(eq(kind, const(p.enumval["EXPR_NULL"]))) is True and not value(o, NULL):
                why = "the NULL literal gives %s" % show(o.val)
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        for k, v in n.items():
            ctx.ob("%s: %s" % (name, k), v > 0, f.loc(None), "" if v else "no path of %s for %s" % (name, k))


def reads_field(o, rec):
    """facts or results that come from an element of the record's fields"""
    b = ("ld", fld("vec.data", fld("record.fields", rec)), 0)
    return [1] if mentions(o.val, lambda y: y == b) else []


def covered(o, size):
    """whether the path knows that some index is below the number of fields"""
    for T, g in o.st.facts.items():
        d = dict(T)
        if size in d and len(d) == 2 and "expression.index" in repr([a for a in d if a != size]):
            k = d[size]
            lo, hi = (g[0], g[1]) if k > 0 else (-g[1], -g[0])
            if lo >= 1:
                return True
            if hi <= 0:
                return False
    # no field at all
    if o.an.interval(o.st, size)[1] <= 0:
        return False
    return None


def assign(ctx):
    ctx.rule("C13.assign", "assigning NULL makes the variable NULL, assigning a value makes it not NULL, and a NULL variable reads as NULL")
    p = ctx.prog("engine", keep=sorted(GETS) + ["variable_set_type", "string_from_stringview", "string_copy_from_stringview", "_append_space", "string_clear", "string_append_char"])
    f = p.fn("fql_set")
    outs, an = collect(ctx, p, f, GETS, {"variable.is_null"})
    n = 0
    for o in returns(outs):
        g = [e for e in o.ev if e[0] == "call"]
        if not g or value(o, FAIL):
            continue
        n += 1
        st = [e for e in o.ev if e[0] == "store"]
        s = state(o, g[-1][4])
        flag = st[-1][2] if st else None
        why = None
        if len(g) != 1:
            why = "evaluates %d values" % len(g)
        elif flag is None:
            why = "leaves the variable as it was"
        elif s == "null" and o.an.eval_cond(o.st, eq(flag, C0)) is not False:
            why = "the value is NULL and the variable is not"
        elif s in ("value",) and o.an.eval_cond(o.st, eq(flag, C0)) is not True:
            why = "the value is present and the variable is NULL"
        elif s in ("no failure", "unknown") and not mentions(flag, lambda y: y == g[0][4]) and not (s == "no failure" and o.an.eval_cond(o.st, eq(g[0][4], NULL)) is False):
            why = "does not ask whether the value is NULL"
        ctx.ob("fql_set", why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "assignments")
    f = p.fn("expression_set_variable")
    outs, an = collect(ctx, p, f, set(), {"expression.expr"})
    n = 0
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store"]
        flag = ("ld", fld("variable.is_null", arg(an, 1)), 0)
        isn = o.an.eval_cond(o.st, eq(flag, C0))
        k = st[-1][2] if st else None
        isnull = k is not None and o.an.eval_cond(o.st, eq(k, const(p.enumval["EXPR_NULL"]))) is True
        n += 1
        why = None
        if isn is None:
            why = "does not ask whether the variable is NULL"
        elif (isn is False) != isnull and not value(o, FAIL):
            why = "a NULL variable becomes a value" if isn is False else "a value becomes NULL"
        ctx.ob("expression_set_variable", why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths of expression_set_variable")


SINKS = {
    # function: what a value does that a NULL must not, what a NULL must do
    "_select_record_to_list": ({"set_nadd"}, None),
    "libcsv_write_record": ({"csv_write_field"}, None),
    "_select_record_to_const": (set(), ("expression.expr", "EXPR_NULL")),
    "_select_record_api": (set(), ("fql_field.is_null", 1)),
}


def writers(ctx):
    ctx.rule("C13.write", "a NULL result enters no list of values, writes nothing into its CSV column, and is flagged as NULL in a scalar subquery and in the fields of the interface; a value is handed over and not flagged")
    calls = GETS | {"set_nadd", "csv_write_field"}
    p = ctx.prog("engine", keep=sorted(calls))
    for name, (sink, flag) in SINKS.items():
        F = Fragments(ctx, p, name, lambda: FragRule(calls, {flag[0]} if flag else set()))
        n = 0
        for src in [0] + F.headers:
            if src not in F.reachable():
                continue
            for o in F.arrivals(src) + F.returns(src):
                g = [k for k, e in enumerate(o.ev) if e[0] == "call" and e[1] in GETS]
                isret = not hasattr(o, "dst")
                if not g or isret and o.val is not None and value(o, FAIL):
                    continue
                e = o.ev[g[-1]]
                s = state(o, e[4])
                n += 1
                why = None
                hand = [x for x in o.ev[g[-1]:] if x[0] == "call" and x[1] in sink]
                fl = [x for x in o.ev if x[0] == "store"]
                zero = o.an.eval_cond(o.st, eq(e[4], C0))
                if s in ("unknown", "fail"):
                    why = "does not tell a failure from a value"
                elif s == "no failure" and zero is None:
                    why = "does not ask whether the value is NULL"
                elif s == "null" or s == "no failure" and zero is False:
                    if hand:
                        why = "a NULL is handed on"
                    elif flag:
                        want = const(p.enumval[flag[1]] if isinstance(flag[1], str) else flag[1])
                        if not fl or o.an.eval_cond(o.st, eq(fl[-1][2], want)) is not True:
                            why = "a NULL is not marked as one"
                else:
                    if sink and len(hand) != 1:
                        why = "a value is handed on %d times" % len(hand)
                    elif flag:
                        want = const(p.enumval[flag[1]] if isinstance(flag[1], str) else flag[1])
                        if not fl or o.an.eval_cond(o.st, eq(fl[-1][2], want)) is not False:
                            why = "a value is marked as NULL"
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 2, "values read by " + name)
