"""C09: each operator, function name and keyword performs the operation of that name."""
TECHNIQUE = "decision tables read off the paths of every function that decides by operator, function, aggregate, comparison, type or keyword (compiler's intermediate representation, constant tables read from their initialisers), compared with the meaning of each key"
LEVEL_NOTE = "every operator, scalar function, aggregate, comparison word, type name and construct of the C engine; not the token tables of the grammar listener"
from .common import *
from .norm import *
from .c25 import feasible
from ..facts import AnalysisError

C0 = const(0)
FAIL = const(-5)

OPS = {   # operator: {type: implementation}
    "OP_PLUS": dict(INT="fql_op_plus_i", FLOAT="fql_op_plus_f", STRING="fql_op_plus_s"),
    "OP_MINUS": dict(INT="fql_op_minus_i", FLOAT="fql_op_minus_f"),
    "OP_MULTIPY": dict(INT="fql_op_mult_i", FLOAT="fql_op_mult_f"),
    "OP_DIVIDE": dict(INT="fql_op_divi_i", FLOAT="fql_op_divi_f"),
    "OP_MODULE": dict(INT="fql_op_mod_i"),
    "OP_BIT_OR": dict(INT="fql_op_bit_or"),
    "OP_BIT_AND": dict(INT="fql_op_bit_and"),
    "OP_BIT_XOR": dict(INT="fql_op_bit_xor"),
    "OP_UNARY_BIT_NOT": dict(INT="fql_op_bit_not"),
    "OP_UNARY_MINUS": dict(INT="fql_op_unary_minus_i", FLOAT="fql_op_unary_minus_f"),
}
UNARY = ("OP_UNARY_BIT_NOT", "OP_UNARY_MINUS")
NAMES = ["OP_PLUS", "OP_MINUS", "OP_MULTIPY", "OP_DIVIDE", "OP_MODULE", "OP_BIT_OR", "OP_BIT_AND", "OP_BIT_XOR",
         "OP_UNARY_BIT_NOT", "OP_UNARY_MINUS", "ABS", "ASCII", "CAST", "CEILING", "CHAR", "CHARINDEX", "CHECKSUM",
         "DATALENGTH", "DAY", "FLOOR", "ISDATE", "ISNULL", "ISNUMERIC", "LEFT", "LEN", "LOWER", "LTRIM", "MONTH",
         "NCHAR", "PATINDEX", "RAND", "REPLACE", "RIGHT", "ROUND", "RTRIM", "SIGN", "SPACE", "STR", "SUBSTRING",
         "UPPER", "USER_NAME", "YEAR"]
ARGS = dict([(x, (1, 1)) for x in "ABS ASCII CEILING CHAR DATALENGTH DAY FLOOR ISDATE ISNUMERIC LEN LOWER LTRIM MONTH NCHAR RTRIM SPACE UPPER SIGN YEAR".split()]
            + [(x, (0, 1)) for x in ("RAND", "USER_NAME")] + [("CAST", (1, 2)), ("STR", (1, 3)), ("ROUND", (2, 3))]
            + [(x, (2, 2)) for x in ("LEFT", "RIGHT", "ISNULL", "PATINDEX")] + [(x, (3, 3)) for x in ("SUBSTRING", "REPLACE", "CHARINDEX")])
IMPL = {"DATALENGTH": ("fql_datalength", "INT"), "LEN": ("fql_len", "INT"), "LEFT": ("fql_left", "STRING"), "RIGHT": ("fql_right", "STRING"),
        "SUBSTRING": ("fql_substring", "STRING"), "REPLACE": ("fql_replace", "STRING")}
ISNULL = dict(INT="fql_isnull_i", FLOAT="fql_isnull_f", STRING="fql_isnull_s")
AGGS = {"COUNT": dict(INT="fql_count", FLOAT="fql_count", STRING="fql_count"),
        "MIN": dict(INT="fql_min_i", FLOAT="fql_min_f", STRING="fql_min_s"),
        "MAX": dict(INT="fql_max_i", FLOAT="fql_max_f", STRING="fql_max_s"),
        "SUM": dict(INT="fql_sum_i", FLOAT="fql_sum_f"),
        "AVG": dict(INT="fql_avg_i", FLOAT="fql_avg_f")}
AGGNAMES = "UNDEFINED AVG CHECKSUM_AGG COUNT COUNT_BIG GROUPING GROUPING_ID MAX MIN STDEV STDEVP SUM VAR VARP".split()
COMPTEXT = {"EQ": ("=",), "NE": ("!=", "<>"), "GT": (">",), "GE": (">=",), "LT": ("<",), "LE": ("<=",)}
SETCOMP = [("=", "EQ"), ("<>", "NE"), ("!=", "NE"), (">", "GT"), (">=", "GE"), ("<", "LT"), ("<=", "LE"),
           ("IN", "IN"), ("LIKE", "LIKE"), ("NULL", "NULL"), ("like", "LIKE"), ("in", "IN")]
SQLT = dict(INT=("int", "bigint", "tinyint", "smallint", "INT", "BigInt"), BIT=("bit", "BIT"), FLOAT=("float", "real", "FLOAT"),
            VARCHAR=("varchar", "nvarchar", "VARCHAR"), TEXT=("text", "ntext", "Text"), CHAR=("char", "nchar", "CHAR"))
CASTS = dict(INT=("fql_cast_int", "INT"), BIT=("fql_cast_bit", "INT"), FLOAT=("fql_cast_float", "FLOAT"),
             TEXT=("fql_cast_string", "STRING"), VARCHAR=("fql_cast_string", "STRING"), CHAR=("fql_cast_char", "STRING"))
PRIMS = ("malloc perror function_construct expression_construct fqlset_construct fqlbranch_construct fqlselect_construct fqldelete_construct "
         "fqlupdate_construct aggregate_construct vec_push_back group_add_expression _distribute_expression expression_link group_construct "
         "node_push node_pop string_eq istring_eq libfql_get_sql_type expression_copy scope_construct order_construct "
         "logic_set_comparison logicgroup_construct _check_for_logic_exit _assign_logic inlist_construct logic_construct "
         "strhaschar str2long str2double scope_get_var_index string_strcpy string_construct field_description aggregate_resolve field_determine_type "
         "table_construct source_construct").split()


LOGIC = ["expression_get_int", "expression_get_float", "expression_get_stringview", "like_to_regex", "like_construct", "inlist_determine_type", "field_determine_type",
         "expression_cat_description", "inlist_cat_description", "string_strcat", "string_sprintf", "string_append", "field_description"]


def fold(an, st, e):
    """e with everything the path fixes replaced by its value: (offset, globals)"""
    c, d = lin_parts(e)
    g = []
    for a, k in d.items():
        if a[0] == "glob" and k == 1:
            g.append(a[1])
            continue
        lo, hi, _ = an.interval(st, a)
        if lo is None or lo != hi:
            return None
        c += k * lo
    return c, g


def looked_up(p, an, st, v):
    """a value: a function name, a text, a number - looked up in constant tables"""
    if v is None:
        return None
    if v[0] == "str":
        return v[1]
    if v[0] in ("fn", "f", "func"):
        return v[1]
    if v[0] == "glob":
        return v[1]
    if v[0] == "c":
        return v[1]
    if v[0] == "sel":
        t = an.eval_cond(st, v[1])
        if t is not None:
            return looked_up(p, an, st, v[2] if t else v[3])
    if v[0] == "ld":
        f = fold(an, st, v[1])
        if f and len(f[1]) == 1:
            init = p.globals.get(f[1][0], {}).get("init")
            if init:
                off, cell = f[0], init
                if off < 0 or off % 8:
                    return ("outside", off)
                flat = list(flatten(cell))
                k = off // 8
                if k >= len(flat):
                    return ("outside", off)
                x = flat[k]
                return x[1] if x[0] in ("f", "s") else (x[1] if len(x) > 1 and isinstance(x[1], int) else 0 if x[0] in ("null", "zero", "c", "0") else x)
    return ("?", show(v))


def flatten(cell):
    if cell[0] == "arr":
        for x in cell[1:]:
            yield from flatten(x)
    else:
        yield cell


def last(o, addr):
    r = None
    for e in o.ev:
        if e[0] == "store" and e[1] == addr:
            r = e[2]
    if r is None:
        r = o.read(addr)
        if r[0] == "ld" and r[1] == addr and r[2] == 0:
            return None
    return r


class Decide(Collect):
    """texts compared with a literal are decided by the text under test"""
    text = None
    key = None

    def after(self, an, st, inst, name, args, res):
        n = name if isinstance(name, str) else ""
        if self.text is not None and n in ("string_eq", "istring_eq", "strcmp", "strcasecmp") and len(args) >= 2:
            lit = [a[1] for a in args[:2] if a[0] == "str"]
            if len(lit) == 1 and self.key in args[:2]:
                same = lit[0] == self.text if n in ("string_eq", "strcmp") else lit[0].lower() == self.text.lower()
                if n.endswith("_eq"):
                    an.assume(st, eq(res, C0), not same)
                else:
                    an.assume(st, eq(res, C0), same)
        Collect.after(self, an, st, inst, name, args, res)


def decide(ctx, p, fn, key, text, calls=None, stores=None):
    r = Decide(calls, stores)
    r.text, r.key = text, key

    def bytes_(an, st):
        for i, b in enumerate(text.encode() + b"\0"):
            an.assume(st, eq(("ld", add(key, const(i)), 0), const(b)), True)
    an = ctx.analyse(p, p.fn(fn), r, bytes_)
    return r.outs, an


def operators(ctx, p, E, FT):
    ctx.rule("C09.operator", "an operator resolved for the common type of its operands runs the implementation of that operator and type, takes the number of operands of that operator, and is refused for a type that has none")
    outs, an = collect(ctx, p, p.fn("function_op_resolve"), {"field_determine_type", "aggregate_resolve"}, {"all"})
    S, T = arg(an, 0), arg(an, 1)
    key = ("ld", fld("function.type", S), 0)
    n = 0
    for op, impl in OPS.items():
        for ft, ftv in FT.items():
            got, why, rest = set(), None, 0
            for o in returns(outs):
                cs = [e for e in o.ev if e[0] == "call" and e[1] == "field_determine_type"]
                conds = [(eq(key, const(E["SCALAR_" + op])), True)]
                if len(cs) == 1:
                    conds.append((eq(cs[0][4], const(ftv)), True))
                st = feasible(o, *conds)
                if st is None:
                    continue
                q = P(o)
                q.st = st
                if q.contra():
                    continue
                f = looked_up(p, o.an, st, last(o, fld("function.call__", S)))
                if not cs:
                    if o.an.eval_cond(st, eq(o.val, FAIL)) is not True:
                        why = "%s succeeds without looking at the operands" % op
                    continue
                a = [o.an.interval(st, last(o, fld("function.arg_" + m, S)) or C0)[:2] for m in ("min", "max")]
                isnull = f in (0, None) or (impl.get(ft) is None and isinstance(f, str) is False)
                good = o.an.eval_cond(st, eq(o.val, C0))
                # the table entry fixes whether the entry is empty: drop the other branch
                z = [c for c in ((True,), (False,))]
                cell = last(o, fld("function.call__", S))
                tz = o.an.eval_cond(st, eq(cell, C0)) if cell is not None else None
                if tz is not None and cell is not None and cell[0] == "ld" and tz != (f in (0, None)):
                    continue          # the path takes the branch the table rules out
                if impl.get(ft) is None:
                    if good is not False:
                        why = "%s of %s operands is accepted" % (op[3:], ft)
                    n += 1
                    continue
                ar = 1 if op in UNARY else 2
                if f != impl[ft]:
                    why = "%s of %s operands runs %s" % (op[3:], ft, f)
                elif good is not True:
                    why = "%s of %s operands is refused" % (op[3:], ft)
                elif a != [(ar, ar), (ar, ar)]:
                    why = "%s takes %s operands" % (op[3:], a)
                rest += 1
                n += 1
            if impl.get(ft) is not None and not rest and not why:
                why = "%s of %s operands has no outcome" % (op[3:], ft)
            ctx.ob("%s %s" % (op, ft), why is None, "function_op_resolve", why or "")
    ctx.need(n, 28, "operator and type combinations")
    # the result type the expression gets is the common type of both operands
    why = None
    for o in returns(outs):
        cs = [e for e in o.ev if e[0] == "call" and e[1] == "field_determine_type"]
        if not cs:
            continue
        c = cs[0]
        v = last(o, T)
        if v is None or not P(o).eq(v, c[4]):
            why = "the operation's type is %s" % (v and show(v))
        def slot(x):
            if x[0] == "ld" and x[1][0] == "fld" and x[1][1] == "expression.field_type" and x[1][2][0] == "ld":
                vd = ("ld", fld("vec.data", ("ld", fld("function.args", S), 0)), 0)
                d = sub(strip(x[1][2])[1], vd)
                return d[1] // 8 if d[0] == "c" else None
            return None
        sl = [slot(x) for x in map(lambda y: unversion(y), c[2])]
        two = o.truth(eq(("ld", fld("vec.size", ("ld", fld("function.args", S), 0)), 0), const(2)))
        if sl[0] is None or sl[1] is None or set(sl) != ({0, 1} if two else {0}):
            why = why or "the operation's type comes from operands %s" % sl
    ctx.ob("type of an operation", why is None, "function_op_resolve", why or "")


def unversion(e):
    if isinstance(e, tuple):
        if e and e[0] == "ld" and len(e) == 3:
            return ("ld", unversion(e[1]), 0)
        return tuple(unversion(x) for x in e)
    return e


def functions(ctx, p, E, FT):
    ctx.rule("C09.function", "a function name gets the implementation, the result type and the argument limits of that function; one that has no implementation fails when it is evaluated; a wrong number of arguments is refused")
    outs, an = collect(ctx, p, p.fn("function_construct"), {"malloc"}, {"all"})
    S, T = arg(an, 0), arg(an, 2)
    key = arg(an, 1)
    n = 0
    for f in NAMES:
        if f.startswith("OP_"):
            continue
        why, seen = None, 0
        for o in returns(outs):
            st = feasible(o, (eq(key, const(E["SCALAR_" + f])), True))
            if st is None:
                continue
            q = P(o)
            q.st = st
            if q.contra():
                continue
            seen += 1
            call = looked_up(p, o.an, st, last(o, fld("function.call__", S)))
            ty = o.an.interval(st, last(o, fld("function.type", S)) or const(-99))[:2]
            a = tuple(o.an.interval(st, last(o, fld("function.arg_" + m, S)) or C0)[0] for m in ("min", "max"))
            t = last(o, T)
            tv = None if t is None else o.an.interval(st, t)[0]
            if ty != (E["SCALAR_" + f],) * 2:
                why = "%s is recorded as function %s" % (f, ty)
            elif f in ARGS and a != ARGS[f]:
                why = "%s takes %s arguments" % (f, a)
            elif f in IMPL and (call, tv) != (IMPL[f][0], FT[IMPL[f][1]]):
                why = "%s runs %s with type %s" % (f, call, tv)
            elif f not in IMPL:
                if not isinstance(call, str) or call in [x[0] for x in IMPL.values()]:
                    why = "%s runs %s" % (f, call)
                else:
                    stub(ctx, p, f, call)
            n += 1
        if not seen:
            why = "no outcome for %s" % f
        ctx.ob("function %s" % f, why is None, "function_construct", why or "")
    ctx.need(n, 32, "functions")
    # operators start without an implementation either
    for o in returns(outs):
        st = feasible(o, (le(key, const(E["SCALAR_OP_UNARY_MINUS"])), True))
        if st is None:
            continue
        call = looked_up(p, o.an, st, last(o, fld("function.call__", S)))
        if isinstance(call, str):
            stub(ctx, p, "unresolved operator", call)
    # validation
    outs, an = collect(ctx, p, p.fn("function_validate"), {"fprintf"}, {"all"})
    S, PA = arg(an, 0), arg(an, 1)
    argc = ("ld", fld("vec.size", ("ld", fld("function.args", S), 0)), 0)
    mn, mx = (("ld", fld("function.arg_" + m, S), 0) for m in ("min", "max"))
    why = None
    m = 0
    for o in returns(outs):
        for c, g in ((1, (1, 1)), (2, (2, 2)), (1, (1, 2)), (2, (1, 2)), (0, (0, 1)), (3, (3, 3)), (0, (1, 1)), (2, (1, 1)), (3, (2, 2)), (4, (2, 3)), (1, (2, 3)), (2, (0, 1))):
            st = feasible(o, (eq(argc, const(c)), True), (eq(mn, const(g[0])), True), (eq(mx, const(g[1])), True))
            if st is None:
                continue
            q = P(o)
            q.st = st
            if q.contra():
                continue
            ok = g[0] <= c <= g[1]
            good = o.an.eval_cond(st, eq(o.val, C0))
            m += 1
            if good is not ok and not (not ok and good is False):
                why = "%d arguments of %d to %d %s" % (c, g[0], g[1], "refused" if ok else "accepted")
    ctx.ob("argument count", why is None, "function_validate", why or "", n=m)
    ctx.need(m, 12, "argument counts")
    for ft, ftv in FT.items():
        why, seen = None, 0
        for o in returns(outs):
            e0 = [e[2] for e in o.ev if e[0] == "store" and e[1] == fld("expression.field_type", PA)]
            conds = [(eq(("ld", fld("function.type", S), 0), const(E["SCALAR_ISNULL"])), True)]
            if e0:
                conds.append((eq(e0[-1], const(ftv)), True))
            st = feasible(o, *conds)
            if st is None:
                continue
            seen += 1
            call = looked_up(p, o.an, st, last(o, fld("function.call__", S)))
            if not e0 or not mentions(e0[-1], lambda y: y[0] == "fld" and y[1] == "expression.field_type"):
                why = "ISNULL does not get the type of its first argument"
            elif call != ISNULL[ft]:
                why = "ISNULL of %s runs %s" % (ft, call)
        ctx.ob("ISNULL %s" % ft, why is None and seen > 0, "function_validate", why or "no outcome")


_stubs = {}


def stub(ctx, p, what, name):
    if name not in _stubs:
        outs, an = collect(ctx, p, p.fn(name), {"fprintf"}, {"none"})
        _stubs[name] = all(o.died or o.an.eval_cond(o.st, eq(o.val, FAIL)) is True for o in outs)
    ctx.ob("%s: not implemented" % what, _stubs[name], name, "%s runs %s, which does not always fail" % (what, name))


def names(ctx, p, E):
    ctx.rule("C09.names", "the printed name of a function, aggregate or comparison is the name of that kind")
    for fn, field, pre, want in (("function_get_name", "function.type", "SCALAR_", [(x, (x[3:] if x.startswith("OP_") else x,)) for x in NAMES]),
                                 ("aggregate_get_name", "aggregate.agg_type", "AGG_", [(x, (x,)) for x in AGGNAMES])):
        outs, an = collect(ctx, p, p.fn(fn), set(), set())
        for x, texts in want:
            if pre + x not in E:
                ctx.ob("%s %s" % (fn, x), False, fn, "no kind %s" % x)
                continue
            why, seen = None, 0
            for o in returns(outs):
                st = feasible(o, (eq(("ld", fld(field, arg(an, 0)), 0), const(E[pre + x])), True))
                if st is None:
                    continue
                seen += 1
                got = looked_up(p, o.an, st, o.val)
                if got not in texts:
                    why = "%s is called %s" % (x, got)
            ctx.ob("%s %s" % (fn, x), why is None and seen > 0, fn, why or "no outcome")
    # comparison texts in plans
    pl = ctx.prog("engine", keep=LOGIC)
    outs, an = collect(ctx, pl, pl.fn("logic_assign_process"), {"string_strcat"}, set())
    S = arg(an, 0)
    key = ("ld", fld("logic.comp_type", S), 0)
    n = 0
    for k, texts in COMPTEXT.items():
        why = None
        for o in returns(outs):
            st = feasible(o, (eq(key, const(E["COMP_" + k])), True))
            if st is None:
                continue
            for e in o.calls("string_strcat"):
                got = looked_up(p, o.an, st, e[2][1])
                n += 1
                if got not in texts:
                    why = "comparison %s is printed as %s" % (k, got)
        ctx.ob("text of %s" % k, why is None, "logic_assign_process", why or "")
    ctx.need(n, 6, "printed comparisons")


def aggregates(ctx, p, E, FT):
    ctx.rule("C09.aggregate", "an aggregate resolved for the type of its argument runs the implementation of that aggregate and type and gives that type (COUNT an integer); one without implementation is refused")
    outs, an = collect(ctx, p, p.fn("aggregate_resolve"), {"field_description"}, {"all"})
    S, COL = arg(an, 0), arg(an, 1)
    key = ("ld", fld("aggregate.agg_type", S), 0)
    unres = eq(("ld", fld("aggregate.call__", S), 0), C0)
    fty = None
    for o in outs:
        for e in o.ev:
            if e[0] == "store" and e[1] == fld("aggregate.data_type", S) and e[2][0] == "ld":
                fty = e[2]
    if fty is None:
        v = ("ld", ("ld", fld("vec.data", ("ld", fld("aggregate.args", S), 0)), 0), 0)
        fty = ("ld", fld("expression.field_type", v), 0)
    n = 0
    for ag in AGGNAMES:
        for ft, ftv in list(FT.items()) + [("UNDEFINED", -1)]:
            want = AGGS.get(ag, {}).get(ft)
            if ag == "COUNT":
                want = "fql_count"
            why, seen = None, 0
            for o in returns(outs):
                st = feasible(o, (eq(key, const(E["AGG_" + ag])), True), (eq(fty, const(ftv)), True), (unres, True))
                if st is None:
                    continue
                q = P(o)
                q.st = st
                if q.contra():
                    continue
                seen += 1
                n += 1
                good = o.an.eval_cond(st, eq(o.val, C0))
                if want is None:
                    if good is not False:
                        why = "%s of %s is accepted" % (ag, ft)
                    continue
                f = looked_up(p, o.an, st, last(o, fld("aggregate.call__", S)))
                t = o.an.interval(st, last(o, fld("aggregate.data_type", S)) or const(-9))[:2]
                c = o.an.interval(st, last(o, fld("expression.field_type", COL)) or const(-9))[:2]
                wt = FT["INT"] if ag == "COUNT" else ftv
                if good is not True:
                    why = "%s of %s is refused" % (ag, ft)
                elif f != want:
                    why = "%s of %s runs %s" % (ag, ft, f)
                elif t != (wt, wt) or c != (wt, wt):
                    why = "%s of %s gives type %s, its column %s" % (ag, ft, t, c)
            ctx.ob("%s %s" % (ag, ft), why is None and seen > 0, "aggregate_resolve", why or "no outcome")
    ctx.need(n, 50, "aggregate and type combinations")


def words(ctx, p, E, FT):
    ctx.rule("C09.word", "a comparison, type or logical word selects the kind of that name")
    fn = "logic_set_comparison"
    a0 = p.fn(fn)
    K = ("arg", a0.args[1][0], a0.args[1][1] or (a0.names.get(a0.args[1][0]) or [""])[0])
    n = 0
    for text, kind in SETCOMP:
        outs, an = decide(ctx, p, fn, arg_of(p, fn, 1), text, set(), {"all"})
        why, seen = None, 0
        for o in returns(outs):
            seen += 1
            v = last(o, fld("logic.comp_type", arg(an, 0)))
            got = None if v is None else o.an.interval(o.st, v)[:2]
            if got != (E["COMP_" + kind],) * 2:
                why = "`%s' selects %s" % (text, got)
        n += seen
        ctx.ob("comparison `%s'" % text, why is None and seen > 0, fn, why or "no outcome")
    fn = "libfql_get_sql_type"
    for kind, texts in list(SQLT.items()) + [("UNDEFINED", ("datetime", "integer", "varcharx"))]:
        for text in texts:
            outs, an = decide(ctx, p, fn, arg_of(p, fn, 0), text, set(), set())
            why, seen = None, 0
            for o in returns(outs):
                seen += 1
                got = o.an.interval(o.st, o.val)[:2]
                if got != (E["SQL_" + kind],) * 2:
                    why = "type `%s' is %s" % (text, got)
            n += seen
            ctx.ob("type `%s'" % text, why is None and seen > 0, fn, why or "no outcome")
    # CAST
    fn = "query_apply_data_type"
    outs, an = collect(ctx, p, p.fn(fn), {"libfql_get_sql_type"}, {"all"})
    for kind, (impl, ft) in CASTS.items():
        why, seen = None, 0
        for o in returns(outs):
            cs = o.calls("libfql_get_sql_type")
            if len(cs) != 1 or cs[0][2][0] != arg(an, 1):
                why = "the type name is not looked up"
                continue
            call = [e for e in o.ev if e[0] == "store" and addr_class(e[1]) == "function.call__"]
            ty = [e for e in o.ev if e[0] == "store" and addr_class(e[1]) == "expression.field_type"]
            for argc in (1, 2):
                conds = [(eq(cs[0][4], const(E["SQL_" + kind])), True)]
                fnv = call[-1][1][2] if call and call[-1][1][0] == "fld" else None
                if fnv is not None:
                    conds.append((eq(("ld", fld("vec.size", ("ld", fld("function.args", fnv), 0)), 0), const(argc)), True))
                st = feasible(o, *conds)
                if st is None:
                    continue
                seen += 1
                f = looked_up(p, o.an, st, call[-1][2]) if call else None
                t = o.an.interval(st, ty[-1][2])[:2] if ty else None
                want = "fql_left" if argc == 2 and kind in ("TEXT", "VARCHAR") else impl
                if f != want:
                    why = "CAST to %s with %d arguments runs %s" % (kind, argc, f)
                elif t != (FT[ft],) * 2:
                    why = "CAST to %s has type %s" % (kind, t)
                elif o.an.eval_cond(st, eq(o.val, C0)) is not True:
                    why = "CAST to %s is refused" % kind
        ctx.ob("CAST %s" % kind, why is None and seen > 0, fn, why or "no outcome")
    why = None
    for o in returns(outs):
        cs = o.calls("libfql_get_sql_type")
        if cs and feasible(o, (eq(cs[0][4], const(E["SQL_UNDEFINED"])), True)) is not None:
            st = feasible(o, (eq(cs[0][4], const(E["SQL_UNDEFINED"])), True))
            if o.an.eval_cond(st, eq(o.val, C0)) is not False:
                why = "an unknown type is accepted by CAST"
    ctx.ob("CAST unknown", why is None, fn, why or "")
    ctx.need(n, 25, "words")


def arg_of(p, fn, k):
    f = p.fn(fn)
    a = f.args[k]
    return ("arg", a[0], a[1] or (f.names.get(a[0]) or [""])[0])


def build(ctx, p, E):
    ctx.rule("C09.build", "the construct a keyword stands for is built with that kind: operators and functions with the operator or name given, AND and OR as such, NOT by its parity, IS NOT NULL as the negation of IS NULL, DESC on the expression just added, DISTINCT and statements as such")

    def each(fn, calls=None):
        outs, an = collect(ctx, p, p.fn(fn), calls, {"all"}, maxev=80)
        rs = [o for o in returns(outs) if not o.died]
        if not rs:
            raise AnalysisError("%s: no outcome" % fn)
        return rs, an

    def good(o):
        return o.val is None or o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True

    # operators, functions, aggregates
    for fn, ctor, k in (("query_enter_operator", "function_construct", 1), ("query_enter_function", "function_construct", 1),
                        ("query_enter_aggregate", "aggregate_construct", 1), ("query_enter_assignment_operator", "function_construct", 1)):
        rs, an = each(fn)
        why = None
        for o in rs:
            cs = o.calls(ctor)
            if not cs and not good(o):
                continue
            if len(cs) != 1 or not P(o).eq(cs[0][2][1], arg(an, k)):
                why = "%s builds %s" % (fn, [show(c[2][1]) for c in cs])
                continue
            if not good(o):
                continue
            # the built object is put into the query
            f = cs[0][2][0]
            ex = [e for e in o.calls("expression_construct") if P(o).eq(e[2][2], f) or mentions(e[2][2], lambda y: y == f)]
            want = E["EXPR_AGGREGATE"] if ctor[0] == "a" else E["EXPR_FUNCTION"]
            ex2 = [e for e in ex if P(o).eq(e[2][1], const(want))]
            if ctor[0] == "a":
                ex2 = [e for e in o.calls("expression_construct") if P(o).eq(e[2][1], const(want))]
            dist = [e for e in o.calls("_distribute_expression") if any(P(o).eq(e[2][1], x[2][0]) for x in ex2)]
            if not dist:
                why = "%s does not place what it built into the query" % fn
            if ctor[0] == "f":
                pu = [e for e in o.calls("node_push") if any(P(o).eq(e[2][1], x[2][0]) for x in ex2)]
                if not pu or not all(e[2][0] == fld("query.function_stack", arg(an, 0)) for e in pu):
                    why = why or "%s does not become the function being filled" % fn
        ctx.ob(fn, why is None, fn, why or "", n=len(rs))

    # compound assignment: the target is the first operand
    fn = "query_enter_assignment_operator"
    rs, an = each(fn)
    seen = set()
    why = None
    Q = arg(an, 0)
    opv = ("ld", ("ld", fld("query.op", Q), 0), 0)
    for o in rs:
        if not good(o):
            continue
        dist = o.calls("_distribute_expression")
        if len(dist) < 2:
            why = "the target is not an operand of its compound assignment"
            continue
        x = stored_in(o, dist[-1][2][1])
        kind = [k for k in ("SET", "UPDATE", "SELECT", "DELETE", "IF", "WHILE", "NONE") if any(feasible(o, (eq(v, const(E["FQL_" + k])), True)) is not None for v in op_terms(o, opv))]
        cp = [e for e in o.calls("expression_copy") if e[4] == x]
        va = [e for e in o.calls("expression_construct") if P(o).eq(e[2][0], x)]
        if cp:
            seen.add("UPDATE")
            if not mentions(cp[0][2][0], lambda y: y[0] == "fld" and y[1] == "fqlupdate.set_columns"):
                why = "an UPDATE assignment starts from %s" % show(cp[0][2][0])
        elif va and P(o).eq(va[0][2][1], const(E["EXPR_VARIABLE"])):
            seen.add("SET")
            idx = [e[2] for e in o.ev if e[0] == "store" and e[1] == fld("expression.index", x)]
            idx += [stored_in(o, ("ld", e[2][1], 0)) for e in o.calls("vec_push_back") if e[2][0] == ("ld", fld("query.variable_expr_indicies", Q), 0)]
            if not idx or not mentions(idx[-1], lambda y: y[0] == "fld" and y[1] == "fqlset.variable_idx"):
                why = "a SET assignment starts from variable %s" % [show(i) for i in idx]
        else:
            why = "an assignment starts from %s" % show(x)
    ctx.ob("target of a compound assignment", why is None and seen == {"SET", "UPDATE"}, fn, why or "handled: %s" % sorted(seen), n=len(rs))

    # AND, OR, predicates
    for fn, kind in (("query_enter_search_and", "LG_AND"), ("query_enter_search_or", "LG_OR"), ("query_enter_predicate", "LG_PREDICATE")):
        rs, an = each(fn)
        why = None
        for o in rs:
            cs = o.calls("logicgroup_construct")
            if not cs or any(not P(o).eq(c[2][1], const(E[kind])) for c in cs):
                why = "%s builds %s" % (fn, [show(c[2][1]) for c in cs])
                continue
            g = cs[-1][2][0]
            pu = [e for e in o.calls("node_push") if e[2][0] == fld("query.logic_stack", arg(an, 0))]
            if not any(P(o).eq(e[2][1], g) for e in pu):
                why = "%s: the new group does not become the one being filled" % fn
        ctx.ob(fn, why is None, fn, why or "", n=len(rs))

    fn = "query_enter_search_not"
    rs, an = each(fn)
    why = None
    a = fld("query.negate_next_logic", arg(an, 0))
    for o in rs:
        for b in (0, 1):
            st = feasible(o, (eq(("ld", a, 0), const(b)), True))
            if st is None:
                continue
            v = last(o, a)
            iv = o.an.interval(st, v)[:2] if v is not None else None
            t = o.an.eval_cond(st, eq(v, C0)) if v is not None else None
            if t is not None and t is not (b == 1):
                why = "NOT sets the pending negation from %d to %s" % (b, iv)
            elif t is None:
                why = "NOT leaves the pending negation %s" % (show(v) if v else "alone")
    ctx.ob(fn, why is None, fn, why or "")

    # IS [NOT] NULL
    fn = "query_set_logic_isnull"
    rs, an = each(fn)
    why = None
    for o in rs:
        cs = o.calls("logic_set_comparison")
        if len(cs) != 1 or cs[0][2][1][0] != "str" or cs[0][2][1][1].upper() != "NULL":
            why = "IS NULL selects %s" % [show(c[2][1]) for c in cs]
            continue
        lg = None
        if cs[0][2][0][0] == "ld" and cs[0][2][0][1][0] == "fld" and cs[0][2][0][1][1] == "logicgroup.condition":
            lg = cs[0][2][0][1][2]
        if lg is None or unversion(lg) != ("ld", fld("node.data", ("ld", fld("query.logic_stack", arg(an, 0)), 0)), 0):
            why = "IS NULL is set on %s" % show(cs[0][2][0])
            continue
        for neg in (0, 1):
            for b in (0, 1):
                st = feasible(o, (eq(arg(an, 1), const(neg)), True), (eq(("ld", fld("logicgroup.negation", lg), 0), const(b)), True))
                if st is None:
                    continue
                v = [e[2] for e in o.ev if e[0] == "store" and addr_class(e[1]) == "logicgroup.negation"]
                t = (o.an.eval_cond(st, eq(v[-1], C0))) if v else (b == 0)
                if t is not ((b ^ neg) == 0):
                    why = "IS %sNULL on a condition %s leaves it %s" % ("NOT " if neg else "", "negated" if b else "plain", "plain" if t else "negated" if t is False else "undetermined")
    ctx.ob(fn, why is None, fn, why or "", n=4 * len(rs))

    # NOT in front of IN / LIKE / BETWEEN
    fn = "query_enter_predicate"
    rs, an = each(fn)
    why = None
    m = 0
    for o in rs:
        cs = o.calls("logicgroup_construct")
        if not cs:
            continue
        g = cs[-1][2][0]
        na = fld("logicgroup.negation", g)
        pend = ("ld", fld("query.negate_next_logic", arg(an, 0)), 0)
        for neg in (0, 1, 2, 3):
            for pd in (0, 1):
                st = feasible(o, (eq(arg(an, 1), const(neg)), True), (eq(pend, const(pd)), True))
                if st is None:
                    continue
                if not consistent(o, {arg(an, 1): neg, pend: pd}):
                    continue
                vals = [e[2] for e in o.ev if e[0] == "store" and e[1] == na]
                # constructed plain; every store after that
                par = truth_chain(o, st, vals, na)
                m += 1
                if par is None:
                    why = why or "negation of a predicate is undetermined (%s)" % [show(v) for v in vals]
                elif par != ((neg + pd) % 2):
                    why = "a predicate with %d NOT (pending: %d) is %s" % (neg, pd, "negated" if par else "plain")
        inl = o.truth(eq(arg(an, 2), C0))
        made = o.calls("inlist_construct")
        if inl is False and not made or inl is True and made:
            why = why or "the list of an IN predicate is %s" % ("missing" if not made else "made for another predicate")
    ctx.ob("NOT before a predicate", why is None, fn, why or "", n=max(m, 1))
    ctx.need(m, 8, "parities of NOT")

    fn = "query_exit_predicate"
    rs, an = each(fn)
    why = None
    for o in rs:
        i, l = (o.truth(eq(arg(an, k), C0)) for k in (1, 2))
        cs = [c[2][1][1].upper() if c[2][1][0] == "str" else show(c[2][1]) for c in o.calls("logic_set_comparison")]
        want = ["IN"] if i is False else ["LIKE"] if l is False else []
        if cs != want:
            why = "leaving a%s predicate sets %s" % (" IN" if i is False else " LIKE" if l is False else "", cs)
    ctx.ob(fn, why is None, fn, why or "", n=len(rs))

    # DESC, DISTINCT
    fn = "query_set_order_desc"
    rs, an = each(fn)
    why = None
    done = 0
    for o in rs:
        ob = ("ld", fld("query.orderby", arg(an, 0)), 0)
        if o.truth(eq(ob, C0)) is True:
            continue
        st_ = [e for e in o.ev if e[0] == "store" and addr_class(e[1]) == "expression.descending"]
        if len(st_) != 1 or o.an.eval_cond(o.st, eq(st_[0][2], C0)) is not False:
            why = "DESC marks %s" % [show(e[1]) for e in st_]
            continue
        x = unversion(st_[0][1][2])
        vec = fld("order.expressions", ob)
        if not is_back(o, x, vec):
            why = "DESC marks %s" % show(st_[0][1])
        done += 1
    ctx.ob(fn, why is None and done > 0, fn, why or "no outcome", n=len(rs))
    fn = "query_set_distinct"
    rs, an = each(fn)
    why = None
    for o in rs:
        v = last(o, fld("query.distinct", arg(an, 0)))
        c = o.calls("group_construct")
        if v is None or len(c) != 1 or not P(o).eq(v, c[0][2][0]):
            why = "DISTINCT leaves %s" % (show(v) if v else "nothing")
    ctx.ob(fn, why is None, fn, why or "")

    # statements
    fn = "query_init_op"
    rs, an = each(fn)
    CT = dict(SELECT="fqlselect_construct", DELETE="fqldelete_construct", UPDATE="fqlupdate_construct", SET="fqlset_construct", IF="fqlbranch_construct", WHILE="fqlbranch_construct")
    for k, ctor in CT.items():
        why, seen = None, 0
        for o in rs:
            st = feasible(o, (eq(arg(an, 2), const(E["FQL_" + k])), True))
            if st is None:
                continue
            q = P(o)
            q.st = st
            if q.contra():
                continue
            seen += 1
            cs = [e for e in o.ev if e[0] == "call" and e[1] in CT.values()]
            v = last(o, fld("query.op", arg(an, 0)))
            if [c[1] for c in cs] != [ctor] or v is None or not q.eq(v, cs[0][2][0]):
                why = "%s builds %s" % (k, [c[1] for c in cs])
            elif ctor == "fqlbranch_construct" and not q.eq(cs[0][2][3], const(E["FQL_" + k])):
                why = "%s builds a branch of kind %s" % (k, show(cs[0][2][3]))
        ctx.ob("statement %s" % k, why is None and seen > 0, fn, why or "no outcome", n=max(seen, 1))
    fn = "query_init_op"
    why = None
    for o in rs:
        st = feasible(o, (eq(arg(an, 2), const(E["FQL_NONE"])), True))
        if st is not None and o.an.eval_cond(st, eq(o.val, C0)) is not False:
            why = "a statement of no kind is accepted"
    ctx.ob("statement NONE", why is None, fn, why or "")
    p2 = ctx.prog("engine", keep=["malloc", "vec_construct"])
    for k, ctor in CT.items():
        outs, an2 = collect(ctx, p2, p2.fn(ctor), {"memcpy"}, {"all"}, maxev=80)
        why = None
        for o in returns(outs):
            v = None
            mine = {arg(an2, 0)} | {e[2][1] for e in o.ev if e[0] == "call" and e[1] == "memcpy" and e[2][0] == arg(an2, 0)}
            for e in o.ev:
                if e[0] == "store" and e[1][0] == "fld" and e[1][1].endswith(".oper_type") and e[1][2] in mine:
                    v = e[2]
            if ctor == "fqlbranch_construct":
                ok = v is not None and P(o).eq(v, arg(an2, 3))
            else:
                ok = v is not None and P(o).eq(v, const(E["FQL_" + k]))
            if not ok:
                why = "%s records kind %s" % (ctor, show(v) if v else None)
        ctx.ob("%s (%s)" % (ctor, k), why is None, ctor, why or "")

    # TOP and numbers
    fn = "query_set_top_count"
    rs, an = each(fn)
    why = None
    for o in rs:
        if not good(o):
            continue
        v = last(o, fld("query.top_count", arg(an, 0)))
        cs = o.calls("str2long")
        if v is None or len(cs) != 1 or cs[0][2][1] != arg(an, 1) or not mentions(v, lambda y: y == cs[0][2][0]):
            why = "TOP keeps %s" % (show(v) if v else "nothing")
        elif o.truth(lt(v, C0)) is not False:
            why = "a negative TOP is accepted"
    ctx.ob(fn, why is None, fn, why or "")

    # joins
    fn = "query_add_source"
    p3 = ctx.prog("engine", keep=[x for x in PRIMS if x not in ("aggregate_resolve",)] + ["node_free_data", "string_empty", "schema_construct", "string_copy", "variable_construct", "_query_resolve_table_variable"])
    outs, an = collect(ctx, p3, p3.fn(fn), {"table_construct"}, {"table.join_type", "source.join_type"}, maxev=80)
    why = None
    m = 0
    jt = ("ld", fld("query.join", arg(an, 0)), 0)
    for o in returns(outs):
        for c in o.calls("table_construct"):
            m += 1
            if not any(unversion(a) == jt for a in c[2]):
                first = [a for a in c[2] if a == const(E["JOIN_FROM"])]
                emp = [e for e in o.ev]
                if not first:
                    why = "a source is joined by %s" % [show(a) for a in c[2]]
    ctx.ob("kind of join", why is None and m > 0, fn, why or "no source built", n=max(m, 1))


def stored_in(o, x):
    """the object a local pointer was last set to"""
    if x[0] == "ld" and x[1][0] == "al":
        v = [e[2] for e in o.ev if e[0] == "store" and e[1] == x[1]]
        return v[-1] if v else x
    return x


def op_terms(o, opv):
    out = set()

    def walk(e):
        if isinstance(e, tuple):
            if e and e[0] == "ld" and unversion(e) == opv:
                out.add(e)
            for x in e:
                walk(x)
    for e in o.ev:
        walk(e)
    out.add(opv)
    return out


def is_back(o, x, vec):
    """x is loaded from the last slot of the vector"""
    if x[0] != "ld":
        return False
    e = x[1]
    if e[0] == "call" and e[1] == "vec_back":
        return e[3][0] == vec
    if e == ("ld", fld("vec.data", vec), 0):
        return o.truth(eq(("ld", fld("vec.size", vec), 0), C0)) is True
    z = ("ld", fld("vec.size", vec), 0)
    w = ("ld", fld("vec._elem_size", vec), 0)
    c, d = lin_parts(unversion(sub(e, ("ld", fld("vec.data", vec), 0))))
    if c == -8 and set(d.values()) == {8} and list(d) == [z]:
        return True
    m = [a for a in d if a != w]
    return c == 0 and d.get(w) == -1 and len(m) == 1 and d[m[0]] == 1 and mentions(m[0], lambda y: y == w) and mentions(m[0], lambda y: y == z)


def truth_chain(o, st, vals, addr):
    """final truth of a flag built plain and then stored to"""
    cur_ = 0
    for v in vals:
        t = o.an.eval_cond(st, eq(v, C0))
        if t is None:
            # a toggle of the flag's earlier value
            l = [y for y in loads_of(v, addr)]
            if not l:
                return None
            s2 = st.copy()
            for y in l:
                o.an.assume(s2, eq(y, const(cur_)), True)
            t = o.an.eval_cond(s2, eq(v, C0))
            if t is None:
                n = evaluate(v, {y: cur_ for y in l})
                if n is None:
                    return None
                t = n == 0
        cur_ = 0 if t else 1
    return cur_


def loads_of(e, addr):
    if isinstance(e, tuple):
        if e and e[0] == "ld" and e[1] == addr:
            yield e
        for x in e:
            yield from loads_of(x, addr)


COMPUTE = {  # function: (getter, operation, commutes)
    "fql_op_plus_f": ("expression_get_float", "fadd", True), "fql_op_minus_f": ("expression_get_float", "fsub", False),
    "fql_op_mult_f": ("expression_get_float", "fmul", True), "fql_op_divi_f": ("expression_get_float", "fdiv", False),
    "fql_op_unary_minus_f": ("expression_get_float", "fneg", None), "fql_op_bit_or": ("expression_get_int", "or", True),
    "fql_op_bit_and": ("expression_get_int", "and", True), "fql_op_bit_xor": ("expression_get_int", "xor", True),
    "fql_op_bit_not": ("expression_get_int", "xor", None),
}


def compute(ctx):
    ctx.rule("C09.compute", "a floating point or bitwise operator gives that operation on its operands in their order; integer arithmetic is decided by C14")
    p = ctx.prog("engine", keep=["expression_get_int", "expression_get_float", "expression_get_stringview"])
    for f, (getter, op, comm) in COMPUTE.items():
        fn = p.fn(f)
        outs, _ = collect(ctx, p, fn, None, {"all"}, maxev=80)
        ret = arg_of(p, f, 1)
        n = 0
        for o in outs:
            if o.died or o.val != const(0):
                continue
            n += 1
            q = P(o)
            want, seen = [], 0
            for k in range(1 if comm is None else 2):
                # the getter called for operand k fills the buffer it was given
                got = [e for e in o.ev if e[0] == "call" and e[1] == getter and operand_index(e[2][1]) == k]
                if len(got) != 1:
                    break
                want.append(got[0][2][0])
            v = [e[2] for e in o.ev if e[0] == "store" and q.eq(e[1], ret)]
            ok = bool(v) and len(want) == (1 if comm is None else 2) and applies(v[-1], op, want, comm)
            ctx.ob("C09.compute:" + f, ok, f, "%s succeeds giving %s, not %s of its operands in order" % (f, show(v[-1]) if v else "nothing", op), rule="C09.compute")
        ctx.need(n, 1, "successful path of " + f)


def operand_index(x):
    """k when x is the k-th operand of the function being evaluated"""
    if x[0] != "ld":
        return None
    off, rest = lin_parts(x[1])[:2]
    return off // 8 if "args" in show(x) else None


def applies(v, op, bufs, comm):
    def of(x, b):
        return isinstance(x, tuple) and x[0] == "ld" and x[1] == b
    if op == "xor" and comm is None:
        if v[0] == "L":     # -x - 1
            return v[1] == -1 and len(v[2]) == 1 and v[2][0][1] == -1 and of(v[2][0][0], bufs[0])
        return v[0] == "op" and v[1] == "xor" and const(-1) in v[2:] and any(of(x, bufs[0]) for x in v[2:])
    if v[0] != "op":
        return False
    if op == "fneg":
        return v[1] == "fneg" and of(v[2], bufs[0]) or v[1] == "fsub" and of(v[3], bufs[0]) and v[2] != v[3]
    if v[1] != op or len(v) != 4:
        return False
    return of(v[2], bufs[0]) and of(v[3], bufs[1]) or comm and of(v[2], bufs[1]) and of(v[3], bufs[0])


def run(ctx):
    p = ctx.prog("engine", keep=PRIMS)
    E = p.enumval
    FT = {k: E["FIELD_" + k] for k in ("INT", "FLOAT", "STRING")}
    operators(ctx, p, E, FT)
    functions(ctx, p, E, FT)
    names(ctx, p, E)
    aggregates(ctx, p, E, FT)
    words(ctx, p, E, FT)
    build(ctx, p, E)
    compute(ctx)


EXPLANATION = ("Decision tables read off the code's paths: for every operator, function, aggregate, comparison word, type name and statement keyword the analysis "
               "assumes that key, walks every path of the deciding function, and compares the implementation, result type, argument limits, printed name and constructed "
               "object with the meaning of the key. Tables in static memory are read from their initialisers at the index the path computes.")
ASSUMPTIONS = ["integer arithmetic and comparisons compute what their names say (decided by C14 and C15); the keyword-to-kind tables of the grammar listener are not part of this property",
               "tables are not written at run time"]
