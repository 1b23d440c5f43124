"""C16: AND, OR, NOT and CASE."""
from .norm import *
from .frag import Fragments, FragRule, subst

TECHNIQUE = "path-outcome truth tables of the condition evaluator (every kind, negation and result of the parts) and loop-fragment analysis of CASE, from the compiler's intermediate representation"
LEVEL_NOTE = "every path of the evaluator for every truth value or failure of each part; nesting by induction over the recursive call"
EXPLANATION = (
    "The condition evaluator is turned into path outcomes; for each kind of node, with and without NOT, and for each combination of results of its parts (true, false, failure) the outcomes that are possible must all give the value of the logical definition, "
    "read the parts of this very node in order, and not evaluate the second part when the first decides. Nesting follows by induction because parts are evaluated by the same function. "
    "The CASE evaluators are cut at their loop: every round evaluates the next test, a failing test ends with failure, the first true test selects the value of the same index, and after the last test the extra value or NULL. "
    "The places where NOT is attached to a condition, and where the evaluator's result is used, are decided as well.")
ASSUMPTIONS = ["the condition tree is not modified while it is evaluated"]

FAIL, NULL = const(-5), const(-1)


def possible(o, facts):
    """the outcome's state under additional facts, or None"""
    s = o.st.copy()
    for c, t in facts:
        if o.an.assume(s, c, t) is False:
            return None
    return s


def value_is(o, s, val, want):
    if val is None:
        return False
    return o.an.eval_cond(s, eq(val, want)) is True


def run(ctx):
    p = ctx.prog("engine", keep=["logicgroup_eval", "logic_can_be_false", "expression_get_int", "expression_get_float", "expression_get_stringview"])
    E = p.enumval
    tree(ctx, p, E)
    mandatory(ctx, p, E)
    for t in ("int", "float", "stringview"):
        case(ctx, p, "switchcase_eval_to_" + t, "expression_get_" + t)
    dispatch(ctx, p)
    users(ctx, p)
    negations(ctx)


def tree(ctx, p, E):
    ctx.rule("C16.tree", "a predicate gives its comparison's value, AND and OR the conjunction and disjunction of both parts, NOT the opposite; a part that fails makes the whole fail; the second part is not evaluated once the first decides")
    f = p.fn("logicgroup_eval")
    outs, an = collect(ctx, p, f, None, set())
    outs = [View(o, ("logicgroup.", "logic.")) for o in returns(outs)]
    self_, rg, skip = (arg(an, i) for i in range(3))
    typ = ("ld", fld("logicgroup.type", self_), 0)
    neg = ("ld", fld("logicgroup.negation", self_), 0)
    cond = ("ld", fld("logicgroup.condition", self_), 0)
    items = fld("logicgroup.items", self_)
    kids = [("ld", items, 0), ("ld", add(items, const(8)), 0)]
    R = {"fails": FAIL, "is true": const(1), "is false": C0}
    TV = {"fails": None, "is true": 1, "is false": 0}

    def check(name, facts, parts, want, may):
        """parts: results of the calls made, in order; may: how many of them must have been made"""
        n = 0
        for o in outs:
            if o.infeasible:
                continue
            calls = [e for e in o.ev if e[0] == "call"]
            fs = list(facts)
            why = None
            for k, e in enumerate(calls):
                if k >= len(parts):
                    why = "evaluates more than its parts"
                    break
                kind, res = parts[k]
                ok = e[1] == "logicgroup_eval" and e[2] == (kids[kind], rg, skip) if kind in (0, 1) else \
                    e[1] == "<indirect>" and e[5] == ("ld", fld("logic.logic__", cond), 0) and e[2] == (cond, rg)
                if not ok:
                    why = "evaluates %s(%s)" % (e[1], ", ".join(show(x) for x in e[2]))
                    break
                fs.append((eq(e[4], res), True))
            s = possible(o, fs)
            if s is None:
                continue
            n += 1
            if why is None and len(calls) != may:
                why = "evaluates %d parts instead of %d" % (len(calls), may)
            if why is None and not value_is(o, s, o.val, want):
                why = "gives %s instead of %s" % (show(o.val) if o.val else "nothing", show(want))
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        if not n:
            ctx.ob(name, False, f.loc(None), "no path handles this case")

    for ng in (0, 1):
        nf = (eq(neg, C0), ng == 0)
        tag = "NOT " if ng else ""
        tp = (eq(typ, const(E["LG_PREDICATE"])), True)
        if not ng:
            check(tag + "predicate already decided", [tp, nf, (eq(cond, skip), True)], [], const(1), 0)
        for r, v in R.items():
            want = FAIL if v == FAIL else const((TV[r] + ng) % 2)
            check("%spredicate whose comparison %s" % (tag, r), [tp, nf, (eq(cond, skip), False)], [("p", v)], want, 1)
        for name, decide in (("AND", 0), ("OR", 1)):
            tf = (eq(typ, const(E["LG_" + name])), True)
            for a, va in R.items():
                for b, vb in R.items():
                    if va == FAIL:
                        want, may = FAIL, 1
                    elif TV[a] == decide:
                        want, may = const((decide + ng) % 2), 1
                    else:
                        want, may = (FAIL if vb == FAIL else const((TV[b] + ng) % 2)), 2
                    check("%s%s: first %s, second %s" % (tag, name, a, b), [tf, nf], [(0, va), (1, vb)], want, may)


def mandatory(ctx, p, E):
    ctx.rule("C16.mandatory", "a comparison is taken out of a join condition only if the condition cannot hold without it: not under NOT, in one part of an AND, or in both parts of an OR")
    f = p.fn("logic_can_be_false")
    outs, an = collect(ctx, p, f, None, set())
    outs = [View(o, ("logicgroup.", "logic.")) for o in returns(outs)]
    self_, chk = arg(an, 0), arg(an, 1)
    typ = ("ld", fld("logicgroup.type", self_), 0)
    neg = ("ld", fld("logicgroup.negation", self_), 0)
    cond = ("ld", fld("logicgroup.condition", self_), 0)
    items = fld("logicgroup.items", self_)
    kids = {("ld", items, 0): 0, ("ld", add(items, const(8)), 0): 1}
    for o in outs:
        if o.infeasible or o.an.eval_cond(o.st, eq(o.val, C0)) is False:
            continue
        s = o.st.copy()
        if o.an.assume(s, eq(o.val, C0), True) is False:
            continue
        if all(o.an.eval_cond(s, eq(typ, const(E[x]))) is False for x in ("LG_AND", "LG_OR", "LG_PREDICATE")):
            continue
        t = lambda c: o.an.eval_cond(s, c)
        must = set()
        for e in o.ev:
            if e[0] == "call" and e[1] == "logic_can_be_false" and e[2][0] in kids and e[2][1] == chk and t(eq(e[4], C0)) is True:
                must.add(kids[e[2][0]])
        why = None
        if t(eq(neg, C0)) is not True:
            why = "a comparison under NOT counts as one that must hold"
        elif t(eq(typ, const(E["LG_PREDICATE"]))) is not False and t(eq(cond, chk)) is not True and not must:
            why = "another predicate counts as the comparison"
        elif t(eq(typ, const(E["LG_PREDICATE"]))) is True:
            pass
        elif t(eq(typ, const(E["LG_AND"]))) is True and not must:
            why = "neither part of the conjunction needs the comparison"
        elif t(eq(typ, const(E["LG_AND"]))) is not True and must != {0, 1}:
            why = "only one part of the disjunction needs the comparison"
        ctx.ob("logic_can_be_false", why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(outs), 3, "outcomes of logic_can_be_false")


def elem_index(e, base):
    """e reads element k of the vec at base: 8*k as an expression, or None"""
    if e[0] != "ld":
        return None
    c, d = lin_parts(e[1])
    dk = [a for a in d if a[0] == "ld" and "vec.data" in addr_class(a[1]) and mentions(a, lambda y: y == base)]
    if len(dk) != 1 or d[dk[0]] != 1:
        return None
    rest = sub(e[1], dk[0])
    # elem_size * k, with elem_size of a vec of pointers
    c, d = lin_parts(rest)
    out = const(c)
    for a, k in d.items():
        if a[0] == "ld" and "vec._elem_size" in addr_class(a[1]):
            out = add(out, const(8 * k))
        elif a[0] == "op" and a[1] == "mul" and any(x[0] == "ld" and "vec._elem_size" in addr_class(x[1]) for x in a[2:]):
            xs = [x for x in a[2:] if not (x[0] == "ld" and "vec._elem_size" in addr_class(x[1]))]
            out = add(out, scale(mulall(xs), 8 * k))
        else:
            out = add(out, scale(a, k))
    return out


def case(ctx, p, fname, get):
    ctx.rule("C16.case", "CASE evaluates its tests in order until the first true one and yields the value of the same position; a failing test fails; when none is true, the value beyond the last test, or NULL if there is none")
    f = p.fn(fname)

    def assume(an, st):
        self_ = arg(an, 0)
        for x in ("tests", "values"):
            sz = ("ld", fld("vec.size", fld("switchcase." + x, self_)), 0)
            an.assume(st, mk_cmp("slt", sz, C0), False)
            st.mem[fld("vec._elem_size", fld("switchcase." + x, self_))] = const(8)
    F = Fragments(ctx, p, fname, lambda: FragRule({"logicgroup_eval", get}, set()), assume)
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (fname, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    looked = 0
    for src in (0, h):
        an = F.an[src]
        self_, ret, rg = (arg(an, i) for i in range(3))
        tests, values = fld("switchcase.tests", self_), fld("switchcase.values", self_)
        ts, vs = ("ld", fld("vec.size", tests), 0), ("ld", fld("vec.size", values), 0)
        nth = C0 if src == 0 else R
        for o in F.arrivals(src, h) + F.returns(src):
            o = View(o, ("switchcase.", "vec."))
            if o.infeasible:
                continue
            isret = not hasattr(o, "dst")
            P_ = P(o)
            evs = [e for e in o.ev if e[1] == "logicgroup_eval"]
            gets = [e for e in o.ev if e[1] == get]
            s = o.st
            known = lambda c: o.an.eval_cond(s, c)
            same = lambda a, b: either(known, "eq", a, b)
            less = lambda a, b: either(known, "slt", a, b)
            why = hit = None
            k = nth
            if len(evs) > 1:
                raise AnalysisError("%s: %d tests in one round" % (fname, len(evs)))
            if src == 0 and evs:
                raise AnalysisError("%s: evaluates a test before its loop" % fname)
            for e in evs:
                looked += 1
                r = e[4]
                t = elem(e[2][0], tests, o)
                if t is None or not P_.eq(t, k) or e[2][1] != rg or e[2][2] != C0:
                    why = "round %s evaluates %s" % (show(k), show(e[2][0]))
                elif same(k, ts) is not False and less(k, ts) is not True:
                    why = "evaluates a test beyond the last"
                elif known(eq(r, FAIL)) is True:
                    hit = "fail"
                    if not isret or gets or o.val is None or not P_.eq(o.val, FAIL):
                        why = "a test that fails is not reported"
                elif known(eq(r, FAIL)) is not False:
                    why = "does not tell a failing test from the others"
                elif known(eq(r, C0)) is True or known(eq(r, const(1))) is False:
                    if isret and same(add(k, const(1)), ts) is not True:
                        why = "stops at a test that is not true"
                elif known(eq(r, C0)) is False:
                    hit = "true"
                    v = elem(gets[0][2][1], values, o) if len(gets) == 1 else None
                    if not isret:
                        why = "goes on after a true test"
                    elif len(gets) != 1:
                        why = "a true test selects no value"
                    elif v is None or not P_.eq(v, k):
                        why = "test %s selects value %s" % (show(k), show(gets[0][2][1]))
                else:
                    why = "does not decide on the test's value"
                k = add(k, const(1))
            if isret and hit is None and why is None:
                more = known(mk_cmp("slt", ts, vs))
                if o.an.interval(s, vs)[1] <= 0:
                    more = False
                if same(k, ts) is not True and less(k, ts) is not False:
                    why = "ends before the last test"
                elif gets:
                    v = elem(gets[0][2][1], values, o)
                    if more is not True:
                        why = "takes an ELSE value without one being there"
                    elif v is None or not P_.eq(v, sub(vs, const(1))) and not P_.eq(v, ts):
                        why = "ELSE takes %s" % show(gets[0][2][1])
                elif o.val is None or not P_.eq(o.val, NULL):
                    why = "gives %s without a matching branch" % show(o.val)
                elif more is not False:
                    why = "gives NULL although there may be an ELSE value"
            if gets and why is None:
                g = gets[-1]
                if len(gets) != 1 or g[2][0] != ret or g[2][2] != rg:
                    why = "reads the value into %s" % show(g[2][0])
                elif o.val != g[4] and not (is_c(o.val) and P_.eq(g[4], o.val)):
                    why = "gives %s instead of the value's own result" % show(o.val)
            ctx.ob("%s" % fname, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(looked, 1, "rounds of " + fname)


def either(known, op, a, b):
    """a comparison of two element numbers, or of their addresses"""
    r = known(mk_cmp(op, a, b))
    return r if r is not None else known(mk_cmp(op, scale(a, 8), scale(b, 8)))


def elem(e, base, o):
    """which element of the vec at base e reads"""
    if e[0] != "ld":
        return None
    dk = ("ld", fld("vec.data", base), 0)
    x = sub(e[1], dk)
    es = ("ld", fld("vec._elem_size", base), 0)
    c, d = lin_parts(subst(x, {es: const(8)}))
    if c % 8 or any(k % 8 for k in d.values()):
        return None
    return mk_lin(c // 8, {a: k // 8 for a, k in d.items()})


def dispatch(ctx, p):
    ctx.rule("C16.value", "an expression that is a CASE hands on the result of the CASE evaluator of the requested type, and nothing else does")
    q = ctx.prog("engine", keep=["switchcase_eval_to_int", "switchcase_eval_to_float", "switchcase_eval_to_stringview", "expression_get_int", "expression_get_float", "expression_get_stringview", "field_to_int", "field_to_float", "field_to_stringview"])
    k = const(q.enumval["EXPR_SWITCH_CASE"])
    names = {"switchcase_eval_to_" + t for t in ("int", "float", "stringview")}
    for t in ("int", "float", "stringview"):
        f = q.fn("expression_get_" + t)
        outs, an = collect(ctx, q, f, None, set())
        ret, self_, rg = (arg(an, i) for i in range(3))
        kind = ("ld", fld("expression.expr", self_), 0)
        n = 0
        for o in returns(outs):
            v = View(o, ("expression.", "field."))
            if v.infeasible:
                continue
            c = [e for e in v.ev if e[0] == "call" and e[1] in names]
            pinned = o.an.eval_cond(o.st, eq(kind, k)) is True
            why = None
            if c and not pinned:
                why = "evaluates a CASE for another kind of expression"
            elif pinned:
                n += 1
                if len(c) != 1 or c[0][1] != "switchcase_eval_to_" + t:
                    why = "does not evaluate the CASE as its type (%s)" % [e[1] for e in c]
                elif c[0][2] != (("ld", fld("expression.field", self_), 0), ret, rg):
                    why = "evaluates %s" % show(c[0][4])
                elif v.val != c[0][4] and not (is_c(v.val) and o.an.eval_cond(o.st, eq(c[0][4], v.val)) is True):
                    why = "gives %s instead of the result of the CASE" % show(v.val)
            if c or pinned:
                ctx.ob("expression_get_%s of a CASE" % t, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 1, "paths of expression_get_%s for CASE" % t)


def users(ctx, p):
    ctx.rule("C16.user", "where a condition is evaluated, true and false lead to the two different outcomes: IF to the true and the false branch, WHERE/HAVING/ON to the true and the false side, and an unmatched outer join drops the joined record")
    q = ctx.prog("engine", keep=["logicgroup_eval"])
    f = q.fn("fql_if")
    outs, an = collect(ctx, q, f, {"logicgroup_eval"}, {"*"})
    n = 0
    for o in returns(outs):
        o = View(o, ("fqlbranch.", "process."))
        ev = [e for e in o.ev if e[1] == "logicgroup_eval"]
        st = [e for e in o.ev if e[0] == "store"]
        if not ev:
            ctx.ob("fql_if", False, o.where(), "does not evaluate its condition", o.trail())
            continue
        r = ev[0][4]
        data = ev[0][2][0][1][2] if ev[0][2][0][0] == "ld" and ev[0][2][0][1][0] == "fld" else None
        known = lambda c: o.an.eval_cond(o.st, c)
        why = None
        if data is None or ev[0][2][0] != ("ld", fld("fqlbranch.condition", data), 0):
            why = "evaluates %s" % show(ev[0][2][0])
        elif known(eq(r, FAIL)) is True:
            if st:
                why = "chooses a branch after a failure"
        elif known(eq(r, FAIL)) is not False:
            why = "does not tell a failure from a value"
        else:
            n += 1
            want = "true_idx" if known(eq(r, C0)) is False else "false_idx" if known(eq(r, C0)) is True else None
            val = [e for e in st if "next_query_idx_ref" in repr(e[1])]
            if len(val) != 1:
                why = "chooses no branch"
            else:
                v = val[0][2]
                T_, F_ = (("ld", fld("fqlbranch." + x, data), 0) for x in ("true_idx", "false_idx"))
                if want is None:
                    c = v
                    ok = c[0] in ("sel", "ite", "select") and T_ in c and F_ in c and list(c).index(T_) < list(c).index(F_)
                    why = None if ok else "chooses %s whatever the condition says" % show(v)
                elif v != (T_ if want == "true_idx" else F_):
                    why = "a condition that is %s goes to %s" % (want[:-4], show(v))
        ctx.ob("fql_if", why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "choices of fql_if")
    calls = {"logicgroup_eval", "fifo_add", "fqlprocess_recycle", "fifo_iter", "fifo_begin", "node_back"}
    q = ctx.prog("engine", keep=sorted(calls))
    for name in ("fql_logic", "fql_left_join_logic"):
        F = Fragments(ctx, q, name, lambda: FragRule(calls, set()))
        n = 0
        for src in [0] + F.headers:
            if src not in F.reachable():
                continue
            proc = arg(F.an[src], 0)
            outp = lambda i: ("ld", add(fld("process.fifo_out", proc), const(8 * i)), 0)
            for o in F.arrivals(src) + F.returns(src):
                o = View(o, ("process.", "fifo.", "logicgroup."))
                if o.infeasible:
                    continue
                known = lambda c: o.an.eval_cond(o.st, c)
                ev = list(o.ev)
                at = [k for k, e in enumerate(ev) if e[1] == "logicgroup_eval"]
                if not at:
                    continue
                e = ev[at[0]]
                r, rec = e[4], e[2][1]
                nxt = [k for k, x in enumerate(ev) if x[1] == "fifo_iter" and k > at[0]]
                rest = ev[at[0] + 1:nxt[0] if nxt else len(ev)]
                if known(eq(r, FAIL)) is True:
                    continue
                n += 1
                adds = [x for x in rest if x[1] == "fifo_add"]
                rec_ = [x for x in rest if x[1] == "fqlprocess_recycle"]
                why = None
                true = known(eq(r, C0))
                if true is None or known(eq(r, FAIL)) is not False:
                    why = "does not decide on the condition's value"
                elif name == "fql_logic":
                    i = 1 if true is False else 0
                    word = "true" if i else "false"
                    if len(adds) + len(rec_) != 1:
                        why = "a record is passed on %d times" % (len(adds) + len(rec_))
                    elif adds and (adds[0][2][0] != outp(i) or known(eq(outp(i), C0)) is not False):
                        why = "a record whose condition is %s goes to %s" % (word, show(adds[0][2][0]))
                    elif rec_ and known(eq(outp(i), C0)) is not True:
                        why = "a record whose condition is %s is dropped" % word
                else:
                    if len(adds) != 1 or adds[0][2][0] == outp(0):
                        why = "the left record is not passed on"
                    elif true is True and not rec_:
                        why = "the record that did not match stays joined"
                    elif true is False and rec_:
                        why = "the record that matched is dropped"
                if why is None and (e[2][2] == C0 or "join_logic" not in repr(e[2][2])) and "join_logic" in repr(e[2]):
                    why = "skips %s" % show(e[2][2])
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 2, "decisions of " + name)


def negations(ctx):
    ctx.rule("C16.not", "a condition item takes the negation announced for it, a predicate's own NOT and IS NOT flip it, and an item becomes the next free part of the one around it")
    p = ctx.prog("engine", keep=["logicgroup_construct", "vec_construct__", "logic_set_comparison", "query_enter_in_statement", "node_push", "node_push_import"])
    for name, parm in (("query_enter_predicate", 1), ("query_set_logic_isnull", 1)):
        f = p.fn(name)
        outs, an = collect(ctx, p, f, None, {"logicgroup.negation", "logicgroup.items"})
        n = 0
        par = arg(an, parm)
        for o in returns(outs):
            known = lambda c: o.an.eval_cond(o.st, c)
            st = [e for e in o.ev if e[0] == "store" and "logicgroup.negation" in addr_class(e[1])]
            about = [T for T, g in o.st.facts.items() if mentions(mk_lin(0, dict(T)), lambda y: y == par)]
            mixed = any(mentions(e[2], lambda y: y == par) for e in st)
            n += 1
            flips = sum(1 for e in st if is_flip(e[2])) % 2
            if about and not mixed:
                # the remainder (or the flag) this path has seen
                odd = None
                for T in about:
                    g = o.st.facts[T]
                    if len(T) == 1 and (T[0][0] == par and name != "query_enter_predicate" or T[0][0][0] == "op"):
                        odd = 0 if g[0] == g[1] == 0 else 1 if 0 in g[2] or g[0] > 0 else None
                why = None if odd == flips else "%s NOT %s the predicate" % ("an odd number of" if odd else "an even number of", "flips" if flips else "does not flip")
            else:
                why = None if mixed else "the NOT of the predicate itself does not count"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 1, "paths of " + name)
    for name, kind in (("query_enter_search_and", "LG_AND"), ("query_enter_search_or", "LG_OR"), ("query_enter_predicate", "LG_PREDICATE")):
        f = p.fn(name)
        outs, an = collect(ctx, p, f, {"logicgroup_construct"}, {"logicgroup.negation", "logicgroup.items"})
        n = 0
        for o in returns(outs):
            mk = [e for e in o.ev if e[1] == "logicgroup_construct"]
            n += len(mk)
            ok = len(mk) == 1 and o.an.eval_cond(o.st, eq(mk[0][2][1], const(p.enumval[kind]))) is True
            ctx.ob(name + ": kind", ok, o.where(), "" if ok else "makes %s" % [show(e[2][1]) for e in mk])
            if len(mk) != 1:
                continue
            item = mk[0][4], mk[0][2][0]
            put = [e for e in o.ev if e[0] == "store" and e[2] in item and "logicgroup.items" in repr(e[1])]
            slots = set()
            for e in put:
                c, _ = lin_parts(e[1])
                slots.add(c // 8)
            free = None
            for T, g in o.st.facts.items():
                t = mk_lin(0, dict(T))
                if t[0] == "ld" and "logicgroup.items" in repr(t[1]) and lin_parts(t[1])[0] == 0:
                    free = 0 if g[0] == g[1] == 0 else 1 if 0 in g[2] or g[0] > 0 else free
            ok = not put and free is None or slots == {free}
            if free is None and len(put) == 1 and mentions(put[0][1], lambda y: y[0] == "cmp" and "logicgroup.items" in repr(y)):
                ok = True       # the position is computed from the comparison itself
            ctx.ob(name + ": part", ok, o.where(), "" if ok else "becomes part %s although the first part is %s" % (sorted(slots), {0: "free", 1: "taken", None: "unknown"}[free]))
        ctx.need(n, 1, "items made by " + name)


def is_flip(v):
    return v[0] in ("not",) or v[0] == "op" and v[1] == "xor" or v[0] == "cmp" and v[1] == "eq"
