"""C25: names bind to exactly one thing."""
from .norm import *
from .frag import Fragments, FragRule, unversioned

TECHNIQUE = "candidate counting decided path by path on the loops that look names up (compiler's intermediate representation, cut at the loop heads), and failure propagation of every lookup's answer"
LEVEL_NOTE = "every place where a file, schema, column, alias, asterisk qualifier, ORDER BY, GROUP BY or SET name is looked up"
EXPLANATION = (
    "Each round of a lookup loop counts a candidate exactly when the name matches it, and remembers that candidate and no other; the loops go through the kinds of match from the strictest to the loosest and only go on when there was none; "
    "the answer is success for one candidate, ambiguity for more and not found for none. Every caller fails unless the answer is success.")
ASSUMPTIONS = ["dirname, basename (C library)", "the maps find what was put in them (C18, C19)"]

FAIL = const(-5)


def run(ctx):
    files(ctx)
    callers(ctx)
    columns(ctx)
    binding(ctx)
    asterisk(ctx)
    orderby(ctx)
    update(ctx)
    groups(ctx)


def feasible(o, *conds):
    st = o.st.copy()
    for c, truth in conds:
        if o.an.assume(st, c, truth) is False:
            return None
        if getattr(st, "dead", False):
            return None
    return st


def value_under(o, conds, v, want):
    """is v == want under the conditions: True / False / None; 'no' if they cannot hold"""
    st = feasible(o, *conds)
    if st is None:
        return "no"
    return o.an.eval_cond(st, eq(v, want))


def last_assign(v):
    return v


def files(ctx):
    ctx.rule("C25.file", "a file name matches exactly, then ignoring case, then without extension, then both; one match is the answer, more are ambiguous, none goes on to the next kind unless strict")
    name = "schema_fuzzy_resolve_file"
    keep = ["string_eq", "istring_eq", "getnoext", "string_sprintf", "dir_list_files", "node_free_data", "string_construct", "string_copy", "string_destroy", "string_resize"]
    p = ctx.prog("engine", keep=keep)
    E = p.enumval
    OK, AMB, NF = const(E["FUZZY_SUCCESS"]), const(E["FUZZY_AMBIGUOUS"]), const(E["FUZZY_NOTFOUND"])
    F = Fragments(ctx, p, name, lambda: FragRule(set(keep[:5]), {"all"}), infer=False)
    strict = arg(F.an[0], 2)
    dest = arg(F.an[0], 0)
    kinds = {}
    ORDER = [("string_eq", False), ("istring_eq", False), ("string_eq", True), ("istring_eq", True)]
    info = {}
    base = set()
    for h in F.headers:
        if h not in F.reachable():
            continue
        cnt = set()
        for o in F.arrivals(h, h) + F.returns(h):
            cmp_ = [e for e in o.ev if e[0] == "call" and e[1] in ("string_eq", "istring_eq")]
            if not cmp_:
                continue
            e = cmp_[-1]
            noext = [g for g in o.ev if g[0] == "call" and g[1] == "getnoext"]
            node = None
            for i in (0, 1):
                a = e[2][i]
                if noext and unversioned(a) == unversioned(noext[-1][2][0]):
                    node, nox, other = noext[-1][2][1], True, e[2][1 - i]
                elif a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "node.data":
                    node, nox, other = a, False, e[2][1 - i]
            if node is None:
                ctx.ob(name, False, o.where(), "compares %s with %s" % (show(e[2][0]), show(e[2][1])), o.trail())
                continue
            base.add(unversioned(other))
            info.setdefault(h, set()).add((e[1], nox))
            hit = o.an.eval_cond(o.st, eq(e[4], C0))
            if hit is None:
                ctx.ob(name, False, o.where(), "does not ask whether the name matches", o.trail())
                continue
            hit = not hit
            pr = [g for g in o.ev if g[0] == "call" and g[1] == "string_sprintf"]
            good = [g for g in pr if g[2][0] == dest and node in g[2][2:]]
            why = None
            if len(cmp_) != 1:
                why = "compares two names in a round"
            elif hit and len(good) != len(pr):
                why = "remembers another file than the one that matches"
            elif hit and not good:
                why = "does not remember the file that matches"
            elif not hit and pr:
                why = "remembers a file that does not match"
            elif hasattr(o, "dst"):
                up = [k for k, v in o.raw.items() if v == add(("in", k), C1)]
                if hit and not up:
                    why = "does not count the match"
                elif not hit and up:
                    why = "counts a file that does not match"
                if hit:
                    cnt.update(up)
                if why is None and not any(v[0] == "ld" and v[1][0] == "fld" and v[1][1] == "node.next" for v in o.raw.values()):
                    why = "does not go on with the next file"
            elif hit and (e[1], nox) == ORDER[0]:
                if o.an.eval_cond(o.st, eq(o.val, OK)) is not True:
                    why = "an exact match is answered with %s" % show(o.val)
            else:
                why = "ends the search before every file was looked at"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        kinds[h] = cnt
    order = [h for h in F.headers if h in info]
    flat = {h: next(iter(v)) for h, v in info.items() if len(v) == 1}
    ctx.need(len(flat), 4, "kinds of match")
    for h in order:
        ok = len(info[h]) == 1 and flat[h] in ORDER
        ctx.ob(name, ok, F.fn.name, "" if ok else "one loop matches in several ways")
    ok = len(base) == 1
    ctx.ob(name, ok, name, "" if ok else "the kinds of match compare with different names")
    rank = {h: ORDER.index(k) for h, k in flat.items() if k in ORDER}
    for o in F.arrivals(0):
        if o.dst in rank:
            ok = rank[o.dst] == 0
            ctx.ob(name, ok, o.where(), "" if ok else "does not start with exact matches", o.trail() if not ok else None)
    fixed = []
    for h in F.headers:
        if h in F.reachable():
            for k in {k for h0 in [0] + list(F.headers) for o in F.arrivals(h0, h) for k in o.raw}:
                v = constant(F, h, k)
                if v is not None:
                    fixed.append((eq(("in", k), v), True))
    for src in order:
        for o in F.arrivals(src) + F.returns(src):
            if hasattr(o, "dst") and o.dst == src:
                continue
            fx = list(fixed)
            if not hasattr(o, "dst") and o.val is not None and o.val[0] == "in":
                v = constant(F, src, o.val[1])
                if v is not None:
                    fx.append((eq(o.val, v), True))
            st0 = feasible(o, *fx)
            if st0 is None or any(o.an.eval_cond(o.st, c) is False for c, t in fx):
                continue
            o.st = st0
            if [e for e in o.ev if e[0] == "call" and e[1] in ("string_eq", "istring_eq")]:
                continue
            c = [("in", k) for k in kinds.get(src, ())]
            some = [(lt(C0, x), True) for x in c]
            one, more, none = [[(eq(x, const(v)), True) for x in c] for v in (1, 2, 0)]
            why = None
            if hasattr(o, "dst"):
                if o.dst not in rank:
                    continue
                if rank[o.dst] != rank[src] + 1:
                    why = "goes from kind %d of match to kind %d" % (rank[src] + 1, rank[o.dst] + 1)
                elif c and feasible(o, *one) is not None:
                    why = "goes on to looser matches although there was one"
                elif feasible(o, (eq(strict, C0), False)) is not None and rank[src] == 0:
                    why = "goes on to looser matches although only exact ones are allowed"
                else:
                    for k in kinds.get(o.dst, ()):
                        v = o.raw.get(k)
                        if v is None or o.an.eval_cond(o.st, eq(v, C0)) is not True:
                            why = "starts counting with %s" % (show(v) if v else "?")
                    its = [v for k, v in o.raw.items() if k not in kinds.get(o.dst, ())]
                    if why is None and not any(v[0] in ("ld", "call") for v in its):
                        why = "does not start with the first file again"
            else:
                if c:
                    # under one, two and no candidates
                    tests = ((one, OK, "one file"), (more, AMB, "two files"), (none, NF, "no file"))
                    for conds, want, what in tests:
                        r = value_under(o, conds, o.val, want)
                        if r == "no":
                            continue
                        if want == NF and rank[src] < 3 and not (rank[src] == 0 and o.an.eval_cond(o.st, eq(strict, C0)) is False):
                            why = "gives up before the loosest kind of match"
                        elif r is not True:
                            why = "%s matched, and the answer is %s" % (what, show(o.val))
                elif rank[src] == 0:
                    if o.an.eval_cond(o.st, eq(o.val, NF)) is not True:
                        why = "no file matched, and the answer is %s" % show(o.val)
                    elif o.an.eval_cond(o.st, eq(strict, C0)) is not False:
                        why = "gives up before the loosest kind of match"
                else:
                    why = "answers without a count"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)


def constant(F, h, k, busy=()):
    """the number a loop keeps in k, if it is always the same"""
    if (h, k) in busy:
        return None
    vals = set()
    for o in F.arrivals(h, h):
        if F.env_at(o, k) != ("in", k):
            return None
    for h0 in [0] + list(F.headers):
        if h0 == h:
            continue
        for o in F.arrivals(h0, h):
            v = F.env_at(o, k)
            if v[0] == "in":
                v = constant(F, h0, v[1], busy + ((h, k),))
            if v is None or v[0] != "c":
                return None
            vals.add(v)
    return next(iter(vals)) if len(vals) == 1 else None


def callers(ctx):
    ctx.rule("C25.caller", "a statement fails unless exactly one file matched")
    q = ctx.prog("engine", inline=False)
    E = q.enumval
    AMB, NF = const(E["FUZZY_AMBIGUOUS"]), const(E["FUZZY_NOTFOUND"])
    R = "schema_fuzzy_resolve_file"
    n = 0
    todo = [(f, R, (AMB, NF)) for f in sorted(q._raw) if any(i.callee_name() == R for i in q.fn(f).calls())]
    todo += [(f, g, (FAIL,)) for g in ("_resolve_file", "_load_by_name", "_assign_expression_limited", "_assign_expressions_limited", "_assign_expressions", "_resolve_asterisk", "order_preresolve_expressions", "fqlupdate_resolve_additional", "_op_find_group", "_group_validation", "_map_groups", "_resolve_source", "scope_get_var_index")
             for f in sorted(q._raw) if g in q._raw and any(i.callee_name() == g for i in q.fn(f).calls())]
    for f, R, bad in todo:
        F = Fragments(ctx, q, f, lambda: FragRule({R}, set()), infer=False)
        carried = {}
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                n += 1
                why = None
                for b in bad:
                    st = feasible(o, (eq(e[4], b), True))
                    if st is None:
                        continue
                    if hasattr(o, "dst"):
                        ks = [k for k, v in o.raw.items() if v == e[4]]
                        for k in ks:
                            carried.setdefault((o.dst, k), set()).add(b)
                        if not ks:
                            why = "goes on although %s did not find one match" % R
                    else:
                        v = o.val
                        r = None if v is None else o.an.eval_cond(st, eq(v, FAIL))
                        if v is None or r is not True and v != e[4] and not (is_c(v) and f in BOOL and v == C1):
                            if v is not None and f == "fql_field_count":
                                continue
                            why = "returns %s although %s did not find one match" % (show(v) if v else "nothing", R)
                ctx.ob("%s: %s" % (f, R), why is None, o.where(), why or "", o.trail() if why else None)
        for (h, k), bs in sorted(carried.items()):
            for o in F.returns(h) + F.arrivals(h):
                for b in sorted(bs):
                    st = feasible(o, (eq(("in", k), b), True))
                    if st is None:
                        continue
                    why = None
                    again = [e for e in o.ev if e[1] == R]
                    if hasattr(o, "dst"):
                        if not again and o.raw.get(k) != ("in", k):
                            why = "goes on although %s did not find one match" % R
                        elif again and b == AMB and len(bad) > 1:
                            why = "looks again although the name is ambiguous"
                    elif not again and o.an.eval_cond(st, eq(o.val, FAIL)) is not True:
                        why = "returns %s although %s did not find one match" % (show(o.val), R)
                    ctx.ob("%s: %s" % (f, R), why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 20, "answers of lookups")


BOOL = set()


def columns(ctx):
    ctx.rule("C25.column", "a column is looked for in every source its qualifier allows, and binds only when exactly one column matches")
    name = "_assign_expression_limited"
    keep = ["expression_try_assign_source", "_assign_expressions_limited", "istring_eq", "string_empty", "switchcase_resolve_type", "function_op_resolve", "function_validate", "_evaluate_if_const", "fqlselect_resolve_type_from_subquery"]
    p = ctx.prog("engine", keep=keep)
    E = p.enumval
    F = Fragments(ctx, p, name, lambda: FragRule(set(keep), set()), infer=False)
    a0 = F.an[0]
    expr, sources, limit, strict = (arg(a0, i) for i in range(4))
    kind = ("ld", fld("expression.expr", expr), 0)
    loop = None
    cnts = set()
    # the parts of an expression are bound too
    R_ = "_assign_expressions_limited"
    parts = {"EXPR_FUNCTION": "function.args", "EXPR_SWITCH_CASE": "switchcase.values"}
    seen = {}
    for h in [0] + [x for x in F.headers if x in F.reachable()]:
        for o in F.returns(h):
            if o.an.eval_cond(o.st, eq(o.val, FAIL)) is True:
                continue
            for k, part in parts.items():
                if h == 0 and feasible(o, (eq(kind, const(E[k])), True)) is None:
                    continue
                cs = [e for e in o.ev if e[0] == "call" and e[1] == R_ and mentions(e[2][0], lambda y: y[0] == "fld" and y[1] == part)]
                if h != 0 and not cs:
                    # a loop of this function: only the one a CASE goes through matters
                    if k == "EXPR_SWITCH_CASE" and F.headers and any(mentions(y, lambda z: z[0] == "fld" and z[1] == "switchcase.tests") for q_ in F.arrivals(h, h) + F.arrivals(0, h) for e in q_.ev for y in (e[2] if e[0] == "call" else ())) or \
                       k == "EXPR_SWITCH_CASE" and any(e[1] == R_ for q_ in F.arrivals(h, h) for e in q_.ev):
                        ctx.ob("parts of %s" % k, False, o.where(), "a %s is bound without its %s" % (k[5:], part.split(".")[1]), o.trail())
                    continue
                if h == 0 and not cs:
                    if k == "EXPR_SWITCH_CASE" and any(e[1] == R_ for e in o.ev):
                        continue
                    ctx.ob("parts of %s" % k, False, o.where(), "a %s is bound without its %s" % (k[5:], part.split(".")[1]), o.trail())
                    continue
                if cs:
                    seen[k] = seen.get(k, 0) + 1
                    e = cs[-1]
                    bad = None
                    if tuple(e[2][1:4]) != (sources, limit, strict):
                        bad = "binds its parts to %s" % [show(y) for y in e[2][1:4]]
                    elif o.an.eval_cond(o.st, eq(e[4], FAIL)) is not False:
                        bad = "a part that cannot be bound is accepted"
                    ctx.ob("parts of %s" % k, bad is None, o.where(), bad or "", o.trail() if bad else None)
    for k in parts:
        ctx.ob("parts of %s bound" % k, seen.get(k, 0) > 0, name, "the %s of a %s are never bound" % (parts[k].split(".")[1], k[5:]))
    for h in F.headers:
        if h not in F.reachable():
            continue
        R = F.arrivals(h, h)
        if not any(e[1] == "expression_try_assign_source" for o in R for e in o.ev):
            continue
        loop = h
        n = 0
        for o in R:
            t = [e for e in o.ev if e[1] == "expression_try_assign_source"]
            m = [e for e in o.ev if e[1] == "istring_eq"]
            idx = [k for k, v in o.raw.items() if v == add(("in", k), C1) and any(mentions(y, lambda z: z == ("in", k)) for e in o.ev for y in e[2])]
            emp = emptiness(o, expr)
            same = o.an.eval_cond(o.st, eq(m[-1][4], C0)) if m else None
            why = None
            tab = None
            if m:
                qa = [y for y in m[-1][2] if "expression.table_name" in repr(y)]
                ta = [y for y in m[-1][2] if "table.alias" in repr(y)]
                if not qa or not ta:
                    why = "compares %s with %s" % (show(m[-1][2][0]), show(m[-1][2][1]))
                else:
                    tab = base_of(ta[0], "table.alias")
            allowed = emp is True or same is False
            if why is None:
                if len(t) > 1:
                    why = "looks twice in a round"
                elif t and not allowed:
                    why = "looks in a source its qualifier does not name"
                elif not t and not (emp is False and same is True):
                    why = "does not look in a source"
                elif t and (t[0][2][0] != expr or tab is not None and t[0][2][1] != tab):
                    why = "looks for %s in %s" % (show(t[0][2][0]), show(t[0][2][1]))
                elif not idx:
                    why = "does not go on with the next source"
            if why is None:
                other = {k: v for k, v in o.raw.items() if k not in idx}
                if t:
                    n += 1
                    r = t[0][4]
                    big = value_under(o, [(lt(C1, r), True)], r, C0) != "no"
                    small = value_under(o, [(eq(r, C1), True)], r, C0) != "no"
                    loose = o.an.eval_cond(o.st, eq(strict, C0))
                    inc = [k for k, v in other.items() if v == add(("in", k), r)]
                    inc1 = [k for k, v in other.items() if v == add(("in", k), C1)]
                    cnts.update(inc)
                    if not inc and not inc1:
                        why = "does not count the matches"
                    elif inc and big and loose is not False and not small and o.an.interval(o.st, r)[0] > 1:
                        why = "a column that occurs twice in one source is ambiguous although not strict"
                    elif not inc and inc1 and not (o.an.eval_cond(o.st, eq(r, C1)) is True) and not (loose is True and o.an.eval_cond(o.st, lt(C1, r)) is True):
                        why = "counts one match for %s" % show(r)
                    else:
                        cnts.update(inc1)
                elif any(v != ("in", k) and v[0] != "c" for k, v in other.items() if k in cnts):
                    why = "counts a match where it did not look"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 2, "rounds that look in a source")
    ctx.need(1 if loop else 0, 1, "loops over the sources")
    # where the loop starts and when it ends
    for o in F.arrivals(0, loop):
        k = [v for v in o.raw.values()]
        ok = all(v == C0 for v in k)
        ctx.ob(name, ok, o.where(), "" if ok else "starts with %s" % [show(v) for v in k], o.trail() if not ok else None)
    for o in F.arrivals(loop) + F.returns(loop):
        if hasattr(o, "dst") and o.dst == loop:
            continue
        if any(e[1] == "expression_try_assign_source" for e in o.ev):
            ctx.ob(name, False, o.where(), "ends before every source was looked at", o.trail())
            continue
        c = ("in", sorted(cnts)[0]) if cnts else None
        why = None
        if c is None or hasattr(o, "dst"):
            why = "does not count"
        else:
            for v, want, what in ((0, FAIL, "no column matches"), (2, FAIL, "two columns match"), (1, None, "one column matches")):
                st = feasible(o, (eq(c, const(v)), True))
                if st is None:
                    continue
                z = o.an.eval_cond(st, eq(o.val, FAIL))
                if (want is FAIL) != (z is True) or z is None:
                    why = "%s, and the answer is %s" % (what, show(o.val))
            # the end is beyond the last source
            idx = [k for k in F.arrivals(loop, loop)[0].raw if k not in cnts]
            if why is None and idx:
                i = ("in", idx[0])
                if o.an.eval_cond(o.st, lt(limit, i)) is not True:
                    why = "ends before every source was looked at"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    # what is not a column
    n = 0
    sub = {E["EXPR_FUNCTION"]: "_assign_expressions_limited", E["EXPR_SUBQUERY"]: "fqlselect_resolve_type_from_subquery"}
    for o in F.returns(0):
        if o.an.eval_cond(o.st, eq(o.val, FAIL)) is True:
            continue
        k = o.an.interval(o.st, kind)
        for v, c in sub.items():
            if o.an.eval_cond(o.st, eq(kind, const(v))) is not False:
                hit = [e for e in o.ev if e[1] == c]
                n += 1
                ctx.ob(name, bool(hit), o.where(), "" if hit else "the names inside %s are not looked up" % ("a function" if c[0] == "_" else "a subquery"), o.trail() if not hit else None)
        for v in ("EXPR_COLUMN_NAME", "EXPR_FULL_RECORD"):
            if o.an.eval_cond(o.st, eq(kind, const(E[v]))) is not False:
                ds = o.an.eval_cond(o.st, eq(("ld", fld("expression.data_source", expr), 0), C0))
                n += 1
                ctx.ob(name, ds is False, o.where(), "" if ds is False else "a column is not looked up", o.trail() if ds is not False else None)
        if o.an.eval_cond(o.st, eq(kind, const(E["EXPR_SWITCH_CASE"]))) is not False:
            ctx.ob(name, False, o.where(), "the names inside a CASE are not looked up", o.trail())
    ctx.need(n, 3, "kinds of expression")
    for o in F.returns():
        for e in o.ev:
            if e[1] == "_assign_expressions_limited":
                ok = e[2][1:4] == (sources, limit, strict) or list(e[2][1:4]) == [sources, limit, strict]
                ctx.ob(name, ok, o.where(), "" if ok else "the names inside are looked up in %s" % [show(x) for x in e[2][1:]], o.trail() if not ok else None)


def emptiness(o, expr):
    """is the qualifier empty: True, False, None"""
    for e in o.ev:
        if e[0] == "call" and e[1] == "string_empty" and "expression.table_name" in repr(e[2][0]):
            z = o.an.eval_cond(o.st, eq(e[4], C0))
            return None if z is None else not z
    for T, g in o.st.facts.items():
        for a, k in T:
            if a[0] == "ld" and "expression.table_name" in repr(a) and ".size" in repr(a) and len(T) == 1:
                z = o.an.eval_cond(o.st, eq(a, C0))
                if z is not None:
                    return z
    return None


def base_of(v, member):
    """the object whose member an address or value belongs to"""
    r = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "fld" and x[1] == member:
                r.append(x[2])
                return
            for y in x:
                walk(y)
    walk(v)
    return r[0] if r else None


def binding(ctx):
    ctx.rule("C25.bind", "a column binds to the column of its name in the source it was looked for in, and the answer is how many there are")
    name = "expression_try_assign_source"
    p = ctx.prog("engine", keep=["hashmap_nget", "expression_link", "strlen"])
    E = p.enumval
    outs, an = collect(ctx, p, p.fn(name), {"hashmap_nget", "expression_link"}, {"all"})
    expr, table = arg(an, 0), arg(an, 1)
    kind = ("ld", fld("expression.expr", expr), 0)
    n = 0
    for o in returns(outs):
        g = [e for e in o.ev if e[0] == "call" and e[1] == "hashmap_nget"]
        l = [e for e in o.ev if e[0] == "call" and e[1] == "expression_link"]
        known = lambda c: o.an.eval_cond(o.st, c)
        why = None
        if not g:
            if known(eq(kind, const(E["EXPR_COLUMN_NAME"]))) is not False:
                why = "binds a column without looking it up"
            elif known(eq(o.val, C1)) is not True:
                why = "returns %s" % show(o.val)
        else:
            n += 1
            r = g[0][4]
            none = known(eq(r, C0))
            if "schema.expr_map" not in repr(g[0][2][0]) or base_of(g[0][2][0], "table.schema") != table:
                why = "looks in %s" % show(g[0][2][0])
            elif base_of(g[0][2][1], "expression.name") != expr:
                why = "looks for %s" % show(g[0][2][1])
            elif none is None:
                why = "does not ask whether there is such a column"
            elif none:
                if l or [e for e in o.ev if e[0] == "store"]:
                    why = "binds a column that does not exist"
                elif known(eq(o.val, C0)) is not True:
                    why = "returns %s where there is no such column" % show(o.val)
            else:
                if len(l) != 1 or l[0][2][0] != expr or l[0][2][2] != table:
                    why = "does not bind the column"
                elif not (l[0][2][1][0] == "ld" and l[0][2][1][1][0] == "ld" and mentions(l[0][2][1], lambda y: y == r)):
                    why = "binds the column to %s" % show(l[0][2][1])
                elif not ("vec.size" in repr(o.val) and mentions(o.val, lambda y: y == r)):
                    why = "returns %s" % show(o.val)
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "lookups of a column")


def asterisk(ctx):
    ctx.rule("C25.asterisk", "an asterisk stands for every source its qualifier allows, and fails when there is none")
    name = "_resolve_asterisk"
    p = ctx.prog("engine", keep=["istring_eq", "string_empty", "vec_insert_at", "expression_construct"])
    F = Fragments(ctx, p, name, lambda: FragRule({"istring_eq", "string_empty", "vec_insert_at"}, {"expression.src_idx"}), infer=False)
    n = 0
    loops = [h for h in F.headers if h in F.reachable() and any(e[1] == "istring_eq" for o in F.arrivals(h, h) for e in o.ev)]
    ctx.need(len(loops), 1, "loops over the sources")
    for h in loops:
        up = set()
        R = F.arrivals(h, h)
        adv = [k for k in R[0].raw if all(o.raw[k] == add(("in", k), C1) for o in R)]
        for o in R:
            st = [e for e in o.ev if e[0] == "store"]
            m = [e for e in o.ev if e[0] == "call" and e[1] == "istring_eq"]
            same = o.an.eval_cond(o.st, eq(m[-1][4], C0)) if m else None
            emp = emptiness(o, None)
            allowed = emp is True or same is False
            refused = same is True
            why = None
            if allowed == refused:
                why = "does not ask whether the qualifier names the source"
            elif allowed and len(st) != 1:
                why = "leaves out a source"
            elif refused and st:
                why = "takes a source its qualifier does not name"
            elif allowed:
                n += 1
                js = [k for k, v in o.raw.items() if v == add(("in", k), C1)]
                if not any(strip(st[0][2]) == ("in", k) for k in adv):
                    why = "takes source %s" % show(st[0][2])
                elif len(js) < 2:
                    why = "does not count the source"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
            if refused:
                up |= {k for k, v in o.raw.items() if v == add(("in", k), C1)}
        cnt = [k for k in R[0].raw if k not in up and any(o.raw[k] == add(("in", k), C1) for o in R)]
        # an end with nothing found fails
        for o in F.arrivals(h) + F.returns(h):
            if hasattr(o, "dst") and o.dst == h:
                continue
            bad = []
            for k in cnt:
                st = feasible(o, (eq(("in", k), C0), True))
                if st is not None:
                    bad.append(k)
            fails = not hasattr(o, "dst") and o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
            # one of the counters is zero here on every failing path, and positive on every other
            if fails:
                ok = any(o.an.eval_cond(o.st, eq(("in", k), C0)) is True for k in cnt)
                ctx.ob(name, ok, o.where(), "" if ok else "fails although there is a source", o.trail() if not ok else None)
            else:
                ok = any(o.an.eval_cond(o.st, eq(("in", k), C0)) is False for k in cnt)
                ctx.ob(name, ok, o.where(), "" if ok else "goes on although no source is named so", o.trail() if not ok else None)
    ctx.need(n, 2, "sources an asterisk stands for")


def one_of(ctx, p, name, getter, least, found, what):
    """the list a map answers with is used only where it has one element"""
    F = Fragments(ctx, p, name, lambda: FragRule({getter}, {"all"}), infer=False)
    n = 0
    for o in F.arrivals() + F.returns():
        for e in o.ev:
            if e[0] != "call":
                continue
            n += 1
            r = e[4]
            size = None
            for T, g in o.st.facts.items():
                for a, _ in T:
                    if a[0] == "ld" and a[1] == fld("vec.size", r):
                        size = a
            none = o.an.eval_cond(o.st, eq(r, C0))
            fails = not hasattr(o, "dst") and o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
            uses = [s for s in o.ev if s[0] == "store" and (mentions(s[1], lambda y: y == r) or mentions(s[2], lambda y: y == r))]
            why = None
            if none is None:
                why = "does not ask whether %s matches" % what
            elif none:
                if found == "must" and not fails:
                    why = "goes on although no %s matches" % what
                elif uses:
                    why = "uses a match that is not there"
            elif size is None:
                why = "does not ask whether several match"
            else:
                two = feasible(o, (eq(size, const(2)), True)) is not None
                one = feasible(o, (eq(size, C1), True)) is not None
                if two and not fails:
                    why = "goes on although two %ss match" % what
                elif fails and one and not two:
                    if found != "must":
                        why = None
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, least, "lookups in " + name)


def orderby(ctx):
    ctx.rule("C25.orderby", "an ORDER BY name is the selected column of that name unless several are called so; a position lies within the selected columns")
    name = "order_preresolve_expressions"
    keep = ["hashmap_nget", "expression_get_int", "schema_preflight", "expression_link", "strlen", "istring_eq"]
    p = ctx.prog("engine", keep=keep)
    get = "hashmap_nget"
    one_of(ctx, p, name, get, 2, "may", "column")
    F = Fragments(ctx, p, name, lambda: FragRule({"expression_get_int", get}, {"expression.index", "expression.expr"}), infer=False)
    E = p.enumval
    n = 0
    for o in F.arrivals() + F.returns():
        for e in o.ev:
            if e[0] == "call" and e[1] == "expression_get_int":
                if o.an.eval_cond(o.st, eq(e[4], FAIL)) is True:
                    continue
                v = [x for x in (("ld", e[2][0], k) for k in range(0, 6))]
                fails = not hasattr(o, "dst") and o.val is not None and o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
                ord_ = None
                for T, g in o.st.facts.items():
                    for a, _ in T:
                        if a[0] == "ld" and a[1] == e[2][0] or a[0] == "out" or a[0] == "hav":
                            ord_ = a
                n += 1
                why = None
                if ord_ is None:
                    why = "does not check the position"
                else:
                    low = feasible(o, (eq(ord_, C0), True)) is not None
                    size = [a for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "vec.size"]
                    high = not size or all(feasible(o, (lt(s, ord_), True)) is not None for s in size)
                    if not fails and (low or high):
                        why = "a position %s is taken" % ("of 0" if low else "beyond the selected columns")
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "positions in ORDER BY")


def update(ctx):
    ctx.rule("C25.set", "a SET column is the one column of that name, and no column is set twice")
    name = "fqlupdate_resolve_additional"
    p = ctx.prog("engine", keep=["hashmap_nget", "expression_destroy", "expression_free", "strlen"])
    get = "hashmap_nget"
    one_of(ctx, p, name, get, 3, "must", "column")
    F = Fragments(ctx, p, name, lambda: FragRule({get}, {"all"}), infer=False)
    n = 0
    for o in F.arrivals() + F.returns():
        g = [e for e in o.ev if e[0] == "call"]
        if not g or not hasattr(o, "dst"):
            continue
        n += 1
        pt = [a for T, f in o.st.facts.items() for a, _ in T if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "expression.is_passthrough"]
        ok = any(o.an.eval_cond(o.st, eq(a, C0)) is False for a in pt)
        ctx.ob(name, ok, o.where(), "" if ok else "a column may be set twice", o.trail() if not ok else None)
    ctx.need(n, 1, "columns set")


def groups(ctx):
    ctx.rule("C25.group", "with GROUP BY a selected column that is no group, constant or aggregate is refused unless that was allowed")
    name = "_op_find_group"
    q = ctx.prog("engine", keep=["_map_expression", "compositemap_get", "function_destroy", "function_free", "vec_clear"])
    F = Fragments(ctx, q, name, lambda: FragRule({"_map_expression", "compositemap_get", "_op_find_group"}, {"expression.expr", "expression.data_source"}), infer=False)
    E = q.enumval
    expr, key, loose = arg(F.an[0], 1), arg(F.an[0], 2), arg(F.an[0], 3)
    kind = ("ld", fld("expression.expr", expr), 0)
    n = 0
    for o in F.returns(0):
        g = [e for e in o.ev if e[0] == "call" and e[1] == "compositemap_get"]
        fails = o.an.eval_cond(o.st, eq(o.val, FAIL)) is True
        col = o.an.eval_cond(o.st, eq(kind, const(E["EXPR_COLUMN_NAME"])))
        if col is False:
            continue
        n += 1
        why = None
        if not g:
            if not fails:
                why = "a column is not looked up in the groups"
        else:
            none = o.an.eval_cond(o.st, eq(g[0][4], C0))
            l = o.an.eval_cond(o.st, eq(loose, C0))
            ds = [e for e in o.ev if e[0] == "store" and e[1][1] == "expression.data_source"]
            if none is None:
                why = "does not ask whether the column is a group"
            elif none and not fails and l is not False:
                why = "a column that is no group is accepted"
            elif not none and fails:
                why = "a group is refused"
            elif not none and ds and not (ds[-1][2][0] == "ld" and ds[-1][2][1] == g[0][4]):
                why = "the column becomes %s" % show(ds[-1][2])
            elif not none and l is True and not ds:
                why = "the column does not become the group it matches"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "columns looked up in the groups")
