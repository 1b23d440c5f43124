"""C27: variables: scope, declared type, length limit."""
from .norm import *
from .frag import Fragments, FragRule, unversioned

TECHNIQUE = "path analysis of the scope walk, the declaration and the conversions on the compiler's intermediate representation: every path against the rule for the names, types and limits it can have"
LEVEL_NOTE = "all names, nestings of scopes (by induction over the walk) and pairs of types"
EXPLANATION = (
    "A name is looked up in one scope after the other from the current one outwards, and the first hit is the answer; no hit is a failure. A declaration looks only in the current scope, refuses a name it has, and otherwise adds exactly one new variable and binds the name to it there. "
    "A branch gets a scope of its own inside the scope it stands in, ELSE a scope beside it, and leaving the branch restores the outer scope. "
    "Declaring a type or a limit concerns the variable last declared. Each assignment evaluates the expression as the declared type, a BIT becomes 0 or 1, a text is cut to the limit and CHAR padded to it; a conversion changes the type only after the value was converted from the type it had.")
ASSUMPTIONS = ["the map of names works (C17)", "strings work (C16)", "the number-to-text conversions print the value (C library)"]

FAIL = const(-5)
KEEP = "hashmap_nget hashmap_nset vec_add_one vec_at variable_construct scope_construct scope_get_var_index str2long field_to_int field_to_float field_to_stringview field_to_stringview_limited string_push_back string_copy string_copy_from_stringview string_from_stringview string_resize string_clear variable_set_type variable_set_stringview expression_get_int expression_get_float expression_get_stringview variable_reset istring_eq".split()


def eng(ctx, *without):
    return ctx.prog("engine", keep=[k for k in KEEP if k not in without])


def run(ctx):
    lookup(ctx)
    declare(ctx)
    scopes(ctx)
    typenames(ctx)
    declared(ctx)
    assign(ctx)
    limits(ctx)
    convert(ctx)
    use(ctx)


def lookup(ctx):
    ctx.rule("C27.lookup", "a name is looked up from the current scope outwards; the first hit is the answer, no hit a failure")
    p = eng(ctx, "scope_get_var_index")
    name = "scope_get_var_index"
    F = Fragments(ctx, p, name, lambda: FragRule({"hashmap_nget"}, set()), infer=False)
    self_, var = arg(F.an[0], 0), arg(F.an[0], 1)
    n = 0
    for src in [0] + [h for h in F.headers if h in F.reachable()]:
        for o in F.arrivals(src) + F.returns(src):
            known = lambda c: o.an.eval_cond(o.st, c)
            gets = [e for e in o.ev if e[0] == "call"]
            why = None
            if len(gets) > 1 and hasattr(o, "dst"):
                gets = gets[-1:]
            for e in gets:
                n += 1
                m = e[2][0]
                if not (m[0] == "fld" and m[1] == "scope.variable_map"):
                    why = "looks in %s" % show(m)
                elif e[2][1] != var:
                    why = "looks for %s" % show(e[2][1])
            hit = gets[-1][4] if gets else None
            if why is None and hasattr(o, "dst") and src:
                # one round: the scope looked in is the one the loop holds, the next is its parent or the answer is there
                vals = list(o.raw.values())
                if not gets:
                    why = "a round without a lookup"
                else:
                    s = gets[-1][2][0][2]
                    par = ("ld", fld("scope.parent_scope", s), 0)
                    if s[0] != "in":
                        # looked in a scope reached in this very round
                        if not (s[0] == "ld" and s[1][0] == "fld" and s[1][1] == "scope.parent_scope"):
                            why = "looks in the scope %s" % show(s)
                    moved = [v for v in vals if unver(v) == par]
                    if why is None and not moved and s[0] == "in" and known(eq(hit, C0)) is not False:
                        why = "does not go on with the enclosing scope"
                    for k, v in o.raw.items():
                        if v == hit and known(eq(hit, C0)) is not True and known(eq(insym(F, src, k), C0)) is not True:
                            why = "goes on although the name was found"
                    if why is None and hit not in vals and known(eq(hit, C0)) is not True:
                        why = "goes on although the name was found"
            if why is None and hasattr(o, "dst") and not src:
                if self_ not in o.raw.values() and not (gets and any(unver(v) == ("ld", fld("scope.parent_scope", self_), 0) for v in o.raw.values()) and known(eq(hit, C0)) is True):
                    why = "does not start with the scope given"
            if why is None and not hasattr(o, "dst"):
                v = o.val
                if known(eq(v, FAIL)) is True:
                    # nothing found: no enclosing scope left and no hit pending
                    if hit is not None and known(eq(hit, C0)) is not True:
                        why = "fails although the name was found"
                elif not (v[0] == "ld" and (v[1] == hit or v[1][0] == "in")):
                    why = "returns %s" % show(v)
                elif v[1] == hit and known(eq(hit, C0)) is not False or v[1][0] == "in" and known(eq(v[1], C0)) is not False:
                    why = "returns an index that was not found"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "lookups")
    # the failing return needs both: no hit, no scope left
    for src in [0] + F.headers:
        for o in F.returns(src):
            if o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
                continue
            zero = [T[0][0] for T, g in o.st.facts.items() if len(T) == 1 and g[0] == g[1] == 0 and T[0][0][0] in ("in", "ld", "arg", "call")]
            ends = [z for z in zero if z[0] in ("in", "arg") or z[0] == "ld" and z[1][0] == "fld" and z[1][1] == "scope.parent_scope"]
            ok = bool(ends)
            ctx.ob(name, ok, o.where(), "" if ok else "fails before the outermost scope was looked in", o.trail() if not ok else None)


def insym(F, h, k):
    return ("in", k)


def last(o, addr, default=None):
    """what a path stored last at an address; what was there before if nothing"""
    w = [e[2] for e in o.ev if e[0] == "store" and e[1] == addr]
    return w[-1] if w else ("ld", addr, 0) if default is None else default


def unver(v):
    if isinstance(v, tuple) and len(v) >= 3 and v[0] == "ld":
        return ("ld", v[1], 0)
    return v


def declare(ctx):
    ctx.rule("C27.declare", "a declaration looks only in the current scope, refuses a name it has, and otherwise binds the name there to one new variable")
    p = eng(ctx)
    name = "libfql_declare_variable"
    outs, an = collect(ctx, p, p.fn(name), None, {"all"})
    fql, var = arg(an, 0), arg(an, 1)
    mp = fld("scope.variable_map", ("ld", fld("fqlhandle._scope", fql), 0))
    vec = ("ld", fld("fqlhandle.variables", fql), 0)
    kinds = set()
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        calls = [e for e in o.ev if e[0] == "call"]
        get = [e for e in calls if e[1] == "hashmap_nget"]
        put = [e for e in calls if e[1] == "hashmap_nset"]
        new = [e for e in calls if e[1] == "vec_add_one" and e[2][0] == vec]
        ctor = [e for e in calls if e[1] == "variable_construct"]
        why = None
        if not get or unver(get[0][2][0]) != mp and get[0][2][0] != mp or get[0][2][1] != var:
            why = "does not look for the name in the current scope"
        else:
            hit = get[0][4]
            absent = known(eq(hit, C0))
            if absent is None:
                why = "does not depend on whether the scope has the name"
            elif absent:
                kinds.add("new")
                size = ("ld", fld("vec.size", vec), 0)
                if known(eq(o.val, FAIL)) is True:
                    why = "refuses a new name"
                elif len(put) != 1 or put[0][2][0] != mp or put[0][2][1] != var:
                    why = "does not bind the name in the current scope"
                elif len(new) != 1 or not ctor or ctor[-1][2][0] != new[0][4]:
                    why = "does not add one new variable"
                else:
                    w = [e for e in o.ev if e[0] == "store" and e[1] == put[0][2][2]]
                    v = w[0][2] if w else None
                    after = o.ev.index(new[0])
                    if v is None or not (unver(v) == size and o.ev.index(w[0]) < after or o.ev.index(w[0]) > after and len(lin_parts(v)[1]) == 1 and sub(v, const(-1)) in lin_parts(add(v, C1))[1] and unver(add(v, C1)) == size):
                        why = "binds the name to %s" % (show(v) if v else "nothing")
                    elif o.ev.index(w[0]) > o.ev.index(put[0]):
                        why = "binds the name before the index is known"
                    elif not (o.val == v or o.val[0] == "ld" and o.val[1] == put[0][2][2]):
                        why = "returns %s" % show(o.val)
            else:
                if put or new:
                    why = "declares the name a second time"
                elif known(eq(o.val, FAIL)) is True:
                    kinds.add("refused")
                else:
                    kinds.add("again")
                    idx = ("ld", hit, 0)
                    if unver(o.val) != idx:
                        why = "returns %s" % show(o.val)
                    else:
                        at = [e for e in calls if e[1] == "vec_at"]
                        flag = None
                        for e in at:
                            a = fld("variable.can_be_redeclared", e[4])
                            if known(eq(("ld", a, 0), C0)) is False and unver(e[2][1]) == idx and e[2][0] == vec:
                                flag = a
                        if flag is None:
                            why = "declares a variable of the scope again"
                        elif not any(e[0] == "store" and e[1] == flag and e[2] == C0 for e in o.ev):
                            why = "may be declared again once more"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(kinds), 3, "outcomes of a declaration")
    # a new variable is no import and may not be redeclared
    q = ctx.prog("engine", keep=[])
    outs, an = collect(ctx, q, q.fn("variable_construct"), set(), {"all"})
    E = q.enumval
    for o in returns(outs):
        for m, v in (("type", const(E["SQL_UNDEFINED"])), ("can_be_redeclared", C0), ("is_null", C1), ("_data", C0), ("_import_value", C0), ("limit", const(2**31 - 1))):
            got = ctor_value(o, an, "variable." + m)
            ctx.ob("variable_construct: " + m, got == v, o.where(), "" if got == v else "starts as %s" % (show(got) if got else "unknown"))


def ctor_value(o, an, field):
    """the value of a member after a constructor that builds a temporary and copies it"""
    st = [e[2] for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1] == field]
    if st:
        return st[-1]
    v = o.an.read(o.st, fld(field, arg(an, 0)))
    if is_c(v):
        return v
    z = [e for e in o.ev if e[0] == "call" and e[1] == "memset" and e[2][1] == C0]
    return C0 if z else None


def scopes(ctx):
    ctx.rule("C27.scope", "a branch opens a scope inside the current one (ELSE IF: beside the one before), ELSE one beside the branch's, and leaving the branch restores the scope it stands in")
    p = eng(ctx)
    name = "fqlbranch_construct"
    outs, an = collect(ctx, p, p.fn(name), {"scope_construct"}, {"fqlhandle._scope", "scope.parent_scope", "fqlbranch.scope"})
    fql = arg(an, 1)
    cur = ("ld", fld("fqlhandle._scope", fql), 0)
    state = ("ld", fld("fqlhandle.branch_state", fql), 0)
    ELSE = const(p.enumval["BRANCH_EXPECT_ELSE"])
    n = 0
    for o in returns(outs):
        new = [e for e in o.ev if e[0] == "call"]
        par = [e for e in o.ev if e[0] == "store" and e[1][1] == "scope.parent_scope"]
        act = [e for e in o.ev if e[0] == "store" and e[1][1] == "fqlhandle._scope"]
        own = [e for e in o.ev if e[0] == "store" and e[1][1] == "fqlbranch.scope"]
        els = o.an.eval_cond(o.st, eq(state, ELSE))
        why = None
        if len(new) != 1:
            why = "makes %d scopes" % len(new)
        else:
            s = new[0][2][0]
            if not own or own[-1][2] not in (s, new[0][4]):
                why = "the scope is not the branch's"
            elif len(par) != 1 or par[0][1][2] != s:
                why = "the scope has no enclosing scope"
            elif not act or act[-1][2] != s or act[-1][1][2] != fql:
                why = "the scope is not the current one"
            elif els is None and par[0][2] != cur:
                why = "does not depend on what is expected"
            elif els is False and unver(par[0][2]) != cur:
                why = "the enclosing scope is %s" % show(par[0][2])
            elif els is True and unver(par[0][2]) != ("ld", fld("scope.parent_scope", cur), 0):
                why = "the enclosing scope of the next part of the IF is %s" % show(par[0][2])
        n += 1
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths of " + name)

    name = "query_exit_branch"
    q = ctx.prog("engine", inline=False)
    F = Fragments(ctx, q, name, lambda: FragRule(set(), {"fqlhandle._scope"}), infer=False)
    self_ = arg(F.an[0], 0)
    n = 0
    for o in F.arrivals() + F.returns():
        st = [e for e in o.ev if e[0] == "store"]
        first = o in F.arrivals(0) + F.returns(0)
        why = None
        want = ("ld", fld("scope.parent_scope", ("ld", fld("fqlbranch.scope", ("ld", fld("query.op", self_), 0)), 0)), 0)
        h = ("ld", fld("query.fqlref", self_), 0)
        if st:
            n += 1
            if st[-1][1][2] != h or unver(st[-1][2]) != want:
                why = "the scope after the branch is %s" % show(st[-1][2])
        if is_first(F, o) and not st:
            why = "the scope after the branch is still the one inside"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "paths of " + name)

    name = "query_init_op"
    outs, an = collect(ctx, q, q.fn(name), {"scope_construct", "fqlbranch_construct"}, {"fqlhandle._scope", "scope.parent_scope", "fqlbranch.else_scope"})
    self_, op = arg(an, 0), arg(an, 2)
    n = 0
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        st = {e[1][1]: e for e in o.ev if e[0] == "store"}
        mk = [e for e in o.ev if e[0] == "call"]
        els = known(eq(("ld", fld("fqlhandle.branch_state", ("ld", fld("query.fqlref", self_), 0)), mk_ver(o, "fqlhandle.branch_state")), ELSE))
        bare = known(eq(op, const(q.enumval["FQL_IF"])))
        why = None
        sc = [e for e in mk if e[1] == "scope_construct"]
        if "fqlhandle._scope" in st or sc:
            n += 1
            act, par, own = st.get("fqlhandle._scope"), st.get("scope.parent_scope"), st.get("fqlbranch.else_scope")
            if not (sc and act and par and own):
                why = "the ELSE has no scope of its own"
            else:
                s = sc[0][2][0]
                ok = par[2][0] == "ld" and par[2][1][0] == "fld" and par[2][1][1] == "scope.parent_scope" and par[2][1][2][0] == "ld" and par[2][1][2][1][0] == "fld" and par[2][1][2][1][1] == "fqlbranch.scope"
                if act[2] not in (s, sc[0][4]) or own[2] not in (s, sc[0][4]) or par[1][2] not in (s, sc[0][4]):
                    why = "the scope of the ELSE is not the current one"
                elif not ok or own[1][2] != par[2][1][2][1][2]:
                    why = "the enclosing scope of the ELSE is %s" % show(par[2])
                elif bare is True:
                    why = "a second scope for ELSE IF"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "paths that open the scope of an ELSE")


def mk_ver(o, f):
    for T, g in o.st.facts.items():
        for a, _ in T:
            if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == f:
                return a[2]
    return 0


def is_first(F, o):
    return any(o is x for x in F.arrivals(0) + F.returns(0))


NAMES = {"int": "SQL_INT", "bigint": "SQL_INT", "tinyint": "SQL_INT", "smallint": "SQL_INT", "bit": "SQL_BIT", "float": "SQL_FLOAT", "real": "SQL_FLOAT",
         "varchar": "SQL_VARCHAR", "nvarchar": "SQL_VARCHAR", "text": "SQL_TEXT", "ntext": "SQL_TEXT", "char": "SQL_CHAR", "nchar": "SQL_CHAR"}


def typenames(ctx):
    ctx.rule("C27.names", "each type name means the type of that name, any other is refused")
    p = eng(ctx)
    name = "libfql_get_sql_type"
    outs, an = collect(ctx, p, p.fn(name), {"istring_eq"}, set())
    outs = returns(outs)
    for word, want in sorted(NAMES.items()) + [("money", "SQL_UNDEFINED")]:
        n = 0
        for o in outs:
            st = o.st.copy()
            fits = True
            for e in o.ev:
                lits = [x for x in e[2] if x[0] == "str"]
                if not lits:
                    raise_unknown(ctx, name)
                same = lits[0][1] == word
                k = o.an.eval_cond(o.st, eq(e[4], C0))
                if k is same:
                    fits = False
            if not fits:
                continue
            n += 1
            ok = o.val == const(p.enumval[want])
            ctx.ob("%s: %s" % (name, word), ok, o.where(), "" if ok else "means %s" % show(o.val), o.trail() if not ok else None)
        ctx.need(n, 1, "paths for " + word)
    # the field type of each type
    name = "variable_get_field_type"
    outs, an = collect(ctx, p, p.fn(name), set(), set())
    a = arg(an, 0)
    for t, w in sorted(FIELD.items()):
        n = 0
        for o in returns(outs):
            st = o.st.copy()
            if o.an.eval_cond(o.st, eq(a, const(p.enumval[t]))) is False or o.an.assume(st, eq(a, const(p.enumval[t])), True) is False:
                continue
            n += 1
            ok = o.an.eval_cond(st, eq(o.val, const(p.enumval[w]))) is True
            ctx.ob("%s: %s" % (name, t), ok, o.where(), "" if ok else "is of type %s" % show(o.val))
        ctx.need(n, 1, "paths for " + t)


FIELD = {"SQL_INT": "FIELD_INT", "SQL_BIT": "FIELD_INT", "SQL_FLOAT": "FIELD_FLOAT", "SQL_TEXT": "FIELD_STRING", "SQL_CHAR": "FIELD_STRING", "SQL_VARCHAR": "FIELD_STRING"}


def declared(ctx):
    ctx.rule("C27.declared", "a type or a limit is given to the variable last declared")
    p = eng(ctx)
    outs, an = collect(ctx, p, p.fn("libfql_declare_variable"), {"vec_add_one"}, {"all"})
    keep = []
    for o in returns(outs):
        if o.an.eval_cond(o.st, eq(o.val, FAIL)) is True:
            continue
        last = {e[1][1]: e[2] for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1].startswith("fqlhandle.") and e[1][2] == arg(an, 0)}
        same = {m for m, v in last.items() if v == o.val or o.an.eval_cond(o.st, eq(v, o.val)) is True}
        keep.append(same)
    good = set.intersection(*keep) if keep else set()
    for name, events in (("libfql_set_variable_type", {"variable_set_type", "vec_at"}), ("libfql_set_variable_limit", {"vec_at"})):
        outs, an = collect(ctx, p, p.fn(name), events, {"variable.limit"})
        fql = arg(an, 0)
        n = 0
        for o in returns(outs):
            targets = [e[2][0] for e in o.ev if e[0] == "call" and e[1] == "variable_set_type"] + [e[1][2] for e in o.ev if e[0] == "store"]
            for t in targets:
                n += 1
                at = [e for e in o.ev if e[0] == "call" and e[1] == "vec_at" and e[4] == t]
                ok = False
                if at:
                    i = at[-1][2][1]
                    ok = i[0] == "ld" and i[1][0] == "fld" and i[1][2] == fql and i[1][1] in good or i[0] == "arg"
                ctx.ob(name, ok, o.where(), "" if ok else "concerns %s, which is not the variable last declared when an imported one is declared again" % show(t), o.trail() if not ok else None)
            if not targets and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True and name.endswith("limit"):
                ctx.ob(name, False, o.where(), "succeeds without setting the limit")
        ctx.need(n, 1, "paths of " + name)
    # the limit is the positive number given
    outs, an = collect(ctx, p, p.fn("libfql_set_variable_limit"), {"str2long"}, {"variable.limit"})
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store"]
        c = [e for e in o.ev if e[0] == "call"]
        for e in st:
            src = strip(e[2])
            why = None
            if not c or o.an.eval_cond(o.st, eq(c[0][4], C0)) is not True:
                why = "takes a limit that is no number"
            elif unver(strip(e[2])) != ("ld", c[0][2][0], 0):
                why = "takes %s" % show(e[2])
            elif o.an.interval(o.st, ("ld", c[0][2][0], mk_ver2(e[2], c[0][2][0])))[0] < 1:
                why = "takes a limit that is not positive"
            ctx.ob("libfql_set_variable_limit", why is None, o.where(), why or "", o.trail() if why else None)


def mk_ver2(v, a):
    for x in lin_parts(v)[1]:
        if x[0] == "ld" and x[1] == a:
            return x[2]
    return 0


GET = {"SQL_INT": "expression_get_int", "SQL_BIT": "expression_get_int", "SQL_FLOAT": "expression_get_float", "SQL_TEXT": "expression_get_stringview", "SQL_CHAR": "expression_get_stringview", "SQL_VARCHAR": "expression_get_stringview"}


def assign(ctx):
    ctx.rule("C27.assign", "an assignment evaluates the expression as the declared type, makes a BIT 0 or 1 and passes a text through the limit")
    p = eng(ctx)
    name = "fql_set"
    outs, an = collect(ctx, p, p.fn(name), {"vec_at", "variable_set_stringview", "variable_reset"} | set(GET.values()), {"variable.is_null", "variable.value", "variable.type"})
    proc = arg(an, 0)
    E = p.enumval
    seen = set()
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        at = [e for e in o.ev if e[0] == "call" and e[1] == "vec_at"]
        why = None
        if not at or "fqlhandle.variables" not in repr(at[0][2][0]) or "fqlset.variable_idx" not in repr(at[0][2][1]):
            ctx.ob(name, False, o.where(), "does not take the variable of the statement")
            continue
        var = at[0][4]
        fails = known(eq(o.val, FAIL)) is True
        gets = [e for e in o.ev if e[0] == "call" and e[1] in GET.values()]
        if [e for e in o.ev if e[0] == "store" and e[1][1] == "variable.type"]:
            why = "changes the type"
        for t in sorted(GET):
            ty = eq(("ld", fld("variable.type", var), 0), const(E[t]))
            st = o.st.copy()
            if known(ty) is False or o.an.assume(st, ty, True) is False:
                continue
            if why:
                break
            if not gets:
                rs = [e for e in o.ev if e[0] == "call" and e[1] == "variable_reset"]
                if not rs and not fails:
                    why = "%s is not assigned" % t
                elif rs and known(eq(rs[0][4], FAIL)) is not False and not fails:
                    why = "a failing reset goes unnoticed"
                elif rs and rs[0][2][0] != var:
                    why = "resets another variable"
                if not rs and fails and known(ty) is True:
                    why = "%s cannot be assigned" % t
                continue
            seen.add(t)
            g = gets[-1]
            if g[1] != GET[t]:
                why = "%s is evaluated by %s" % (t, g[1])
            elif "fqlset.init_expr" not in repr(g[2][1]):
                why = "%s becomes the value of %s" % (t, show(g[2][1]))
            elif known(eq(g[4], FAIL)) is not False and not fails:
                why = "a failing expression is assigned"
            elif not fails and known(eq(g[4], const(-1))) is False:
                if GET[t] == "expression_get_stringview":
                    s = [e for e in o.ev if e[0] == "call" and e[1] == "variable_set_stringview"]
                    if not s or s[-1][2][0] != var or s[-1][2][1] != g[2][0]:
                        why = "the text is not assigned"
                else:
                    tgt = g[2][0]
                    direct = mentions(tgt, lambda y: y == var) and "variable.value" in repr(tgt)
                    w = [e for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][2] == var and e[1][1] == "variable.value"]
                    if not direct and not (w and mentions(w[-1][2], lambda y: y == tgt)) and not (t == "SQL_BIT" and w):
                        why = "%s is not assigned" % t
                    elif t == "SQL_BIT":
                        v = o.an.read(st, tgt if direct else fld("variable.value", var))
                        iv = o.an.interval(st, v)
                        if w and is_c(w[-1][2]):
                            iv = (w[-1][2][1],) * 2
                        raw = ("ld", tgt, mk_ver2(v, tgt))
                        if iv[0] < 0 or iv[1] > 1:
                            if not (v[0] in ("cmp", "not", "ne", "eq")):
                                why = "a BIT may become %s..%s" % (iv[0], iv[1])
                        elif iv[0] == iv[1] and is_c(v) and w:
                            pass
            if why:
                break
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(seen), 6, "types assigned")


def limits(ctx):
    ctx.rule("C27.limit", "a text is cut to the limit before it is stored, and CHAR is padded to it")
    p = eng(ctx, "variable_set_stringview")
    p2 = ctx.prog("engine", keep=[k for k in KEEP if k != "variable_set_stringview"] + ["_append_space"])
    pad = "_append_space" in p2._raw
    name = "variable_set_stringview"
    outs, an = collect(ctx, p2, p2.fn(name), {"string_copy_from_stringview", "string_from_stringview", "_append_space", "memcpy", "llvm.memcpy.p0.p0.i64"}, {"stringview.len", "variable.value", "variable._data", "variable.is_null"})
    self_, sv = arg(an, 0), arg(an, 1)
    lim = ("ld", fld("variable.limit", self_), 0)
    CHAR = const(p.enumval["SQL_CHAR"])
    n = 0
    for o in returns(outs):
        q = P(o)
        known = lambda c: o.an.eval_cond(o.st, c)
        cp = [e for e in o.ev if e[0] == "call" and e[1].startswith("string_")]
        copies = {e[2][0]: e[2][1] for e in o.ev if e[0] == "call" and "memcpy" in e[1]}
        why = None
        if len(cp) != 1:
            why = "stores %d texts" % len(cp)
        else:
            n += 1
            src = cp[0][2][-1]
            k = o.ev.index(cp[0])
            if [e for e in o.ev[k:] if e[0] == "store" and e[1][1] == "stringview.len"]:
                why = "cut after it was stored"
            ln = last(o, fld("stringview.len", src))
            if copies.get(src) == sv:
                if ln == ("ld", fld("stringview.len", src), 0):
                    ln = ("ld", fld("stringview.len", sv), 0)
                src = sv
            if not (q.le(ln, lim)):
                why = "a text of length %s is stored" % show(ln)
            if src == sv and why is None:
                raw = ("ld", fld("stringview.len", sv), 0)
                if ln != raw and not (ln == lim and q.le(lim, raw)):
                    why = "a text is cut to %s" % show(ln)
            val = last(o, fld("variable.value", self_))
            if why is None and last(o, fld("variable.is_null", self_)) != C0:
                why = "stays NULL"
            if why is None and val != cp[0][4] and unver(val) != ("ld", fld("variable._data", self_), 0):
                if val != cp[0][2][0]:
                    why = "the value is %s" % show(val)
            if why is None and cp[0][1] == "string_copy_from_stringview" and pad:
                ty = known(eq(("ld", fld("variable.type", self_), 0), CHAR))
                padded = any(e[0] == "call" and e[1] == "_append_space" for e in o.ev)
                if ty is not False and not padded:
                    why = "CHAR is not padded"
                elif ty is not True and padded:
                    why = "a text that is not CHAR is padded"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths that store a text")
    if pad:
        padding(ctx)


def padding(ctx):
    p = ctx.prog("engine", keep=["string_push_back"])
    name = "_append_space"
    F = Fragments(ctx, p, name, lambda: FragRule({"string_push_back"}, set()), infer=False)
    self_ = arg(F.an[0], 0)
    lim = ("ld", fld("variable.limit", self_), 0)
    n = 0
    size = ("ld", fld("vec.size", ("ld", fld("variable._data", self_), 0)), 0)
    # values a loop keeps equal to the size: start as it, one more per space added
    sizes_ = [size]
    for h in F.headers:
        if h not in F.reachable():
            continue
        first, again = F.arrivals(0, h), F.arrivals(h, h)
        for k in (first[0].raw if first else {}):
            if all(unversioned(o.raw.get(k, C0)) == size for o in first) and all(sub(o.raw.get(k, C0), ("in", k)) == C1 and sum(e[0] == "call" for e in o.ev) == 1 for o in again):
                sizes_.append(("in", k))
    for o in F.arrivals() + F.returns():
        o = View(o, ("variable.", "vec."))
        if o.infeasible:
            continue
        for e in o.ev:
            n += 1
            ok = e[2][1] == const(32) and e[2][0] == ("ld", fld("variable._data", self_), 0)
            ctx.ob(name, ok, o.where(), "" if ok else "pads with %s" % show(e[2][1]))
            ok = any(o.an.eval_cond(o.st, mk_cmp("ult", s, lim)) is True or o.an.eval_cond(o.st, lt(s, lim)) is True for s in sizes_)
            ctx.ob(name, ok, o.where(), "" if ok else "pads a text that has its length", o.trail() if not ok else None)
        if not hasattr(o, "dst") and not o.ev:
            known = lambda c: o.an.eval_cond(o.st, c)
            ok = known(eq(lim, C0)) is True or known(eq(lim, const(2**31 - 1))) is True or any(known(mk_cmp("ult", s, lim)) is False or known(lt(s, lim)) is False for s in sizes_)
            ctx.ob(name, ok, o.where(), "" if ok else "ends before the text has its length", o.trail() if not ok else None)
    ctx.need(n, 1, "spaces added")


TO = {"SQL_INT": {"field_to_int"}, "SQL_BIT": {"field_to_int"}, "SQL_FLOAT": {"field_to_float"}}
STR = {"field_to_stringview", "field_to_stringview_limited"}


def convert(ctx):
    ctx.rule("C27.convert", "the type changes only together with the value, converted from the type it had; a BIT becomes 0 or 1, a text is limited, CHAR padded")
    p = ctx.prog("engine", keep=[k for k in KEEP if k != "variable_set_type"] + ["_append_space"])
    name = "variable_set_type"
    outs, an = collect(ctx, p, p.fn(name), {"field_to_int", "field_to_float", "_append_space"} | STR, {"all"})
    self_, new = arg(an, 0), arg(an, 1)
    E = p.enumval
    old = ("ld", fld("variable.type", self_), 0)
    seen = set()
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        fails = known(eq(o.val, FAIL)) is True
        cv = [e for e in o.ev if e[0] == "call" and e[1] in {"field_to_int", "field_to_float"} | STR]
        ty = [e for e in o.ev if e[0] == "store" and e[1] == fld("variable.type", self_)]
        why = None
        if fails:
            if ty:
                why = "fails with the type changed"
            elif not cv and known(eq(new, C0)) is not True and o.an.interval(o.st, new)[0] <= 6 and o.an.interval(o.st, new)[1] >= 1 and known(eq(new, const(E["SQL_UNDEFINED"]))) is not True:
                if any(possible(o, eq(new, const(E[t]))) for t in FIELD):
                    why = "refuses a type"
        elif not ty:
            if known(eq(old, new)) is not True:
                why = "the type is not changed"
        elif ty[-1][2] != new and known(eq(ty[-1][2], new)) is not True:
            why = "the type becomes %s" % show(ty[-1][2])
        elif known(eq(old, const(E["SQL_UNDEFINED"]))) is True:
            seen.add("first")
            if cv:
                why = None
        else:
            for t in FIELD:
                if not possible(o, eq(new, const(E[t]))):
                    continue
                want = TO.get(t, STR)
                c = [e for e in cv if e[1] in want]
                if len(cv) != 1 or not c:
                    why = "%s is converted by %s" % (t, [e[1] for e in cv] or "nothing")
                    break
                seen.add(t)
                c = c[0]
                val, fty = (c[2][1], c[2][2]) if t in TO else (c[2][2], c[2][3])
                if val != fld("variable.value", self_):
                    why = "converts %s" % show(val)
                elif known(eq(c[4], FAIL)) is not False:
                    why = "the type changes although the conversion failed"
                else:
                    had = [e[2] for e in o.ev[:o.ev.index(c)] if e[0] == "store" and e[1] == fty]
                    if not had:
                        why = "the type converted from is unknown"
                    else:
                        for s in FIELD:
                            if possible(o, eq(old, const(E[s]))) and s != t and known(eq(had[-1], const(E[FIELD[s]]))) is not True:
                                why = "a %s is converted as %s" % (s, show(had[-1]))
                if t == "SQL_BIT" and why is None:
                    # the value written last is 0 or 1, or known to be
                    w = [e[2] for e in o.ev if e[0] == "store" and e[1] == fld("variable.value", self_) and o.ev.index(e) > o.ev.index(c)]
                    st = o.st.copy()
                    o.an.assume(st, eq(new, const(E[t])), True)
                    out = o.an.read(st, c[2][0])
                    if w:
                        iv = o.an.interval(st, w[-1])
                        ok = iv[0] >= 0 and iv[1] <= 1 or w[-1][0] in ("cmp",)
                    else:
                        a, b = o.an.interval(st, out)[:2], o.an.interval(st, o.an.read(st, fld("variable.value", self_)))[:2]
                        ok = a == (0, 0) or b == (0, 0)
                    if not ok:
                        why = "a BIT may become another number than 0 or 1"
                if t not in TO and why is None:
                    lim = ("ld", fld("variable.limit", self_), 0)
                    nolim = known(eq(lim, const(2**31 - 1))) is True
                    if c[1] == "field_to_stringview" and not nolim:
                        why = "the text is not limited"
                    elif c[1] != "field_to_stringview" and unver(c[2][4]) != lim:
                        why = "the limit is %s" % show(c[2][4])
                    padded = any(e[0] == "call" and e[1] == "_append_space" for e in o.ev)
                    ch = known(eq(new, const(E["SQL_CHAR"])))
                    if why is None and "_append_space" in p._raw and (ch is not False and not padded or ch is not True and padded):
                        why = "CHAR is not padded" if not padded else "a text that is not CHAR is padded"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(seen), 7, "conversions of " + name)
    fields(ctx)
    reset(ctx)


def possible(o, c):
    return o.an.eval_cond(o.st, c) is not False and o.an.assume(o.st.copy(), c, True) is not False


def fields(ctx):
    """field_to_*: the tag follows the value"""
    p = ctx.prog("engine", keep=["str2long", "str2double", "string_sprintf", "string_resize", "stringview_set_string"])
    E = p.enumval
    for name, t in (("field_to_int", "FIELD_INT"), ("field_to_float", "FIELD_FLOAT"), ("field_to_stringview", "FIELD_STRING"), ("field_to_stringview_limited", "FIELD_STRING")):
        text = t == "FIELD_STRING"
        outs, an = collect(ctx, p, p.fn(name), {"str2long", "str2double", "string_sprintf", "string_resize"}, {"all"})
        ret = arg(an, 0)
        field, ty = (arg(an, 2), arg(an, 3)) if text else (arg(an, 1), arg(an, 2))
        dest = arg(an, 1) if text else None
        was = ("ld", ty, 0)
        seen = set()
        for o in returns(outs):
            known = lambda c: o.an.eval_cond(o.st, c)
            fails = known(eq(o.val, FAIL)) is True
            calls = [e for e in o.ev if e[0] == "call"]
            now = last(o, ty)
            v = last(o, field)
            why = None
            for k in ("FIELD_INT", "FIELD_FLOAT", "FIELD_STRING"):
                if not possible(o, eq(was, const(E[k]))):
                    continue
                if fails:
                    if not any(e[1] in ("str2long", "str2double") and known(eq(e[4], C0)) is False for e in calls):
                        why = "a value of type %s cannot be converted" % k
                    continue
                seen.add(k)
                if known(eq(now, const(E[t]))) is not True and not (k == t and now == was):
                    why = "%s: the tag becomes %s" % (k, show(now))
                elif k == t and not text:
                    if unver(v) != ("ld", field, 0):
                        why = "%s: the value changes" % k
                elif text:
                    pr = [e for e in calls if e[1] == "string_sprintf"]
                    if k != t and (not pr or pr[-1][2][0] != dest or not fmt_ok(pr[-1][2][1], k)):
                        why = "%s: printed as %s" % (k, [show(x) for x in pr[-1][2][1:]] if pr else "nothing")
                    elif v != dest:
                        why = "%s: the value is %s" % (k, show(v))
                    elif name.endswith("limited"):
                        lim = arg(an, 4)
                        rs = [e for e in calls if e[1] == "string_resize"]
                        big = [known(mk_cmp("ult", lim, s)) for s in sizes(o, dest)]
                        if rs and (rs[-1][2][0] != dest or rs[-1][2][1] != lim or True not in big):
                            why = "%s: cut to %s" % (k, show(rs[-1][2][1]))
                        elif not rs and False not in big:
                            why = "%s: not cut to the limit" % k
                elif k == "FIELD_STRING":
                    c = [e for e in calls if e[1] == ("str2long" if t == "FIELD_INT" else "str2double")]
                    if len(c) != 1 or known(eq(c[0][4], C0)) is not True:
                        why = "%s: a text that is no number is taken" % k
                    elif not mentions(v, lambda y: y == c[0][2][0]):
                        why = "%s: the value is %s" % (k, show(v))
                if not why and not text:
                    r = last(o, ret)
                    if r != v and unver(r) != ("ld", field, 0) and known(eq(r, v)) is not True:
                        why = "%s: returns %s" % (k, show(r))
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(len(seen), 3, "types converted by " + name)


def sizes(o, dest):
    r = []
    for T, g in o.st.facts.items():
        for a, _ in T:
            if a[0] == "ld" and a[1] == fld("vec.size", dest):
                r.append(a)
    return r


def fmt_ok(f, k):
    return f[0] == "str" and (f[1] in ("%ld",) if k == "FIELD_INT" else f[1] in ("%lf", "%f"))


def reset(ctx):
    ctx.rule("C27.reset", "a declaration without a value gives an imported variable its imported value in the declared type, any other NULL")
    p = ctx.prog("engine", keep=[k for k in KEEP if k != "variable_reset"])
    name = "variable_reset"
    outs, an = collect(ctx, p, p.fn(name), {"variable_set_type", "string_copy", "variable_set_stringview", "string_clear"}, {"all"})
    self_ = arg(an, 0)
    E = p.enumval
    imp = ("ld", fld("variable._import_value", self_), 0)
    old = ("ld", fld("variable.type", self_), 0)
    kinds = set()
    for o in returns(outs):
        known = lambda c: o.an.eval_cond(o.st, c)
        none = known(eq(imp, C0))
        why = None
        nul = [e[2] for e in o.ev if e[0] == "store" and e[1] == fld("variable.is_null", self_)]
        cv = [e for e in o.ev if e[0] == "call" and e[1] == "variable_set_type"]
        if none is None:
            why = "does not depend on an imported value"
        elif none:
            kinds.add("plain")
            if not nul or nul[-1] != C1:
                why = "does not become NULL"
        else:
            kinds.add("imported")
            cp = [e for e in o.ev if e[0] == "call" and e[1] in ("string_copy", "variable_set_stringview")]
            ty = [e for e in o.ev if e[0] == "store" and e[1] == fld("variable.type", self_)]
            if not cp:
                why = "the imported value is not restored"
            elif cp[-1][1] != "variable_set_stringview" and not (nul and nul[-1] == C0):
                why = "an imported variable stays NULL when it is declared again"
            elif cp[-1][1] != "variable_set_stringview":
                why = "the imported value is not cut to the limit of the declaration"
            elif not ty or ty[-1][2] != const(E["SQL_VARCHAR"]):
                why = "the imported text is not known as a text"
            elif len(cv) != 1 or unver(cv[0][2][1]) != old:
                why = "the imported value is not converted to the declared type"
            elif o.val != cv[0][4] and known(eq(cv[0][4], FAIL)) is not False and known(eq(o.val, FAIL)) is not True:
                why = "a failing conversion goes unnoticed"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(len(kinds), 2, "cases of " + name)


def use(ctx):
    ctx.rule("C27.use", "every name of a variable is resolved from the current scope, an unknown one makes the statement fail, and the statement uses the index found")
    p = ctx.prog("engine", inline=False)
    users = [n for n in sorted(p._raw) if any(i.callee_name() == "scope_get_var_index" for i in p.fn(n).calls())]
    ctx.need(len(users), 1, "functions that resolve a variable")
    used = 0
    for name in users:
        outs, an = collect(ctx, p, p.fn(name), {"scope_get_var_index", "_add_variable_expression_by_index", "vec_push_back"}, {"fqlset.variable_idx", "query.into_table_var_idx", "loc"})
        for o in returns(outs):
            known = lambda c: o.an.eval_cond(o.st, c)
            c = [e for e in o.ev if e[0] == "call" and e[1] == "scope_get_var_index"]
            if not c:
                continue
            why = None
            r = c[0][4]
            s = c[0][2][0]
            if not (s[0] == "ld" and s[1][0] == "fld" and s[1][1] == "fqlhandle._scope"):
                why = "looks in %s" % show(s)
            elif known(eq(r, FAIL)) is not False:
                if known(eq(o.val, FAIL)) is not True:
                    why = "an unknown variable goes unnoticed"
            else:
                for e in o.ev:
                    if e[0] == "store" and e[1][0] == "fld" and e[1][1] in ("fqlset.variable_idx", "query.into_table_var_idx"):
                        used += 1
                        if e[2] != r:
                            why = "uses variable %s" % show(e[2])
                    elif e[0] == "call" and e[1] == "_add_variable_expression_by_index":
                        used += 1
                        if e[2][1] != r:
                            why = "uses variable %s" % show(e[2][1])
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(used, 2, "uses of a resolved index")
    outs, an = collect(ctx, p, p.fn("query_set_variable_idx"), set(), {"fqlset.variable_idx"})
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store"]
        ok = len(st) == 1 and st[0][2] == arg(an, 1) and "query.op" in repr(st[0][1])
        ctx.ob("query_set_variable_idx", ok, o.where(), "" if ok else "declares another variable")
