"""C21: settings and command-line options."""
import re
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "value flow of every setter and of every place a setting decides something, path by path on the compiler's intermediate representation, and a cross-check of the option table, the option letters, the help text and the option switch"
LEVEL_NOTE = "every setter, every option, and the places where a setting takes effect"
EXPLANATION = (
    "Every path of a setter stores the argument (a flag as 0 or 1, a name as the value of that name, the pipe factor within its limits) in the one setting of that name and in no other; a missing string changes nothing and an unknown name is refused without a change. "
    "Every option of the table is handled by the setter of its meaning with its argument or 1, its letter takes an argument exactly when the long form does, each option in the help text is in the table with that letter, and the options whose setter can refuse stop the program. "
    "Where a setting takes effect the path decides by that setting and by its truth.")
ASSUMPTIONS = ["getopt_long (C library)", "the quoting styles do what their names say (libcsv)"]

FAIL = const(-5)
PRE = "fqlhandle.props."

# setter -> (setting, kind)
SET = {
    "fql_set_verbose": ("verbosity", "value"), "fql_set_parse_only": ("parse_only", "flag"), "fql_set_dry_run": ("dry_run", "flag"), "fql_set_overwrite": ("overwrite", "flag"),
    "fql_set_override_warnings": ("override_warnings", "flag"), "fql_set_print_header": ("print_header", "flag"), "fql_set_add_header": ("add_header", "flag"), "fql_set_print_plan": ("print_plan", "flag"),
    "fql_set_in_std": ("in_std", "std"), "fql_set_out_std": ("out_std", "std"), "fql_set_in_delim": ("in_delim", "text"), "fql_set_out_delim": ("out_delim", "text"), "fql_set_record_terminator": ("rec_terminator", "text"),
    "fql_set_threading": ("threading", "threads"), "fql_set_char_as_byte": ("char_as_byte", "flag"), "fql_set_force_cartesian": ("force_cartesian", "flag"), "fql_set_pipe_factor": ("pipe_factor", "factor"),
    "fql_set_strict_mode": ("strictness", "value"), "fql_set_schema_path": ("schema_path", "string"), "fql_set_schema": ("schema", "string"), "fql_set_loose_groups": ("loose_groups", "flag"),
    "fql_set_stable": ("stable", "flag"), "fql_set_crlf_output": ("rec_terminator", "crlf"), "fql_set_allow_stdin": ("allow_stdin", "flag"),
}

# option -> (letter or None, takes an argument, [(function, argument)], may fail)
OPT = {
    "char-as-byte": ("b", 0, "fql_set_char_as_byte", 1), "command": ("c", 1, "fql_set_allow_stdin", 1), "cartesian": ("C", 0, "fql_set_force_cartesian", 1), "dry-run": ("d", 0, "fql_set_dry_run", 1),
    "declare": ("D", 1, "fql_import_variable", "arg"), "no-header": ("h", 0, "fql_set_print_header", 0), "add-header": ("H", 0, "fql_set_add_header", 1), "summarize": ("L", 0, "fql_set_loose_groups", 1),
    "overwrite": ("o", 0, "fql_set_overwrite", 1), "override": ("O", 0, "fql_set_override_warnings", 1), "print": ("p", 0, "fql_set_print_plan", 1), "pipe-factor": ("P", 1, "fql_set_pipe_factor", "int"),
    "quiet": ("q", 0, "fql_set_verbose", "FQL_QUIET"), "rec-term": ("R", 1, "fql_set_record_terminator", "arg"), "in-delim": ("s", 1, "fql_set_in_delim", "arg"), "out-delim": ("S", 1, "fql_set_out_delim", "arg"), "thread": ("t", 0, "fql_set_threading", 1),
    "verbose": ("v", 0, "fql_set_verbose", "FQL_NOISY"), "crlf": ("W", 0, "fql_set_crlf_output", 1), "debug": (None, 0, "fql_set_verbose", "FQL_DEBUG"),
    "in-std": (None, 1, "fql_set_in_std", "arg"), "out-std": (None, 1, "fql_set_out_std", "arg"), "parse-only": (None, 0, "fql_set_parse_only", 1), "schema-path": (None, 1, "fql_set_schema_path", "arg"),
    "schema": (None, 1, "fql_set_schema", "arg"), "stable": (None, 0, "fql_set_stable", 1), "strict": (None, 0, "fql_set_strict_mode", 1),
}
CANFAIL = {"fql_import_variable", "fql_set_in_std", "fql_set_out_std"}


def run(ctx):
    setters(ctx)
    defaults(ctx)
    options(ctx)
    effects(ctx)


def prop(a):
    """the setting an address belongs to"""
    while isinstance(a, tuple):
        if a[0] == "fld":
            if a[1].startswith(PRE):
                return a[1][len(PRE):]
            a = a[2]
        elif a[0] == "ld":
            a = a[1]
        elif a[0] == "L":
            for x, _ in a[2]:
                r = prop(x)
                if r:
                    return r
            return None
        else:
            return None
    return None


def setting(name, fql, v=0):
    return ("ld", fld(PRE + name, fld("fqlhandle.props", fql)), v)


def written(o):
    """[(setting, event)] of a path"""
    r = []
    for e in o.ev:
        if e[0] == "store":
            k = prop(e[1])
            if k:
                r.append((k, e))
            elif e[1][0] == "fld" and e[1][1].startswith("fqlhandle."):
                r.append((e[1][1].split(".", 1)[1], e))
        elif e[0] == "call" and e[2] and e[1] in WRITES:
            k = prop(e[2][0])
            if k:
                r.append((k, e))
    return r


WRITES = {"strncat", "strncpy", "snprintf", "memcpy", "memmove", "strcpy", "strcat", "string_strcpy", "string_copy", "string_clear", "memset", "stpncpy", "llvm.memcpy.p0.p0.i64"}


def setters(ctx):
    ctx.rule("C21.set", "a setter stores its argument in the setting of its name, within its limits, and changes no other; what is no value is refused")
    p = ctx.prog("engine", keep=["istring_eq", "string_strcpy", "string_copy", "string_clear", "sysconf"])
    E = p.enumval
    have = [n for n in p._raw if n.startswith("fql_set_")]
    for n in sorted(have):
        if n not in SET and p.fn(n).file.endswith("libfql.c"):
            ctx.ob(n, True, n, "")
    for name, (member, kind) in sorted(SET.items()):
        outs, an = collect(ctx, p, p.fn(name), {"istring_eq"} | WRITES, {"all"})
        fql, x = arg(an, 0), arg(an, 1)
        n = 0
        for o in returns(outs):
            known = lambda c: o.an.eval_cond(o.st, c)
            w = written(o)
            other = [k for k, e in w if k != member and not (name == "fql_set_out_delim" and k == "_out_delim_set") and not (kind == "threads" and k == "pipe_factor")]
            mine = [e for k, e in w if k == member]
            why = None
            if other:
                why = "changes %s" % other[0]
            elif kind in ("flag", "value", "factor"):
                if not mine or mine[-1][0] != "store":
                    why = "does not change %s" % member
                else:
                    v = mine[-1][2]
                    n += 1
                    if kind == "flag":
                        if not isflag(o, v, x):
                            why = "%s becomes %s" % (member, show(v))
                    elif kind == "value":
                        if strip(v) != x and known(eq(v, x)) is not True:
                            why = "%s becomes %s" % (member, show(v))
                    else:
                        lo, hi = o.an.interval(o.st, v)[:2]
                        if lo < 2 or hi > 1024:
                            why = "the pipe factor may become %s..%s" % (lo, hi)
                        elif v != x and not (is_c(v) and (v[1] == 2 and o.an.interval(o.st, x)[1] < 2 or v[1] == 1024 and o.an.interval(o.st, x)[0] > 1024)):
                            why = "the pipe factor becomes %s" % show(v)
            elif kind == "std":
                fails = known(eq(o.val, FAIL)) is True
                hits = [e for e in o.ev if e[0] == "call" and e[1] == "istring_eq" and known(eq(e[4], C0)) is False]
                if fails:
                    if mine:
                        why = "refuses with %s changed" % member
                    elif hits:
                        why = "refuses a name it knows"
                else:
                    lit = [a[1] for e in hits for a in e[2] if a[0] == "str"]
                    t = row(hits[-1][2], mine[-1][2]) if hits and mine and not lit else None
                    if t:
                        i = (p.globals.get(t) or {}).get("init") or []
                        names = [r for r in i[1:] if isinstance(r, list) and len(r) > 2 and r[0] == "arr"]
                        bad = [r[1][1] for r in names if r[1][0] == "s" and r[2][1] != E.get("QUOTE_" + r[1][1].upper(), -99)]
                        if not names or bad:
                            why = "%s means something else" % (bad or "the name")
                        else:
                            n += 1
                    elif len(lit) != 1 or not mine:
                        why = "takes a name it does not know"
                    elif mine[-1][2] != const(E.get("QUOTE_" + lit[0].upper(), -99)):
                        why = "%s means %s" % (lit[0], show(mine[-1][2]))
                    else:
                        n += 1
            elif kind in ("text", "string"):
                null = known(eq(x, C0))
                cp = [e for e in mine if e[0] == "call" and any(mentions(a, lambda y: y == x) for a in e[2][1:])]
                if null is True:
                    if w:
                        why = "a missing string changes %s" % w[0][0]
                elif not cp:
                    why = "does not change %s" % member
                else:
                    n += 1
                    e = cp[-1]
                    if e[2][0] != place(member, fql, kind):
                        why = "copies to %s" % show(e[2][0])
                    elif e[1] == "strncat":
                        i = o.ev.index(e)
                        z = [s for s in o.ev[:i] if s[0] == "store" and s[1] == e[2][0] and s[2] == C0]
                        if not z:
                            why = "adds to what was set before"
                        elif o.an.interval(o.st, e[2][2])[1] > 32:
                            why = "copies %s bytes into 33" % show(e[2][2])
                    elif e[1] in ("strcpy", "strcat"):
                        why = "copies a string of any length into 33 bytes"
                    if name == "fql_set_out_delim" and not any(k == "_out_delim_set" and s[2] == C1 for k, s in w):
                        why = "the delimiter does not take effect"
            elif kind == "threads":
                cpus = [e for e in o.ev if e[0] == "call"]
                one = any(o.an.eval_cond(o.st, lt(a, const(2))) is True or o.an.interval(o.st, a)[1] < 2 for T, g in o.st.facts.items() for a, _ in T if a[0] == "call" and a[1] == "sysconf")
                pf = [e for k, e in w if k == "pipe_factor"]
                if not mine:
                    if not (one and known(eq(x, C0)) is False):
                        why = "does not change threading"
                else:
                    n += 1
                    if not isflag(o, mine[-1][2], x):
                        why = "threading becomes %s" % show(mine[-1][2])
                    elif pf and known(eq(x, C0)) is not False:
                        why = "the pipe factor changes although threading is not turned on"
                    elif pf and known(eq(setting("pipe_factor", fql), const(16))) is not True and not any(len(T) == 1 and "pipe_factor" in repr(T) and g[0] == g[1] for T, g in o.st.facts.items()):
                        why = "a pipe factor that was set changes"
            elif kind == "crlf":
                vals = {}
                for e in mine:
                    if e[0] == "store":
                        d = sub(e[1], place(member, fql, "text"))
                        if is_c(d):
                            vals[d[1]] = e[2]
                on = known(eq(x, C0))
                want = {0: const(13), 1: const(10), 2: C0} if on is False else {0: const(10), 1: C0}
                n += 1
                cp = [e for e in mine if e[0] == "call"]
                lit = {"\r\n": False, "\n": True}
                if cp and any(a[0] == "str" and lit.get(a[1]) is on for a in cp[-1][2][1:]):
                    pass
                elif on is None:
                    why = "does not depend on its argument"
                elif any(vals.get(k) != v for k, v in want.items()):
                    why = "the end of a record is %s" % [show(vals[k]) for k in sorted(vals)]
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 1, "paths of %s that store" % name)


def row(args, v):
    """the table both the name and the value come from, in the same row"""
    for a in args:
        if a[0] == "ld" and v[0] == "ld" and a[1][0] == "fld" and v[1][0] == "fld" and a[1][2] == v[1][2]:
            g = []

            def walk(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == "glob":
                        g.append(x[1])
                    for y in x:
                        walk(y)
            walk(a[1][2])
            if len(g) == 1:
                return g[0]
    return None


def place(member, fql, kind):
    a = fld(PRE + member, fld("fqlhandle.props", fql))
    return ("ld", a, 0) if kind == "string" else a


def isflag(o, v, x):
    v = strip(v)
    if v == mk_cmp("ne", x, C0) or v == ("not", eq(x, C0)) or v == x:
        return True
    if is_c(v):
        z = o.an.eval_cond(o.st, eq(x, C0))
        return z is not None and (v[1] == 0) == z
    z = o.st.copy()
    for zero in (True, False):
        st = o.st.copy()
        if o.an.assume(st, eq(x, C0), zero) is False:
            continue
        r = o.an.eval_cond(st, eq(v, C0))
        if r is not zero:
            return False
    return True


def defaults(ctx):
    ctx.rule("C21.default", "a new handle has the documented defaults: nothing is overwritten, overridden or skipped unless asked for")
    q = ctx.prog("engine", inline=False)
    name = "fql_construct"
    outs, an = collect(ctx, q, q.fn(name), set(), {"all"})
    E = q.enumval
    want = {"print_header": C1, "verbosity": const(E["FQL_BASIC"]), "in_std": const(E["QUOTE_RFC4180"]), "out_std": const(E["QUOTE_RFC4180"])}
    for m, k in SET.values():
        if k == "flag":
            want.setdefault(m, C0)
    for m in ("threading", "strictness"):
        want[m] = C0
    for o in returns(outs):
        for m, v in sorted(want.items()):
            st = [e[2] for e in o.ev if e[0] == "store" and prop(e[1]) == m]
            got = st[-1] if st else C0
            ctx.ob("%s: %s" % (name, m), got == v, o.where(), "" if got == v else "starts as %s" % show(got))


def options(ctx):
    ctx.rule("C21.options", "each option has its letter and argument, is described as it is, and calls the setter of its meaning; an option that is refused stops the program")
    p = ctx.prog("cli", keep=[])
    E = p.enumval
    table = None
    for k, g in sorted(p.globals.items()):
        i = g.get("init")
        if isinstance(i, list) and i and i[0] == "arr" and len(i) > 5 and all(isinstance(r, list) for r in i[1:]) and any(r[0] == "arr" and len(r) == 5 and r[1][0] == "s" for r in i[1:] if r):
            table = (k, g, i)
    ctx.need(1 if table else 0, 1, "option tables")
    rows = {}
    for r in table[2][1:]:
        if r[0] == "arr" and r[1][0] == "s":
            flag = r[3][0]
            rows[r[1][1]] = (r[2][1], r[4][1], flag)
    where = "%s:%s" % (table[1].get("file", "src/fql.c").replace("/repo/", ""), table[1].get("line", "?"))
    for name, (letter, has, fn, a) in sorted(OPT.items()):
        r = rows.get(name)
        why = None
        if r is None:
            why = "is no option"
        elif r[0] != has:
            why = "takes an argument" if r[0] else "takes no argument"
        elif letter and r[1] != ord(letter):
            why = "stands for -%s" % chr(r[1])
        elif r[2] != "null":
            why = "is not returned"
        ctx.ob("--" + name, why is None, where, why or "")
    vals = [r[1] for r in rows.values()]
    dup = sorted({n for n, r in rows.items() if vals.count(r[1]) > 1})
    ctx.ob("option values", not dup, where, "" if not dup else "%s have the same value" % ", ".join(dup))
    # the letters
    short = None
    for k, g in sorted(p.globals.items()):
        i = g.get("init")
        t = text(i)
        if t and re.match(r"^[A-Za-z:]{10,}", t) and ":" in t:
            short = (k, t)
    if short:
        for name, r in sorted(rows.items()):
            c = chr(r[1])
            if not c.isalnum():
                continue
            i = short[1].find(c)
            why = None
            if i < 0:
                why = "-%s is no option although --%s is" % (c, name)
            elif (short[1][i + 1:i + 2] == ":") != bool(r[0]):
                why = "-%s and --%s differ on the argument" % (c, name)
            ctx.ob("-" + c, why is None, where, why or "")
        ctx.need(len(short[1]), 10, "letters")
    # the help text
    for k, g in sorted(p.globals.items()):
        t = text(g.get("init"))
        if not t or t.count("--") < 8:
            continue
        n = 0
        for m in re.finditer(r"(?m)^ *(?:-(\w), )?(?: *)--([a-z][a-z-]+)( arg)?(?= )", t):
            n += 1
            r = rows.get(m.group(2))
            why = None
            if r is None:
                why = "the help describes --%s, which is no option" % m.group(2)
            elif m.group(1) and r[1] != ord(m.group(1)):
                why = "the help gives -%s for --%s" % (m.group(1), m.group(2))
            elif m.group(3) and not r[0]:
                why = "the help gives --%s an argument" % m.group(2)
            ctx.ob("help: --" + m.group(2), why is None, where, why or "")
        ctx.need(n, 10, "options in the help")
    # what they do
    names = {f for _, _, f, _ in OPT.values()} | {"exit", "abort", "atoi", "strtol"}
    fns = [n for n in p._raw if any(i.callee_name() in SET for i in p.fn(n).calls())]
    ctx.need(len(fns), 1, "functions that handle options")
    seen = {}
    for f in fns:
        F = Fragments(ctx, p, f, lambda: FragRule(names, {"all"}), infer=False)
        for o in F.arrivals() + [o for r in F.frag.values() for o in r.outs]:
            pins = [g[0] * T[0][1] for T, g in o.st.facts.items() if len(T) == 1 and g[0] == g[1]]
            calls = [e for e in o.ev if e[0] == "call"]
            sets = [e for e in calls if e[1] in SET or e[1] == "fql_import_variable"]
            mine = [n for n, r in rows.items() if r[1] in pins and n in OPT]
            if len(mine) != 1:
                continue
            name = mine[0]
            letter, has, fn, a = OPT[name]
            seen.setdefault(name, 0)
            why = None
            if [e for e in sets if e[1] != fn] or len(sets) != 1:
                why = "calls %s" % (", ".join(e[1] for e in sets) or "no setter")
            else:
                e = sets[0]
                v = e[2][1]
                opt = lambda y: y[0] == "ld" and y[1] == ("glob", "optarg") or "optarg" in repr(y)
                if a == "arg":
                    ok = v[0] == "ld" and "optarg" in repr(v[1])
                elif a == "int":
                    ok = any(c[1] in ("atoi", "atol", "strtol") and c[2][0][0] == "ld" and opt(c[2][0]) and (v == c[4] or mentions(v, lambda y: y == c[4])) for c in calls)
                elif isinstance(a, str):
                    ok = v == const(E[a])
                else:
                    ok = v == const(a) or a == 1 and is_c(v) and v[1] != 0
                if not ok:
                    why = "passes %s" % show(v)
                else:
                    seen[name] += 1
                if why is None and fn in CANFAIL:
                    bad = o.an.eval_cond(o.st, eq(e[4], FAIL))
                    ex = [c for c in calls if c[1] in ("exit", "_exit")]
                    if bad is not False and not ex:
                        why = "goes on although %s refused" % fn
                    elif ex and ex[0][2][0] == C0:
                        why = "ends with success although %s refused" % fn
            ctx.ob("%s: --%s" % (f, name), why is None, o.where(), why or "", o.trail() if why else None)
    for name in sorted(OPT):
        ctx.ob("--%s is handled" % name, seen.get(name, 0) > 0, where, "" if seen.get(name) else "has no effect")


def text(i):
    if isinstance(i, list) and i:
        if i[0] == "s":
            return i[1]
        if i[0] == "arr" and all(isinstance(x, list) and x[0] == "i" for x in i[1:]):
            return "".join(chr(x[1]) for x in i[1:] if 0 < x[1] < 256)
    return None


def effects(ctx):
    ctx.rule("C21.effect", "where a setting takes effect, the path decides by that setting")
    q = ctx.prog("engine", inline=False)

    def gate(name, callee, member, on, must=True, skip=None):
        if name not in q._raw:
            return
        F = Fragments(ctx, q, name, lambda: FragRule({callee}, set()), infer=False)
        n = m = 0
        for o in F.arrivals() + F.returns():
            known = [(a, o.an.eval_cond(o.st, eq(a, C0))) for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and prop(a) == member]
            val = None
            for a, z in known:
                if z is not None:
                    val = not z
            hit = [e for e in o.ev if e[0] == "call" and e[1] == callee]
            why = None
            if hit:
                n += 1
                if val is not on:
                    why = "%s without regard to %s" % (callee, member)
            elif val is on and must:
                m += 1
                why = "%s is %s, and %s is not called" % (member, "set" if on else "not set", callee)
                if skip and skip(o):
                    why = None
            if hit or val is not None:
                ctx.ob("%s: %s" % (name, member), why is None, o.where(), why or "", o.trail() if why else None)
        ctx.need(n, 1, "calls of %s in %s" % (callee, name))

    gate("fql_exec", "fql_exec_all_plans", "dry_run", False)
    gate("fql_exec_plans", "process_exec_plan_thread", "threading", True)
    gate("fql_exec_plans", "process_exec_plan", "threading", False)
    gate("fql_make_plans", "plan_print", "print_plan", True)
    users = [n for n in q._raw if any(i.callee_name() == "_resolve_join_conditions" for i in q.fn(n).calls())]
    for n in users:
        gate(n, "_resolve_join_conditions", "force_cartesian", False, must=False)
    # settings passed on
    p = ctx.prog("engine", inline=False)
    flows = {"plan.pipe_factor": "pipe_factor", "fqlplan.pipe_factor": "pipe_factor", "plan.loose_groups": "loose_groups", "fqlplan.loose_groups": "loose_groups", "csv_reader.quotes": "in_std", "csv_writer.quotes": "out_std"}
    got = {}
    for name in sorted(p._raw):
        f = p.fn(name)
        if not any(k.split(".")[1] in str(p._raw[name]["blocks"]) and k.split(".")[0] in str(p._raw[name]["blocks"]) for k in flows) or "props" not in str(p._raw[name]["blocks"]):
            continue
        F = Fragments(ctx, p, name, lambda: FragRule(set(), {"all"}), infer=False)
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                if e[0] == "store" and e[1][0] == "fld" and e[1][1] in flows:
                    v = strip(e[2])
                    while v[0] == "not" and v[1][0] == "cmp":
                        v = v[1][2] if len(v[1]) > 2 else v
                        break
                    k = next((prop(a) for a in [v] + list(lin_parts(v)[1]) if prop(a)), None) or inner(v)
                    ok = k == flows[e[1][1]]
                    got[e[1][1].split(".")[1] + e[1][1].split(".")[0]] = 1
                    ctx.ob("%s: %s" % (name, e[1][1]), ok, o.where(), "" if ok else "is given %s" % show(e[2]), o.trail() if not ok else None)
    ctx.need(len(got), 3, "settings passed on")
    delims(ctx, q)
    header(ctx, q)
    stdin_(ctx, q)


def inner(v):
    r = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "fld" and isinstance(x[1], str) and x[1].startswith(PRE):
                r.append(x[1][len(PRE):])
            for y in x:
                walk(y)
    walk(v)
    return r[0] if r and len(set(r)) == 1 else None


def delims(ctx, q):
    n = 0
    for name in sorted(q._raw):
        cs = {i.callee_name() for i in q.fn(name).calls()} & {"op_set_delim", "op_set_rec_terminator", "csv_reader_set_delim"}
        if not cs or "props" not in str(q._raw[name]["blocks"]):
            continue
        F = Fragments(ctx, q, name, lambda: FragRule({"op_set_delim", "op_set_rec_terminator", "csv_reader_set_delim"}, set()), infer=False)
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                want = {"op_set_delim": "out_delim", "op_set_rec_terminator": "rec_terminator", "csv_reader_set_delim": "in_delim"}[e[1]]
                src = e[2][1]
                if inner(src) is None:
                    continue
                n += 1
                why = None
                if inner(src) != want:
                    why = "%s gets %s" % (e[1], inner(src))
                else:
                    guard = "_out_delim_set" if want == "out_delim" else want
                    on = [o.an.eval_cond(o.st, eq(a, C0)) for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and guard in repr(a)]
                    if False not in on:
                        why = "%s although none was set" % e[1]
                ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
            got = {e[1] for e in o.ev}
            # set, and not passed on
            for c, guard in (("op_set_delim", "fqlhandle._out_delim_set"), ("op_set_rec_terminator", PRE + "rec_terminator"), ("csv_reader_set_delim", PRE + "in_delim")):
                if c not in cs or c in got:
                    continue
                on = [o.an.eval_cond(o.st, eq(a, C0)) for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and guard in repr(a)]
                if False in on:
                    ctx.ob(name, False, o.where(), "%s is not called although it was set" % c, o.trail())
    ctx.need(n, 3, "delimiters passed on")


def header(ctx, q):
    name = "fqlselect_preop"
    outs, an = collect(ctx, q, q.fn(name), {"_preop_build_header", "fqlselect_write", "writer_write_record"}, {"all"})
    self_, query = arg(an, 0), arg(an, 1)
    n = 0
    for o in outs:
        if o.died or o.val is None:
            continue
        acts = [e for e in o.ev if e[0] == "call"] + [1 for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "fqlselect.header_as_exprs"]
        f = {}
        for T, g in o.st.facts.items():
            for a, _ in T:
                for k in ("schema.is_default", PRE + "add_header", PRE + "print_header"):
                    if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == k:
                        z = o.an.eval_cond(o.st, eq(a, C0))
                        if z is not None:
                            f[k] = not z
        d, ah, ph = f.get("schema.is_default"), f.get(PRE + "add_header"), f.get(PRE + "print_header")
        why = None
        if acts:
            n += 1
            if not (d is True and ph is True or d is False and ah is True):
                why = "a header although none is wanted"
        elif d is True and ph is True or d is False and ah is True:
            why = "no header although one is wanted"
        if acts or d is not None:
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "paths that write a header")


def stdin_(ctx, q):
    n = 0
    for name in sorted(q._raw):
        if "is_stdin" not in str(q._raw[name]["blocks"]) or "allow_stdin" not in str(q._raw[name]["blocks"]):
            continue
        F = Fragments(ctx, q, name, lambda: FragRule(set(), {"table.is_stdin", "all"}), infer=False)
        for o in F.arrivals() + F.returns():
            for e in o.ev:
                if e[0] == "store" and e[1][0] == "fld" and e[1][1] == "table.is_stdin" and e[2] != C0:
                    n += 1
                    al = [o.an.eval_cond(o.st, eq(a, C0)) for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and prop(a) == "allow_stdin"]
                    off = any(s[0] == "store" and prop(s[1]) == "allow_stdin" and s[2] == C0 for s in o.ev)
                    why = None if False in al else "standard input is used although it was not allowed"
                    if why is None and not off:
                        why = "standard input may be used twice"
                    ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "uses of standard input")
