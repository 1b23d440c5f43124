"""C30: statement objects and file formats are handled by the kind their tag says."""
from .norm import *
from .frag import Fragments, FragRule
from .common import fld

TECHNIQUE = "path-sensitive typestate of tagged objects: for every path of the functions that dispatch on a statement's or format's tag, the kinds its conditions leave possible are compared with the kind of every member used and function called"
LEVEL_NOTE = "every function of the engine whose paths test the tag of a statement object, a reader or a writer; all kinds of the tag's enumeration, all values of everything else"
EXPLANATION = (
    "A statement object is a fqlselect, fqldelete, fqlupdate, fqlset or fqlbranch whose first member says which. On each path of each function that tests this tag the kinds still possible are computed from the path's conditions; members of one kind of structure used, or functions of one kind called, need a path on which only that kind is left. "
    "Constructors store the tag of what they construct. For each shared operation (destroy, prepare, plan, schema, writer, row limit, final types ...) every kind that takes part gets its own structure's counterpart on every path left to it, and the kinds that do not get none. "
    "In readers and writers the tag is the format: functions called and function pointers installed are those of the format the path is on, each pointer gets the role it stands for, standard input gets the variant for standard input, a failed open is a failure, and a format that is not known is one too.")
ASSUMPTIONS = ["which statement objects exist is decided by their constructors; a cast that is not preceded by a test of the tag in the same function relies on its callers and is not judged"]

STRUCTS = {"fqlselect": {"FQL_SELECT"}, "fqldelete": {"FQL_DELETE"}, "fqlupdate": {"FQL_UPDATE"}, "fqlset": {"FQL_SET"}, "fqlbranch": {"FQL_IF", "FQL_WHILE"}}
FORMATS = {"csv_": "IO_LIBCSV", "libcsv_": "IO_LIBCSV", "fixedread_": "IO_FIXED", "fixedwriter_": "IO_FIXED", "subquery_": "IO_SUBQUERY"}
DATA = ("FQL_SELECT", "FQL_DELETE", "FQL_UPDATE")
TAGF = {s + ".oper_type" for s in STRUCTS}
NOCALL = {"csv_perror"}


def walk(x, out):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            out.append(x)
        for y in x:
            walk(y, out)


def terms(*xs):
    out = []
    for x in xs:
        walk(x, out)
    return out


def uv(e):
    """loads without versions, calls without identity"""
    if isinstance(e, tuple):
        if len(e) == 3 and e[0] == "ld":
            return ("ld", uv(e[1]), 0)
        return tuple(uv(x) for x in e)
    return e


def told(o, r):
    """some negative value, or everything but 0, has been sorted out on the path"""
    return o.an.interval(o.st, r)[0] >= 0 or any(len(T) == 1 and T[0][0] == r and any(T[0][1] * x < 0 for x in g[2]) for T, g in o.st.facts.items())


def run(ctx):
    p = ctx.prog("engine", inline=True)
    kinds = p.enums["fql_operation"]
    io = p.enums["io"]
    ctx.need(len(kinds), 7, "kinds of statements")
    ctx.need(len(io), 4, "formats")
    paths = {}

    def frag(f, prog=None, start=False):
        prog = prog or p
        if (f, prog is p) not in paths:
            F = Fragments(ctx, prog, f, lambda: FragRule(None, {"all"}, 400), infer=False)
            hs = [h for h in F.headers if h in F.reachable()]
            paths[f, prog is p] = sum([F.returns(h) + F.arrivals(h) for h in [0] + hs], [])
        return [o for o in paths[f, prog is p] if not start or o.src == 0]

    def left(o, addr, values):
        """the kinds a path leaves to the tag at the address (up to versions)"""
        atoms = {a for T in o.st.facts for a, k in T if a[0] == "ld" and uv(a[1]) in addr}
        return {k for k, v in values.items() if consistent(o, {a: v for a in atoms})}, bool(atoms)

    ctx.rule("C30.construct", "each constructor stores the tag of its kind")
    # ---- constructors
    n = 0
    for s, ks in sorted(STRUCTS.items()):
        f = s + "_construct"
        if not p.has(f):
            continue
        n += 1
        for o in frag(f):
            st = [e for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1] == s + ".oper_type"]
            want = [kinds[k] for k in ks]
            ok = bool(st) and (st[-1][2] == ("c", want[0]) if len(ks) == 1 else st[-1][2][0] in ("arg", "c"))
            ctx.ob("%s: tag" % f, ok, o.where(), "" if ok else "the object does not get the tag of its kind", o.trail() if not ok else None)
    ctx.need(n, 4, "constructors of statements")
    for f in sorted(p.names()):
        if not any(i.callee_name() == "fqlbranch_construct" for i in p.fn(f).insts()):
            continue
        for o in frag(f):
            for e in ev_calls(o, "fqlbranch_construct"):
                v = e[2][3]
                lo, hi = o.an.interval(o.st, v)[:2]
                ok = lo >= kinds["FQL_IF"] and hi <= kinds["FQL_WHILE"] and (lo == hi or o.an.eval_cond(o.st, eq(v, const(kinds["FQL_SET"]))) is False)
                ctx.ob("%s: kind of branch" % f, ok, o.where(), "" if ok else "constructs a branch with the tag of another kind", o.trail() if not ok else None)

    # what a statement is created for decides what is created
    nmade = 0
    for f in sorted(p.names()):
        made = {i.callee_name() for i in p.fn(f).insts()} & {s + "_construct" for s in STRUCTS}
        if not made:
            continue
        verdict = {}
        # the argument told apart into three values or more says what is wanted
        seen = {}
        for o in frag(f):
            for T, g in o.st.facts.items():
                if len(T) == 1 and T[0][0][0] == "arg" and g[0] == g[1]:
                    seen.setdefault(T[0][0], set()).add(g[0])
        for o in frag(f):
            for e in ev_calls(o, *made):
                s = e[1][:-len("_construct")]
                for T, g in o.st.facts.items():
                    if len(T) == 1 and len(seen.get(T[0][0], ())) > 2:
                        ks = {k for k, v in kinds.items() if consistent(o, {T[0][0]: v})}
                        nmade += 1
                        ok = ks <= STRUCTS[s]
                        if ok and s == "fqlbranch":
                            ok = e[2][3] == T[0][0] or e[2][3][0] == "c" and ks == {k for k, v in kinds.items() if v == e[2][3][1]}
                        if s not in verdict or not ok:
                            verdict[s] = (ok, o, ks)
        for s, (ok, o, ks) in sorted(verdict.items()):
            ctx.ob("%s: creates %s" % (f, s), ok, o.where(), "" if ok else "a %s is created for %s" % (s, ", ".join(sorted(ks))), o.trail() if not ok else None)

    ctx.need(nmade, 5, "kinds created on demand")
    ctx.rule("C30.tag", "members and functions of one kind of statement are used only on paths on which the tag leaves that kind alone")
    # ---- tags
    flat = ctx.prog("engine", inline=False)
    ntag = 0
    for f in sorted(p.names()):
        if f.endswith("_construct"):
            continue
        raw = repr(p._raw[f])
        home = p.file_of(f, "") == "lib/operation.c"
        if not home and not any(("'%s." % s) in raw or ("'" + s + "'") in raw or ("struct." + s) in raw or (s + "_") in raw for s in STRUCTS):
            continue
        if not home and len(p.fn(f).blocks) > 160:
            continue
        verdict = {}
        for o in frag(f, p if home else flat):
            used = {}
            for e in o.ev:
                if e[0] == "call":
                    for s in STRUCTS:
                        if e[1].startswith(s + "_") and not e[1].endswith("_construct") and e[2]:
                            b = uv(e[2][0])
                            used.setdefault((s, b), e[1])
            for t in terms(o.val, *[x for e in o.ev for x in e[1:] if isinstance(x, tuple)]):
                if t[0] == "fld" and t[1].split(".")[0] in STRUCTS and t[1] not in TAGF:
                    used.setdefault((t[1].split(".")[0], uv(t[2])), t[1])
            for (s, b), what in used.items():
                # the tag is read through the object itself, or through any view of it
                addr = {b} | {fld(x, b) for x in TAGF}
                if b[0] == "arg" and what.endswith("_apply_process"):
                    addr = {("ld", fld("query.op", b), 0)}
                ks, tested = left(o, addr, kinds)
                if not tested and (not home or o.src != 0):
                    continue
                if home and b[0] not in ("arg", "ld"):
                    continue
                ntag += 1
                ok = ks <= STRUCTS[s]
                if not ok or (s, what) not in verdict:
                    verdict[(s, what)] = (ok, o, ks)
        for (s, what), (ok, o, ks) in sorted(verdict.items(), key=str):
            ctx.ob("%s: %s" % (f, what), ok, o.where(), "" if ok else "%s is used as a %s while its tag can be %s" % ("the statement", s, ", ".join(sorted(ks - STRUCTS[s]))), o.trail() if not ok else None)
    ctx.need(ntag, 25, "uses of tagged statements")

    ctx.rule("C30.operation", "each shared operation does for every kind what that kind provides")
    # ---- operations
    def member(s, m, b):
        return fld(s + "." + m, b)

    own = {"FQL_SELECT": "fqlselect", "FQL_DELETE": "fqldelete", "FQL_UPDATE": "fqlupdate", "FQL_SET": "fqlset", "FQL_IF": "fqlbranch", "FQL_WHILE": "fqlbranch"}
    nop = [0]

    def each(f, check, fail=None):
        """check(kind, struct, outcome, statement) for every path a kind can take"""
        if not p.has(f):
            return
        nop[0] += 1
        for k in sorted(own):
            bad = None
            some = False
            for o in frag(f, None, True):
                a0 = arg(o.an, 0)
                q = ("ld", fld("query.op", a0), 0)
                ops = {a0, q}
                ks, tested = left(o, ops, kinds)
                if k not in ks:
                    continue
                some = True
                m = check(k, own[k], o, a0, q)
                if m:
                    bad = (m, o)
                    break
            if not some:
                bad = ("no path is left to this kind", None)
            ctx.ob("%s: %s" % (f, k), bad is None, bad[1].where() if bad and bad[1] else p.fn(f).loc(p.fn(f).blocks[0][0]), bad[0] if bad else "", bad[1].trail() if bad and bad[1] else None)

    def getter(m, having, ref=False):
        def c(k, s, o, a0, q):
            v = uv(o.val)
            if k in having:
                w = member(s, m, a0)
                if v != (w if ref else ("ld", w, 0)):
                    return "does not give the %s of the statement" % m
            elif v != C0:
                return "gives something for a kind that has none"
        return c

    def setter(m, having):
        def c(k, s, o, a0, q):
            st = [e for e in o.ev if e[0] == "store"]
            if k in having:
                a1 = arg(o.an, 1)
                if not any(uv(e[1]) == member(s, m, a0) and e[2] == a1 for e in st):
                    return "does not set the %s of the statement" % m
            elif st:
                return "stores for a kind that has none"
        return c

    def forward(suffix, having, result=()):
        def c(k, s, o, a0, q):
            calls = [e for e in o.ev if e[0] == "call" and any(e[1].startswith(x + "_") for x in STRUCTS)]
            if k in having:
                mine = [e for e in calls if e[1] == s + suffix]
                if not mine:
                    return "%s%s is not called" % (s, suffix)
                if k in result:
                    r = mine[-1][4]
                    iv = o.an.interval(o.st, sub(o.val, r)) if o.val is not None else (1, 1)
                    if iv[:2] != (0, 0):
                        x = o.an.interval(o.st, r)
                        y = o.an.interval(o.st, o.val) if o.val is not None else (0, 0)
                        if not (x[0] == x[1] and x[:2] == y[:2]) and not (y[0] >= 0 and told(o, r)):
                            return "the result of %s%s is lost" % (s, suffix)
            elif calls:
                return "calls a function of another kind"
        return c

    each("op_get_schema", getter("schema", DATA))
    each("op_get_writer", getter("writer", DATA))
    each("op_get_additional_exprs", getter("value_expressions", ("FQL_UPDATE",), True))
    each("op_set_top_count", setter("top_count", DATA))
    each("op_set_writer", setter("writer", DATA))
    each("op_destroy", forward("_destroy", own))
    each("op_apply_process", forward("_apply_process", own, ("FQL_DELETE", "FQL_UPDATE", "FQL_SET", "FQL_IF", "FQL_WHILE")))
    each("op_resolve_final_types", forward("_resolve_final_types", ("FQL_SELECT", "FQL_UPDATE"), ("FQL_SELECT", "FQL_UPDATE")))

    def preop(k, s, o, a0, q):
        stepped = ("ld", fld("fqlplan.has_stepped", ("ld", fld("query.plan", a0), 0)), 0)
        for T, g in o.st.facts.items():
            if len(T) == 1 and uv(T[0][0]) == stepped and (0 in g[2] or g[0] > 0):
                return None if not [e for e in o.ev if e[0] == "call"] else "prepares a statement that is being stepped"
        return forward("_preop", own, DATA)(k, s, o, a0, q)
    each("op_preop", preop)

    def rownum(k, s, o, a0, q):
        st = [e for e in o.ev if e[0] == "store"]
        if k in ("FQL_SELECT", "FQL_UPDATE"):
            a1 = arg(o.an, 1)
            if not any(uv(e[1]) == fld("expression.rownum_ref", a1) and uv(e[2]) == member(s, "rownum", a0) for e in st):
                return "the expression is not bound to the row number of the statement"
        elif st:
            return "stores for a kind that has none"
    each("op_assign_rownum_ref", rownum)

    def alias(k, s, o, a0, q):
        st = [(uv(e[1]), uv(e[2])) for e in o.ev if e[0] == "store"]
        if k not in ("FQL_DELETE", "FQL_UPDATE"):
            return "matches a kind that has no target table" if st else None
        a1 = arg(o.an, 1)
        idx = (member(s, "table_idx", a0), ("ld", fld("table.idx", a1), 0))
        cmps = [e for e in o.ev if e[0] == "call" and e[1] == "strcasecmp"]
        for e in cmps:
            if ("table_name") not in repr(e[2]) or (s + ".schema") not in repr(e[2]):
                return "the name compared is not the target of the statement"
        hit = [e for e in cmps if o.an.interval(o.st, e[4])[:2] == (0, 0)]
        al = [e for e in hit if "table.alias" in repr(e[2])]
        if hit and idx not in st:
            return "a table that matches does not become the target"
        if al and (member(s, "has_matched_alias", a0), ("c", 1)) not in st:
            return "the match of an alias is not remembered"
        if not hit and st:
            return "a table that does not match becomes the target"
        if not al and any(a == member(s, "has_matched_alias", a0) for a, v in st):
            return "an alias that does not match is remembered"
        if not cmps:
            seen = ("ld", member(s, "has_matched_alias", a0), 0)
            if not any(len(T) == 1 and uv(T[0][0]) == seen and (0 in g[2] or g[0] > 0) for T, g in o.st.facts.items()):
                return "the table is not compared"
        elif not hit and not {"table.alias", "table.name"} <= {x for e in cmps for x in ("table.alias", "table.name") if x in repr(e[2])}:
            return "only one of alias and name is compared"
    each("op_match_table_alias", alias)

    def name(k, s, o, a0, q):
        v = repr(o.val)
        if k in ("FQL_DELETE", "FQL_UPDATE"):
            if s + ".schema" not in v and not any(s + ".schema" in repr(e) for e in o.ev):
                return "does not give the name in the statement's own schema"
        elif o.val != C0:
            return "gives a name for a kind that has none"
    each("op_get_table_name", name)

    def exprs(k, s, o, a0, q):
        if k == "FQL_SET":
            return None if uv(o.val) == member(s, "_expr_vec", a0) else "does not give the expressions of SET"
        v = uv(o.val)
        if v == C0:
            r = ev_calls(o, "op_get_schema")
            sc = r[-1][4] if r else ("ld", member(s, "schema", a0), 0)
            if k not in DATA or any(len(T) == 1 and uv(T[0][0]) == uv(sc) and g[:2] == (0, 0) for T, g in o.st.facts.items()):
                return None
            return "gives no expressions"
        if v[0] == "ld" and v[1][:2] == ("fld", "schema.expressions"):
            return None
        return "does not give the expressions of the schema"
    each("op_get_expressions", exprs)

    fail = p.enumval.get("FQL_FAIL")

    def reset(k, s, o, a0, q):
        calls = [e for e in o.ev if e[0] == "call" and any(e[1].startswith(x + "_") for x in STRUCTS)]
        if k not in DATA:
            return "calls a function of another kind" if calls else None
        mine = [e for e in calls if e[1] == s + "_reset"]
        if not mine:
            return "%s_reset is not called" % s
        if k != "FQL_SELECT":
            at = [e for e in ev_calls(o, "vec_at") if uv(e[2][1]) == ("ld", member(s, "table_idx", q), 0)]
            tgt = repr(("fld", s + ".table_idx"))[1:-1]
            if not at and tgt not in repr(o.ev):
                return "the target table is not looked up by the statement's index"
    each("op_reset", reset)

    def winit(k, s, o, a0, q):
        need = {"FQL_SELECT": "fqlselect_verify_must_run", "FQL_UPDATE": "fqlupdate_resolve_additional"}.get(k)
        calls = [e[1] for e in o.ev if e[0] == "call" and any(e[1].startswith(x + "_") for x in STRUCTS)]
        if need and need not in calls:
            # a failure before it ends the initialisation
            if o.val is not None and o.an.interval(o.st, o.val)[1] < 0:
                return None
            return need + " is not called"
        if not need and calls:
            return "calls a function of another kind"
    if p.has("op_writer_init"):
        f = "op_writer_init"
        if not p.fn(f).loops:
            each(f, winit)
        else:
            # the loop belongs to one of the kinds: every way out passes one of the two
            bad = None
            for o in frag(f):
                if hasattr(o, "dst") or o.val is not None and o.an.interval(o.st, o.val)[1] < 0:
                    continue
                names = {e[1] for e in o.ev if e[0] == "call"} & {"fqlselect_verify_must_run", "fqlupdate_resolve_additional"}
                if o.src != 0:
                    if not names:
                        bad = ("neither fqlselect_verify_must_run nor fqlupdate_resolve_additional is called", o)
                    continue
                a0 = arg(o.an, 0)
                ks, t = left(o, {("ld", fld("query.op", a0), 0)}, kinds)
                for k in sorted(ks & set(own)):
                    m = winit(k, own[k], o, a0, None)
                    if m:
                        bad = (m, o)
            ctx.ob(f, bad is None, bad[1].where() if bad else p.fn(f).loc(p.fn(f).blocks[0][0]), bad[0] if bad else "", bad[1].trail() if bad else None)
            nop[0] += 1
    ctx.need(nop[0], 12, "shared operations")

    ctx.rule("C30.format", "readers and writers of each format are served by the functions of that format; unknown formats fail")
    formats(ctx, p, frag, left, io)


ROLES = {"free__": "free", "get_record__": "get_record", "get_record_at__": "get_record_at", "reset__": "reset", "write_record__": "write_record"}


def formats(ctx, p, frag, left, io):
    nf = 0
    prefix = lambda s: next((v for k, v in FORMATS.items() if s.startswith(k)), None)
    fails = {}
    for f in sorted(p.names()):
        file = p.file_of(f, "")
        if file not in ("lib/reader.c", "lib/writer.c"):
            continue
        kindf = "reader.type" if file.endswith("reader.c") else "writer.type"
        valid = ("IO_LIBCSV", "IO_FIXED", "IO_SUBQUERY") if kindf == "reader.type" else ("IO_LIBCSV", "IO_FIXED")
        if f.endswith("_construct"):
            continue
        outs = frag(f, None, True)
        tested = False
        done = {}
        did = {k: [] for k in io}

        def note(key, ok, o, msg):
            if key not in done or not ok and done[key][0]:
                done[key] = (ok, o, msg)
        for o in outs:
            a0 = arg(o.an, 0)
            ks, t = left(o, {fld(kindf, a0)}, io)
            tested = tested or t
            names = [e[1] for e in o.ev if e[0] == "call" and e[1] not in NOCALL]
            fns = [x[1] for e in o.ev if e[0] == "store" for x in terms(e[2]) if x[0] == "fn"]
            for c in names + fns:
                w = prefix(c)
                if w is None:
                    continue
                nf += 1
                ok = ks <= {w}
                note(c, ok, o, "" if ok else "%s is used for a %s whose format can be %s" % (c, kindf[:6], ", ".join(sorted(ks - {w}))))
            for k in ks:
                did[k].append(o)
        if not tested:
            if done:
                for c, (ok, o, msg) in sorted(done.items()):
                    ctx.ob("%s: %s" % (f, c), ok, o.where(), msg, o.trail() if not ok else None)
            continue
        for c, (ok, o, msg) in sorted(done.items()):
            ctx.ob("%s: %s" % (f, c), ok, o.where(), msg, o.trail() if not ok else None)
        table(ctx, p, f, kindf, valid, did)
    ctx.need(nf, 40, "uses of format functions")


SERVES = {
    # function: {format: (functions one of which runs on every path, result is a failure if it fails)}
    "reader_reopen": {"IO_LIBCSV": ("csv_reader_open_mmap",), "IO_FIXED": ("fixedread_reopen",)},
    "reader_get_file_size": {"IO_LIBCSV": ("csv_reader_get_file_size",)},
    "writer_destroy": {"IO_LIBCSV": ("csv_writer_free",), "IO_FIXED": ("fixedwriter_destroy",)},
    "writer_open": {"IO_LIBCSV": ("csv_writer_open",), "IO_FIXED": ("fixedwriter_open",)},
    "writer_close": {"IO_LIBCSV": ("csv_writer_close",), "IO_FIXED": ("fixedwriter_close",)},
    "writer_get_file": {"IO_LIBCSV": ("csv_writer_get_file",), "IO_FIXED": ("fixedwriter_get_file",)},
    "writer_take_filename": {"IO_LIBCSV": ("csv_writer_detach_filename",), "IO_FIXED": ("fixedwriter_take_filename",)},
    "writer_export_temp": {"IO_LIBCSV": ("csv_writer_export_tmp",), "IO_FIXED": ("fixedwriter_export_temp",)},
    "writer_set_delimiter": {"IO_LIBCSV": ("csv_writer_set_delim",)},
    "writer_set_rec_terminator": {"IO_LIBCSV": ("csv_writer_set_line_ending",)},
}
FALLIBLE = {"csv_reader_open_mmap", "fixedread_reopen", "fixedread_open", "csv_writer_open", "fixedwriter_open", "csv_writer_close", "fixedwriter_close"}
RETURNED = {"csv_writer_get_file", "fixedwriter_get_file", "csv_writer_detach_filename", "fixedwriter_take_filename", "csv_writer_export_tmp", "fixedwriter_export_temp", "csv_reader_get_file_size"}
# formats that are not known: what the caller is told
UNKNOWN = {"reader_assign": "fail", "reader_reopen": "fail", "writer_close": "fail", "writer_get_file": "null", "writer_take_filename": "null", "writer_export_temp": "null", "reader_get_file_size": "null"}


def table(ctx, p, f, kindf, valid, did):
    here = p.fn(f).loc(p.fn(f).blocks[0][0])

    def report(k, bad):
        ctx.ob("%s: %s" % (f, k), bad is None, bad[1].where() if bad and bad[1] else here, bad[0] if bad else "", bad[1].trail() if bad and bad[1] else None)
    neg = lambda o: o.val is not None and o.an.interval(o.st, o.val)[1] < 0
    if f in SERVES:
        for k, want in SERVES[f].items():
            bad = None if did[k] else ("no path is left to this format", None)
            for o in did[k]:
                if f == "writer_close" and not any("type" in repr(T) for T in o.st.facts):
                    continue
                mine = [e for e in o.ev if e[0] == "call" and e[1] in want]
                if not mine:
                    if neg(o) or f == "writer_export_temp" and o.val == C0 and ev_calls(o, "csv_writer_mktmp"):
                        continue
                    bad = ("%s is not called" % want[0], o)
                    break
                e = mine[-1]
                if e[1] in RETURNED and o.val != e[4]:
                    bad = ("the result of %s is lost" % e[1], o)
                    break
                if e[1] in FALLIBLE:
                    if not neg(o) and not told(o, e[4]) and o.val != e[4]:
                        bad = ("a failure of %s is taken for success" % e[1], o)
                        break
                if e[1] in ("csv_writer_open", "fixedwriter_open") and e[2][1] != arg(o.an, 1) or e[1] in ("csv_writer_set_delim", "csv_writer_set_line_ending") and e[2][1] != arg(o.an, 1):
                    bad = ("%s does not get what the caller gave" % e[1], o)
                    break
            report(k, bad)
    if f in UNKNOWN:
        for k in sorted(did):
            if k in valid and k in SERVES.get(f, {}) or f == "reader_assign" and k in valid or f == "reader_get_file_size" and k in valid:
                continue
            bad = None
            for o in did[k]:
                if f == "writer_close" and not any("type" in repr(T) for T in o.st.facts):
                    continue
                if UNKNOWN[f] == "fail" and not neg(o):
                    bad = ("a format that is not handled here is taken for success", o)
                if UNKNOWN[f] == "null" and o.val != C0:
                    bad = ("gives something for a format that has none", o)
            report(k, bad)
    pointers = {m for o in sum(did.values(), []) for e in o.ev if e[0] == "store" and e[1][0] == "fld" for m in [e[1][1].split(".")[-1]] if m in ROLES}
    if len(pointers) >= 1 and f not in SERVES:
        need = [m for m in ROLES if any(x[0] == m for x in p.structs[kindf.split(".")[0]]["members"])]
        for k in valid:
            bad = None if did[k] else ("no path is left to this format", None)
            for o in did[k]:
                a0 = arg(o.an, 0)
                if neg(o):
                    continue
                for m in need:
                    st = [e for e in o.ev if e[0] == "store" and e[1] == fld(kindf.split(".")[0] + "." + m, a0)]
                    inp = [T for T in o.st.facts if len(T) == 1 and T[0][0][0] == "ld" and T[0][0][1][:2] == ("fld", "table.is_stdin")]
                    is_std = any(o.an.eval_cond(o.st, eq(T[0][0], C0)) is False for T in inp)
                    cand = [(st[-1][2], inp and is_std, bool(inp))] if st else []
                    if st and st[-1][2][0] == "sel":
                        v = st[-1][2]
                        flag = [t for t in terms(v[1]) if t[0] == "ld" and t[1][:2] == ("fld", "table.is_stdin")]
                        cand = []
                        for x in (0, 1):
                            t = evaluate(v[1], {a: x for a in flag})
                            if t is not None and (not inp or x == int(is_std)):
                                cand.append((v[2] if t else v[3], bool(x), True))
                    if not cand or any(v[0] != "fn" for v, x, y in cand):
                        bad = ("%s is not installed" % m, o)
                        break
                    for v, x, y in cand:
                        g = v[1]
                        pre = next((q for q in sorted(FORMATS, key=len, reverse=True) if g.startswith(q)), "")
                        if FORMATS.get(pre) != k:
                            bad = ("%s gets %s" % (m, g), o)
                        role = g[len(pre):]
                        std = role.endswith("_stdin")
                        if std:
                            role = role[:-6]
                        if role != ROLES[m]:
                            bad = ("%s gets %s" % (m, g), o)
                        elif p.has(pre + ROLES[m] + "_stdin") and (not y or std != x):
                            bad = ("%s gets %s whether or not the table is standard input" % (m, g), o)
                    if bad:
                        break
                data = [e for e in o.ev if e[0] == "store" and e[1][0] == "fld" and e[1][1].split(".")[-1].endswith("er_data")]
                if not bad and not data:
                    bad = ("the object of the format is not installed", o)
                if bad:
                    break
            report(k, bad)
