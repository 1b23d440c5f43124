"""C11: temporary files."""
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "path-sensitive typestate analysis of temporary files (created, registered, removed or renamed), with who-may-remove over the whole engine, from the compiler's intermediate representation"
LEVEL_NOTE = "every path of every engine function that creates, registers, forgets, renames or removes a temporary file, and of the signal, exit and reset handlers; any number of files"
EXPLANATION = (
    "Every path that creates a temporary file registers the name it was created under before it returns. Files are removed nowhere but under a name just taken from the register, and a name leaves the register only when its file is removed right after or was renamed into place before. "
    "Clearing the register takes out and removes one file after the other until none is left. It is done when a handle is reset, on interrupt, quit, hang-up and termination, and when the process exits by any other way once a handle was made: the handlers are installed whenever a handle is created.")
ASSUMPTIONS = ["temporary files made by libcsv are libcsv's to remove", "SIGKILL and power loss cannot be handled"]
SCOPE_NOTE = "a signal that arrives between the creation of a file and its registration a few instructions later."

REMOVERS = {"remove", "unlink", "unlinkat", "rmdir"}
TAKE = {"node_remove", "node_dequeue", "node_pop"}
MAKE = {"mkstemp", "mkstemps", "mkostemp", "tmpnam", "mktemp", "tempnam"}
SIGNALS = {2: "SIGINT", 3: "SIGQUIT", 15: "SIGTERM", 1: "SIGHUP"}


def all_outs(F):
    return [o for h in [0] + [h for h in F.headers if h in F.reachable()] for o in F.returns(h) + F.arrivals(h)]


def where_of(e):
    """the string object a name comes from"""
    if e[0] == "call" and e[1] in ("string_c_str", "vec_begin"):
        return where_of(e[3][0])
    if e[0] == "ld":
        return where_of(e[1])
    if e[0] == "fld" and e[1] in ("vec.data", "stringy.data", "string.data"):
        return where_of(e[2])
    return unver(e)


def sites(p, names):
    return sorted(g for g in p.names() if any(i.callee_name() in names for i in p.fn(g).insts()))


def helper_names(p):
    return [n for n in p.names() if p.rel(p._raw[n]["file"]) == "lib/fqlsig.c" or p._raw[n]["file"].endswith("lib/fqlsig.c")]


def register(ctx):
    """the list the names are kept in"""
    global HEAD
    p = ctx.prog("engine", inline=False)
    outs, an = collect(ctx, p, p.fn("fqlsig_tmp_push"), {"node_enqueue", "node_push"}, set())
    heads = {e[2][0] for o in outs for e in o.ev if e[0] == "call"}
    if len(heads) != 1 or list(heads)[0][0] != "glob":
        raise AnalysisError("list of registered temporary files not found")
    HEAD = heads.pop()


def run(ctx):
    register(ctx)
    created(ctx)
    removed(ctx)
    cleared(ctx)
    handlers(ctx)


def unver(e):
    from .. import ir
    return ir.unver(e)


def created(ctx):
    ctx.rule("C11.created", "a temporary file is registered under its name on every path that created it")
    p = ctx.prog("engine", inline=False)
    every = set(p.names())
    makers = sites(p, MAKE)
    ctx.need(len(makers), 2, "functions that create temporary files")
    pending = judge_created(ctx, p, makers, report=False)
    lifted = {g for g in pending if sites(p, {g})}
    judge_created(ctx, p, [g for g in makers if g not in lifted], True)
    if lifted:
        q = ctx.prog("engine", keep=sorted(every - lifted))
        judge_created(ctx, q, sorted({u for g in lifted for u in sites(p, {g})} - lifted), True)


def judge_created(ctx, p, names, report):
    bad = set()
    for g in names:
        F = Fragments(ctx, p, g, lambda: FragRule(MAKE | {"fqlsig_tmp_push"}, set(), 100), infer=False)
        for o in all_outs(F):
            mk = [(k, e) for k, e in enumerate(o.ev) if e[1] in MAKE]
            why = None
            for k, e in mk:
                if o.an.eval_cond(o.st, eq(e[4], const(-1))) is True or o.an.interval(o.st, e[4])[1] < 0:
                    continue
                name = where_of(e[2][0])
                if not any(x[1] == "fqlsig_tmp_push" and where_of(x[2][0]) == name for x in o.ev[k + 1:]):
                    why = "creates a temporary file and returns without registering it"
            if why:
                bad.add(g)
            if report and (mk or why):
                ctx.ob(p.fn(g).src, why is None, o.where(), why or "", o.trail() if why else None)
    return bad


def removed(ctx):
    ctx.rule("C11.removed", "only files whose name was just taken from the register are removed; a name is taken from it only when its file is removed then or was renamed into place before")
    p = ctx.prog("engine", inline=False)
    every = set(p.names())
    helpers = set(helper_names(p))
    # functions of the register that are part of whoever calls them
    inl = {h for h in helpers if h not in ("fqlsig_tmp_removeall", "fqlsig_init_sig", "fqlsig_cleanexit", "fqlsig_tmp_push")}
    names = set(sites(p, inl | REMOVERS)) - inl
    # a helper elsewhere that removes what it is handed
    for g in sorted(names):
        f = p.fn(g)
        if g not in helpers and any(i.callee_name() in REMOVERS for i in f.insts()) and len(f.blocks) < 6 and sites(p, {g}):
            inl.add(g)
    names = (set(sites(p, inl | REMOVERS)) | {"fqlsig_tmp_removeall"}) - inl
    q = ctx.prog("engine", keep=sorted(every - inl))
    n = 0
    for g in sorted(names):
        F = Fragments(ctx, q, g, lambda: FragRule(REMOVERS | TAKE | {"rename"}, set(), 100), infer=False)
        for o in all_outs(F):
            ev = o.ev
            why = None
            seen = False
            for k, e in enumerate(ev):
                if e[1] in REMOVERS:
                    seen = True
                    if not any(x[1] in TAKE and x[2][0] == HEAD and x[4] == e[2][0] for x in ev[:k]):
                        why = "removes %s, which was not taken from the register" % show(e[2][0])
                elif e[1] in TAKE and e[2][0] == HEAD:
                    seen = True
                    gone = any(x[1] in REMOVERS and x[2][0] == e[4] for x in ev[k + 1:])
                    moved = any(x[1] == "rename" and o.an.eval_cond(o.st, eq(x[4], C0)) is True for x in ev[:k])
                    if not gone and not moved:
                        why = "forgets a temporary file that was neither removed nor renamed into place"
            if seen:
                n += 1
                ctx.ob(q.fn(g).src, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "paths that take names from the register")


def cleared(ctx):
    ctx.rule("C11.cleared", "clearing the register goes on until it is empty")
    p = ctx.prog("engine", inline=False)
    every = set(p.names())
    inl = {h for h in helper_names(p) if h != "fqlsig_tmp_removeall"}
    q = ctx.prog("engine", keep=sorted(every - inl))
    F = Fragments(ctx, q, "fqlsig_tmp_removeall", lambda: FragRule(REMOVERS | TAKE, set(), 100), infer=False)
    n = 0
    for h in [0] + [h for h in F.headers if h in F.reachable()]:
        for o in F.returns(h):
            n += 1
            head = o.read(HEAD)
            took = [e for e in o.ev if e[1] in TAKE and e[2][0] == HEAD]
            ok = o.an.eval_cond(o.st, eq(head, C0)) is True or bool(took) and o.an.eval_cond(o.st, eq(took[-1][4], C0)) is True
            ctx.ob("fqlsig_tmp_removeall", ok, o.where(), "" if ok else "stops while files are still registered", o.trail() if not ok else None)
    ctx.need(n, 1, "ends of clearing the register")
    ctx.rule("C11.reset", "resetting a handle clears the register")
    f = q.fn("fql_reset")
    must_call(ctx, q, "fql_reset", "fqlsig_tmp_removeall", "a reset does not clear the register")


def must_call(ctx, q, g, callee, msg):
    from .c08 import escapes
    f = q.fn(g)
    ok = not escapes(f, {callee})
    ctx.ob("%s: %s" % (f.src, callee), ok, f.loc(f.blocks[0][0]), "" if ok else msg)


def numbers(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "i" and isinstance(x[1], int):
            yield x[1]
        for y in x:
            yield from numbers(y)


def handlers(ctx):
    ctx.rule("C11.handlers", "making a handle installs the handlers; each handler and every exit of the process clear the register")
    p = ctx.prog("engine", inline=False)
    must_call(ctx, p, "fql_construct", "fqlsig_init_sig", "a handle is made without installing the handlers")
    q = p
    outs, an = collect(ctx, q, q.fn("fqlsig_init_sig"), {"sigaction", "signal", "atexit"}, {"all"}, 200)
    n = 0
    handler = set()
    for o in returns(outs):
        st = [e for e in o.ev if e[0] == "store"]
        calls = [e for e in o.ev if e[0] == "call"]
        if not calls:
            # already installed
            n += 1
            ok = any(a[0] == "ld" and a[1][0] == "glob" for T in o.st.facts for a, k in T)
            ctx.ob("fqlsig_init_sig", ok, o.where(), "" if ok else "installs nothing")
            continue
        n += 1
        have = set()
        cur = {}
        for e in o.ev:
            if e[0] == "store":
                if e[2][0] == "fn":
                    cur[repr(e[1])] = e[2][1]
            elif e[1] == "sigaction" and e[2][1] != C0 and is_c(e[2][0]):
                hs = {v for k, v in cur.items() if repr(e[2][1]) in k}
                if len(hs) == 1:
                    have.add(e[2][0][1])
                    handler |= hs
            elif e[1] == "signal" and is_c(e[2][0]) and e[2][1][0] == "fn":
                have.add(e[2][0][1])
                handler.add(e[2][1][1])
        if any(i.callee_name() in ("sigaction", "signal") and not isinstance(i.a[0], list) for i in q.fn("fqlsig_init_sig").insts()):
            # the signals come from a table: every one of its entries is one of them
            for g in q.globals.values():
                have |= set(numbers(g.get("init"))) if g.get("const") else set()
            handler |= {v for v in cur.values()}
            have |= {e[2][1] for e in o.ev if e[0] == "store" and is_c(e[2])}
        miss = [s for k, s in sorted(SIGNALS.items()) if k not in have]
        ctx.ob("fqlsig_init_sig", not miss, o.where(), "" if not miss else "does not handle %s" % ", ".join(miss))
        ex = [e for e in calls if e[1] == "atexit" and e[2][0][0] == "fn"]
        handler |= {e[2][0][1] for e in ex}
        ctx.ob("fqlsig_init_sig: exit", bool(ex), o.where(), "" if ex else "the process can exit (a stage that fails in a worker thread) with files still registered")
    ctx.need(n, 1, "paths that install the handlers")
    for h in sorted(handler):
        if h == "fqlsig_tmp_removeall":
            continue
        f = p.fn(h)
        bad = []
        F = Fragments(ctx, p, h, lambda: FragRule({"fqlsig_tmp_removeall", "exit", "_exit", "abort", "_Exit", "quick_exit"}, set(), 100), infer=False)
        outs, an = collect(ctx, p, f, {"fqlsig_tmp_removeall", "exit", "_exit", "abort", "_Exit", "quick_exit"}, set(), 100)
        for o in outs:
            ok = any(e[1] == "fqlsig_tmp_removeall" for e in o.ev)
            ctx.ob(h, ok, o.where(), "" if ok else "ends without clearing the register")
