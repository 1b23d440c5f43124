"""C10: a destination is replaced only by a complete, successfully written file."""
from .norm import *
from .frag import Fragments, FragRule
from .c12 import READ, text_of

TECHNIQUE = "path analysis on the compiler's intermediate representation of the life of a result file (temporary, checked close, rename), with who-may-call rules for everything that can touch a destination"
LEVEL_NOTE = "every path of opening and closing a fixed-width result file, every call that closes a result, every call in the engine that opens a file for writing, renames or truncates one; the CSV library's own writer is assumed to do the same for CSV"
EXPLANATION = (
    "A fixed-width result goes to a file made by mkstemp in the directory of the destination. Closing it renames the temporary over the destination only after the stream reported no write error and was closed without one, and closing succeeds only if that rename did. "
    "The writer hands the outcome on; a stage closes its result only when there is no more input, hands the outcome on, and reports completion only when closing succeeded. "
    "No other place renames, truncates or opens for writing a file named by the user (a sorted result does: known finding).")
ASSUMPTIONS = ["libcsv's writer writes a temporary and renames it on a successful close", "rename replaces a file atomically"]

FAIL = const(-5)
# who may call what
MAY = {"rename": {"fixedwriter_close"}, "fixedwriter_close": {"writer_close"}, "csv_writer_close": {"writer_close"},
       "fixedwriter_open": {"writer_open"}, "csv_writer_open": {"writer_open"},
       "truncate": set(), "ftruncate": set(), "creat": set(), "freopen": set(), "openat": set(), "link": set(), "symlink": set()}


def run(ctx):
    temp(ctx)
    replace(ctx)
    interface(ctx)
    stages(ctx)
    files(ctx)


def temp(ctx):
    ctx.rule("C10.temp", "rows go to a new temporary file beside the destination")
    p = ctx.prog("engine", keep=["string_strcpy", "string_strcat", "string_append", "string_sprintf", "vec_empty", "fqlsig_tmp_push", "string_c_str"])
    users = [f for f in sorted(p._raw) if f.startswith("fixedwriter") and not f.startswith("fixedwriter_const") and f == "fixedwriter_open"]
    ctx.need(len(users), 1, "functions that open a fixed-width result")
    n = 0
    for name in users:
        F = Fragments(ctx, p, name, lambda: FragRule({"string_strcpy", "string_strcat", "mkstemp", "fdopen", "fopen", "open", "dirname", "strdup", "fqlsig_tmp_push"}, {"fixedwriter.file"}), infer=False)
        for o in F.returns():
            if o.an.eval_cond(o.st, eq(o.val, FAIL)) is True:
                continue
            n += 1
            S = arg(o.an, 0)
            tmp, fil = fld("fixedwriter.tempname", S), fld("fixedwriter.filename", S)
            mk = [i for i, e in enumerate(o.ev) if e[1] == "mkstemp"]
            why = None
            if any(e[1] in ("fopen", "open") for e in o.ev):
                why = "opens a file that is no new temporary"
            elif len(mk) != 1:
                why = "makes %d temporary files" % len(mk)
            else:
                e = o.ev[mk[0]]
                if not mentions(e[2][0], lambda y: y == tmp):
                    why = "the temporary's name is not kept (%s)" % show(e[2][0])
                fd = [x for x in o.ev if x[1] == "fdopen"]
                if not fd or fd[0][2][0] != e[4]:
                    why = "rows do not go to the temporary"
                st = [x for x in o.ev if x[0] == "store"]
                if not why and (not st or st[-1][2] != fd[0][4] or o.an.eval_cond(o.st, eq(fd[0][4], C0)) is not False):
                    why = "rows do not go to the temporary"
                # the name: directory of the destination, then a plain name
                w = [x for x in o.ev[:mk[0]] if x[0] == "call" and x[1] in ("string_strcpy", "string_strcat") and x[2][0] == tmp]
                start = max([k for k, x in enumerate(w) if x[1] == "string_strcpy"] or [-1])
                if why is None and (start < 0 or len(w) - start != 2):
                    why = "the temporary's name is not the directory and a name"
                elif why is None:
                    d, nm = w[start][2][1], text_of(w[start + 1][2][1])
                    dirs = [x for x in o.ev if x[1] == "dirname"]
                    if not nm.startswith("/") or "/" in nm[1:] or not nm.endswith("XXXXXX"):
                        why = "the temporary is called %s" % nm
                    elif d[0] == "str":
                        # no directory: only without a destination
                        emp = [T for T, g in o.st.facts.items() if "filename" in repr(T)]
                        if text_of(d) != "." or dirs:
                            why = "the temporary is in %s" % show(d)
                        elif not emp:
                            why = "the temporary is not in the directory of its destination"
                    elif not dirs or d != dirs[0][4] or not mentions(dirs[0][2][0], lambda y: y[0] == "call" and y[1] == "strdup"):
                        why = "the temporary is in %s" % show(d)
                    else:
                        dup = [x for x in o.ev if x[1] == "strdup"]
                        if not any(mentions(x[2][0], lambda y: y == fil) for x in dup):
                            why = "the temporary is beside another file"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "successful ways to open a result")


def replace(ctx):
    ctx.rule("C10.replace", "the destination is replaced only by a file without write errors, closed without one, and closing succeeds only if it was replaced")
    p = ctx.prog("engine", keep=["string_c_str", "vec_empty", "fqlsig_tmp_remove_node", "fqlsig_tmp_push"])
    name = "fixedwriter_close"
    F = Fragments(ctx, p, name, lambda: FragRule({"fclose", "ferror", "fflush", "rename", "fqlsig_tmp_remove_node", "string_c_str", "remove", "unlink"}, set()), infer=False)
    n = 0
    for o in F.returns():
        known = lambda c: o.an.eval_cond(o.st, c)
        S = arg(o.an, 0)
        file = ("ld", fld("fixedwriter.file", S), 0)
        fc = [i for i, e in enumerate(o.ev) if e[1] == "fclose"]
        rn = [i for i, e in enumerate(o.ev) if e[1] == "rename"]
        fe = [i for i, e in enumerate(o.ev) if e[1] == "ferror"]
        good = known(eq(o.val, FAIL)) is not True
        detached = known(eq(("ld", fld("fixedwriter.is_detached", S), 0), C0)) is False or any("is_detached" in repr(T) and o.an.eval_cond(o.st, eq(T[0][0], C0)) is False for T in o.st.facts if len(T) == 1)
        own = any("is_detached" in repr(T) and o.an.eval_cond(o.st, eq(T[0][0], C0)) is True for T in o.st.facts if len(T) == 1)
        std = any(("stdout" in repr(T)) for T, g in o.st.facts.items() if g[0] == g[1] == 0)
        why = None
        flushed = bool(fc) and o.ev[fc[0]][2][0] == file and known(eq(o.ev[fc[0]][4], C0)) is True or bool(fc) and o.ev[fc[0]][2][0] == file and known(eq(o.ev[fc[0]][4], const(-1))) is False
        clean = any(i < fc[0] and o.ev[i][2][0] == file and known(eq(o.ev[i][4], C0)) is True for i in fe) if fc else False
        if any(e[1] in ("remove", "unlink") for e in o.ev):
            why = "removes a file"
        for i in rn:
            n += 1
            e = o.ev[i]
            if not (fc and fc[0] < i):
                why = "replaces the destination before the file was closed"
            elif not flushed:
                why = "replaces the destination although closing the file may have failed"
            elif not clean:
                why = "replaces the destination although writing may have failed"
            elif not named(o, e[2][0], fld("fixedwriter.tempname", S)) or not named(o, e[2][1], fld("fixedwriter.filename", S)):
                why = "renames %s to %s" % (show(e[2][0]), show(e[2][1]))
            elif not own:
                why = "replaces the destination by a file someone else still reads"
        if why is None and good and not std:
            n += 1
            if not (fc and flushed and clean):
                why = "succeeds although writing or closing the file may have failed"
            elif not detached and not (rn and known(eq(o.ev[rn[0]][4], C0)) is True):
                why = "succeeds although the destination may not have been replaced"
        un = [i for i, e in enumerate(o.ev) if e[1] == "fqlsig_tmp_remove_node"]
        if why is None and un and not (rn and rn[0] < un[0] and known(eq(o.ev[rn[0]][4], C0)) is True):
            why = "the temporary is forgotten before it took the destination's place"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths on which a result is closed")


def named(o, v, addr):
    return mentions(v, lambda y: y == addr) and v[0] in ("call", "ld")


def interface(ctx):
    ctx.rule("C10.writer", "the writer closes the file of its kind and reports a failure")
    p = ctx.prog("engine", inline=False)
    kind = {"IO_LIBCSV": "csv_writer_close", "IO_FIXED": "fixedwriter_close"}
    name = "writer_close"
    F = Fragments(ctx, p, name, lambda: FragRule(set(kind.values()), set()), infer=False)
    n = 0
    for o in F.returns():
        known = lambda c: o.an.eval_cond(o.st, c)
        S = arg(o.an, 0)
        if known(eq(S, C0)) is True:
            continue
        c = [e for e in o.ev if e[0] == "call"]
        good = known(eq(o.val, FAIL)) is not True
        why = None
        for k, g in kind.items():
            if known(eq(("ld", fld("writer.type", S), 0), const(p.enumval[k]))) is True:
                n += 1
                if [e[1] for e in c] != [g]:
                    why = "closes by %s" % [e[1] for e in c]
                elif c[0][2][0] != ("ld", fld("writer.writer_data", S), 0):
                    why = "closes another writer"
                elif good and known(eq(c[0][4], const(-2 if g.startswith("csv") else -5))) is not False:
                    why = "succeeds although closing may have failed"
                break
        else:
            if good:
                why = "succeeds without closing"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "kinds of writers")
    name = "writer_open"
    F = Fragments(ctx, p, name, lambda: FragRule({"csv_writer_open", "fixedwriter_open"}, set()), infer=False)
    for o in F.returns():
        for e in o.ev:
            bad = o.an.eval_cond(o.st, eq(e[4], const(-2 if e[1].startswith("csv") else -5))) is not False and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True
            why = "succeeds although opening may have failed" if bad else "opens %s" % show(e[2][1]) if e[2][1] != arg(o.an, 1) else None
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)


def stages(ctx):
    ctx.rule("C10.stage", "a stage closes its result only when it waits for no more input, reports a failure of closing, and writes nothing afterwards")
    q = ctx.prog("engine", inline=False)
    direct = [f for f in sorted(q._raw) if any(i.callee_name() == "writer_close" for i in q.fn(f).calls())]
    ctx.need(len(direct), 3, "stages that close a result")
    n = 0
    for name in direct:
        F = Fragments(ctx, q, name, lambda: FragRule(None, {"process.wait_for_in0"}), infer=False)
        for o in F.arrivals() + F.returns():
            cl = [i for i, e in enumerate(o.ev) if e[0] == "call" and e[1] == "writer_close"]
            if not cl:
                continue
            n += 1
            v = View(o, ("process.", "fqlselect.", "fqlupdate.", "fqldelete."))
            proc = arg(o.an, 0)
            w = o.ev[:cl[0]]
            st = [e for e in w if e[0] == "store" and e[1] == fld("process.wait_for_in0", proc)]
            wait = st[-1][2] if st else ("ld", fld("process.wait_for_in0", proc), 0)
            why = None
            r = o.ev[cl[0]][4]
            if not (wait == C0 or v.an.eval_cond(v.st, eq(wait, C0)) is True):
                why = "the result is put in place although more input may come"
            elif o.val is None or o.an.eval_cond(o.st, eq(r, FAIL)) is not False and o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True:
                why = "goes on although the result could not be put in place"
            elif len(cl) > 1:
                why = "closes the result twice"
            elif any(e[0] == "call" and e[1] == "<indirect>" for e in o.ev[cl[0]:]):
                why = "writes after the result was put in place"
            elif o.an.eval_cond(o.st, eq(o.val, FAIL)) is not True and o.an.eval_cond(o.st, eq(o.val, const(q.enumval["PROC_RETURN_COMPLETE"]))) is not True:
                why = "goes on after the result was put in place"
            elif any(e[0] == "call" and e[4] is not None and o.an.eval_cond(o.st, eq(e[4], FAIL)) is True for e in w):
                why = "puts the result in place although a step failed"
            ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "places that put a result in place")


def files(ctx):
    ctx.rule("C10.files", "no other place touches a destination")
    p = ctx.prog("engine", inline=False)
    parents = {}
    for f in sorted(p._raw):
        for i in p.fn(f).calls():
            parents.setdefault(i.callee_name(), set()).add(f)

    def only_from(f, allowed, seen=()):
        if f in allowed:
            return True
        up = parents.get(f, set()) - {f}
        return bool(up) and f not in seen and all(only_from(u, allowed, seen + (f,)) for u in up)
    n = 0
    for f in sorted(p._raw):
        here = {i.callee_name() for i in p.fn(f).calls()}
        for c in sorted(here & set(MAY)):
            n += 1
            ok = only_from(f, MAY[c])
            ctx.ob("%s: %s" % (f, c), ok, f, "" if ok else "%s touches a destination by %s" % (f, c))
        if not here & {"fopen", "open"}:
            continue
        F = Fragments(ctx, p, f, lambda: FragRule(here & {"fopen", "open", "access"}, set()), infer=False)
        seen = set()
        for o in F.arrivals() + F.returns():
            for i, e in enumerate(o.ev):
                if e[1] not in ("fopen", "open"):
                    continue
                if e[1] == "fopen" and text_of(e[2][1]) in ("r", "rb") or e[1] == "open" and e[2][1] == C0:
                    n += 1
                    continue
                if e[1] == "fopen" and e[2][0][0] == "str":
                    continue        # a fixed name, not the user's
                # creating what does not exist destroys nothing
                new = any(x[1] == "access" and x[2][0] == e[2][0] and o.an.eval_cond(o.st, eq(x[4], C0)) is False for x in o.ev[:i])
                k = (e[3], new)
                if k in seen:
                    continue
                seen.add(k)
                n += 1
                ctx.ob("%s: %s" % (f, e[1]), new, o.where(), "" if new else "opens %s itself for writing" % show(e[2][0]), o.trail() if not new else None)
    ctx.need(n, 5, "calls that may touch a destination")
