"""C06: a detected failure reaches the caller."""
from .norm import *
from ..facts import AnalysisError

TECHNIQUE = "interprocedural failure-value typestate: the set of failing functions is computed as a fixpoint, and every path after each call to one must report failure while the call may have failed"
LEVEL_NOTE = "every call site of every failing engine function (direct or through a pointer), every path of its caller; void callbacks of the parser and the command-line program included"
EXPLANATION = (
    "The functions that can report failure are computed as a fixpoint over the engine: those that return the failure code, that hand on the result of one that does, or that return a value reserved for failure (NULL, false) when an inner call failed. "
    "Each function is then explored path by path: once such a call was made, every way out on which that call may have failed must itself report failure (or end the process with a failure status). "
    "Every way out after a diagnostic was written to the error stream must report failure too. For the parser's listener the way to report is its failure flag; for the program it is the exit status.")
ASSUMPTIONS = ["a function called through a pointer that returns int uses the engine's failure code",
               "failures of the C library are decided by C10 and C11 where files are concerned; running out of memory ends the process"]

FAIL = const(-5)
DEBUG = False
# callee -> why its failure need not be reported
OPTIONAL = {"_add_schema_path": "default directories that need not exist; the directory named by the user is decided by the message rule"}
# diagnostics that are not errors: (function or None, part of the text) -> why
NOTES = ["rows affected", "row affected", "EXEC: ", "Making Plan for", "Activate process", "' stopped", "already disabled", "Ignored table qualification",
         "ignored schema assignment", "Invalid pipe factor", "debug.txt", "processes: %u"]
# internal inconsistencies in functions that cannot report
UNREACHABLE = ["unknown write_type", "unexpected logic mode assigning group", "Useless has_second_input"]
PRINTERS = {"fputs": 1, "fputc": 1, "fprintf": 0, "vfprintf": 0, "perror": None, "csv_perror": None}


def ret_flow(p, n):
    f = p.fn(n)
    C, K, seen = set(), set(), set()

    def go(o):
        if isinstance(o, list):
            if o[0] == "i":
                C.add(o[1])
            return
        if o in seen:
            return
        seen.add(o)
        d = f.defs.get(o)
        if d is None:
            return
        if d.op == "phi":
            for x in d.a:
                go(x[2])
        elif d.op == "select":
            go(d.a[1])
            go(d.a[2])
        elif d.op in ("sext", "zext", "trunc", "bitcast", "freeze"):
            go(d.a[0])
        elif d.op in ("call", "invoke"):
            c = d.callee_name()
            K.add(c if isinstance(c, str) else "?")
    for i in f.insts():
        if i.op == "ret" and i.a:
            go(i.a[0])
    return C, K


def failing(p, names):
    """name -> failure value"""
    raw = p._raw
    fl = {n: ret_flow(p, n) for n in names}
    out = {n: FAIL for n in names if -5 in fl[n][0] and raw[n]["ret"] == "i32"}
    ch = True
    while ch:
        ch = False
        for n in names:
            if n not in out and raw[n]["ret"] == "i32" and (fl[n][1] & set(out) or "?" in fl[n][1]):
                out[n] = FAIL
                ch = True
    return out


class Pend(Rule):
    """t = ((call id, result, failure value), ...) calls that may have failed"""
    cap = 64

    def __init__(self, fall, indirect=True, fails=None, done=None, always=None):
        self.fall = fall
        self.always = always or {}
        self.indirect = indirect
        self.bad = {}
        self.sites = set()
        self.good = set()
        self.fails = fails or (lambda an, st, val: val is not None and an.eval_cond(st, eq(val, FAIL)) is True)
        self.done = done
        self.own = None
        self.forwards = True

    def start(self, an):
        return ()

    def same(self, fv):
        return fv == FAIL or fv == self.own

    def live(self, an, st):
        st.t = tuple(x for x in st.t if an.eval_cond(st, eq(x[1], x[2])) is not False)

    def branch(self, an, st, inst, cond, taken):
        self.live(an, st)

    def after(self, an, st, inst, name, args, res):
        if self.done and self.done(an, st, inst, name, args):
            st.t = ()
            return
        if isinstance(name, str):
            if name in ("exit", "_exit") and args and an.eval_cond(st, eq(args[0], C0)) is not False:
                self.out(an, st, None)
            if name in self.always and res is not None:
                an.assume(st, eq(res, const(self.always[name])), True)
                return
            if name not in self.fall or name in OPTIONAL:
                return
            fv = self.fall[name]
        elif inst.ty == "i32" and self.indirect:
            fv = FAIL
        else:
            return
        self.sites.add(inst.id)
        self.live(an, st)
        old = [x for x in st.t if x[0] == inst.id]
        for x in old:
            self.bad.setdefault(x[0], []).append(("again", None, st.copy()))
        st.t = tuple(x for x in st.t if x[0] != inst.id) + ((inst.id, res, fv),)

    def out(self, an, st, val):
        for i, r, fv in st.t:
            s = st.copy()
            if an.eval_cond(s, eq(r, fv)) is False:
                continue
            if an.eval_cond(s, eq(r, fv)) is not True:
                q = an.assume(s, eq(r, fv), True)
                if q is False:
                    continue
            v = val
            while v is not None and v[0] == "sel":
                c = an.eval_cond(s, v[1])
                if c is None:
                    break
                v = v[2] if c else v[3]
            if self.fails(an, s, v) or v is not None and v == r and self.same(fv):
                continue
            self.forwards &= v == r
            self.bad.setdefault(i, []).append(("ret", fv if v == r else v, s))

    def ret(self, an, st, inst, val):
        self.out(an, st, val)
        if not st.t:
            self.good.add(val)


def name_of(i):
    n = i.callee_name()
    return n if isinstance(n, str) else "the function called through a pointer"


def engine(ctx, unit="engine"):
    """every function stands alone, except tiny pure ones (a test of a code, a
    constant): those are part of whoever calls them"""
    p = ctx.prog(unit, keep=["__none__"], inline=False)
    keep = [n for n in p.names([""]) if not tiny(p, n)]
    return ctx.prog(unit, keep=keep)


def tiny(p, n):
    if not p._raw[n]["ret"].startswith("i"):
        return False
    insts = list(p.fn(n).insts())
    return len(insts) <= 12 and all(i.op in ("ret", "icmp", "zext", "sext", "trunc", "select", "phi", "br", "and", "or", "xor", "freeze") for i in insts)


def constant_results(p, names):
    """functions with one possible result, a constant"""
    fl = {n: ret_flow(p, n) for n in names if p._raw[n]["ret"] == "i32"}
    out = {n: min(c) for n, (c, k) in fl.items() if len(c) == 1 and not k}
    # only those whose every returned value is that constant
    return {n: v for n, v in out.items() if all(i.a and only(p.fn(n), i.a[0], v) for i in p.fn(n).insts() if i.op == "ret")}


def only(f, o, v, seen=()):
    if isinstance(o, list):
        return o[0] == "i" and o[1] == v
    d = f.defs.get(o)
    if d is None or o in seen:
        return d is not None
    if d.op == "phi":
        return all(only(f, x[2], v, seen + (o,)) for x in d.a)
    return False


def propagate(ctx, p, names, fall):
    """fixpoint over the failure values; returns final results per function"""
    res = {}
    work = sorted(names)
    callers = {}
    for n in names:
        for i in p.fn(n).calls():
            c = i.callee_name()
            if isinstance(c, str):
                callers.setdefault(c, set()).add(n)
    todo = set(names)
    always = constant_results(p, names)
    while todo:
        n = min(todo)
        todo.discard(n)
        f = p.fn(n)
        fv0 = fall.get(n, FAIL)
        r = Pend(fall, fails=lambda an, st, val, fv0=fv0: val is not None and (an.eval_cond(st, eq(val, fv0)) is True or an.eval_cond(st, eq(val, FAIL)) is True), always=always)
        r.own = fv0
        ctx.analyse(p, f, r)
        res[n] = r
        if r.bad and n not in fall and p._raw[n]["ret"] != "void":
            vals = {v for b in r.bad.values() for k, v, s in b if k == "ret"}
            if len(vals) == 1 and None not in vals and not any(k == "again" for b in r.bad.values() for k, v, s in b):
                v = vals.pop()
                ptr = p._raw[n]["ret"] == "ptr"
                if is_c(v) and (r.good or r.forwards) and (ptr and v == C0 or all(g is not None and is_c(g) and g != v for g in r.good)):
                    fall[n] = v
                    todo.add(n)
                    todo |= callers.get(n, set())
    return res


def texts(p, an, args):
    return " ".join(a[1] for a in args if a[0] == "str") or "".join(str(x[1]) for a in args for x in walk(a) if x[0] == "str")


class Said(Rule):
    """t = (call id, text) once an error was written"""
    cap = 64

    def __init__(self, printers, fails):
        self.printers = printers
        self.fails = fails
        self.bad = {}
        self.sites = set()
        self.clean = 0      # ways out without a diagnostic
        self.values = (set(), set())    # results without and with one

    def start(self, an):
        return ()

    def after(self, an, st, inst, name, args, res):
        if not isinstance(name, str):
            return
        if name in PRINTERS:
            k = PRINTERS[name]
            if k is not None and "stderr" not in repr(args[k]):
                return
            t = texts(an.fn.prog, an, args)
            if any(x in t for x in NOTES) or any(x in t for x in UNREACHABLE):
                return
        elif name not in self.printers:
            if name in ("exit", "_exit") and st.t and an.eval_cond(st, eq(args[0], C0)) is not False:
                self.bad.setdefault(st.t[0], st.copy())
            return
        self.sites.add(inst.id)
        st.t = (inst.id,)

    def ret(self, an, st, inst, val):
        self.values[1 if st.t else 0].add(val)
        if not st.t:
            self.clean += 1
            return
        if not self.fails(an, st, val):
            self.bad.setdefault(st.t[0], st.copy())


CLEANUP = {"fqlsig_tmp_remove_file": "runs while cleaning up: there is nothing left to fail"}
# functions whose failure value is an enumerator
ENUMFAIL = {"libfql_get_sql_type": "SQL_UNDEFINED"}
QUIET = {"plan_print", "_print_plan", "_col_sep", "_fqlprocess_print_fifo_info", "_print_proc_info", "_print_fifo_info", "_monitor_threads"}


def messages(ctx, p, names, fall):
    """functions that only write an error count as diagnostics themselves"""
    printers = set()
    out = {}
    while True:
        grew = False
        for n in sorted(names):
            if n in QUIET or n in CLEANUP:
                continue
            f = p.fn(n)
            if not any(i.callee_name() in PRINTERS or i.callee_name() in printers for i in f.calls()):
                continue
            fv = const(p.enumval[ENUMFAIL[n]]) if n in ENUMFAIL else fall.get(n, FAIL)
            zero_fails = p._raw[n]["ret"] == "ptr"

            def fails(an, st, val):
                if val is None:
                    return False
                if an.eval_cond(st, eq(val, FAIL)) is True or an.eval_cond(st, eq(val, fv)) is True:
                    return True
                if zero_fails:
                    return an.eval_cond(st, eq(val, C0)) is True
                # a function that never uses the failure code: any non-zero value
                return n not in fall and an.eval_cond(st, eq(val, C0)) is False
            r = Said(printers, fails)
            ctx.analyse(p, f, r)
            if r.bad and r.clean == 0 and p._raw[n]["ret"] == "void" and n not in printers:
                printers.add(n)
                out.pop(n, None)
                grew = True
            else:
                out[n] = r
        if not grew:
            return {n: r for n, r in out.items() if n not in printers}


def speakers(ctx, p, names, fall):
    """functions that say what went wrong and return a value of their own for it"""
    out = {}
    for n in sorted(names):
        f = p.fn(n)
        if n in fall or n in QUIET or p._raw[n]["ret"] == "void" or not any(i.callee_name() in PRINTERS for i in f.calls()):
            continue
        r = Said(set(), lambda an, st, val: True)
        ctx.analyse(p, f, r)
        good, bad = r.values
        if len(bad) == 1 and good:
            v = next(iter(bad))
            if v is not None and is_c(v) and all(g is not None and g != v and (is_c(g) or v == C0) for g in good):
                out[n] = v
    return out


def run(ctx):
    p = engine(ctx)
    names = [n for n in p.names(["lib/", "util/"])]
    ctx.need(len(names), 400, "engine functions")
    fall = failing(p, names)
    own = speakers(ctx, p, names, fall)
    if DEBUG:
        print({k: show(v) for k, v in own.items()})
    fall.update(own)
    res = propagate(ctx, p, names, fall)
    ctx.rule("C06.propagate", "after a call that may have failed, every way out of the caller reports failure or ends the process with a failure status")
    nsites = 0
    for n, r in sorted(res.items()):
        nsites += len(r.sites)
        if not r.sites:
            continue
        f = p.fn(n)
        counts = {}
        for i in sorted(r.sites):
            c = name_of(f.defs[i])
            counts[c] = counts.get(c, 0) + 1
            inst = "%s: %s%s" % (f.src, c, "" if counts[c] == 1 else " #%d" % counts[c])
            b = r.bad.get(i)
            if b:
                k, v, s = b[0]
                ctx.ob(inst, False, f.loc(f.defs[i]),
                       "a failure of %s is forgotten when the call is repeated" % c if k == "again" else
                       "a failure of %s is not reported: the caller returns %s" % (c, show(v) if v else "nothing"))
            else:
                ctx.ob(inst, True, f.loc(f.defs[i]))
    ctx.need(len(fall), 150, "failing functions")
    ctx.need(nsites, 300, "calls of failing functions")

    ctx.rule("C06.message", "after an error was written to the error stream, every way out reports failure")
    k = 0
    for n, r in sorted(messages(ctx, p, names, fall).items()):
        f = p.fn(n)
        for i in sorted(r.sites):
            k += 1
            s = r.bad.get(i)
            ctx.ob("%s: error %d" % (f.src, k) if s is None else "%s: %s" % (f.src, f.defs[i].line), s is None, f.loc(f.defs[i]), "writes an error and then does not report failure" if s else "")
    ctx.need(k, 60, "diagnostics")
    listener(ctx, fall)
    cli(ctx, fall)


def listener(ctx, fall):
    """the parser's callbacks return nothing: the failure flag is how they report"""
    q = engine(ctx, "listener")
    ctx.rule("C06.listener", "in the parser's callbacks, a failing engine call is followed by the listener's failure flag")
    names = sorted(q.names(["lib/antlr/listenerinterface", "lib/antlr/antlr"]))
    fall = dict(fall)
    for n in q._raw:
        if "getError" in n:
            fall[n] = const(1)
        elif "get_return_code" in n:
            fall[n] = FAIL

    # functions that set the failure flag on every path count as setting it
    flag = {n for n in names if "_set_failure" in n}
    ctx.need(len(flag), 1, "functions setting the listener's failure flag")
    nsites = 0
    counts = {}
    for n in names:
        f = q.fn(n)
        rets = q._raw[n]["ret"]
        r = Pend(fall, indirect=False, fails=(lambda an, st, val: False) if rets == "void" else
                 (lambda an, st, val: val is not None and (an.eval_cond(st, eq(val, FAIL)) is True or an.eval_cond(st, eq(val, C0)) is False)),
                 done=lambda an, st, inst, name, args: isinstance(name, str) and name in flag)
        ctx.analyse(q, f, r)
        nsites += len(r.sites)
        for i in sorted(r.sites):
            c = name_of(f.defs[i])
            short = f.src
            counts[short, c] = k = counts.get((short, c), 0) + 1
            inst = "%s: %s%s" % (short, c, "" if k == 1 else " #%d" % k)
            ctx.ob(inst, i not in r.bad, f.loc(f.defs[i]), "a failure of %s does not set the listener's failure flag" % c if i in r.bad else "")
    ctx.need(nsites, 25, "failing engine calls in the parser's callbacks")

    ctx.rule("C06.listener.message", "after an error was written to the error stream, the listener's failure flag is set")
    k = 0
    for n in names:
        f = q.fn(n)
        if not any(cerr(i) for i in f.calls()):
            continue
        r = Flagged(flag)
        ctx.analyse(q, f, r)
        for i in sorted(r.sites):
            k += 1
            bad = i in r.bad
            ctx.ob("%s: error %d" % (f.src, k) if not bad else "%s: %s" % (f.src, f.defs[i].line), not bad, f.loc(f.defs[i]), "writes an error and leaves the listener's failure flag unset" if bad else "")
    ctx.need(k, 6, "diagnostics of the parser's callbacks")


def cerr(i):
    return i.op in ("call", "invoke") and any(isinstance(x, list) and x[:2] == ["g", "_ZSt4cerr"] for x in i.a)


class Flagged(Rule):
    """t = (flag already set, site of a diagnostic that still needs it)"""
    cap = 16

    def __init__(self, flag):
        self.flag = flag
        self.sites = set()
        self.bad = {}

    def start(self, an):
        return (False, 0)

    def after(self, an, st, inst, name, args, res):
        if isinstance(name, str) and name in self.flag:
            st.t = (True, 0)
        elif cerr(inst):
            t = texts(an.fn.prog, an, args)
            if any(x in t for x in LISTENER_NOTES):
                # what was said before is turned into a warning
                if "CAUTION" in t:
                    st.t = (st.t[0], 0)
                return
            self.sites.add(inst.id)
            if not st.t[0]:
                st.t = (False, st.t[1] or inst.id)

    def ret(self, an, st, inst, val):
        if st.t[1]:
            self.bad.setdefault(st.t[1], st.copy())


# an identifier nothing asked for is named and skipped; the user asked to carry on
LISTENER_NOTES = ["Undefined list: ", "CAUTION: Overriding the above warnings"]


def cli(ctx, fall):
    q = engine(ctx, "cli")
    ctx.rule("C06.exit", "the program ends with a failure status after a library call that may have failed")
    nsites = 0
    names = sorted(q.names(["src/"]))
    for n in names:
        f = q.fn(n)
        ok = (lambda an, st, val: val is not None and an.eval_cond(st, eq(val, C0)) is False)
        r = Pend(fall, indirect=False, fails=ok)
        ctx.analyse(q, f, r)
        nsites += len(r.sites)
        counts = {}
        for i in sorted(r.sites):
            c = name_of(f.defs[i])
            counts[c] = k = counts.get(c, 0) + 1
            inst = "%s: %s%s" % (f.src, c, "" if k == 1 else " #%d" % k)
            ctx.ob(inst, i not in r.bad, f.loc(f.defs[i]), "a failure of %s leaves a successful exit status" % c if i in r.bad else "")
    ctx.need(nsites, 6, "failing library calls in the program")
