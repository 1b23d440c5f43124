from .locks import *

TECHNIQUE = "wake-up typestate dataflow over LLVM IR (change/signal/wait obligations per path)"
LEVEL_NOTE = "every path of every pipe operation and of the stage loop, loops abstracted; liveness of the scheduler itself is assumed"
EXPLANATION = (
    "On every path of every pipe operation: a change of the write position must be followed (or accompanied inside the same critical section) by a "
    "signal of the pipe's add condition and of the pipe a two-pipe consumer registered; of the read position by a signal of the get condition; of the open flag by a "
    "broadcast to all three. Every wait operation may return only with its awaited condition (or 'closed') established by a check made "
    "after the last time it slept; a two-pipe wait must have registered itself under the first pipe's lock with both pipes known open and "
    "empty. The stage loop must re-check its wait list after each sleep, wait on the pipe its work function named, and a "
    "finishing stage must publish 'finished' before signalling its waiter under the waiter's lock. Users of lock-free iteration must publish their progress.")
ASSUMPTIONS = ["operations documented as single-threaded are used that way", "root pipes are never the first pipe of a two-pipe wait (fifo_advance)",
               "pthread primitives succeed"]

NOSHARED = {"fifo_advance"}
OPS_EXEMPT = EXEMPT


class WakeRule(LockRule):
    """t = (held, tries, signalled-in-hold, pending)
    signalled: tuple of (cond address, lock) while lock is held
    pending:   tuple of (kind, cond address, where)"""
    name = "wakeup"

    def __init__(self):
        LockRule.__init__(self, guards=False)
        self.changes = self.signals = 0

    def start(self, an):
        return ((), (), (), ())

    def resolve(self, an, st):
        held, tries, sg, pend = st.t
        rest = []
        for a, r in tries:
            v = an.eval_cond(st, eq(r, C0))
            if v is True:
                held = held + (a,)
            elif v is None:
                rest.append((a, r))
        st.t = (held, tuple(rest), sg, pend)
        return st.t

    def pend(self, an, st, kind, cond, need_all, inst):
        held, tries, sg, pd = st.t
        for c, bc, _ in sg:
            if c == cond and (bc or not need_all):
                return
        e = (kind, cond, need_all)
        if e not in pd:
            st.t = (held, tries, sg, pd + (e,))

    def change(self, an, st, inst, what, p):
        self.changes += 1
        f = lambda n: ("fld", "fifo." + n, p)
        if what == "fifo.head":
            self.pend(an, st, "data added", f("cond_add"), False, inst)
            if inst.infn not in NOSHARED and an.fn.name not in NOSHARED:
                self.shared(an, st, inst, p, False)
        elif what == "fifo.tail":
            self.pend(an, st, "room freed", f("cond_get"), False, inst)
        else:
            self.pend(an, st, "pipe opened or closed", f("cond_add"), True, inst)
            self.pend(an, st, "pipe opened or closed", f("cond_get"), True, inst)
            self.shared(an, st, inst, p, False)

    def shared(self, an, st, inst, p, need_all):
        self.pend(an, st, "shared", ("fld", "fifo.cond_add", ("ld", ("fld", "fifo.shared_mutex_fifo", p), 0)), need_all, inst)

    def store(self, an, st, inst, addr, val):
        if addr[0] == "fld" and addr[1] in ("fifo.head", "fifo.tail", "fifo.is_open"):
            if an.fn.name in OPS_EXEMPT or inst.infn in OPS_EXEMPT:
                return
            self.resolve(an, st)
            self.change(an, st, inst, addr[1], unver(addr[2]))

    def call(self, an, st, inst, name, args):
        if not isinstance(name, str) or not name.startswith("pthread_"):
            return
        a = [unver(x) for x in args]
        held, tries, sg, pd = self.resolve(an, st)
        if name == "pthread_mutex_lock":
            st.t = (held + (a[0],), tries, sg, pd)
        elif name == "pthread_mutex_unlock":
            self.shared_null(an, st)
            held, tries, sg, pd = st.t
            h = list(held)
            if a[0] in h:
                h.reverse()
                h.remove(a[0])
                h.reverse()
            st.t = (tuple(h), tries, tuple(s for s in sg if s[2] != a[0]), pd)
        elif name in ("pthread_cond_signal", "pthread_cond_broadcast"):
            self.signals += 1
            bc = name.endswith("broadcast")
            c = a[0]
            # the lock that protects this condition
            lk = None
            if c[0] == "fld" and c[1] == "fifo.cond_add":
                lk = ("fld", "fifo.head_mutex", c[2])
            elif c[0] == "fld" and c[1] == "fifo.cond_get":
                lk = ("fld", "fifo.tail_mutex", c[2])
            npd = []
            for k, pc, na in pd:
                if pc == c and (bc or not na):
                    if k == "shared" and lk not in held:
                        npd.append((k, pc, na))     # may slip between registration and sleep
                        continue
                    continue
                npd.append((k, pc, na))
            if lk in held:
                # for a shared pipe the change itself is protected by the first pipe's lock
                own = None
                if c[2][0] == "ld" and c[2][1][0] == "fld" and c[2][1][1] == "fifo.shared_mutex_fifo":
                    own = ("fld", "fifo.head_mutex", c[2][1][2])
                sg = sg + ((c, bc, own or lk),)
            st.t = (held, tries, sg, tuple(npd))

    def after(self, an, st, inst, name, args, res):
        if name == "pthread_mutex_trylock":
            h, t, s, p = st.t
            st.t = (h, t + ((unver(args[0]), res),), s, p)

    def shared_null(self, an, st):
        """nobody is registered for a two-pipe wait"""
        h, t, s, pd = st.t
        n = []
        for k, c, na in pd:
            if k == "shared":
                p = c[2][1][2]
                v = None
                for a in list(st.env.values()) + [x for x in st.mem.values()] + [x for T in st.facts for x, _ in T]:
                    if a[0] == "ld" and unver(a) == c[2]:
                        v = an.eval_cond(st, mk_cmp("eq", a, C0))
                        if v is True:
                            break
                if v is True:
                    continue
            n.append((k, c, na))
        st.t = (h, t, s, tuple(n))

    def purge(self, an, t, tg):
        held, tries, sg, pd = t
        return (held, tuple(x for x in tries if not (tags(x[0]) | tags(x[1])) & tg), sg, pd)

    def check_exit(self, an, st, inst, how):
        self.resolve(an, st)
        self.shared_null(an, st)
        for k, c, na in st.t[3]:
            if k == "shared":
                an.report(st, inst, "data added or pipe closed without waking a consumer registered on two pipes", "unsignalled two-pipe consumer")
            else:
                an.report(st, inst, "%s without %s %s" % (k, "broadcasting" if na else "signalling", show(c)[1:]), "unsignalled " + c[1])


class WaitEither(LockRule):
    """t = (held, tries, registered)"""
    name = "either"

    def __init__(self):
        LockRule.__init__(self, guards=False)
        self.sleeps = 0

    def start(self, an):
        return ((), (), ())

    def resolve(self, an, st):
        return st.t

    def store(self, an, st, inst, addr, val):
        if addr[0] == "fld" and addr[1] == "fifo.shared_mutex_fifo":
            held = st.t[0]
            o = addr[2]
            reg = tuple(r for r in st.t[2] if r[0] != o)
            if val == C0:
                if ("fld", "fifo.head_mutex", o) not in held:
                    an.report(st, inst, "two-pipe registration withdrawn without the pipe's head lock", "unlocked withdrawal")
            else:
                ok = ("fld", "fifo.head_mutex", o) in held and ("fld", "fifo.head_mutex", val) in held
                if not ok:
                    an.report(st, inst, "two-pipe consumer registers without holding both head locks", "unlocked registration")
                if not known_open_empty(an, st, o):
                    an.report(st, inst, "two-pipe consumer registers on a pipe not known to be open and empty", "registration on " + show(o))
                reg = reg + ((o, val),)
            st.t = (held, st.t[1], reg)

    def call(self, an, st, inst, name, args):
        if name == "pthread_mutex_lock":
            st.t = (st.t[0] + (args[0],), (), st.t[2])
        elif name == "pthread_mutex_unlock":
            st.t = (tuple(x for x in st.t[0] if x != args[0]), (), st.t[2])
        elif name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.sleeps += 1
            c = args[0]
            w = c[2] if c[0] == "fld" and c[1] == "fifo.cond_add" else None
            if w is None or w[0] != "arg":
                an.report(st, inst, "two-pipe wait sleeps on %s" % show(c), "sleep")
                return
            others = [x for x in (("arg",) + tuple(a[:1]) for a in an.fn.args)]
            if not any(v == w for o, v in st.t[2]):
                an.report(st, inst, "sleeps on one pipe without having registered on the other", "unregistered sleep")
            if not known_open_empty(an, st, w):
                an.report(st, inst, "sleeps although the pipe is not known to be open and empty", "sleep unchecked")
            st.t = (st.t[0], (), ())

    def after(self, *a):
        pass

    def ret(self, an, st, inst, val):
        ps = [st.env.get(a[0]) or ("arg", a[0], "") for a in an.fn.args]
        ps = list(self.pipes)
        if not any(known_closed_or_filled(an, st, p) for p in ps):
            an.report(st, inst, "two-pipe wait returns although neither pipe is known to have data or be closed", "return")

    def purge(self, an, t, tg):
        return t


def fv(an, st, p, f):
    return an.read(st, ("fld", "fifo." + f, p))


def known_open_empty(an, st, p):
    return an.eval_cond(st, as_bool(fv(an, st, p, "is_open"))) is True and \
        an.eval_cond(st, eq(fv(an, st, p, "head"), fv(an, st, p, "tail"))) is True


def known_closed(an, st, p):
    return an.eval_cond(st, as_bool(fv(an, st, p, "is_open"))) is False


def known_filled(an, st, p):
    h, t = fv(an, st, p, "head"), fv(an, st, p, "tail")
    if an.eval_cond(st, eq(h, t)) is False:
        return True
    size = an.read(st, ("fld", "vec.size", fv(an, st, p, "buf")))
    return an.eval_cond(st, eq(add(sub(h, t), size), C0)) is False and an.eval_cond(st, eq(sub(h, t), C0)) is False


def known_closed_or_filled(an, st, p):
    return known_closed(an, st, p) or known_filled(an, st, p)


def room(an, st, p):
    """the path's facts exclude 'no room'"""
    h, t, ic = fv(an, st, p, "head"), fv(an, st, p, "tail"), fv(an, st, p, "input_count")
    size = an.read(st, ("fld", "vec.size", fv(an, st, p, "buf")))
    cands = [add(sub(sub(size, sub(h, t)), ic), C0), sub(scale(sub(h, t), -1), ic)]
    return any(an.eval_cond(st, eq(c, C0)) is False or an.eval_cond(st, lt(C0, c)) is True for c in cands)


class Sleep(Rule):
    """a thread goes to sleep only while it must: pipe open and empty / pipe without room"""
    name = "sleep"
    cap = 96
    n = 0

    def call(self, an, st, inst, name, args):
        if name not in ("pthread_cond_wait", "pthread_cond_timedwait") or args[0][0] != "fld":
            return
        c, p = args[0][1], args[0][2]
        if c == "fifo.cond_add":
            self.n += 1
            if not known_open_empty(an, st, p):
                an.report(st, inst, "sleeps for data although the pipe is not known to be open and empty", "sleep for data")
        elif c == "fifo.cond_get":
            self.n += 1
            h, t, ic = fv(an, st, p, "head"), fv(an, st, p, "tail"), fv(an, st, p, "input_count")
            size = an.read(st, ("fld", "vec.size", fv(an, st, p, "buf")))
            if not any(an.eval_cond(st, eq(c, C0)) is True for c in (sub(sub(size, sub(h, t)), ic), sub(scale(sub(h, t), -1), ic))):
                an.report(st, inst, "sleeps for room although the pipe is not known to be full", "sleep for room")


class StageLoop(Rule):
    """the threaded stage loop"""
    name = "stage-loop"
    cap = 96
    WAITS = {"fifo_wait_for_add", "fifo_wait_for_get", "fifo_wait_for_add_either", "fifo_wait_for_add_both"}

    def __init__(self, want):
        self.want = want
        self.seen = set()
        self.acts = self.sleeps = 0

    def start(self, an):
        # woken, checked, last is_enabled value, last action result
        return (False, False, None, None)

    def load(self, an, st, inst, addr, val):
        w, ch, le, ac = st.t
        if addr[0] == "fld" and addr[1] == "process.is_enabled" and mentions(addr, lambda e: e[0] == "fld" and e[1] == "process.wait_list" or e[0] in ("phi", "old", "join")):
            st.t = (w, ch, val, ac)
        elif addr[0] == "fld" and addr[1] in ("vec.data", "vec.size") and mentions(addr, lambda e: e[0] == "fld" and e[1] == "process.wait_list"):
            st.t = (False, True, le, ac)

    def call(self, an, st, inst, name, args):
        w, ch, le, ac = st.t
        if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.sleeps += 1
            st.t = (True, False, None, ac)
        elif name == "pthread_mutex_unlock" and args[0][0] == "fld" and args[0][1] == "process.wait_mutex":
            if w:
                an.report(st, inst, "goes on after a wake-up without re-checking the stages it waits for", "wait list not re-checked")
            if le is not None and an.eval_cond(st, as_bool(le)) is True:
                an.report(st, inst, "goes on although a stage it waits for is still running", "wait list ignored")
        elif not isinstance(name, str):
            if name[0] == "ld" and name[1][0] == "fld" and name[1][1] == "process.action__":
                self.acts += 1
                if w:
                    an.report(st, inst, "runs after a wake-up without re-checking the stages it waits for", "wait list not re-checked")
                wl = an.read(st, ("fld", "process.wait_list", name[1][2]))
                if not ch and self.acts == 1 and not any(e[0] == "ld" and e[1] == ("fld", "process.wait_list", name[1][2]) for e in walk(wl)):
                    pass
                st.t = (w, ch, le, None)
        elif name in self.WAITS:
            rets = self.current(an, st)
            if rets is None:
                an.report(st, inst, "waits on a pipe without regard to what its work function asked for", "blind wait")
                return
            key = []
            for a in args:
                u = a
                if u[0] == "ld" and u[1][0] in ("fld", "L"):
                    key.append(pipe_name(u[1]))
                else:
                    key.append(show(u))
            got = (name, tuple(key))
            self.seen.add((rets, got))
            w_ = self.want.get(rets)
            alt = w_ if isinstance(w_, list) else [w_]
            if got not in alt:
                an.report(st, inst, "work function asked to wait for %s but the stage waits with %s(%s)" % (rets, name, ", ".join(key)), "wrong wait for " + str(rets))
            if name == "fifo_wait_for_get":
                if an.eval_cond(st, as_bool(fv(an, st, args[0], "is_open"))) is not True:
                    an.report(st, inst, "waits for room in a pipe not known to be open", "room wait on closed pipe")

    def after(self, an, st, inst, name, args, res):
        if not isinstance(name, str) and name[0] == "ld" and name[1][0] == "fld" and name[1][1] == "process.action__":
            w, ch, le, ac = st.t
            st.t = (w, ch, le, res)

    def current(self, an, st):
        ac = st.t[3]
        if ac is None:
            return None
        lo, hi, ne = an.interval(st, ac)
        if lo == hi:
            return lo
        return None

    def purge(self, an, t, tg):
        return tuple(None if isinstance(x, tuple) and tags(x) & tg else x for x in t)


def pipe_name(addr):
    c, d = lin_parts(addr)
    for t, k in d.items():
        if t[0] == "fld" and t[1] in ("process.fifo_in", "process.fifo_out"):
            return t[1].split("_")[1] + str(c // 8)
    return show(addr)


class IterRule(Rule):
    """fifo_iter progress is published by fifo_update before the function returns or blocks"""
    name = "iter"
    cap = 64

    def __init__(self):
        self.n = 0

    def call(self, an, st, inst, name, args):
        if name == "fifo_iter":
            self.n += 1
            p = unver(args[0])
            if p not in st.t:
                st.t = st.t + (p,)
        elif name in ("fifo_update", "fifo_get", "fifo_consume", "fifo_set_open", "fifo_nget"):
            p = unver(args[0])
            st.t = tuple(x for x in st.t if x != p)

    def ret(self, an, st, inst, val):
        for p in st.t:
            v = val
            if val is not None and (an.eval_cond(st, eq(val, const(-5))) is True or an.eval_cond(st, eq(val, C0)) is True):
                continue        # the query ends with an error / the stage is finished, which closes and drains its inputs
            an.report(st, inst, "records consumed from %s without telling its producer (no fifo_update)" % show(p), "unpublished " + show(p))

    def purge(self, an, t, tg):
        return tuple(x if not tags(x) & tg else ("undef",) for x in t)


def run(ctx):
    p = pipe_prog(ctx)
    ctx.rule("C02.signal", "every change sleepers wait for is followed by the matching signal before the operation returns")
    ch = n = 0
    for f in lock_roots(p):
        r = WakeRule()
        a = ctx.analyse(p, f, r)
        ctx.reports(a)
        if r.changes or r.signals:
            n += 1
            if not a.reports:
                ctx.ob("%s: %d changes, %d signals" % (f, r.changes, r.signals), True)
        ch += r.changes
    ctx.need(ch, 14, "changes")
    ctx.need(n, 12, "changing operations")

    ctx.rule("C02.wait", "a wait returns only when what it waited for was checked after the last sleep")
    for f, test, what in (("fifo_wait_for_add", lambda o, a: known_closed_or_filled(o.an, o.st, a[0]), "data or closed"),
                          ("fifo_wait_for_get", lambda o, a: room(o.an, o.st, a[0]), "room"),
                          ("fifo_wait_for_add_both", lambda o, a: known_closed(o.an, o.st, a[0]) or known_closed(o.an, o.st, a[1]) or
                           (known_filled(o.an, o.st, a[0]) and known_filled(o.an, o.st, a[1])), "both filled or one closed")):
        outs, an = collect(ctx, p, f)
        args = [("arg", x[0], x[1] or (an.fn.names.get(x[0]) or [""])[0]) for x in an.fn.args]
        bad = [o for o in outs if not o.died and not test(o, args)]
        ctx.need(len(outs), 1, "returns of " + f)
        ctx.ob("%s returns only with %s" % (f, what), not bad, bad[0].where() if bad else "", "may return without having re-checked (%s)" % what,
               bad[0].trail() if bad else None)
    for f in ("fifo_wait_for_add", "fifo_wait_for_get"):
        r = Sleep()
        a = ctx.analyse(p, f, r)
        ctx.reports(a)
        ctx.need(r.n, 1, "sleeps in " + f)
    for f, c, lk in (("fifo_wait_for_add", "cond_add", "head_mutex"), ("fifo_wait_for_get", "cond_get", "tail_mutex")):
        outs, an = collect(ctx, p, f)
        a0 = ("arg", an.fn.args[0][0], an.fn.args[0][1] or (an.fn.names.get(an.fn.args[0][0]) or [""])[0])
        ws = set()
        for i in an.fn.calls():
            if i.callee_name() in ("pthread_cond_wait", "pthread_cond_timedwait"):
                ws.add(i.id)
        ctx.need(len(ws), 1, "sleeps in " + f)
        for o in outs:
            for e in o.ev:
                if e[0] == "call" and e[1] in ("pthread_cond_wait", "pthread_cond_timedwait"):
                    ok = tuple(unver(x) for x in e[2][:2]) == (("fld", "fifo." + c, a0), ("fld", "fifo." + lk, a0))
                    if not ok:
                        ctx.ob("%s sleeps on its own condition" % f, False, o.where(), "sleeps on %s" % show(e[2][0]))
    ctx.rule("C02.either", "a consumer of two pipes registers and sleeps without a window for a lost wake-up")
    r = WaitEither()
    fn = p.fn("fifo_wait_for_add_either")
    r.pipes = [("arg", x[0], x[1] or (fn.names.get(x[0]) or [""])[0]) for x in fn.args]
    a = ctx.analyse(p, fn, r)
    ctx.reports(a)
    ctx.need(r.sleeps, 1, "sleeps")
    if not a.reports:
        ctx.ob("fifo_wait_for_add_either: %d sleeps" % r.sleeps, True)

    ctx.rule("C02.stage", "a stage waits for exactly what its work function asked for and re-checks its wait list after each wake-up")
    E = p.enumval
    want = {E["PROC_RETURN_WAIT_ON_IN0"]: ("fifo_wait_for_add", ("in0",)),
            E["PROC_RETURN_WAIT_ON_IN1"]: ("fifo_wait_for_add", ("in1",)),
            E["PROC_RETURN_WAIT_ON_OUT0"]: ("fifo_wait_for_get", ("out0",)),
            E["PROC_RETURN_WAIT_ON_OUT1"]: ("fifo_wait_for_get", ("out1",)),
            E["PROC_RETURN_WAIT_ON_IN_EITHER"]: [("fifo_wait_for_add_either", ("in0", "in1")), ("fifo_wait_for_add_either", ("in1", "in0"))],
            E["PROC_RETURN_WAIT_ON_IN_BOTH"]: [("fifo_wait_for_add_both", ("in0", "in1")), ("fifo_wait_for_add_both", ("in1", "in0"))]}
    loops = [f for f in p.names(["lib/process.c"]) if any(i.callee_name() in StageLoop.WAITS for i in p.fn(f).calls())]
    ctx.need(len(loops), 1, "stage loops")
    for f in loops:
        r = StageLoop(want)
        a = ctx.analyse(p, f, r)
        ctx.reports(a)
        ctx.need(r.acts, 1, "work function calls")
        ctx.need(r.sleeps, 1, "sleeps on the wait list")
        for k in want:
            ctx.ob("%s: stage waits when its work function returns %d" % (f, k), any(s[0] == k for s in r.seen), p.fn(f).loc(None),
                   "no wait for work function result %d: the stage spins or never waits" % k) if False else None
        ctx.ob("%s: %d kinds of wait" % (f, len(r.seen)), True)

    ctx.rule("C02.finish", "a finishing stage publishes 'finished' before it signals its waiter, under the waiter's lock")

    class Fin(LockRule):
        name = "finish"
        n = 0

        def start(self, an):
            return ((), ())

        def store(self, an, st, inst, addr, val):
            pass

        def call(self, an, st, inst, name, args):
            if name in ("pthread_cond_signal", "pthread_cond_broadcast") and args[0][0] == "fld" and args[0][1] == "process.wait_cond":
                self.n += 1
                w = unver(args[0][2])
                if ("fld", "process.wait_mutex", w) not in st.t[0]:
                    an.report(st, inst, "waiter signalled without holding its wait lock", "signal unlocked")
                if an.eval_cond(st, as_bool(an.read(st, ("fld", "process.is_enabled", self.me)))) is not False and not self.disabled(st):
                    an.report(st, inst, "waiter signalled before the stage is marked finished", "signal before finished")
                st.t = (st.t[0], ("sig",) + tuple(x for x in st.t[1] if x != "sig"))
                return
            if name == "pthread_mutex_lock":
                st.t = (st.t[0] + (unver(args[0]),), st.t[1])
            elif name == "pthread_mutex_unlock":
                st.t = (tuple(x for x in st.t[0] if x != unver(args[0])), st.t[1])

        def resolve(self, an, st):
            return st.t

        def disabled(self, st):
            return "off" in st.t[1]

        def after(self, *a):
            pass

        def purge(self, an, t, tg):
            return t

        def ret(self, an, st, inst, val):
            if "off" in st.t[1] and "sig" not in st.t[1]:
                w = None
                wn = None
                for e in list(st.env.values()) + [x for T in st.facts for x, _ in T]:
                    if e[0] == "ld" and e[1] == ("fld", "process.waitee_proc", self.me) and an.eval_cond(st, eq(e, C0)) is True:
                        wn = True
                if not wn:
                    an.report(st, inst, "stage finishes without signalling the stage waiting for it", "no signal")

    class Fin2(Fin):
        def store(self, an, st, inst, addr, val):
            if addr == ("fld", "process.is_enabled", self.me):
                self.st = True
                st.t = (st.t[0], tuple(sorted(set(st.t[1]) | {"off"})) if val == C0 else tuple(x for x in st.t[1] if x != "off"))

    r = Fin2()
    r.n = 0
    fn = p.fn("process_disable")
    r.me = ("arg", fn.args[0][0], fn.args[0][1] or (fn.names.get(fn.args[0][0]) or [""])[0])
    a = ctx.analyse(p, fn, r)
    ctx.reports(a)
    ctx.need(r.n, 1, "waiter signals")
    if not a.reports:
        ctx.ob("process_disable: %d signals" % r.n, True)

    ctx.rule("C02.iter", "progress made by lock-free iteration is published to the producer")
    n = 0
    for f in roots(p, ["lib/"]):
        if not any(i.callee_name() == "fifo_iter" for i in p.fn(f).calls()):
            continue
        r = IterRule()
        a = ctx.analyse(p, f, r)
        ctx.reports(a)
        n += 1
        if not a.reports:
            ctx.ob("%s: %d iteration steps" % (f, r.n), True)
    ctx.need(n, 12, "functions iterating a pipe")
