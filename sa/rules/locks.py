"""Lockset and wake-up typestate over the pipe and stage code (C01, C02, C03)."""
from .common import *

GUARD = {"fifo.head": "fifo.head_mutex", "fifo.tail": "fifo.tail_mutex"}
# operations documented as single-threaded (set-up, tear-down, lock-free iteration)
EXEMPT = {"fifo_construct", "fifo_destroy", "fifo_free", "fifo_reset", "fifo_resize", "fifo_set_full",
          "fifo_begin", "fifo_iter", "fifo_end"}
COPY = {"memcpy", "memmove", "memset"}


def flat(ctx):
    """everything in util and lib/process.c inlined down to primitive effects"""
    return ctx.prog("engine", keep=["node_%s" % x for x in ()] + ["process_disable", "process_enable", "fqlprocess_recycle"])


class LockRule(Rule):
    """t = (held, tries)   held: tuple of lock addresses; tries: ((addr, result), ...)"""
    name = "lockset"
    cap = 64

    def __init__(self, order=None, guards=True):
        self.order = order      # list collecting (held, acquired, where)
        self.guards = guards
        self.acq = self.rel = self.acc = self.waits = 0

    def start(self, an):
        return ((), ())

    def resolve(self, an, st):
        """turn try-locks whose result is known on this path into held/not held"""
        held, tries = st.t
        rest = []
        for a, r in tries:
            v = an.eval_cond(st, eq(r, C0))
            if v is True:
                held = held + (a,)
            elif v is None:
                rest.append((a, r))
        st.t = (held, tuple(rest))
        return st.t

    def branch(self, an, st, inst, cond, taken):
        if st.t[1]:
            self.resolve(an, st)

    def held(self, an, st):
        return self.resolve(an, st)[0]

    def call(self, an, st, inst, name, args):
        if isinstance(name, str) and name.startswith("pthread_"):
            args = [unver(a) for a in args]
        if name == "pthread_mutex_lock" or name == "pthread_mutex_trylock":
            self.acq += 1
            h = self.held(an, st)
            a = args[0]
            if a in h and name == "pthread_mutex_lock":
                an.report(st, inst, "lock %s acquired while already held" % show(a), "relock " + show(a))
            if self.order is not None and name == "pthread_mutex_lock":
                for b in h:
                    self.order.append((b, a, an, st.copy(), inst))
            if name == "pthread_mutex_lock":
                st.t = (h + (a,), st.t[1])
        elif name == "pthread_mutex_unlock":
            self.rel += 1
            h = self.held(an, st)
            a = args[0]
            if a in h:
                i = len(h) - 1 - h[::-1].index(a)
                st.t = (h[:i] + h[i + 1:], st.t[1])
            else:
                t = [x for x in st.t[1] if x[0] == a]
                an.report(st, inst, "lock %s released without being %sheld" % (show(a), "certainly " if t else ""), "unlock " + show(a))
                if t:
                    st.t = (h, tuple(x for x in st.t[1] if x[0] != a))
        elif name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.waits += 1
            h = self.held(an, st)
            if args[1] not in h:
                an.report(st, inst, "waits with %s not held" % show(args[1]), "wait " + show(args[0]))
            others = [x for x in h if x != args[1]]
            if others:
                an.report(st, inst, "sleeps while holding %s" % ", ".join(show(x) for x in others), "sleep holding " + show(args[0]))
        elif name == "pthread_exit":
            self.check_exit(an, st, inst, "thread ends")
        if self.guards and name in COPY:
            self.check_data(an, st, inst, args)

    def after(self, an, st, inst, name, args, res):
        if name == "pthread_mutex_trylock":
            st.t = (st.t[0], st.t[1] + ((unver(args[0]), res),))

    def check_data(self, an, st, inst, args):
        """element copies into a pipe's buffer"""
        for b in fifo_data_base(args[0]):
            self.acc += 1
            if an.fn.name in EXEMPT:
                continue
            if ("fld", "fifo.head_mutex", unver(b)) not in self.held(an, st):
                an.report(st, inst, "pipe element stored without holding the pipe's head lock", "element store")

    def store(self, an, st, inst, addr, val):
        if not self.guards or addr[0] != "fld":
            return
        g = GUARD.get(addr[1])
        if g is None:
            return
        self.acc += 1
        if an.fn.name in EXEMPT or inst.infn in EXEMPT:
            return
        if ("fld", g, unver(addr[2])) not in self.held(an, st):
            an.report(st, inst, "%s changed without holding %s" % (show(addr)[1:], g.split(".")[1]), "store " + addr[1])

    def ret(self, an, st, inst, val):
        self.check_exit(an, st, inst, "returns")

    def check_exit(self, an, st, inst, how):
        held, tries = self.resolve(an, st)
        for a in held:
            an.report(st, inst, "%s with %s still held" % (how, show(a)), "leak " + show(a))
        for a, r in tries:
            an.report(st, inst, "%s without checking whether %s was obtained" % (how, show(a)), "unchecked try " + show(a))

    def purge(self, an, t, tg):
        held, tries = t
        return (tuple(("al", "stale") if tags(a) & tg else a for a in held),
                tuple(x for x in tries if not (tags(x[0]) | tags(x[1])) & tg))


def fifo_data_base(a):
    """the pipe whose element storage address a points into"""
    out = []
    c, d = lin_parts(a)
    for t, k in d.items():
        if k == 1 and t[0] == "ld" and t[1][0] == "fld" and t[1][1] == "vec.data":
            v = t[1][2]
            if v[0] == "ld" and v[1][0] == "fld" and v[1][1] == "fifo.buf":
                out.append(v[1][2])
    return out


def lock_roots(prog):
    """functions (not inlined anywhere) of the pipe and stage modules + any other
    function of the engine that touches a lock"""
    fs = set(n for n in roots(prog, ["util/fifo.c"]))
    for n in roots(prog, ["util/", "lib/"]):
        for i in prog.fn(n).calls():
            c = i.callee_name()
            if c and c.startswith(("pthread_mutex_", "pthread_cond_")) and c.endswith(("lock", "wait", "signal", "broadcast")):
                fs.add(n)
    return sorted(fs)


KEEP = ["process_disable", "process_enable", "process_activate", "process_construct", "process_destroy", "process_step", "process_exec_plan",
        "process_exec_plan_thread", "process_add_to_wait_list", "process_node_free", "fqlprocess_recycle", "fqlprocess_recycle_buffer"]


def pipe_prog(ctx):
    """util fully inlined (pipe operations become primitive effects); the rest of
    the engine keeps its header-declared functions, but pipe operations are
    still calls there"""
    keep = set(ANCHORS())
    util_inline = set()
    from ..facts import load
    p0 = ctx.prog("engine")
    for n in p0.names(["util/vec.c", "util/node.c", "util/stringy.c", "util/util.c", "util/stringview.c"]):
        util_inline.add(n)
    keep -= util_inline
    keep -= {"fifo_available", "fifo_is_empty", "fifo_is_full", "fifo_receivable", "fifo_peek"}
    return ctx.prog("engine", keep=keep)
