from .locks import *

TECHNIQUE = "interprocedural lock-order graph over LLVM IR (held-set dataflow plus call-graph summaries)"
LEVEL_NOTE = "every nested acquisition of the engine by lock class and parameter position; sleeping on a condition while holding another lock included"
EXPLANATION = (
    "For every lock acquired while another is held (on any path, through any chain of calls) the ordered pair of lock classes and of the objects they belong to is recorded. "
    "The classes must form an acyclic order; two locks of the same class may be nested only when the inner belongs to the pipe that the outer's registration names (first pipe before second), "
    "and no lock is re-acquired while held.")
ASSUMPTIONS = ["a pipe never registers itself as its own partner", "a chain of registered partners is never cyclic: only in0 of a stage registers its in1"]


def cls(a):
    return a[1] if a[0] == "fld" else addr_class(a)


class Held(LockRule):
    name = "order"

    def __init__(self, acq):
        LockRule.__init__(self, guards=False)
        self.pairs = {}
        self.acqsum = acq
        self.own = set()

    def note(self, an, st, inst, b, a, how):
        self.pairs.setdefault((b, a), (an.fn.loc(inst), an.trail(st, inst), how))

    def call(self, an, st, inst, name, args):
        if name in ("pthread_mutex_lock", "pthread_mutex_trylock"):
            a = unver(args[0])
            if name == "pthread_mutex_lock":
                for b in self.held(an, st):
                    self.note(an, st, inst, b, a, "")
        LockRule.call(self, an, st, inst, name, args)
        if isinstance(name, str) and name in self.acqsum and name in an.prog._raw:
            fa = an.prog.fn(name).args
            sub_ = {("arg", f[0], f[1] or (an.prog.fn(name).names.get(f[0]) or [""])[0]): unver(v) for f, v in zip(fa, args)}
            h = self.held(an, st)
            if h:
                for a in self.acqsum[name]:
                    a2 = subst(a, sub_)
                    for b in h:
                        self.note(an, st, inst, b, a2, " (through %s)" % name)

    def check_exit(self, an, st, inst, how):
        pass


def subst(e, m):
    if e in m:
        return m[e]
    k = e[0]
    if k == "L":
        d = {}
        r = const(e[1])
        for a, c in e[2]:
            r = add(r, subst(a, m), c)
        return r
    if k == "ld":
        return ("ld", subst(e[1], m), e[2])
    if k == "fld":
        return ("fld", e[1], subst(e[2], m))
    return e


def run(ctx):
    p = pipe_prog(ctx)
    ctx.rule("C03.order", "nested lock acquisitions follow one order everywhere")
    # which locks does a call acquire (blocking), in terms of its parameters
    direct = {}
    fns = roots(p, ["util/", "lib/"])
    acq = {}
    ch = True
    for f in fns:
        for i in p.fn(f).calls():
            if i.callee_name() == "pthread_mutex_lock":
                acq.setdefault(f, set())
    # symbolic addresses through one analysis per function

    class A(Rule):
        name = "acq"
        cap = 8

        def __init__(self):
            self.s = set()
            self.calls_ = []

        def call(self, an, st, inst, name, args):
            if name in ("pthread_mutex_lock", "pthread_cond_wait"):
                self.s.add(unver(args[0] if name == "pthread_mutex_lock" else args[1]))
            elif isinstance(name, str) and name in an.prog._raw:
                self.calls_.append((name, tuple(unver(x) for x in args)))
    info = {}
    cg = p.callgraph()
    lockers = set(acq)
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f not in lockers and cg.get(f, set()) & lockers and p.rel(p._raw[f]["file"]).startswith(("util/", "lib/process.c", "lib/fqlprocesses.c")):
                lockers.add(f)
                ch = True
    for f in sorted(lockers):
        r = A()
        ctx.analyse(p, f, r)
        info[f] = r
        acq[f] = set(r.s)
    ch = True
    n = 0
    while ch and n < 6:
        ch = False
        n += 1
        for f, r in info.items():
            for c, args in r.calls_:
                if c in acq and c != f:
                    fa = p.fn(c).args
                    m = {("arg", x[0], x[1] or (p.fn(c).names.get(x[0]) or [""])[0]): v for x, v in zip(fa, args)}
                    for a in list(acq[c]):
                        a2 = subst(a, m)
                        if len(repr(a2)) < 1500 and a2 not in acq[f]:
                            acq[f].add(a2)
                            ch = True
    pairs = {}
    for f in sorted(lockers):
        r = Held(acq)
        a = ctx.analyse(p, f, r)
        for rep in a.reports.values():
            if rep.instance.startswith("relock"):
                ctx.ob("%s: %s" % (f, rep.instance), False, rep.where(), rep.msg, rep.trail)
        for k, v in r.pairs.items():
            pairs.setdefault((f,) + k, v)
    ctx.need(len(lockers), 20, "lock-taking functions")
    ctx.need(len(pairs), 8, "nested acquisitions")

    edges = {}
    same = {}
    for (f, b, a), (loc, tr, how) in pairs.items():
        cb, ca = cls(b), cls(a)
        if cb == ca:
            same.setdefault(ca, []).append((f, b, a, loc, tr, how))
        else:
            edges.setdefault((cb, ca), []).append((f, loc, tr, how))
    # acyclic classes
    def reach(x, y, seen):
        for (s, t) in edges:
            if s == x and t not in seen:
                if t == y:
                    return True
                seen.add(t)
                if reach(t, y, seen):
                    return True
        return False
    for (x, y), sites in sorted(edges.items()):
        ok = not reach(y, x, set())
        f, loc, tr, how = sites[0]
        if ok:
            ctx.ob("%s before %s: %d sites" % (x, y, len(sites)), True)
        else:
            # a cycle: blame the minority direction
            back = edges.get((y, x), [])
            if not back or len(sites) <= len(back):
                for f, loc, tr, how in sites:
                    ctx.ob("%s: %s then %s" % (f, x, y), False, loc, "lock order inversion: elsewhere %s is taken before %s%s" % (y, x, how), tr)
            else:
                ctx.ob("%s before %s: %d sites" % (x, y, len(sites)), True)
    # two locks of one class: inner must be the partner registered by the outer
    for c, l in sorted(same.items()):
        n = 0
        for f, b, a, loc, tr, how in l:
            if a == b:
                if how:
                    ctx.ob("%s: relock %s" % (f, show(a)), False, loc, "lock %s acquired while already held%s" % (show(a), how), tr)
                continue
            ob, ib = b[2], a[2]
            # partner: inner object is loaded from outer->shared_mutex_fifo
            ok = ib[0] == "ld" and ib[1] == ("fld", "fifo.shared_mutex_fifo", ob)
            if not ok:
                # or this function registers inner as outer's partner
                ok = registers(ctx, p, f, ob, ib)
            n += 1
            ctx.ob("%s: %s then %s" % (f, show(b), show(a)), ok, loc, "two %s locks nested against the registration order%s" % (c, how), tr)
    ctx.need(len(same), 1, "same-class nestings")


def registers(ctx, p, f, outer, inner):
    """f stores inner into outer->shared_mutex_fifo on some path (and never the other way round)"""
    class R(Rule):
        name = "reg"
        cap = 16
        ok = False
        bad = False

        def store(self, an, st, inst, addr, val):
            if addr[0] == "fld" and addr[1] == "fifo.shared_mutex_fifo":
                if unver(addr[2]) == outer and unver(val) == inner:
                    self.ok = True
                if unver(addr[2]) == inner and unver(val) == outer:
                    self.bad = True
    r = R()
    ctx.analyse(p, f, r)
    return r.ok and not r.bad
