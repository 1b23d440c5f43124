from .locks import *

TECHNIQUE = "lockset typestate dataflow over LLVM IR (path-sensitive, helpers inlined)"
LEVEL_NOTE = "every path of every lock-using function, loops abstracted; single-threaded operations exempt"
EXPLANATION = (
    "Lockset dataflow over every operation of the pipe module and every engine function that takes a lock, on LLVM IR with all helpers "
    "inlined. On each path: a change of a pipe's write position or elements needs its head lock, of its read position its tail lock; a lock is "
    "not re-acquired, is released only when held, and none is held at any return or thread exit (try-locks by the branch on their result); "
    "a condition wait holds exactly its mutex. Write positions are changed only by the pipe module.")
ASSUMPTIONS = ["operations documented as single-threaded (construct/destroy/reset/resize/set_full, begin/iter/end) are used that way",
               "distinct restrict parameters do not alias", "pthread primitives succeed"]


def run(ctx):
    p = pipe_prog(ctx)
    ctx.rule("C01.lockset", "pipe positions/elements change only under their lock; locks are balanced on every path; waits hold their mutex")
    n = acc = acq = waits = 0
    for f in lock_roots(p):
        r = LockRule()
        a = ctx.analyse(p, f, r)
        ctx.reports(a)
        if not a.reports:
            ctx.ob("%s: %d acquisitions, %d guarded accesses, %d waits" % (f, r.acq, r.acc, r.waits), True)
        n += 1
        acc += r.acc
        acq += r.acq
        waits += r.waits
    ctx.need(n, 25, "lock-using functions")
    ctx.need(acc, 15, "guarded accesses")
    ctx.need(acq, 20, "lock acquisitions")
    ctx.need(waits, 3, "condition waits")
    ctx.rule("C01.writers", "pipe positions are stored to only inside the pipe module")
    k = 0
    for fn in p.names():
        F = p.fn(fn)
        for i in F.insts():
            tgt = i.a[1] if i.op == "store" else i.a[0] if i.op in ("atomicrmw", "cmpxchg") else None
            if not isinstance(tgt, int):
                continue
            d = F.defs.get(tgt)
            c = d.callee_name() if d is not None else None
            if c in ("fld:fifo.head", "fld:fifo.tail", "fld:fifo._iter_head"):
                home = p._raw.get(i.infn or fn)
                ok = home is not None and p.rel(home["file"]) == "util/fifo.c"
                k += 1
                if not ok:
                    ctx.ob("%s writes %s" % (fn, c[4:]), False, F.loc(i), "pipe position written outside the pipe module")
    ctx.ob("%d stores, all in util/fifo.c" % k, True)
    ctx.need(k, 15, "position stores")
