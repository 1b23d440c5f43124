"""C05: finishing a stage, waiting for it and running it again."""
from .norm import *
from .frag import Fragments, FragRule

TECHNIQUE = "path analysis of the functions that start, run, finish and reset a stage, on the compiler's intermediate representation (calls and stores in order on every path; loops by induction over their rounds)"
LEVEL_NOTE = "every path of these functions; any number of stages, queued records and waited-for stages"
EXPLANATION = (
    "Finishing: on every path of the function that disables an active stage each output pipe that exists and the first input are closed, the stage is marked disabled before its waiter is signalled, and every record between the beginning and the end of an input that is not a source is handed to the recycler before that input is updated. "
    "Both executors disable a stage exactly when its work function returned completion, run no disabled stage, and run none while the list of stages it waits for has an active one; a pass that skipped a waiting stage or in which a stage did not complete never counts as the last pass. "
    "Resetting: every stage of a completed plan is enabled again with its counter zero, its pipes reset after its buffered records were recycled, its first input restored and its killed pipe closed last.")
ASSUMPTIONS = ["fifo_begin, fifo_iter and fifo_end enumerate a pipe's records (C04)", "fifo_reset leaves a pipe empty and open"]

COMPLETE, FAILED = 0, -5
KEEP = ["fifo_set_open", "fifo_begin", "fifo_iter", "fifo_end", "fifo_update", "fqlprocess_recycle", "fqlprocess_recycle_buffer", "fifo_reset", "fifo_advance",
        "pthread_cond_signal", "pthread_cond_broadcast", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "process_disable", "process_enable", "_check_wait_list", "string_c_str", "plan_pipeline_root_preempt"]


def run(ctx):
    disable(ctx)
    execute(ctx)
    waiting(ctx)
    enable(ctx)
    reset(ctx)


def pipe(which, k, self_):
    a = fld("process.%s" % which, self_)
    return ("ld", a if k == 0 else add(a, const(8 * k)), 0)


def find(o, name, *args):
    """index of the first call of name whose arguments begin like this"""
    for k, e in enumerate(o.ev):
        if e[0] == "call" and e[1] == name and all(w is None or g == w or P(o).eq(g, w) for g, w in zip(e[2], args)):
            return k
    return None


def disable(ctx):
    ctx.rule("C05.disable", "a finishing stage closes its outputs and its first input, is marked before its waiter is signalled, and gives its queued records back")
    p = ctx.prog("engine", keep=KEEP)
    name = "process_disable"
    f = p.fn(name)
    outs, an = collect(ctx, p, f, set(KEEP), {"process.is_enabled"})
    self_ = arg(an, 0)
    n = 0
    waiter = fld("process.waitee_proc", self_)
    for o in returns(outs):
        o = View(o, ("process.",))
        if o.infeasible:
            continue
        known = lambda c: o.an.eval_cond(o.st, c)
        flag = ("ld", fld("process.is_enabled", self_), 0)
        mark = [k for k, e in enumerate(o.ev) if e[0] == "store" and e[1] == fld("process.is_enabled", self_)]
        if not mark and known(eq(flag, C0)) is True:
            continue
        n += 1
        why = None
        if not mark or o.ev[mark[-1]][2] != C0:
            why = "the stage is not marked finished"
        for w, k in (("fifo_out", 0), ("fifo_out", 1), ("fifo_in", 0)):
            x = pipe(w, k, self_)
            none = known(eq(x, C0))
            if none is not True and find(o, "fifo_set_open", x, C0) is None:
                why = why or "%s[%d] is not closed" % (w, k)
        for k in (0, 1):
            x = pipe("fifo_in", k, self_)
            none = known(eq(x, C0))
            root = known(eq(("ld", fld("process.root_fifo", self_), 0), const(k)))
            if none is True or root is True:
                continue
            b, u = find(o, "fifo_begin", x), find(o, "fifo_update", x)
            if b is None or u is None or u < b:
                why = why or "records queued on fifo_in[%d] are not given back" % k
        wt = ("ld", waiter, 0)
        s = [k for k, e in enumerate(o.ev) if e[0] == "call" and e[1] in ("pthread_cond_signal", "pthread_cond_broadcast") and e[2][0] == fld("process.wait_cond", wt)]
        if known(eq(wt, C0)) is not True and not s:
            why = why or "the waiting stage is not woken"
        elif s and mark and s[0] < mark[0]:
            why = why or "the waiting stage is woken before the stage is marked finished"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 4, "paths that disable a stage")
    each_recycled(ctx, p, name)


def each_recycled(ctx, p, name):
    F = Fragments(ctx, p, name, lambda: FragRule(set(KEEP), set()), infer=False)
    n = 0
    for h in F.headers:
        if h not in F.reachable():
            continue
        for o in F.arrivals(h, h):
            r = [k for k, e in enumerate(o.ev) if e[1] == "fqlprocess_recycle"]
            it = [k for k, e in enumerate(o.ev) if e[1] == "fifo_iter"]
            en = [e for e in o.ev if e[1] == "fifo_end"]
            nxt = [i for i, v in o.raw.items() if it and v == o.ev[it[-1]][4]]
            why = None
            if not it and not en:
                continue
            n += 1
            if len(it) != 1 or len(nxt) != 1 or not en:
                why = "the queue is not walked record by record"
            else:
                cur = ("in", nxt[0])
                if o.an.eval_cond(o.st, eq(cur, en[0][4])) is not False:
                    why = "a record beyond the last is given back"
                elif len(r) != 1 or o.ev[r[0]][2][1] != cur or o.ev[r[0]][2][0] != arg(o.an, 0):
                    why = "a queued record is not given back"
                elif r[0] > it[0]:
                    why = "the record is given back after the walk went on"
                for a in F.arrivals(dst=h):
                    if a.src == h:
                        continue
                    v = a.raw.get(nxt[0]) if len(nxt) == 1 else None
                    bs = [e for e in a.ev if e[1] == "fifo_begin" and e[4] == v]
                    if v is not None and not bs:
                        why = why or "the walk does not begin at the first record"
            ctx.ob(name + ": queue", why is None, o.where(), why or "", o.trail() if why else None)
        for o in [x for x in F.arrivals(h) if x.dst != h] + F.returns(h):
            en = [e for e in o.ev if e[1] == "fifo_end"]
            if not en:
                continue
            its = [i for i in F.fn.live[h] if o.an.eval_cond(o.st, eq(("in", i), en[0][4])) is True]
            ctx.ob(name + ": queue", bool(its), o.where(), "" if its else "the walk ends before the last record", o.trail() if not its else None)
    ctx.need(n, 2, "walks over queued records")


def execute(ctx):
    ctx.rule("C05.run", "a stage is disabled exactly when its work function reported completion, never runs disabled or while a stage it waits for is active, and a pass with unfinished stages is not the last")
    p = ctx.prog("engine", keep=KEEP)
    name = "_exec_one_pass"
    F = Fragments(ctx, p, name, lambda: FragRule(None, set()), infer=False)
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    carriers = {o.val[1] for o in F.returns(h) if o.val is not None and o.val[0] == "in"}
    if len(carriers) != 1:
        raise AnalysisError("%s: what it returns is not carried by one variable" % name)
    car = carriers.pop()
    n = 0
    for o in F.arrivals(h, h) + F.returns(h):
        o = View(o, ("process.",))
        if o.infeasible:
            continue
        why, ran = stage(o)
        isret = not hasattr(o, "dst")
        known = lambda c: o.an.eval_cond(o.st, c)
        if ran is not None:
            n += 1
        if why is None and not isret:
            d = sub(o.next.get(car, ("in", car)), ("in", car))
            lo = o.an.interval(o.st, d)[0]
            if ran is None:
                w = [e for e in o.ev if e[1] == "_check_wait_list"]
                if w and known(eq(w[-1][4], C0)) is False and lo < 1:
                    why = "a waiting stage may be left behind by the last pass"
                elif not w and d != C0 and lo < 0:
                    why = "a stage that does not run changes the count"
            else:
                least = [x for x in lin_parts(d)[1] if x == ran]
                done = known(eq(ran, const(COMPLETE))) is True
                if not done and not (least and lin_parts(d)[1][ran] == 1) and lo < 1:
                    why = "a stage that is not finished may be left behind by the last pass"
        if why is None and isret and ran is not None and known(eq(ran, const(FAILED))) is not True:
            why = "the pass ends after a stage that did not fail"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "paths that run a stage")
    name = "_thread_exec"
    F = Fragments(ctx, p, name, lambda: FragRule(None, set()), infer=False)
    n = 0
    for o in F.arrivals() + [x for r in F.frag.values() for x in r.outs]:
        o = View(o, ("process.",))
        if o.infeasible:
            continue
        why, ran = stage(o, threaded=True)
        if ran is not None:
            n += 1
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 3, "paths that run a stage")
    waits = {h for h in F.headers if h in F.reachable() and any(e[1] == "_check_wait_list" for o in F.arrivals(h, h) for e in o.ev)}
    # before a thread starts working nobody it waits for is active
    n = 0
    for o in F.arrivals(0) + F.returns(0):
        known = lambda c: o.an.eval_cond(o.st, c)
        wl = [a for T, g in o.st.facts.items() for a, _ in T if a[0] == "ld" and a[1][0] == "fld" and a[1][1] == "process.wait_list"]
        has = [known(eq(a, C0)) is False for a in wl]
        acts = [e for e in o.ev if e[1] == "<indirect>"]
        n += 1
        ok = not acts or bool(wl) and not any(has)
        if any(has):
            w = [e for e in o.ev if e[1] == "_check_wait_list"]
            ok = hasattr(o, "dst") and o.dst in waits and not acts or bool(w) and known(eq(w[-1][4], C0)) is True
        elif not wl:
            ok = not acts and hasattr(o, "dst")
        ctx.ob(name + ": start", ok, o.where(), "" if ok else "works although a stage it waits for may be active", o.trail() if not ok else None)
    for h in sorted(waits):
        for o in [x for x in F.arrivals(h) if x.dst != h] + F.returns(h):
            w = [e for e in o.ev if e[1] == "_check_wait_list"]
            ok = bool(w) and o.an.eval_cond(o.st, eq(w[-1][4], C0)) is True and w[-1][2][0][0] in ("ld", "in")
            n += 1
            ctx.ob(name + ": start", ok, o.where(), "" if ok else "works although a stage it waits for may be active", o.trail() if not ok else None)
    ctx.need(n, 2, "ways a thread begins to work")


def stage(o, threaded=False):
    """what a path does with a stage -> (complaint, the value its work function returned)"""
    known = lambda c: o.an.eval_cond(o.st, c)
    acts = [k for k, e in enumerate(o.ev) if e[1] == "<indirect>" and e[5] is not None and "process.action__" in repr(e[5])]
    dis = [k for k, e in enumerate(o.ev) if e[1] == "process_disable"]
    if not acts:
        return ("a stage is disabled that did not run" if dis else None), None
    e = o.ev[acts[0]]
    s, r = e[2][0], e[4]
    done = known(eq(r, const(COMPLETE)))
    if len(acts) > 1:
        return "two stages run", r
    if known(eq(("ld", fld("process.is_enabled", s), 0), C0)) is not False and not any(known(eq(x, C0)) is False for x in enabled(o, s)):
        return "a disabled stage may run", r
    if not threaded:
        wl = ("ld", fld("process.wait_list", s), 0)
        w = [k for k, x in enumerate(o.ev) if x[1] == "_check_wait_list" and x[2][0] == wl]
        if known(eq(wl, C0)) is not True and not (w and w[0] < acts[0] and known(eq(o.ev[w[0]][4], C0)) is True):
            return "a stage may run although one it waits for is active", r
    if dis and (len(dis) > 1 or unver(o.ev[dis[0]][2][0]) != unver(s) or dis[0] < acts[0]):
        return "another stage is disabled", r
    if dis and done is not True:
        return "a stage is disabled that may not be complete", r
    if not dis and done is not False and known(eq(r, const(FAILED))) is not True and not (o.died and any(x[1] in ("exit", "_exit", "abort") for x in o.ev)):
        return "a complete stage stays enabled", r
    return None, r


def enabled(o, s):
    for T, g in o.st.facts.items():
        for a, _ in T:
            if a[0] == "ld" and a[1] == fld("process.is_enabled", s):
                yield a


def waiting(ctx):
    ctx.rule("C05.wait", "a stage counts as waiting exactly when some stage of its list is enabled, and every stage it waits for knows it")
    p = ctx.prog("engine", keep=[])
    name = "_check_wait_list"
    F = Fragments(ctx, p, name, lambda: FragRule(set(), set()))
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    v = arg(F.an[h], 0)
    base = ("ld", fld("vec.data", v), 0)
    es, sz = ("ld", fld("vec._elem_size", v), 0), ("ld", fld("vec.size", v), 0)
    n = 0
    for o in F.arrivals(h, h) + F.returns(h):
        known = lambda c: o.an.eval_cond(o.st, c)
        act = [known(eq(("ld", fld("process.is_enabled", ("ld", add(base, scale(R, k)), 0)), 0), C0)) for k in (8,)] + \
            [known(eq(("ld", fld("process.is_enabled", ("ld", add(base, mulall([R, es])), 0)), 0), C0))]
        off = True in act
        on = False in act
        end = known(eq(scale(R, 8), mulall([sz, es]))) is True or known(eq(R, sz)) is True or known(mk_cmp("slt", R, sz)) is False
        why = None
        if hasattr(o, "dst"):
            n += 1
            if not off and not (on and any(v != ("in", i) and v == C1 for i, v in o.raw.items())):
                why = "goes on without knowing that the stage is disabled"
        else:
            t = known(o.val) if o.val[0] in ("cmp", "not") else None if o.val[0] == "in" else not known(eq(o.val, C0)) if known(eq(o.val, C0)) is not None else None
            if on and t is not True:
                why = "an active stage does not count"
            elif not on and end and t is not False and o.val[0] != "in":
                why = "counts as waiting although no stage is active"
            elif not on and not end:
                why = "ends before the last stage"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "rounds of " + name)
    name = "process_add_to_wait_list"
    q = ctx.prog("engine", keep=["vec_push_back", "vec_construct"])
    outs, an = collect(ctx, q, q.fn(name), {"vec_push_back"}, {"process.waitee_proc"})
    for o in returns(outs):
        push = [e for e in o.ev if e[0] == "call"]
        st = [e for e in o.ev if e[0] == "store"]
        wl = o.an.read(o.st, fld("process.wait_list", arg(an, 0)))
        ok = len(push) == 1 and len(st) == 1 and st[0][2] == arg(an, 0)
        if ok:
            slot, whom = push[0][2][1], st[0][1][2]
            ok = slot[0] == "al" and (whom == arg(an, 1) or whom[0] == "ld" and whom[1] == slot)
            ok = ok and (push[0][2][0] == o.an.read(o.st, fld("process.wait_list", arg(an, 0))) or "wait_list" in show(push[0][2][0]) or push[0][2][0][0] == "call")
        ctx.ob(name, ok, o.where(), "" if ok else "the two stages are not connected both ways")


def enable(ctx):
    ctx.rule("C05.enable", "a stage that is enabled again counts from zero, with its buffered records recycled before its pipes are reset, its input restored and its killed pipe closed")
    p = ctx.prog("engine", keep=KEEP)
    name = "process_enable"
    f = p.fn(name)
    outs, an = collect(ctx, p, f, set(KEEP), {"process.is_enabled", "process.wait_for_in0", "process.rows_affected", "process.fifo_in", "fifo.is_open"})
    self_ = arg(an, 0)
    n = 0
    for o in returns(outs):
        o = View(o, ("process.",))
        if o.infeasible:
            continue
        n += 1
        known = lambda c: o.an.eval_cond(o.st, c)
        ld = lambda x: ("ld", fld("process." + x, self_), 0)
        why = None
        st = {}
        for k, e in enumerate(o.ev):
            if e[0] == "store":
                st[e[1]] = (k, e[2])
        get = lambda x: st.get(fld("process." + x, self_))
        if not get("is_enabled") or known(eq(get("is_enabled")[1], C0)) is not False:
            why = "the stage is not enabled"
        elif not get("rows_affected") or get("rows_affected")[1] != C0:
            why = "its count is not reset"
        elif known(eq(ld("in0_always_dead"), C0)) is not False and (not get("wait_for_in0") or known(eq(get("wait_for_in0")[1], C0)) is not False):
            why = "it does not wait for its input"
        resets = [k for k, e in enumerate(o.ev) if e[0] == "call" and e[1] == "fifo_reset"]
        for w, i in (("fifo_in", 0), ("fifo_in", 1), ("fifo_out", 0), ("fifo_out", 1)):
            x = pipe(w, i, self_)
            vals = [x] + [v for a, (k, v) in st.items() if a == (x[1])]
            if known(eq(x, C0)) is True and len(vals) == 1:
                continue
            hit = [k for k in resets if any(P(o).eq(o.ev[k][2][0], v) for v in vals)]
            if not hit:
                why = why or "%s[%d] is not reset" % (w, i)
        for b in ("inbuf", "rebuf"):
            if known(eq(ld(b), C0)) is True:
                continue
            k = find(o, "fqlprocess_recycle_buffer", self_, ld(b))
            if k is None:
                why = why or "the records of %s are not recycled" % b
            elif resets and k > resets[-1]:
                why = why or "the records of %s are recycled after the pipes were reset" % b
        kp = ld("killed_pipe")
        closed = [k for a, (k, v) in st.items() if a[0] == "fld" and a[1] == "fifo.is_open" and v == C0]
        closed += [k for k, e in enumerate(o.ev) if e[0] == "call" and e[1] == "fifo_set_open" and e[2][1] == C0]
        none = known(eq(kp, const(p.enumval.get("PROCESS_NO_PIPE_INDEX", -1))))
        if none is None:
            none = known(eq(kp, const(-1)))
        if none is not True and not closed:
            why = why or "the killed pipe is left open"
        elif closed and resets and min(closed) < max(resets):
            why = why or "a pipe is reset after the killed pipe was closed"
        if known(eq(ld("queued_results"), C0)) is False:
            s = st.get(fld("process.fifo_in", self_))
            if not s or s[1] != ld("org_fifo_in0"):
                why = why or "its first input is not restored"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 2, "paths of " + name)


def reset(ctx):
    ctx.rule("C05.reset", "resetting a completed plan enables every stage")
    p = ctx.prog("engine", keep=KEEP)
    name = "plan_reset"
    F = Fragments(ctx, p, name, lambda: FragRule({"process_enable"}, set()))
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("%s: %d loops" % (name, len(hs)))
    h = hs[0]
    R = F.rounds(h)
    v = ("ld", fld("dgraph.nodes", ("ld", fld("fqlplan.processes", arg(F.an[h], 0)), 0)), 0)
    base, sz, es = (F.same(h, ("ld", fld("vec." + x, v), 0)) for x in ("data", "size", "_elem_size"))
    n = 0
    for o in F.arrivals(h, h) + F.returns(h):
        o = View(o, ("vec.", "dgraph.", "fqlplan.", "dnode."))
        if o.infeasible:
            continue
        known = lambda c: o.an.eval_cond(o.st, c)
        c = [e for e in o.ev if e[0] == "call"]
        why = None
        if hasattr(o, "dst"):
            n += 1
            ok = False
            if len(c) == 1:
                a = c[0][2][0]
                for b in base:
                    for e in es:
                        for k in (scale(R, 8), mulall([R, e])):
                            want = ("ld", fld("dnode.data", ("ld", add(b, k), 0)), 0)
                            ok = ok or unver(a) == unver(want)
            if not ok:
                why = "the stage of round R is not enabled (%s)" % [show(e[4]) for e in c]
        else:
            ends = any(known(eq(add(b, scale(R, 8)), add(b, mulall([s, e])))) is True for b in base for s in sz for e in es) or \
                any(known(eq(R, s)) is True or known(mk_cmp("slt", R, s)) is False for s in sz)
            if c or not ends:
                why = "ends before the last stage"
        ctx.ob(name, why is None, o.where(), why or "", o.trail() if why else None)
    ctx.need(n, 1, "rounds of " + name)
    for o in F.returns(0):
        done = ("ld", fld("fqlplan.is_complete", arg(F.an[0], 0)), 0)
        ok = o.an.eval_cond(o.st, eq(done, C0)) is True or o.an.eval_cond(o.st, eq(arg(F.an[0], 0), C0)) is True
        ctx.ob(name, ok, o.where(), "" if ok else "a completed plan is not reset", o.trail() if not ok else None)


def unver(e):
    from .frag import unversioned
    return unversioned(e)
