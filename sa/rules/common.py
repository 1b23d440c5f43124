"""Shared rule templates."""
from ..ir import *
from .. import ir
from ..facts import AnalysisError


def fld(name, base):
    return ("fld", name, base)


def cur(an, st, addr):
    """current value stored at addr on this path"""
    return an.read(st, addr)


class Collect(Rule):
    """Path outcomes of a (small) function: final state at each return plus the
    sequence of selected calls and stores."""
    name = "collect"
    cap = 4000

    def __init__(self, calls=None, stores=None, maxev=40):
        self.calls = calls          # set of names, None = all
        self.stores = stores        # set of address classes or None
        self.maxev = maxev
        self.outs = []
        self.backs = []

    def backedge(self, an, st, b, s, raw):
        o = Outcome(an, st.copy(), an.fn.blocks[b][-1], None, False)
        o.header, o.raw, o.latch = s, raw, b
        self.backs.append(o)

    def start(self, an):
        return ()

    def _ev(self, st, e):
        if len(st.t) < self.maxev and e not in st.t:
            st.t = st.t + (e,)

    def after(self, an, st, inst, name, args, res):
        n = name if isinstance(name, str) else "<indirect>"
        if self.calls is None or n in self.calls:
            self._ev(st, ("call", n, tuple(args), inst.id, res, name if not isinstance(name, str) else None))
        if n in NORETURN:
            self.outs.append(Outcome(an, st.copy(), inst, None, True))

    def store(self, an, st, inst, addr, val):
        c = addr_class(addr)
        if self.stores is not None and (c in self.stores or "all" in self.stores):
            self._ev(st, ("store", addr, val, inst.id))

    def ret(self, an, st, inst, val):
        self.outs.append(Outcome(an, st.copy(), inst, val, False))


class Outcome:
    def __init__(self, an, st, inst, val, died):
        self.an = an
        self.st = st
        self.inst = inst
        self.val = val
        self.died = died
        self.ev = st.t if isinstance(st.t, tuple) else ()

    def read(self, addr):
        return self.an.read(self.st, addr)

    def truth(self, cond):
        return self.an.eval_cond(self.st, cond)

    def interval(self, e):
        return self.an.interval(self.st, e)

    def calls(self, *names):
        return [e for e in self.ev if e[0] == "call" and e[1] in names]

    def stores(self, *classes):
        return [e for e in self.ev if e[0] == "store" and addr_class(e[1]) in classes]

    def trail(self):
        return self.an.trail(self.st, self.inst)

    def where(self):
        return self.an.fn.loc(self.inst)


def collect(ctx, prog, fn, calls=None, stores=None, maxev=40):
    r = Collect(calls, stores, maxev)
    a = ctx.analyse(prog, fn, r)
    return r.outs, a


def eq(a, b):
    return mk_cmp("eq", a, b)


def le(a, b):
    return mk_cmp("sle", a, b)


def lt(a, b):
    return mk_cmp("slt", a, b)


def call_sites(prog, fname, callees):
    for i in prog.fn(fname).calls():
        n = i.callee_name()
        if n in callees:
            yield i


def all_call_sites(prog, callees, files=None):
    for f in list(prog.names(files)):
        fn = prog.fn(f)
        for i in fn.calls():
            if i.callee_name() in callees:
                yield fn, i


def roots(prog, files):
    """functions of the given files that are analysed in their own right: those
    the headers declare, those whose address is taken, recursive ones, and
    those nobody calls"""
    called = set()
    raw = prog._raw
    for n in raw:
        for bb in raw[n]["blocks"]:
            for i in bb:
                c = i.get("callee")
                if isinstance(c, list) and c[0] == "f":
                    called.add(c[1])
    out = []
    for n in prog.names(files):
        j = raw[n]
        if j["anchor"] or j["rec"] or j["addr"] or n in ANCHORS():
            out.append(n)
    return sorted(out)


_anch = None


def ANCHORS():
    global _anch
    if _anch is None:
        import os
        from ..facts import VERIF
        _anch = set(open(os.path.join(VERIF, "sa", "anchors.txt")).read().split())
    return _anch
