"""C26: character functions stay inside their operand and count characters."""
from .common import *
from .norm import *
from .frag import *
from ..facts import AnalysisError

TECHNIQUE = "range analysis of every read and copy of the character functions (cut-point fragments of the compiler's intermediate representation with inferred linear invariants at the loop heads), and matching of their loops against one-character-per-round counting"
LEVEL_NOTE = "all operands, positions and counts, in byte and in multi-byte mode"
FAIL = const(-5)
GETS = ("expression_get_int", "expression_get_stringview")
COUNTERS = ("_get_byte_count", "_get_rev_byte_count")
KEEP = list(GETS) + list(COUNTERS) + ["expression_get_float", "string_strncpy", "string_push_back", "string_find_replace_nocase_limited", "malloc"]
COPY = {"string_strncpy": (1, 2), "strncpy": (1, 2), "memcpy": (1, 2), "memmove": (1, 2), "strncat": (1, 2)}


def DATA(k):
    return ("arg", 200 + k, "text%d" % k)


def LEN(k):
    return ("arg", 300 + k, "len%d" % k)


def NUM(k):
    return ("arg", 100 + k, "n%d" % k)


def operand_index(x):
    """k when x is the k-th operand of the function being evaluated"""
    if x[0] != "ld" or "args" not in show(x):
        return None
    off, rest = lin_parts(x[1])
    return off // 8 + sum(c for a, c in rest.items() if "_elem_size" in show(a))


class _At:
    def __init__(self, an, st):
        self.an, self.st = an, st


def known(an, st, ev):
    """the state with what the byte counters promise when they do not fail"""
    s = st.copy()
    for e in ev:
        if e[0] == "call" and e[1] in COUNTERS and an.eval_cond(s, eq(e[4], FAIL)) is False:
            an.assume(s, le(const(1), e[4]), True)
            an.assume(s, le(e[4], e[2][1]), True)
    return P(_At(an, s))


class Text(FragRule):
    """operands read become symbols that no loop changes; what is read or copied is located in them"""
    report = None

    def __init__(self):
        FragRule.__init__(self, None, {"all"}, 80)

    def is_pure(self, name):
        return name in COUNTERS or name in GETS

    def offset(self, a):
        """(k, offset) when the address is in operand k's text"""
        c, d = lin_parts(a)
        for k in range(3):
            if d.get(DATA(k)) == 1:
                return k, sub(a, DATA(k))
        return None

    def after(self, an, st, inst, name, args, res):
        n = name if isinstance(name, str) else None
        if n in GETS:
            k = operand_index(args[1])
            if k is None or not 0 <= k < 3:
                raise AnalysisError("%s: an operand is read that is not one of the arguments" % an.fn.name)
            if n == "expression_get_int":
                st.mem[args[0]] = NUM(k)
            else:
                st.mem[("fld", "stringview.data", args[0])] = DATA(k)
                st.mem[("fld", "stringview.len", args[0])] = LEN(k)
        if self.report:
            q = known(an, st, st.t)
            if n in COUNTERS:
                x = args[0]
                if n == "_get_byte_count":
                    x = x[1] if x[0] == "ld" else None
                off = self.offset(x) if x else None
                limit = None
                if off:
                    limit = sub(LEN(off[0]), off[1]) if n == "_get_byte_count" else add(off[1], const(1))
                self.report(off is not None and q.eq(args[1], limit) and q.le(const(1), limit), inst,
                            "%s(%s, %s): not given a byte of the text and the number of bytes from it to the end of the text" % (n, show(args[0]), show(args[1])), an, st)
            elif n in COPY:
                a, c = COPY[n]
                self.extent(q, args[a], args[c], inst, n, an, st)
        FragRule.after(self, an, st, inst, name, args, res)

    def extent(self, q, a, c, inst, n, an, st):
        off = self.offset(a)
        if not off:
            return
        k, o = off
        self.report(q.le(C0, o) and q.le(C0, c) and q.le(add(o, c), LEN(k)), inst,
                    "%s copies %s bytes from offset %s of a text of %s bytes" % (n, show(c), show(o), show(LEN(k))), an, st)

    def load(self, an, st, inst, addr, val):
        if self.report:
            off = self.offset(addr)
            if off:
                q = known(an, st, st.t)
                self.report(q.le(C0, off[1]) and q.le(add(off[1], const(1)), LEN(off[0])), inst,
                            "reads the byte at offset %s of a text of %s bytes" % (show(off[1]), show(LEN(off[0]))), an, st)

    def store(self, an, st, inst, addr, val):
        if self.report and self.offset(addr):
            self.report(False, inst, "writes into the text of an operand", an, st)
        FragRule.store(self, an, st, inst, addr, val)


C0 = const(0)


def root(a):
    return a[0] == "al" or a[0] == "fld" and a[2][0] == "al"


class Loops:
    """a function's fragments with linear invariants over its variables and operands"""

    def __init__(self, ctx, p, f, rule=Text, base=None):
        self.p, self.f = p, f
        self.sym = base or [LEN(0)] + [NUM(k) for k in range(3)]
        self.good = {}          # header: list of conditions (linear terms <= 0)
        self.rule = rule
        self.ctx = ctx
        self.F = None
        self.tried = {}
        self.go()
        F = self.F
        self.vars = {h: self.variables(h) for h in F.headers}
        for h in F.headers:
            self.good[h] = self.candidates(h)
        while F.headers:
            self.go()
            if not self.drop():
                break

    def go(self):
        def asm(an, st):
            for k in range(3):
                an.assume(st, le(C0, LEN(k)), True)
                an.assume(st, le(LEN(k), const(2 ** 32 - 1)), True)
            for L in self.good.get(an.start, ()):
                an.assume(st, le(L, C0), True)
        if self.F is not None:
            self.F.assume = asm
            self.F._go([0] + self.F.headers)
            return
        F = self.F = Fragments(self.ctx, self.p, self.f, self.rule, asm, infer=False)
        # locals in memory that hold one value whenever the loop head is reached
        for rnd in range(12):
            new = False
            for h in F.headers:
                outside = [o for o in F.arrivals(dst=h) if o.src != h]
                if rnd == 0:
                    F.msub[h] = {}
                if not outside:
                    continue
                if rnd < 3:
                    phis = {i.id for i in F.fn.blocks[h] if i.op == "phi"}
                    for i in set(F.fn.live[h]) - phis - set(F.sub[h]) - set(self.tried.setdefault((h, "ssa"), ())):
                        vs = {F.portable(o, F.env_at(o, i)) for o in outside}
                        if len(vs) == 1 and None not in vs and vs != {("in", i)}:
                            F.sub[h][i] = vs.pop()
                            self.tried[h, "ssa"] = set(self.tried[h, "ssa"]) | {i}
                            new = True
                    for a in {a for o in outside for a in o.st.mem if root(a)} - set(self.tried.setdefault(h, ())):
                        vs = {F.portable(o, o.an.read(o.st, a)) for o in outside}
                        if len(vs) == 1 and None not in vs and vs != {("ld", a, 0)}:
                            F.msub[h][a] = vs.pop()
                            self.tried[h] = self.tried[h] | {a} if self.tried[h] else {a}
                            new = True
            F._go([0] + F.headers)
            gone = False
            for h in F.headers:
                for i, v in list(F.sub[h].items()):
                    if any(F.env_at(o, i) != F.tr(o, v) for o in F.arrivals(dst=h)):
                        del F.sub[h][i]
                        gone = True
                for a, v in list(F.msub[h].items()):
                    if any(o.an.read(o.st, a) != F.tr(o, v) for o in F.arrivals(dst=h)):
                        del F.msub[h][a]
                        gone = True
            if not new and not gone:
                break
        else:
            raise AnalysisError("%s: what its locals hold in its loops was not found" % self.f)

    def variables(self, h):
        F = self.F
        vs = [("in", i.id) for i in F.fn.blocks[h] if i.op == "phi"]
        live = [("in", i) for i in F.fn.live[h] if ("in", i) not in vs and i not in F.sub[h]]
        cells = set()
        for r in F.frag.values():
            for o in r.outs + r.arr:
                for a in o.st.mem:
                    if a[0] == "al":
                        cells.add(a)
        return vs + live + [("ld", a, 0) for a in sorted(cells) if a not in F.msub[h]]

    def candidates(self, h):
        vs = [v for v in self.vars[h]]
        c = []
        for s in self.sym:
            c += [scale(s, -1), add(const(1), scale(s, -1))] + [sub(s, t) for t in self.sym if t != s]
        for v in vs:
            c.append(scale(v, -1))
            c.append(add(const(-1), scale(v, -1)))
            c.append(v)
            for s in self.sym:
                c += [scale(add(v, s), -1), sub(const(1), add(v, s))]
                c.append(sub(v, s))
                c.append(sub(s, v))
                c.append(add(sub(v, s), const(1)))
                c.append(sub(sub(s, v), const(1)))
        for v in vs:
            for w in vs:
                if v != w:
                    c += [y for x in vs if x not in (v, w) for y in (sub(sub(v, w), x), sub(x, sub(v, w)))]
                    c.append(sub(v, w))
                    for s in self.sym[:1]:
                        c.append(sub(add(v, w), s))
                        c.append(sub(s, add(v, w)))
                        c.append(add(sub(add(v, w), s), const(1)))
                        c.append(sub(sub(s, add(v, w)), const(1)))
        return c

    def into(self, h):
        return [o for o in self.F.arrivals(dst=h)]

    def at(self, o):
        return known(o.an, o.st, o.ev)

    def drop(self):
        changed = False
        for h in self.F.headers:
            arr = [(o, self.at(o)) for o in self.into(h)]
            keep = []
            for L in self.good[h]:
                if all(q.le(self.F.tr(o, L), C0) for o, q in arr):
                    keep.append(L)
            if len(keep) != len(self.good[h]):
                self.good[h] = keep
                changed = True
        return changed


def bounds(ctx, p, f, rule="C26.bounds", cls=Text, base=None):
    """all reads and copies of f with the invariants established"""
    L = Loops(ctx, p, f, cls, base)
    n = [0]

    def rep(ok, inst, msg, an, st):
        n[0] += 1
        ctx.ob("%s:%s:%s" % (rule, f, " ".join(msg.split()[:2])), ok, an.fn.loc(inst), "%s: %s" % (f, msg), None if ok else an.trail(st, inst), rule=rule)

    class Rep(cls):
        report = staticmethod(rep)
    L.F.make = Rep
    L.F._go([0] + L.F.headers)
    return L, n[0]


def finals(L):
    """(outcome, copies into the result) of the successful ends"""
    F = L.F
    r = []
    for o in F.returns():
        if o.died or o.an.eval_cond(o.st, eq(o.val, C0)) is not True:
            continue
        r.append(o)
    return r


def per_char(ctx, L, h, back=False):
    """(position, rounds, limit tests) of a loop that takes one character per round"""
    F, f = L.F, L.f
    arr = L.into(h)
    ins = [o for o in arr if o.src != h]
    outs = [o for o in arr if o.src == h]
    pos = cnt = None
    for v in L.vars[h]:
        new = [F.tr(o, v) for o in outs]
        if all(is_c(sub(n, v)) and abs(sub(n, v)[1]) == 1 for n in new) and len({sub(n, v) for n in new}) == 1:
            start = {F.tr(o, v) for o in ins}
            if len(start) == 1 and (is_c(list(start)[0]) or not mentions(list(start)[0], lambda x: x[0] == "undef")):
                a = list(start)[0]
                s = sub(new[0], v)[1]
                cnt = cnt or scale(sub(v, a), s)
                if not is_c(a):
                    cnt = scale(sub(v, a), s)
    for v in L.vars[h]:
        ok = bool(outs)
        shift = 1
        for o in outs:
            d = scale(sub(F.tr(o, v), v), -1 if back else 1)
            byte = [e for e in o.ev if e[0] == "call" and e[1] in COUNTERS]
            here = add(DATA(0), v)
            if byte:
                e = byte[-1]
                if back and e[2][0] == sub(here, const(1)):
                    shift = 0       # counts the bytes that are left
                ok &= d == e[4] and (e[2][0] == sub(here, const(1 - shift)) if back else e[2][0][0] == "ld" and e[2][0][1] == here)
            else:
                ok &= d == const(1) and bytewise(L, o)
        if ok and pos is None:
            pos = add(v, const(shift)) if back else v
    return pos, cnt


def bytewise(L, o):
    for T, (lo, hi, ne) in o.st.facts.items():
        if len(T) == 1 and "char_as_byte" in show(T[0][0]):
            if 0 in ne or lo > 0 or hi < 0:
                return True
    return False


def unbytewise(o):
    for T, (lo, hi, ne) in o.st.facts.items():
        if len(T) == 1 and "char_as_byte" in show(T[0][0]) and lo == hi == 0:
            return True
    return False


def copies(o):
    return [e for e in o.ev if e[0] == "call" and e[1] == "string_strncpy"]


def run(ctx):
    p = ctx.prog("engine", keep=KEEP)
    ctx.rule("C26.bounds", "every byte a character function reads or copies from an operand lies inside it, and the byte counters are given a byte of the text and the bytes that remain")
    total = 0
    loops = {}
    for f in ("fql_len", "fql_left", "fql_right", "fql_substring", "fql_cast_char", "fql_cast_string", "fql_op_plus_s", "fql_datalength"):
        loops[f], n = bounds(ctx, p, f)
        total += n
    ctx.need(total, 12, "reads and copies of operands")
    ctx.rule("C26.result", "LEFT and RIGHT give the asked number of characters from that end or the whole text if it has no more, SUBSTRING that number from the asked one, CAST AS CHAR(n) n bytes or the text filled with blanks; a negative count is refused, LEN counts every character up to the last that is no blank")
    left(ctx, loops["fql_left"], False)
    left(ctx, loops["fql_right"], True)
    substring(ctx, loops["fql_substring"])
    length(ctx, loops["fql_len"])
    cast_char(ctx, loops["fql_cast_char"])
    replace(ctx)
    replacing(ctx)
    counters(ctx, p)


def enough(L, o, q, pos, cnt, want):
    """the loop of the path's start ended because `want` characters were taken or none is left"""
    return (q.le(want, cnt) or q.le(LEN(0), pos)) and at_most(L, o.src, cnt, want)


def at_most(L, h, cnt, want):
    """no round begins once `want` have been done"""
    F = L.F
    return all(L.at(o).le(F.tr(o, cnt), F.tr(o, want)) for o in L.into(h) if o.src == h) and all(L.at(o).eq(F.tr(o, cnt), C0) for o in L.into(h) if o.src != h)


def negative(ctx, L, k):
    """a negative count never succeeds"""
    n = 0
    for o in finals(L):
        if o.src != 0:
            continue
        n += 1
        q = L.at(o)
        ctx.ob("C26.result:%s:negative" % L.f, q.le(C0, NUM(k)), o.where(), "%s: a negative count is not refused" % L.f, o.trail(), rule="C26.result")
    for h in L.F.headers:
        for o in L.into(h):
            if o.src == 0:
                ctx.ob("C26.result:%s:negative" % L.f, L.at(o).le(C0, NUM(k)), o.where(), "%s: a negative count is not refused" % L.f, o.trail(), rule="C26.result")


def left(ctx, L, right):
    N = NUM(1)
    n = 0
    negative(ctx, L, 1)
    for o in finals(L):
        q = L.at(o)
        cs = copies(o)
        why = None
        if len(cs) != 1:
            why = "the result is set %d times" % len(cs)
        else:
            x, c = cs[0][2][1], cs[0][2][2]
            off = sub(x, DATA(0))
            if right and not q.eq(add(off, c), LEN(0)):
                why = "the result does not end where the text ends"
            elif not right and not q.eq(off, C0):
                why = "the result does not begin where the text begins"
            elif q.eq(c, LEN(0)) and q.le(LEN(0), N):
                pass
            elif q.eq(c, N) and bytewise(L, o):
                pass
            elif o.src == 0:
                why = "takes %s bytes without counting characters" % show(c)
            else:
                pos, cnt = per_char(ctx, L, o.src, right)
                done = pos
                if pos is None or cnt is None:
                    why = "its loop does not take one character per round"
                elif right and not (q.eq(c, sub(LEN(0), done)) and (q.le(N, cnt) or q.le(done, C0)) and at_most(L, o.src, cnt, N)):
                    why = "takes %s bytes, not the last characters counted" % show(c)
                elif not right and not (q.eq(c, pos) and enough(L, o, q, pos, cnt, N)):
                    why = "takes %s bytes, not the first characters counted" % show(c)
        n += 1
        ctx.ob("C26.result:" + L.f, why is None, o.where(), "%s: %s" % (L.f, why), o.trail() if why else None, rule="C26.result")
    ctx.need(n, 3, "results of " + L.f)
    ctx.need(len(L.F.headers), 1, "loop in " + L.f)


def wanted(q, v):
    """v is the number of characters SUBSTRING is to take, on this path"""
    S, N = NUM(1), NUM(2)
    cut = add(N, add(S, const(-1)))
    return (q.le(const(1), S) and q.eq(v, N)
            or q.le(S, const(1)) and (q.eq(v, cut) and q.le(C0, cut) or q.eq(v, C0) and q.le(cut, C0)))


def substring(ctx, L):
    F, S, N = L.F, NUM(1), NUM(2)
    n = 0
    negative(ctx, L, 2)

    def begun(o, q):
        """the offset the path's first loop ended at: the asked first character, or the end"""
        pos, cnt = per_char(ctx, L, o.src)
        if pos is None or cnt is None:
            return None
        T = add(S, const(-1))
        return pos if enough(L, o, q, pos, cnt, T) else None

    second = set()
    for h in F.headers:
        ins = [o for o in L.into(h) if o.src not in (0, h)]
        if ins:
            second.add(h)
    for o in finals(L):
        q = L.at(o)
        cs = copies(o)
        why = None
        if len(cs) != 1 or o.src == 0:
            why = "a result without counting characters"
        else:
            off, c = sub(cs[0][2][1], DATA(0)), cs[0][2][2]
            if o.src not in second:
                b = begun(o, q)
                left_ = None if b is None else sub(LEN(0), b)
                if b is None or not q.eq(off, b):
                    why = "does not start at the asked character"
                elif q.eq(c, left_) and reach(q, o, left_, L):
                    pass
                elif wanted(q, c) and (bytewise(L, o) or q.eq(c, C0)):
                    pass
                else:
                    why = "takes %s bytes, not the characters asked for" % show(c)
            else:
                pos, cnt = per_char(ctx, L, o.src)
                if pos is None or cnt is None:
                    why = "its loop does not take one character per round"
                else:
                    start = [v for v in L.vars[o.src] if all((lambda b: b is not None and L.at(i).eq(F.tr(i, v), b) and L.at(i).eq(F.tr(i, pos), b))(begun(i, L.at(i)))
                                                             for i in L.into(o.src) if i.src != o.src) and q.eq(off, v)]
                    lims = [v for v in L.vars[o.src] + [N] if all(wanted(L.at(i), F.tr(i, v)) for i in L.into(o.src) if i.src != o.src)
                            and all(L.at(i).eq(F.tr(i, v), v) for i in L.into(o.src) if i.src == o.src)]
                    if not start:
                        why = "does not start at the asked character"
                    elif not q.eq(add(off, c), pos):
                        why = "takes %s bytes from %s, not up to the last character counted" % (show(c), show(off))
                    elif not any(enough(L, o, q, pos, cnt, v) for v in lims):
                        why = "does not take the characters asked for"
        n += 1
        ctx.ob("C26.result:fql_substring", why is None, o.where(), "fql_substring: %s" % why, o.trail() if why else None, rule="C26.result")
    ctx.need(n, 3, "results of fql_substring")


def reach(q, o, left_, L):
    """the number of characters to take is at least the bytes that are left"""
    S, N = NUM(1), NUM(2)
    cut = add(N, add(S, const(-1)))
    return q.le(const(1), S) and q.le(left_, N) or q.le(S, const(1)) and (q.le(left_, cut) or q.le(left_, C0))


def length(ctx, L):
    F = L.F
    n = 0
    for o in finals(L):
        q = L.at(o)
        v = [e[2] for e in o.ev if e[0] == "store" and e[1] == arg(o.an, 1)]
        why = None
        if not v:
            why = "succeeds without a result"
        elif o.src == 0:
            why = None if q.eq(v[-1], C0) and q.le(LEN(0), C0) else "a length without counting characters"
        else:
            h = o.src
            pos, cnt = per_char(ctx, L, h)
            w = v[-1]
            if pos is None or cnt is None:
                why = "its loop does not count one character per round"
            elif not q.le(LEN(0), pos):
                why = "stops before the end of the text"
            else:
                for i in L.into(h):
                    x = F.tr(i, w)
                    if i.src != h:
                        if x != C0 or F.tr(i, cnt) != C0:
                            why = "does not count from 0"
                    else:
                        b = blank(i, add(DATA(0), pos))
                        if b is None:
                            why = "a character is counted without looking whether it is a blank"
                        elif not L.at(i).eq(x, w if b else add(cnt, const(1))):
                            why = "counts %s after %s" % (show(x), "a blank" if b else "a character that is no blank")
        n += 1
        ctx.ob("C26.result:fql_len", why is None, o.where(), "fql_len: %s" % why, o.trail() if why else None, rule="C26.result")
    ctx.need(n, 1, "results of fql_len")


def blank(o, addr):
    """what the path found out about the byte at addr being a blank"""
    for T, (lo, hi, ne) in o.st.facts.items():
        if len(T) != 1:
            continue
        a = T[0][0]
        s = repr(a)
        if ("__ctype_b_loc" in s and a[0] == "op" and a[1] == "and" and const(8192) in a[2:] or a[0] == "call" and a[1] == "isspace") and inside(a, addr):
            return True if 0 in ne or lo > 0 or hi < 0 else False if lo == hi == 0 else None
    return None


def inside(e, addr):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == "ld" and len(e) > 1 and e[1] == addr:
        return True
    return any(inside(x, addr) for x in e)


def cast_char(ctx, L):
    F = L.F
    n = 0
    N = NUM(1)
    for o in finals(L):
        if not copies(o) and o.src == 0:
            ctx.ob("C26.result:fql_cast_char", False, o.where(), "fql_cast_char: succeeds without a result", o.trail(), rule="C26.result")
    for o in finals(L) + [a for h in F.headers for a in L.into(h) if a.src == 0]:
        if o.src != 0:
            continue
        q = L.at(o)
        sized = [e for e in o.ev if e[0] == "call" and e[1] == "expression_get_int"]
        cs = copies(o)
        why = None
        if len(cs) != 1:
            why = "the result is set %d times" % len(cs)
        elif not q.eq(cs[0][2][1], DATA(0)):
            why = "does not start at the first byte"
        elif getattr(o, "dst", None) is None and not sized:
            why = None if q.eq(cs[0][2][2], LEN(0)) else "without a length, not the whole text"
        elif sized and not q.le(C0, N):
            why = "a negative length is not refused"
        elif sized and getattr(o, "dst", None) is None:
            # no padding on this path
            why = None if q.eq(cs[0][2][2], N) and q.le(N, LEN(0)) else "takes %s bytes" % show(cs[0][2][2])
        elif not q.eq(cs[0][2][2], LEN(0)):
            why = "fills up something that is not the whole text"
        n += 1
        ctx.ob("C26.result:fql_cast_char", why is None, o.where(), "fql_cast_char: %s" % why, o.trail() if why else None, rule="C26.result")
    ctx.need(n, 3, "results of fql_cast_char")


def replace(ctx):
    """the needle given to the search ends with a terminator and holds the whole operand"""
    ctx.rule("C26.replace", "REPLACE searches the whole first operand for the whole second and puts in the whole third; the copy of a pattern without terminator is as long as the pattern, ends with one, and is freed")
    p = ctx.prog("engine", keep=KEEP + ["strncpy", "memcpy", "strncat", "free"])
    L, m = bounds(ctx, p, "fql_replace", "C26.replace")
    E = p.enumval
    n = 0
    for o in finals(L):
        q = L.at(o)
        cs = copies(o)
        why = None
        rep = [e for e in o.ev if e[0] == "call" and e[1] == "string_find_replace_nocase_limited"]
        if len(cs) != 1 or not q.eq(cs[0][2][1], DATA(0)) or not q.eq(cs[0][2][2], LEN(0)):
            why = "does not search the whole first operand"
        elif len(rep) != 1:
            why = "replaces %d times" % len(rep)
        elif o.ev.index(rep[0]) < o.ev.index(cs[0]):
            why = "the text is set after the replacing"
        elif not (q.eq(rep[0][2][2], DATA(2)) and q.eq(rep[0][2][3], LEN(2))):
            why = "does not put in the whole third operand"
        elif unversioned(rep[0][2][0]) != unversioned(cs[0][2][0]):
            why = "does not replace in the result"
        elif rep[0][2][1] == DATA(1):
            const_ = [T for T, (lo, hi, ne) in o.st.facts.items() if len(T) == 1 and "->expr" in show(T[0][0]) and "args" in show(T[0][0]) and lo == hi == E["EXPR_CONST"]]
            if not any(operand_index(T[0][0][1][2]) == 1 for T in const_ if T[0][0][0] == "ld" and T[0][0][1][0] == "fld"):
                why = "takes the pattern for terminated although it need not be"
        else:
            b = rep[0][2][1]
            al = [e for e in o.ev if e[0] == "call" and e[1] == "malloc" and e[4] == b]
            cp = [e for e in o.ev if e[0] == "call" and e[1] in ("strncpy", "memcpy", "strncat") and e[2][0] == b]
            fr = [e for e in o.ev if e[0] == "call" and e[1] == "free" and e[2][0] == b]
            end = [e for e in o.ev if e[0] == "store" and q.eq(e[1], add(b, LEN(1))) and q.eq(e[2], C0)]
            if cp and cp[0][1] == "strncat":
                # appended to nothing, ends by itself
                end = [cp[0]] if [e for e in o.ev if e[0] == "store" and e[1] == b and q.eq(e[2], C0)] else []
            if not al or not cp:
                why = "searches for something that is not the second operand"
            elif not (q.eq(cp[0][2][1], DATA(1)) and q.eq(cp[0][2][2], LEN(1)) and q.le(add(LEN(1), const(1)), al[0][2][0]) and end):
                why = "the pattern it searches for is not the whole second operand"
            elif o.ev.index(end[0]) > o.ev.index(rep[0]):
                why = "the pattern has no end when it is searched for"
            elif len(fr) != 1 or o.ev.index(fr[0]) < o.ev.index(rep[0]):
                why = "the copy of the pattern is not freed after use"
        n += 1
        ctx.ob("C26.replace", why is None, o.where(), "fql_replace: %s" % why, o.trail() if why else None, rule="C26.replace")
    ctx.need(n, 1, "results of fql_replace")


def replacing(ctx):
    """every occurrence, left to right, behind what was put in"""
    fns = "string_find_replace_one_nocase_limited"
    p = ctx.prog("engine", keep=["strcasestr", "vec_erase", "vec_insert", "memcpy", "memmove"])
    outs, an = collect(ctx, p, p.fn(fns), None, {"all"}, maxev=60)
    s, old, new, at, newlen = (arg(an, k) for k in range(5))
    n = 0
    for o in outs:
        if o.died:
            continue
        n += 1
        q = P(o)
        data = ("fld", "vec.data", s)
        end = add(o.read(data), o.read(("fld", "vec.size", s)))
        find = [e for e in o.ev if e[0] == "call" and e[1] == "strcasestr"]
        ln = [e for e in o.ev if e[0] == "call" and e[1] == "strlen" and e[2][0] == old]
        er = [e for e in o.ev if e[0] == "call" and e[1] == "vec_erase"]
        ins = [e for e in o.ev if e[0] == "call" and e[1] == "vec_insert"]
        over = [e for e in o.ev if e[0] == "call" and e[1] in ("memcpy", "memmove")]
        val = one(o.val)
        pos = find[0][4] if find else None
        why = None
        begin = ("ld", data, 0)
        oldlen = ln[0][4] if ln else None
        if not find:
            if not ln or not q.eq(oldlen, C0):
                why = "does not look for a pattern"
            elif er or ins or over:
                why = "changes the text for an empty pattern"
            elif val != end:
                why = "does not stop for an empty pattern"
        elif not ln or o.truth(eq(oldlen, C0)) is not False:
            why = "looks for a pattern that may be empty"
        elif one(find[0][2][0]) != add(begin, at) or find[0][2][1] != old:
            why = "does not look for the pattern from the given position on"
        elif q.eq(pos, C0):
            if er or ins or over:
                why = "changes the text without an occurrence"
            elif val != end:
                why = "does not stop without an occurrence"
        elif not o.truth(eq(pos, C0)) is False:
            why = "does not look whether there is an occurrence"
        elif over and not er and not ins:
            if not (ln and q.eq(newlen, oldlen) and over[0][2][:2] == (pos, new) and q.eq(over[0][2][2], newlen) and len(over) == 1):
                why = "overwrites something else than the occurrence"
            elif not q.eq(val, add(pos, newlen)):
                why = "does not go on behind the replacement"
        elif not (len(er) == len(ins) == 1 and not over and ln and er[0][2][:2] == (s, pos) and q.eq(er[0][2][2], oldlen)):
            why = "does not take out the occurrence"
        elif o.ev.index(er[0]) > o.ev.index(ins[0]) or ins[0][2][0] != s or one(ins[0][2][1]) not in (pos, add(sub(pos, begin), begin)) or ins[0][2][2] != new or not q.eq(ins[0][2][3], newlen):
            why = "does not put the replacement where the occurrence was"
        elif val not in [add(add(o.read(data), newlen), sub(pos, b)) for b in (begin,)]:
            why = "does not go on behind the replacement"
        ctx.ob("C26.replace:" + fns, why is None, o.where(), "%s: %s" % (fns, why), o.trail() if why else None, rule="C26.replace")
    ctx.need(n, 3, "paths of " + fns)
    p = ctx.prog("engine", keep=[fns])
    f = "string_find_replace_nocase_limited"
    F = Fragments(ctx, p, f, lambda: FragRule(None, {"all"}), infer=False)
    an = F.an[0]
    s, old, new, newlen = (arg(an, k) for k in range(4))
    size = lambda o: o.read(("fld", "vec.size", s))
    n = 0
    if not F.headers:
        ctx.ob("C26.replace:" + f, False, f, "%s: does not go through the text" % f, rule="C26.replace")
        return
    for h in F.headers:
        args = {("in", k): arg(an, k) for k in range(4)}
        back = [o for o in F.arrivals(h, h)]
        var = [("in", i.id) for i in F.fn.blocks[h] if i.op == "phi"]
        for o in F.returns(h) + back + [o for o in F.arrivals(0, h)]:
            q = P(o)
            why = None
            cs = [e for e in o.ev if e[0] == "call" and e[1] == fns]
            if o.src == 0:
                if not any(F.tr(o, v) == C0 for v in var):
                    why = "does not begin at the first byte"
            elif getattr(o, "dst", None) is None:
                z = ("ld", ("fld", "vec.size", ("in", 0)), 0)
                if not any(q.le(x, v) for v in var for x in (z, ("ld", ("fld", "vec.size", s), 0))):
                    why = "stops before the end of the text"
            else:
                v = [v for v in var if len(cs) == 1 and cs[0][2][3] == v]
                if len(cs) != 1 or not v or [subst(x, args) for x in cs[0][2][:3]] != [s, old, new] or subst(cs[0][2][4], args) != newlen:
                    why = "does not replace the next occurrence"
                else:
                    r = sub(cs[0][4], F.tr(o, v[0]))
                    if not (r[0] == "ld" and r == o.read(r[1]) and "data" in show(r)):
                        why = "does not go on where the last replacement ended"
            n += 1
            ctx.ob("C26.replace:" + f, why is None, o.where(), "%s: %s" % (f, why), o.trail() if why else None, rule="C26.replace")
    ctx.need(n, 3, "paths of " + f)


def one(e):
    """e with the size of an element of a string, which is 1"""
    k = e[0]
    if k == "ld" and e[1][0] == "fld" and e[1][1] == "vec._elem_size":
        return const(1)
    if k == "L":
        r = const(e[1])
        for a, c in e[2]:
            r = add(r, scale(one(a), c))
        return r
    if k == "op" and e[1] == "mul":
        return mulall([one(x) for x in e[2:]])
    if k == "op" and e[1] == "div":
        a, b = one(e[2]), one(e[3])
        return a if b == const(1) else ("op", "div", a, b)
    return e


def counters(ctx, p):
    ctx.rule("C26.char", "a character is as many bytes as its first byte says, within the bytes that remain; a sequence that is none, or is cut off, is refused; looking backwards never leaves the bytes before")
    fn = p.fn("_get_byte_count")
    outs, _ = collect(ctx, p, fn, None, None)
    c, lim = arg(_, 0), arg(_, 1)
    n = 0
    for b in range(256):
        want = 1 if b < 0x80 else 2 if b & 0xE0 == 0xC0 else 3 if b & 0xF0 == 0xE0 else 4 if b & 0xF8 == 0xF0 else None
        for k in range(1, 6):
            got = None
            for sb in {b, b - 256 if b > 127 else b}:
                r = {show(o.val) if evaluate(o.val, {c: sb, lim: k}) is None else evaluate(o.val, {c: sb, lim: k})
                     for o in outs if consistent(o, {c: sb, lim: k})}
                if sb == (b - 256 if b > 127 else b):
                    got = r
            exp = want if want is not None and want <= k else -5
            n += 1
            ctx.ob("C26.char:_get_byte_count", got == {exp}, "_get_byte_count", "_get_byte_count of a byte 0x%02x with %d left is %s, not %s" % (b, k, got, exp), rule="C26.char")
    ctx.need(n, 1280, "bytes")
    L, m = bounds(ctx, p, "_get_rev_byte_count", "C26.char", Back, [arg(_, 1)])
    F = L.F
    n = 0
    s, lim = arg(F.an[0], 0), arg(F.an[0], 1)
    first = ("ld", s, 0)
    for b in range(256):
        sb = b - 256 if b > 127 else b
        got = ends(F, 0, {first: sb, lim: 9})
        n += 1
        ctx.ob("C26.char:_get_rev_byte_count", b < 128 and got == {1} or b > 127 and got <= {None, -5}, "_get_rev_byte_count",
               "_get_rev_byte_count at a last byte 0x%02x is %s" % (b, got), rule="C26.char")
    for h in F.headers:
        ivar = [v for v in L.vars[h] if all(o.src != h or abs((lin_parts(sub(F.tr(o, v), v))[0])) == 1 and is_c(sub(F.tr(o, v), v)) for o in L.into(h))
                and all(o.src == h or F.tr(o, v) == C0 for o in L.into(h)) and any(o.src == h for o in L.into(h))]
        if not ivar:
            ctx.ob("C26.char:_get_rev_byte_count", False, "_get_rev_byte_count", "_get_rev_byte_count: its loop does not go back one byte per round", rule="C26.char")
            continue
        v = ivar[0]
        step = [sub(F.tr(o, v), v)[1] for o in L.into(h) if o.src == h][0]
        for k in range(5):
            for b in range(128 if k == 0 else 0, 256):
                sb = b - 256 if b > 127 else b
                # step < 0: the variable is minus the bytes gone back
                env = {v: k * step, lim: 9, ("ld", add(s, scale(v, -step) if step > 0 else v), 0): sb}
                got = ends(F, h, env)
                lead = 2 if b & 0xE0 == 0xC0 else 3 if b & 0xF0 == 0xE0 else 4 if b & 0xF8 == 0xF0 else None
                want = {None} if b & 0xC0 == 0x80 else {k + 1} if lead == k + 1 and k else {-5}
                n += 1
                ctx.ob("C26.char:_get_rev_byte_count", got == want or k >= 4 and got <= {None, -5}, "_get_rev_byte_count",
                       "_get_rev_byte_count %d bytes back at a byte 0x%02x gives %s, not %s" % (k, b, got, want), rule="C26.char")
    ctx.need(n, 800, "bytes looked back on")


def ends(F, src, env):
    """what the fragment's paths that can be taken give; None: it goes on"""
    r = set()
    for o in F.returns(src):
        if not o.died and consistent(o, env):
            x = evaluate(o.val, env)
            r.add(x if x is not None else show(o.val))
    for o in F.arrivals(src):
        if consistent(o, env):
            r.add(None)
    return r


class Back(FragRule):
    report = None

    def __init__(self):
        FragRule.__init__(self, None, {"all"}, 40)

    def load(self, an, st, inst, addr, val):
        s, lim = arg(an, 0), arg(an, 1)
        c, d = lin_parts(addr)
        if self.report and d.get(s) == 1:
            off = scale(sub(addr, s), -1)
            q = P(_At(an, st))
            ok = off == C0 or q.le(C0, off) and q.le(add(off, const(1)), lim)
            self.report(ok, inst, "reads the byte %s before, with %s bytes there" % (show(off), show(lim)), an, st)


EXPLANATION = ("For every character function the fragments between loop heads are analysed with linear invariants that hold on every arrival at a loop head (found by elimination and re-checked); "
               "with them every read of a byte and every copy out of an operand is proved to lie within its length, and the extent of the result is matched with the characters counted by the loop, one per round.")
ASSUMPTIONS = ["the operand readers deliver a view whose length is the bytes readable at its data", "the string functions write within the result string (C18)",
               "the bytes of a multi-byte character after the first are not checked to be continuation bytes"]
