"""C14: integer arithmetic gives the exact result or fails."""
from .norm import *

TECHNIQUE = "path-outcome analysis of every integer operator with a no-wrap obligation on each machine operation, discharged by linear reasoning over the path's guards"
LEVEL_NOTE = "every path of every integer operator, operands any 64-bit values; products are decided through the compiler's overflow intrinsic only"
EXPLANATION = (
    "Each integer operator is inlined into path outcomes over two unknown 64-bit operands. On every successful path the value stored must be the operator applied to the operands in order, and each addition, subtraction, multiplication, negation, "
    "division and remainder executed on the path must be shown, from the path's guards, to stay inside its type's range (or its overflow test to have come out negative) and never to divide by zero or the smallest value by -1. "
    "On every path that reports a failure the guards must imply that the exact result does not exist or is not representable.")
ASSUMPTIONS = ["long is 64 bits", "the operand readers deliver the operand's value or report NULL/failure (C13)"]

MIN, MAX = const(-(1 << 63)), const((1 << 63) - 1)
GET = "expression_get_int"
OPS = {
    "fql_op_plus_i": lambda x, y: add(x, y),
    "fql_op_minus_i": lambda x, y: sub(x, y),
    "fql_op_mult_i": lambda x, y: mul(x, y),
    "fql_op_divi_i": lambda x, y: ("op", "div", x, y),
    "fql_op_mod_i": lambda x, y: ("op", "rem", x, y),
    "fql_op_unary_minus_i": lambda x, y: sub(C0, x),
}
FAIL, NULL = const(-5), const(-1)


class ArithRule(Collect):
    cap = 400


    def arith(self, an, st, inst):
        v = [an.val(st, o) for o in inst.a]
        op = inst.op
        if op == "extractvalue":
            if not (v[0][0] == "ovf" and inst.ix == [0]):
                return
            self._ev(st, ("arith", "ovf", v[0][1], (v[0][2], v[0][3]), inst.id))
            return
        if not str(inst.ty).startswith("i") or all(is_c(x) for x in v):
            return
        # what is about the operands' values, not about addresses
        if not any(mentions(x, lambda y: y[0] == "ld" and (y[1][0] == "al" or y[1][0] == "fld" and y[1][1].startswith("aggresult"))) for x in v) and not op.endswith(("div", "rem")):
            return
        st.t = st.t + (("arith", op, inst.nsw, tuple(v), inst.id, int(str(inst.ty)[1:]), frozenset(st.facts.items()), inst),)


class Q(P):
    def __init__(self, o, facts=None):
        P.__init__(self, o)
        if facts is not None:
            self.st = o.st.copy()
            self.st.facts = facts


def bounds(q, vals):
    for v in vals:
        q.an.assume_range(q.st, q.an.term(v)[0], (MIN[1], MAX[1], frozenset()))


def fits(q, e, lo, hi):
    return q.le(e, hi) and q.le(lo, e)


def outside(q, e):
    return q.lt(MAX, e) or q.lt(e, MIN)


def ovf_fact(o, k, a, b):
    """True/False: the path knows that the operation does (not) overflow"""
    for x, y in ((a, b), (b, a)):
        t = o.truth(("op", "ovf:" + k, x, y))
        if t is not None:
            return t
        if k[1:] == "sub":
            break
    return None


def known_ne(q, x, c):
    return q.lt(x, c) or q.lt(c, x) or q.an.eval_cond(q.st, eq(x, c)) is False


def trap_free(q, x, y):
    return known_ne(q, y, C0) and (known_ne(q, y, const(-1)) or known_ne(q, x, MIN))


def obligations(o, vals):
    """why some machine operation of the path may not give the exact value, or None"""
    w = narrowed(o, vals)
    if w:
        return w
    for e in o.ev:
        if e[0] != "arith" or e[1] == "trunc":
            continue
        if e[1] == "ovf":
            if ovf_fact(o, e[2], *e[3]) is not False:
                return "uses the result of %s without its overflow test having come out negative" % e[2]
            continue
        op, nsw, v, bits, facts, inst = e[1], e[2], e[3], e[5], e[6], e[7]
        q = Q(o, dict(facts))
        bounds(q, vals)
        at = o.an.fn.loc(inst)
        if op in ("sdiv", "srem"):
            if not trap_free(q, v[0], v[1]):
                return "%s: may divide by zero or the smallest value by -1" % at
            continue
        if op in ("udiv", "urem"):
            if not known_ne(q, v[1], C0):
                return "%s: may divide by zero" % at
            continue
        r = {"add": add, "sub": sub, "mul": mul}[op](*v) if op != "shl" else None
        if r is None:
            return "%s: shifts an operand" % at
        lo, hi = (const(-(1 << (bits - 1))), const((1 << (bits - 1)) - 1)) if nsw else (C0, const((1 << bits) - 1))
        if op == "mul" and not any(is_c(x) for x in v):
            # |x| <= 1 is the only product bound linear reasoning gives
            raise AnalysisError("%s: product of two operands outside the overflow intrinsic" % at)
        if not fits(q, r, lo, hi):
            return "%s: %s may wrap around" % (at, show(r))
    return None


def narrowed(o, vals):
    """a value about the operands cut to fewer bits than it may need"""
    for e in o.ev:
        if e[0] == "arith" and e[1] == "trunc" and e[5] > 1:
            q = Q(o, dict(e[6]))
            bounds(q, vals)
            if not fits(q, e[3][0], const(-(1 << (e[5] - 1))), const((1 << (e[5] - 1)) - 1)):
                return "%s: narrows %s to %d bits" % (o.an.fn.loc(e[7]), show(e[3][0]), e[5])
    return None


def check(ctx, p, f, want, operands, value):
    """operands(outs) -> list of operand values per outcome; value(o) -> value stored"""
    r = ArithRule({GET, "fputs", "fprintf"}, {"all"})
    a = ctx.analyse(p, p.fn(f), r)
    n = ok = fails = 0
    why = None
    for o in returns(r.outs):
        ops = operands(o)
        if ops is None:
            continue
        n += 1
        P_ = P(o)
        if P_.eq(o.val, C0):
            ok += 1
            w = obligations(o, ops)
            if w:
                why = why or w
                continue
            q = Q(o)
            q.st = o.st.copy()
            bounds(q, ops)
            v = value(o)
            e = want(*(ops + [None])[:2])
            if v is None:
                why = why or "succeeds without a result"
            elif v == e or q.eq(v, e):
                pass
            elif f == "fql_op_mod_i" and q.eq(v, C0) and (q.eq(ops[1], const(-1)) or q.eq(ops[1], C1) or q.eq(ops[0], C0)):
                pass
            elif f == "fql_op_divi_i" and (q.eq(v, sub(C0, ops[0])) and q.eq(ops[1], const(-1)) or q.eq(v, ops[0]) and q.eq(ops[1], C1)):
                pass
            elif e[0] == "op" and e[1] == "mul" or e[0] == "op" and v[0] == "op" and v[:2] == e[:2] and all(q.eq(x, y) for x, y in zip(v[2:], e[2:])):
                # products: one operand known
                k = next((i for i in (0, 1) if len(ops) == 2 and q.an.interval(q.st, ops[i])[0] == q.an.interval(q.st, ops[i])[1]), None)
                if e[1] != "mul" and v[0] == "op" and v[:2] == e[:2]:
                    continue
                if k is None or not q.eq(v, scale(ops[1 - k], q.an.interval(q.st, ops[k])[0])):
                    why = why or "the result is %s" % show(v)
            else:
                why = why or "the result is %s" % show(v)
        elif P_.eq(o.val, FAIL):
            fails += 1
            q = Q(o)
            q.st = o.st.copy()
            bounds(q, ops)
            w = narrowed(o, ops)
            if w:
                why = why or w
            elif not justified(o, q, f, want, ops):
                why = why or "fails although the exact result may be representable (%s)" % " -> ".join(o.trail())
        else:
            why = why or "returns %s" % show(o.val)
    ctx.ob(f, why is None, f, why or "", n=n)
    if ok == 0:
        raise AnalysisError("%s: no successful outcome" % f)
    return n


def justified(o, q, f, want, ops):
    e = want(*(ops + [None])[:2])
    if e[0] == "op" and e[1] in ("div", "rem"):
        if q.eq(ops[1], C0):
            return True
        return e[1] == "div" and q.eq(ops[1], const(-1)) and q.eq(ops[0], MIN)
    for T, g in o.st.facts.items():
        if len(T) == 1 and T[0][0][0] == "op" and T[0][0][1].startswith("ovf:") and (g[0] == g[1] == 1 or 0 in g[2]):
            k, a, b = T[0][0][1][4:], T[0][0][2], T[0][0][3]
            if k[0] == "s" and {"add": add, "sub": sub, "mul": mul}[k[1:]](a, b) == e:
                return True
    return outside(q, e)


def run(ctx):
    p = ctx.prog("engine", keep=["expression_get_int", "expression_get_float", "expression_get_stringview"])
    ctx.rule("C14.exact", "a successful path stores the operator applied to its operands and every machine operation on it stays in range; a failing path's guards imply that there is no representable result")
    n = 0
    for f, want in OPS.items():
        nargs = 1 if "unary" in f else 2

        def operands(o, nargs=nargs):
            rd = [e for e in o.ev if e[0] == "call" and e[1] == GET]
            if len(rd) != nargs:
                return None if len(rd) < nargs else bad(o, f, "reads %d operands" % len(rd))
            for e in rd:
                if o.truth(eq(e[4], FAIL)) is not False or o.truth(eq(e[4], NULL)) is not False:
                    return None
            out = []
            for k in range(nargs):
                e = next((e for e in rd if e[2][1][0] == "ld" and index_of(e[2][1][1]) == k), None)
                if e is None:
                    return bad(o, f, "reads %s" % [show(e[2][1]) for e in rd])
                out.append(("ld*", e[2][0], e))
            return [first_value(o, x[1], x[2]) for x in out]

        def value(o):
            s = [e for e in o.ev if e[0] == "store" and (e[1] == arg(o.an, 1) or e[1][0] == "fld" and e[1][2] == arg(o.an, 1))]
            return s[-1][2] if s else None
        try:
            n += check(ctx, p, f, want, operands, value)
        except Bad as b:
            ctx.ob(f, False, f, str(b))
    ctx.need(n, 15, "outcomes of integer operators")
    ctx.rule("C14.sum", "SUM and AVG add each value to the running total exactly or fail")
    for f, fl_ in (("fql_sum_i", "aggresult.data"), ("fql_avg_i", "aggresult.auxdata")):
        def operands(o, fl_=fl_):
            rd = [e for e in o.ev if e[0] == "call" and e[1] == GET]
            if len(rd) != 1 or o.truth(eq(rd[0][4], FAIL)) is not False:
                return None
            # the running total as it was when it was added to
            acc = fld(fl_, arg(o.an, 2))
            num = first_value(o, rd[0][2][0], rd[0])
            for e in o.ev:
                v = e[3] if e[0] == "arith" else ()
                for x in v:
                    if x[0] == "ld" and x[1] == acc and x is not num:
                        return [x, num]
            found = []
            for T in o.st.facts:
                for t, _ in T:
                    mentions(t, lambda y: y[0] == "ld" and y[1] == acc and found.append(y))
            return [found[0] if found else ("ld", acc, 0), num]

        def value(o, fl_=fl_):
            s = [e for e in o.ev if e[0] == "store" and e[1] == fld(fl_, arg(o.an, 2))]
            return s[0][2] if s else None
        r = sums(ctx, p, f, operands, value)
    ctx.need(2, 2, "sums")


def sums(ctx, p, f, operands, value):
    r = ArithRule({GET, "fputs", "fprintf"}, {"all"})
    ctx.analyse(p, p.fn(f), r)
    why, n = None, 0
    for o in returns(r.outs):
        ops = operands(o)
        if ops is None:
            continue
        n += 1
        ovf = [e for e in o.ev if e[0] == "arith" and e[1] == "ovf"]
        q = Q(o)
        q.st = o.st.copy()
        if P(o).eq(o.val, FAIL):
            bounds(q, ops)
            w = narrowed(o, ops)
            if w:
                why = why or w
            elif not justified(o, q, f, lambda x, y: add(x, y), ops):
                why = why or "fails although the sum may be representable"
        elif P(o).eq(o.val, C0):
            v = value(o)
            if v is None or not P(o).eq(v, add(*ops)):
                why = why or "adds %s" % (show(v) if v else "nothing")
            bounds(q, ops)
            o2 = [e for e in o.ev if e[0] == "arith" and (e[1] == "ovf" or e[1] in ("add", "sub", "mul") and {"add": add, "sub": sub, "mul": mul}[e[1]](*e[3]) == add(*ops))]
            class Sub:
                pass
            s = Sub()
            s.ev, s.an, s.st, s.truth = o2, o.an, o.st, o.truth
            w = obligations(s, ops)
            why = why or w
    if n == 0:
        raise AnalysisError("%s: no outcome with a value" % f)
    ctx.ob(f, why is None, f, why or "", n=n)


class Bad(Exception):
    pass


def bad(o, f, msg):
    raise Bad("%s: %s" % (f, msg))


def index_of(a):
    """index of the argument read from args->data at address a"""
    c, d = lin_parts(a)
    return c // 8 if len(d) == 1 and list(d.values()) == [1] and "vec.data" in repr(list(d)[0]) and c % 8 == 0 else None


def first_value(o, slot, get):
    """the value the operand has after the last reader ran"""
    return o.an.read(o.st, slot)
