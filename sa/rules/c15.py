"""C15: comparison operators, IN lists, text comparison, resolution of a comparison."""
from .frag import *

TECHNIQUE = "dispatch-table cross-check plus decision tables of every comparison function; induction over the rounds of text comparison and list search"
LEVEL_NOTE = "every entry of the dispatch matrix for every ordering of its operands; text comparison for symbolic texts and lengths"
EXPLANATION = (
    "Each entry of the operator/type matrix is reduced to its path outcomes with the operand readers kept as symbols; under each ordering of the two operands (less, equal, greater) the value "
    "returned must be the relation the row stands for, read with the reader of the column's type, left operand first, with failures passed on and NULL giving false. IN runs over all elements of the list. The text "
    "comparisons are cut at their loop heads and checked by induction: same position of both texts, every position, first difference decides, rest compared by length or by blanks. "
    "Resolution stores the entry for exactly this operator and the type both operands convert to.")
ASSUMPTIONS = ["the operand readers deliver the operand's value or report NULL/failure", "tolower and isspace are those of the C locale", "text lengths are below 2^31",
               "floating comparison is IEEE; NaN is unordered"]

GETS = {"INT": "expression_get_int", "FLOAT": "expression_get_float", "STRING": "expression_get_stringview"}
CMPF = ["stringview_compare_nocase_rtrim", "stringview_compare_rtrim", "stringview_compare_nocase", "stringview_compare"]
KEEPL = list(GETS.values()) + CMPF + ["like_to_regex", "set_nhas"]
REL = {"EQ": (0, 1, 0), "NE": (1, 0, 1), "GT": (0, 0, 1), "GE": (0, 1, 1), "LT": (1, 0, 0), "LE": (1, 1, 0)}
# truth of an IEEE predicate under <, =, >, unordered
FC = {"oeq": "0100", "ogt": "0010", "oge": "0110", "olt": "1000", "ole": "1100", "one": "1010", "ord": "1110", "uno": "0001",
      "ueq": "0101", "ugt": "0011", "uge": "0111", "ult": "1001", "ule": "1101", "une": "1011"}
FAIL, NULL = const(-5), const(-1)


def elem(addr, k):
    """k-th pointer of the array behind the field at addr"""
    return addr if k == 0 else ("ea", addr, k)


def operand(an, e):
    """0/1 when e reads self->expr[0/1] of the function's first parameter, else None"""
    if e[0] != "ld":
        return None
    base = fld("logic.expr", arg(an, 0))
    for k in (0, 1):
        if e[1] == add(base, const(8 * k)):
            return k
    return None


class CmpRule(Collect):
    cap = 400


def float_truth(e, x, y, case):
    """value (0/1) of a floating comparison when x ? y is '<', '=', '>' (0..2)"""
    if e[0] == "not":
        v = float_truth(e[1], x, y, case)
        return None if v is None else 1 - v
    if e[0] == "op" and e[1] == "fcmp" and (e[3], e[4]) == (x, y):
        return int(FC[e[2][1]][case])
    if e[0] == "op" and e[1] == "fcmp" and (e[3], e[4]) == (y, x):
        return int(FC[e[2][1]][2 - case if case < 3 else 3])
    if e[0] == "op" and e[1] in ("zext", "sext") and len(e) == 3:
        return float_truth(e[2], x, y, case)
    return None


def truth_of(an, st, v):
    """0/1 of a returned condition on this path, None unknown"""
    if v is None:
        return None
    if is_c(v):
        return int(v[1] != 0)
    if v[0] == "sel":
        c = an.eval_cond(st, v[1])
        if c is not None:
            return truth_of(an, st, v[2] if c else v[3])
        a, b = truth_of(an, st, v[2]), truth_of(an, st, v[3])
        return a if a == b else None
    if v[0] == "L" or v[0] == "in":
        b = an.eval_cond(st, mk_cmp("ne", v, C0))
    else:
        b = an.eval_cond(st, v) if v[0] in ("cmp", "not") else an.eval_cond(st, mk_cmp("ne", v, C0))
    return None if b is None else int(b)


def values_compared(o, rd, col):
    """the terms of the two operands on a path: (x, y, compare call or None)"""
    a, b = rd[0][2][0], rd[1][2][0]
    if col == "STRING":
        c = [e for e in o.ev if e[0] == "call" and e[1] in CMPF]
        return (a, b, c[0] if len(c) == 1 else None)
    return (("ld*", a), ("ld*", b), None)


def d_of(c):
    """the call whose sign an ordering condition is about"""
    a = [x for x in lin_parts(c[2])[1]] if c[0] == "cmp" else []
    return a[0] if len(a) == 1 else None


def is_operand(y, slot):
    return y[0] == "ld" and y[1] in slot.values() or y in slot.values()


def check_cell(ctx, p, row, col, f):
    outs, an = collect(ctx, p, p.fn(f), set(GETS.values()) | set(CMPF), set())
    outs = returns(outs)
    n = 0
    seen = {}
    why = None
    for o in outs:
        P_ = P(o)
        rd = [e for e in o.ev if e[1] in GETS.values()]
        other = [e for e in rd if e[1] != GETS[col]]
        if other:
            why = "reads its operand with %s" % other[0][1]
            break
        ops = [operand(an, e[2][1]) for e in rd]
        if ops != [0, 1][:len(ops)] and ops != [1, 0][:len(ops)]:
            why = "reads %s" % [show(e[2][1]) for e in rd]
            break
        st = {k: ("fail" if P_.eq(e[4], FAIL) else "null" if P_.eq(e[4], NULL) else "ok" if o.truth(eq(e[4], FAIL)) is False and o.truth(eq(e[4], NULL)) is False else "?") for k, e in zip(ops, rd)}
        if not rd:
            why = "decides without reading its operands"
            break
        if "?" in st.values():
            why = "does not tell NULL or failure of %s apart (%s)" % (rd[-1][1], o.trail())
            break
        n += 1
        if "fail" in st.values():
            if not P_.eq(o.val, FAIL):
                why = "an operand that fails gives %s" % show(o.val)
                break
            continue
        if "null" in st.values():
            if truth_of(o.an, o.st, o.val) != 0:
                why = "a NULL operand gives %s" % show(o.val)
                break
            continue
        if len(rd) != 2:
            why = "decides after reading one operand"
            break
        if [e[2][2] == arg(an, 1) for e in rd] != [True, True]:
            why = "operands of different rows"
            break
        slot = {k: e[2][0] for k, e in zip(ops, rd)}
        if slot[0] == slot[1]:
            why = "both operands are read into one place"
            break
        if col == "STRING":
            c = [e for e in o.ev if e[1] in CMPF]
            if len(c) != 1 or c[0][1] != CMPF[0] or {c[0][2][0], c[0][2][1]} != {slot[0], slot[1]}:
                why = "compares %s" % ([(e[1], [show(x) for x in e[2]]) for e in c] or "nothing")
                break
            d = c[0][4] if c[0][2][0] == slot[0] else neg(c[0][4])
            pats = [(k, mk_cmp(("slt", "eq", "sgt")[k], d, C0)) for k in range(3)]
        elif col == "INT":
            x, y = (o.an.read(o.st, slot[k]) for k in (0, 1))
            pats = [(k, mk_cmp(("slt", "eq", "sgt")[k], x, y)) for k in range(3)]
        else:
            x, y = (o.an.read(o.st, slot[k]) for k in (0, 1))
            pats = [(k, None) for k in range(3)]
        for k, c in pats:
            st2 = o.st.copy()
            if c is None:
                # the path's own floating facts must allow this ordering
                bad = False
                for cnd, val in fconds(o):
                    t = float_truth(cnd, x, y, k)
                    if t is not None and t != val:
                        bad = True
                if bad:
                    continue
                v = o.val
                t = v[1] if is_c(v) else float_truth(v, x, y, k)
            else:
                if not o.an.assume(st2, c, True):
                    continue
                q = P(o)
                q.st = st2
                if q.contra():
                    continue
                t = truth_of(o.an, st2, o.val)
            if t is None and c is not None and not mentions(o.val, lambda y: y[0] not in ("L", "cmp", "not", "sel", "op", "c", "fn", "glob", "str", "al") and y != d_of(c) and not is_operand(y, slot)):
                why = "depends on more than the order of the operands: %s" % show(o.val)
                break
            if t is None:
                raise AnalysisError("%s: cannot decide %s for %s" % (f, show(o.val), "<=>"[k]))
            seen.setdefault(k, set()).add(int(t))
            if int(t) != REL[row][k]:
                why = "is %s for a left operand %s the right one" % (bool(t), ("below", "equal to", "above")[k])
        if why:
            break
    if not why and set(seen) != {0, 1, 2}:
        why = "no outcome for some operand ordering"
    ctx.ob("%s %s -> %s" % (row, col, f), why is None, (p.fn(f).loc(None) if False else f), why or "", n=max(n, 1))
    return n


def neg(e):
    return sub(C0, e)


def fconds(o):
    """floating conditions the path decided: (condition, 0/1)"""
    out = []
    for T, g in o.st.facts.items():
        if len(T) == 1 and T[0][0][:2] == ("op", "fcmp"):
            if g[0] == g[1]:
                out.append((T[0][0], int(g[0])))
            elif 0 in g[2]:
                out.append((T[0][0], 1))
    return out


def matrix(ctx, p):
    g = p.globals.get("_logic_matrix")
    if g is None:
        raise AnalysisError("comparison matrix not found")
    return g["init"][1:]


def cell(m, r, c):
    row = m[r]
    if row[0] != "arr":
        return None
    e = row[1 + c]
    return e[1] if e[0] == "f" else None


def run(ctx):
    p = ctx.prog("engine", keep=KEEPL)
    E = p.enumval
    m = matrix(ctx, p)
    ctx.rule("C15.relation", "every entry of the operator/type matrix returns its row's relation between its operands, read by its column's reader, for every ordering; NULL gives false, failure is passed on")
    n = 0
    for row in REL:
        for col in GETS:
            f = cell(m, E["COMP_" + row], E["FIELD_" + col])
            if f is None:
                ctx.ob("%s %s" % (row, col), False, "_logic_matrix", "no implementation of %s for %s operands" % (row, col))
                continue
            n += check_cell(ctx, p, row, col, f)
    ctx.need(n, 80, "paths of comparison functions")
    lists(ctx, p, m, E)
    nullness(ctx, p, m, E)
    resolve(ctx, E)
    texts(ctx)


# ------------------------------------------------------------------ IN
class InRule(FragRule):
    cap = 400


def lists(ctx, p, m, E):
    ctx.rule("C15.list", "IN is true exactly when some element of the list is not NULL and equals the operand: every element is visited until the first match")
    for col in GETS:
        f = cell(m, E["COMP_IN"], E["FIELD_" + col])
        if f is None:
            ctx.ob("IN %s" % col, False, "_logic_matrix", "no implementation")
            continue
        F = Fragments(ctx, p, f, lambda: InRule(set(GETS.values()) | set(CMPF), set()))
        why = in_list(F, col)
        ctx.ob("IN %s -> %s" % (col, f), why is None, f, why or "", n=F.npaths())
    for col in GETS:
        f = cell(m, E["COMP_SUBIN"], E["FIELD_" + col])
        if f is None:
            ctx.ob("IN subquery %s" % col, False, "_logic_matrix", "no implementation")
            continue
        outs, an = collect(ctx, p, p.fn(f), set(GETS.values()) | {"set_nhas"}, set())
        why = None
        for o in returns(outs):
            P_ = P(o)
            rd = [e for e in o.ev if e[1] in GETS.values()]
            if len(rd) != 1 or rd[0][1] != GETS[col] or operand(an, rd[0][2][1]) != 0:
                why = "reads %s" % [e[1] for e in rd]
                continue
            r = rd[0][4]
            h = [e for e in o.ev if e[1] == "set_nhas"]
            if P_.eq(r, FAIL):
                why = why or (None if P_.eq(o.val, FAIL) else "failure gives %s" % show(o.val))
            elif P_.eq(r, NULL):
                why = why or (None if truth_of(o.an, o.st, o.val) == 0 else "NULL gives %s" % show(o.val))
            elif len(h) != 1:
                why = why or "does not look the value up"
            else:
                a = h[0][2]
                if a[0] != ("ld", fld("inlist.list_data", ("ld", fld("logic.in_data", arg(an, 0)), 0)), 0) and "list_data" not in show(a[0]):
                    why = why or "looks in %s" % show(a[0])
                if col == "STRING":
                    x = rd[0][2][0]
                    if show(a[1]) == show(a[2]) or not mentions(a[1], lambda y: y == x) or not mentions(a[2], lambda y: y == x):
                        why = why or "looks up %s, %s" % (show(a[1]), show(a[2]))
                elif a[1] != rd[0][2][0] or a[2] != const(8):
                    why = why or "looks up %s bytes at %s" % (show(a[2]), show(a[1]))
                t = o.val == h[0][4] or truth_of(o.an, o.st, o.val) is not None and truth_of(o.an, o.st, o.val) == truth_of(o.an, o.st, h[0][4])
                if not t and not (o.val[0] in ("cmp", "not") and mentions(o.val, lambda y: y == h[0][4]) and not mentions(o.val, lambda y: y[0] == "arg")):
                    why = why or "returns %s" % show(o.val)
        ctx.ob("IN subquery %s -> %s" % (col, f), why is None, f, why or "", n=len(outs))


def in_list(F, col):
    hs = [h for h in F.headers if h in F.reachable()]
    if len(hs) != 1:
        raise AnalysisError("list search with %d loops" % len(hs))
    h = hs[0]
    an = F.an[0]
    slot0 = None
    vecf = lambda n: ("vec." + n)
    # entry: operand read; then either a return or the loop
    for o in F.arrivals(0, h) + F.returns(0):
        P_ = P(o)
        rd = [e for e in o.ev if e[1] in GETS.values()]
        if any(e[1] != GETS[col] for e in rd):
            return "reads its operand with %s" % rd[0][1]
        if not rd or operand(an, rd[0][2][1]) != 0:
            return "does not start with the left operand"
        slot0 = rd[0][2][0]
        r = rd[0][4]
        isret = not hasattr(o, "dst")
        if P_.eq(r, FAIL):
            if not isret or not P_.eq(o.val, FAIL):
                return "an operand that fails is not reported"
        elif P_.eq(r, NULL):
            if not isret or truth_of(o.an, o.st, o.val) != 0:
                return "a NULL operand does not give false"
        elif isret:
            if len(rd) == 1 and truth_of(o.an, o.st, o.val) == 0 and any("vec.size" in show(mk_lin(0, dict(T))) for T in o.st.facts):
                continue       # an empty list
            return "decides before searching the list"
    # the round
    ph = [i.id for i in F.fn.blocks[h] if i.op == "phi"]
    for o in F.arrivals(h, h) + F.returns(h):
        P_ = P(o)
        rd = [e for e in o.ev if e[1] in GETS.values()]
        isret = not hasattr(o, "dst")
        if any(e[1] != GETS[col] for e in rd):
            return "reads an element with %s" % rd[0][1]
        if not rd:
            if not isret or truth_of(o.an, o.st, o.val) != 0:
                return "a round that reads no element gives %s" % (show(o.val) if isret else "another round")
            # must be the end of the list
            if not any("vec.size" in repr(T) and f[0] == f[1] or "vec.size" in repr(T) for T, f in o.st.facts.items()):
                return "the search ends before the end of the list"
            continue
        if len(rd) != 1:
            return "reads %d elements in a round" % len(rd)
        src, slot, r = rd[0][2][1], rd[0][2][0], rd[0][4]
        if slot == slot0:
            return "the element overwrites the operand"
        if src[0] != "ld" or not any(mentions(src, lambda y, q=q: y == ("in", q)) for q in ph):
            return "reads %s" % show(src)
        if P_.eq(r, FAIL):
            if not isret or not P_.eq(o.val, FAIL):
                return "an element that fails is not reported"
            continue
        if P_.eq(r, NULL):
            if isret:
                return "a NULL element ends the search"
            same = None
        else:
            if not (o.truth(eq(r, FAIL)) is False and o.truth(eq(r, NULL)) is False):
                return "does not tell a NULL or failing element apart"
            if col == "STRING":
                c = [e for e in o.ev if e[1] in CMPF]
                if len(c) != 1 or c[0][1] != CMPF[0] or set(c[0][2][:2]) != {slot0, slot}:
                    return "compares %s" % [(e[1], [show(x) for x in e[2]]) for e in c]
                same = True if P_.eq(c[0][4], C0) else False if o.truth(eq(c[0][4], C0)) is False else None
            elif col == "INT":
                x, y = o.an.read(o.st, slot0), o.an.read(o.st, slot)
                same = True if P_.eq(x, y) else False if o.truth(eq(x, y)) is False else None
            else:
                x, y = o.an.read(o.st, slot0), o.an.read(o.st, slot)
                poss = [k for k in range(4) if all(float_truth(c, x, y, k) in (None, v) if k < 3 else True for c, v in fconds(o))]
                dec = [c for c, v in fconds(o) if float_truth(c, x, y, 0) is not None]
                same = True if dec and 1 in poss and not {0, 2} & set(poss) else False if dec and 1 not in poss else None
            if same is None:
                return "does not compare the element with the operand"
        if same:
            if not isret or truth_of(o.an, o.st, o.val) != 1:
                return "a match does not give true"
        else:
            if isret:
                return "the search ends at an element that does not match"
            # the place read next is the following one
            nxt = F.tr(o, src[1])
            if not P_.eq(nxt, add(src[1], const(8))):
                return "the element after %s read is %s" % (show(src[1]), show(nxt))
    # the first element read is the first of the list
    for o in F.arrivals(0, h):
        for q in F.arrivals(h, h):
            rd = [e for e in q.ev if e[1] in GETS.values()]
            if rd:
                first = F.tr(o, rd[0][2][1][1])
                if "data" not in show(first) or show(first).startswith("("):
                    return "the search starts at %s" % show(first)
                break
    return None


# ------------------------------------------------------------------ IS NULL, LIKE
def nullness(ctx, p, m, E):
    ctx.rule("C15.null", "IS NULL is true exactly when reading the operand reports NULL; LIKE with a NULL text or pattern is false, failures are passed on and a match is a non-negative matcher result")
    for col in GETS:
        f = cell(m, E["COMP_NULL"], E["FIELD_" + col])
        if f is None:
            continue
        outs, an = collect(ctx, p, p.fn(f), set(GETS.values()), set())
        why = None
        for o in returns(outs):
            P_ = P(o)
            rd = [e for e in o.ev if e[1] in GETS.values()]
            if len(rd) != 1 or operand(an, rd[0][2][1]) != 0:
                why = "reads %s" % [show(e[2][1]) for e in rd]
                break
            r = rd[0][4]
            for k, c in (("fail", eq(r, FAIL)), ("null", eq(r, NULL)), ("ok", eq(r, C0))):
                st = o.st.copy()
                if not o.an.assume(st, c, True):
                    continue
                if k == "fail":
                    if not (is_c(o.val) and o.val == FAIL) and not o.an.interval(st, o.val)[:2] == (-5, -5):
                        why = "a failure gives %s" % show(o.val)
                elif truth_of(o.an, st, o.val) != (1 if k == "null" else 0):
                    why = "%s gives %s" % (k, show(o.val))
        ctx.ob("IS NULL (%s) -> %s" % (col, f), why is None, f, why or "", n=len(outs))
    f = cell(m, E["COMP_LIKE"], E["FIELD_STRING"])
    if f is None:
        ctx.ob("LIKE", False, "_logic_matrix", "no implementation")
        return
    outs, an = collect(ctx, p, p.fn(f), set(GETS.values()) | {"like_to_regex", "pcre2_match_8"}, set())
    why = None
    for o in returns(outs):
        P_ = P(o)
        rd = [e for e in o.ev if e[1] in GETS.values()]
        mt = ev_calls(o, "pcre2_match_8")
        lk = ev_calls(o, "like_to_regex")
        if [operand(an, e[2][1]) for e in rd] != [0, 1][:len(rd)] or not rd or any(e[1] != GETS["STRING"] for e in rd):
            why = "reads %s" % [show(e[2][1]) for e in rd]
            break
        if any(P_.eq(e[4], FAIL) for e in rd + lk):
            if not P_.eq(o.val, FAIL):
                why = "a failure gives %s" % show(o.val)
        elif any(P_.eq(e[4], NULL) for e in rd):
            if truth_of(o.an, o.st, o.val) != 0:
                why = "NULL gives %s" % show(o.val)
        elif len(mt) != 1:
            why = "no match is made"
        else:
            if any(o.truth(eq(e[4], FAIL)) is not False for e in lk):
                why = "a pattern that failed to compile is matched against"
            if len(rd) == 2 and len(lk) != 1:
                why = "a pattern read is not compiled"
            x = rd[0][2][0]
            if not mentions(mt[0][2][1], lambda y: y == x) or not mentions(mt[0][2][2], lambda y: y == x):
                why = "matches %s" % [show(y) for y in mt[0][2][:3]]
            for k, c in ((0, lt(mt[0][4], C0)), (1, le(C0, mt[0][4]))):
                st = o.st.copy()
                if o.an.assume(st, c, True) and truth_of(o.an, st, o.val) != k:
                    why = "a matcher result %s gives %s" % ("below zero" if k == 0 else "of zero or more", show(o.val))
    ctx.ob("LIKE -> %s" % f, why is None, f, why or "", n=len(outs))


# ------------------------------------------------------------------ resolution
def resolve(ctx, E):
    ctx.rule("C15.resolve", "a comparison runs the matrix entry of its own operator and of the type both operands convert to; an empty entry is a failure")
    keep = list(GETS.values()) + ["like_to_regex", "like_construct", "inlist_determine_type", "field_determine_type", "expression_cat_description", "inlist_cat_description", "string_strcat", "string_sprintf", "string_append", "field_description"]
    p = ctx.prog("engine", keep=keep)
    fn = p.fn("logic_assign_process")
    outs, an = collect(ctx, p, fn, {"inlist_determine_type", "field_determine_type"}, {"logic.logic__", "logic.data_type"})
    S = arg(an, 0)
    n = 0
    why = None
    comp = ("ld", fld("logic.comp_type", S), 0)
    rowlen = 8 * 3
    for o in returns(outs):
        P_ = P(o)
        last = {e[1]: e[2] for e in o.ev if e[0] == "store"}
        fn_ = last.get(fld("logic.logic__", S), C0)
        ty = last.get(fld("logic.data_type", S), C0)
        inl = o.truth(eq(("ld", fld("logic.in_data", S), 0), C0))
        e0 = ("ld", fld("logic.expr", S), 0)
        want = None
        if inl is False:
            c = ev_calls(o, "inlist_determine_type")
            if len(c) != 1 or ty != c[0][4] or c[0][2] != (("ld", fld("logic.in_data", S), 0), e0):
                why = "the type of an IN comparison is %s" % show(ty)
        elif o.truth(eq(comp, const(E["COMP_NULL"]))) is True:
            if not P_.eq(ty, const(E["FIELD_STRING"])) and not (is_c(ty) and 0 <= ty[1] <= 2):
                why = "IS NULL resolves as type %s" % show(ty)
        elif inl is True:
            c = ev_calls(o, "field_determine_type")
            ok = len(c) == 1 and ty == c[0][4]
            if ok:
                a = sorted(show(x) for x in c[0][2])
                ok = len(set(a)) == 2 and all("expr" in x and x.endswith("->field_type") for x in a)
            if not ok:
                why = "the type of the operands is taken from %s" % [(e[1], [show(x) for x in e[2]]) for e in c]
        else:
            raise AnalysisError("resolution outcome without a kind: %s" % o.trail())
        g = None
        idx = None
        if fn_[0] == "ld":
            c, d = lin_parts(fn_[1])
            gs = [x for x in d if x[0] == "glob"]
            if len(gs) == 1:
                g = gs[0]
                idx = sub(fn_[1], g)
        if g is None or g[1] != "_logic_matrix":
            why = why or "stores %s" % show(fn_)
        elif not P_.eq(idx, add(scale(comp, rowlen), scale(ty, 8))):
            why = why or "selects entry %s" % show(idx)
        z = o.truth(eq(fn_, C0))
        if P_.eq(o.val, C0) and z is not False:
            why = why or "succeeds without an implementation"
        if z is True and not P_.eq(o.val, FAIL):
            why = why or "a missing implementation gives %s" % show(o.val)
        n += 1
    ctx.ob("logic_assign_process", why is None, "logic_assign_process", why or "", n=n)
    ctx.need(n, 6, "outcomes of resolving a comparison")
    p2 = ctx.prog("engine", keep=[])
    outs, an = collect(ctx, p2, p2.fn("field_determine_type"), set(), set())
    T = {k: E["FIELD_" + k] for k in ("INT", "FLOAT", "STRING")}
    bad = None
    for a in T:
        for b in T:
            want = a if a == b else b if a == "STRING" else a if b == "STRING" else "FLOAT"
            got = set()
            for o in returns(outs):
                st = o.st.copy()
                if o.an.assume(st, eq(arg(an, 0), const(T[a])), True) and o.an.assume(st, eq(arg(an, 1), const(T[b])), True):
                    q = P(o)
                    q.st = st
                    if q.contra():
                        continue
                    lo, hi, _ = o.an.interval(st, o.val)
                    got.add(lo if lo == hi else "?")
            if got != {T[want]}:
                bad = bad or "%s with %s compares as %s" % (a, b, got)
    ctx.ob("field_determine_type: 9 pairs", bad is None, "field_determine_type", bad or "", n=9)
    # the type of a list covers the left side and every element
    F = Fragments(ctx, ctx.prog("engine", keep=["field_determine_type"]), "inlist_determine_type", lambda: FragRule({"field_determine_type"}, set()))
    hs = [h for h in F.headers if h in F.reachable()]
    why = None
    if len(hs) != 1:
        raise AnalysisError("inlist_determine_type: %d loops" % len(hs))
    h = hs[0]
    left = ("ld", fld("expression.field_type", arg(F.an[0], 1)), 0)
    acc = None
    for o in F.returns(h):
        acc = o.val
    if acc is None or acc[0] != "in":
        raise AnalysisError("inlist_determine_type: result %s" % (acc and show(acc)))
    for o in F.arrivals(0, h):
        if F.env_at(o, acc[1]) != left:
            why = "starts from %s" % show(F.env_at(o, acc[1]))
    for o in F.arrivals(h, h):
        c = ev_calls(o, "field_determine_type")
        if len(c) != 1 or acc not in c[0][2] or F.env_at(o, acc[1]) != c[0][4]:
            why = "an element's type is not combined into the result"
            continue
        x = [y for y in c[0][2] if y != acc]
        if len(x) != 1 or x[0][0] != "ld" or x[0][1][0] != "fld" or x[0][1][1] != "expression.field_type":
            why = "combines %s" % [show(y) for y in c[0][2]]
            continue
        e = x[0][1][2]
        if e[0] != "ld":
            why = "element %s" % show(e)
        elif not P(o).eq(F.tr(o, e[1]), add(e[1], const(8))):
            why = "steps from %s to %s" % (show(e[1]), show(F.tr(o, e[1])))
    ctx.ob("inlist_determine_type", why is None, "inlist_determine_type", why or "", n=F.npaths())


# ------------------------------------------------------------------ texts
def texts(ctx):
    ctx.rule("C15.text", "texts are compared byte by byte at equal positions, case folded where the name says so; the first difference decides, then the length, a tail of blanks counting as nothing where blanks are trimmed")
    p = ctx.prog("util", keep=[])
    for f in CMPF:
        total, why = 0, None
        for case in ("slt", "eq", "sgt"):
            n, w = text(ctx, p, f, case)
            total += n
            if w and not why:
                why = "%s (left text %s)" % (w, {"slt": "shorter", "eq": "as long", "sgt": "longer"}[case])
        ctx.ob(f, why is None, f, why or "", n=total)


def base_tol(e):
    """strip a case folding: (folded?, byte)"""
    if e[0] == "call" and e[1] == "tolower":
        return True, e[3][0]
    return False, e


class TextRule(FragRule):
    pure_callbacks = True

    def entry(self, an, st):
        pass


def text(ctx, p, f, case):
    nocase, rtrim = "nocase" in f, "rtrim" in f
    fnp = p.fn(f)
    A = [("arg", a[0], a[1] or (fnp.names.get(a[0]) or [""])[0]) for a in fnp.args]
    L = [("ld", fld("stringview.len", a), 0) for a in A]
    D = [("ld", fld("stringview.data", a), 0) for a in A]

    def asm(an, st):
        for l in L:
            an.assume_range(st, an.term(l)[0], (0, 2 ** 31 - 1, frozenset()))
        an.assume(st, mk_cmp(case, L[0], L[1]), True)
    F = Fragments(ctx, p, f, lambda: TextRule({"tolower", "toupper", "memcmp", "strncmp", "strncasecmp", "isspace", "__ctype_b_loc", "__ctype_tolower_loc"}, {"all"}), assume=asm)
    short, long_ = (L[0], L[1]) if case != "sgt" else (L[1], L[0])
    ldata = D[1] if case == "slt" else D[0]
    sgn = {"slt": -1, "eq": 0, "sgt": 1}[case]
    live = F.reachable()
    state = {}           # header -> ("pair"|"tail", index phi, carrier phi or None)

    def where(e):
        """a byte of text k at which position: (k, pos)"""
        if e[0] != "ld":
            return None
        for k in (0, 1):
            d = sub(e[1], D[k])
            if not mentions(d, lambda y: y in (D[0], D[1])):
                return k, d
        return None

    def diff(P_, e):
        """e is fold(text0[i]) - fold(text1[i]): i"""
        if e[0] != "L" or e[1] != 0 or len(e[2]) != 2:
            return None
        d = dict(e[2])
        pos = [a for a, c in d.items() if c == 1]
        neg_ = [a for a, c in d.items() if c == -1]
        if len(pos) != 1 or len(neg_) != 1:
            return None
        (f0, b0), (f1, b1) = base_tol(pos[0]), base_tol(neg_[0])
        if f0 != nocase or f1 != nocase:
            return None
        w0, w1 = where(b0), where(b1)
        if not w0 or not w1 or w0[0] != 0 or w1[0] != 1 or not P_.eq(w0[1], w1[1]):
            return None
        return w0[1]

    def reads(o):
        """positions of bytes the path looked at: set of (kind, position)"""
        out = []
        for e in o.ev:
            if e[0] == "call":
                for x in e[2]:
                    if where(x):
                        out.append(where(x))
        vals = [mk_lin(0, dict(T)) for T in o.st.facts] + ([o.val] if o.val is not None else []) + (list(o.raw.values()) if hasattr(o, "raw") else [])
        for v in vals:
            def chk(y):
                if y[0] == "ld" and where(y):
                    out.append(where(y))
                return False
            mentions(v, chk)
        res = []
        for w in out:
            if w not in res:
                res.append(w)
        return res

    def blank(P_, o, w):
        """True/False: the path knows that the byte is (not) a blank"""
        for T, g in o.st.facts.items():
            if len(T) != 1:
                continue
            a = T[0][0]
            hit = [False]

            def chk(y):
                if y[0] == "ld" and where(y) and where(y)[0] == w[0] and P_.eq(where(y)[1], w[1]):
                    hit[0] = True
                return False
            mentions(a, chk)
            if not hit[0]:
                continue
            iss = a[0] == "call" and a[1] == "isspace" or a[0] == "op" and a[1] == "and" and (const(8192) in a[2:]) and "__ctype_b_loc" in repr(a)
            if not iss:
                continue
            if g[0] == g[1] == 0:
                return False
            if 0 in g[2] or g[0] > 0 or g[1] < 0:
                return True
        return None

    # classify headers: pair loops and tail loops by what their round reads
    for h in F.headers:
        if h not in live:
            continue
        kinds = set()
        for o in F.arrivals(h) + F.returns(h):
            r = reads(o)
            if len({k for k, _ in r}) == 2:
                kinds.add("pair")
            elif r:
                kinds.add("tail")
        if len(kinds) > 1:
            raise AnalysisError("%s: loop %s mixes common and remaining part" % (f, kinds))
        kind = kinds.pop() if kinds else "tail"
        ph = {i.id for i in F.fn.blocks[h] if i.op == "phi"}
        idx = [i for i in ph if F.fn.affine.get(h, {}).get(i) is not None]
        car = [i for i in ph if i not in idx]
        # a carrier or index the inference resolved is no longer symbolic
        car = [c for c in car if c not in F.sub[h]]
        state[h] = (kind, idx, car)

    def carried(h):
        return [("in", c) for c in state[h][2]] if h in state else []
    def verdict(P_, o, v):
        """value v at the end of fragment o: 'zero', ('diff', i), 'len', 'carry' or None"""
        v = P_.simp(v)
        if P_.eq(v, C0):
            return "zero"
        if v in carried(o.src):
            return "carry"
        i = diff(P_, v)
        if i is not None:
            return ("diff", i)
        if v[0] in ("call",) and v[1] == "memcmp":
            return "mem"
        d = sub(L[0], L[1])
        if P_.eq(v, d):
            return "len"
        if is_c(v) and (v[1] > 0) == (sgn > 0) and v[1] != 0 and sgn != 0:
            return "len"
        lo, hi, _ = P_.an.interval(P_.st, v)
        if (v[0] in ("L", "op", "cmp", "not")) and sgn and (lo > 0) == (sgn > 0) and (hi < 0) == (sgn < 0) and not mentions(v, lambda y: y[0] == "call"):
            return "len"
        return None
    n = 0
    for s in [0] + [h for h in F.headers if h in live]:
        kind, idx, car = state.get(s, ("start", [], []))
        for o in [x for x in F.frag[s].outs if not x.died] + F.frag[s].arr:
            n += 1
            P_ = P(o)
            isarr = hasattr(o, "dst")
            if P_.contra():
                continue
            stores = [e for e in o.ev if e[0] == "store" and e[1][0] != "al"]
            if stores:
                return n, "writes %s" % show(stores[0][1])
            # carriers at the start
            known = None
            for c in carried(s):
                z = o.truth(eq(c, C0))
                known = z if known is None else known
            if carried(s) and known is False:
                # already decided: hand the verdict on, read nothing
                if isarr:
                    if o.dst == s or not any(F.env_at(o, c[1]) in carried(s) for c in carried(o.dst)):
                        return n, "a difference found is lost"
                elif o.val not in carried(s):
                    return n, "a difference found gives %s" % show(o.val)
                continue
            if carried(s) and known is None:
                # the path does not look: it must hand the value on unchanged at the end
                if not isarr and o.val in carried(s):
                    known = None
                    lowi = ("in", idx[0]) if idx else None
                    if kind == "pair" and lowi is not None and P_.le(short, lowi) and (rtrim and case == "eq"):
                        continue
                    if kind == "tail" and lowi is not None and P_.le(long_, lowi):
                        continue
                    return n, "ends with an undecided result (%s)" % o.trail()
                if isarr and o.dst != s and any(F.env_at(o, c[1]) in carried(s) for c in carried(o.dst)):
                    known = True
                else:
                    return n, "goes on without looking at the difference found"
            r = reads(o)
            mem = ev_calls(o, "memcmp")
            bad = ev_calls(o, "strncmp", "strncasecmp", "strcmp", "strcasecmp")
            if bad:
                return n, "%s stops at a NUL byte" % bad[0][1]
            if mem:
                if nocase:
                    return n, "compares without folding case"
                a = mem[0][2]
                if not (a[0] == D[0] and a[1] == D[1]) or not P_.eq(a[2], short):
                    return n, "compares %s" % [show(x) for x in a]
            pair = {k for k, _ in r} == {0, 1}
            verd = None
            if isarr:
                vs = [verdict(P_, o, F.env_at(o, c)) for c in state[o.dst][2]]
                verd = vs[0] if vs else "zero"
            else:
                verd = verdict(P_, o, o.val)
            if verd == "carry" and known is True:
                verd = "zero"
            if verd is None:
                return n, "result %s" % show(o.val if not isarr else F.env_at(o, state[o.dst][2][0]))
            # is the difference of the pair read known to be zero?
            if pair:
                i0 = [w for k, w in r]
                if not all(P_.eq(w, i0[0]) for w in i0):
                    return n, "compares different positions %s" % [show(w) for w in i0]
                i = i0[0]
                if not P_.lt(i, short) or not P_.le(C0, i):
                    return n, "compares position %s without knowing that both texts have it" % show(i)
                dz = None
                for T, g in o.st.facts.items():
                    L_ = mk_lin(0, dict(T))
                    if diff(P_, L_) is not None or diff(P_, sub(C0, L_)) is not None:
                        dz = True if g[0] == g[1] == 0 else False if (0 in g[2] or g[0] > 0 or g[1] < 0) else dz
                if isarr and o.dst == s or isarr and state[o.dst][0] == "pair":
                    ok = verd[0] == "diff" or dz is True and verd == "zero"
                    if not ok:
                        return n, "the difference of a position is not kept"
                    ni = F.env_at(o, state[o.dst][1][0]) if state[o.dst][1] else None
                    if ni is None or not P_.eq(ni, add(i, C1)):
                        return n, "position %s follows %s" % (show(ni) if ni else "?", show(i))
                    continue
                if dz is False:
                    if verd[0] != "diff":
                        return n, "a difference gives %s" % (verd,)
                    continue
                if verd[0] == "diff" and dz is None:
                    return n, "one position alone decides"
                return n, "the comparison ends at a position without difference"
            if r:       # tail
                k, i = r[0]
                if not rtrim:
                    return n, "looks at the rest of the longer text"
                if len(r) != 1 or D[k] != ldata and case != "eq":
                    return n, "looks at the rest of the shorter text"
                if not P_.lt(i, long_) or not P_.le(short, i) and not tail_from_short(F, s, idx, short, state, long_):
                    return n, "looks at position %s" % show(i)
                b = blank(P_, o, r[0])
                if b is None:
                    return n, "a remaining byte is not tested for a blank"
                if b:
                    if not isarr or verd != "zero":
                        return n, "a remaining blank decides"
                    ni = F.env_at(o, state[o.dst][1][0]) if state[o.dst][1] else None
                    if ni is None or not P_.eq(ni, add(i, C1)):
                        return n, "position %s follows %s" % (show(ni) if ni else "?", show(i))
                else:
                    if verd != "len" and sgn:
                        return n, "a remaining byte that is no blank gives %s" % (verd,)
                continue
            # nothing read in this step
            if mem:
                z = o.truth(eq(mem[0][4], C0))
                if z is False:
                    if verd != "mem":
                        return n, "a difference gives %s" % (verd,)
                    continue
                if z is None and not (P_.eq(short, C0)):
                    return n, "does not look at the result of comparing"
                if isarr:
                    return n, "mixed forms"
            elif kind == "start":
                if isarr:
                    if state[o.dst][0] == "pair":
                        i = F.env_at(o, state[o.dst][1][0]) if state[o.dst][1] else None
                        if i is None or not P_.eq(i, C0) or verd != "zero":
                            return n, "starts at position %s" % (show(i) if i else "?")
                        continue
                    if not P_.eq(short, C0) and not (nocase is False and mem):
                        return n, "skips the common part"
                elif not P_.eq(short, C0):
                    return n, "decides without comparing"
            elif kind == "pair":
                if not P_.le(short, ("in", idx[0])):
                    return n, "the comparison ends before the end of the shorter text"
                if isarr and o.dst == s:
                    return n, "a round that compares nothing"
                if isarr:
                    i = F.env_at(o, state[o.dst][1][0]) if state[o.dst][1] else None
                    if i is None or not (P_.eq(i, ("in", idx[0])) or P_.eq(i, short)):
                        return n, "the rest starts at position %s" % (show(i) if i else "?")
                    continue
            elif kind == "tail":
                if not P_.le(long_, ("in", idx[0])):
                    return n, "the rest is not looked at"
                if isarr:
                    return n, "a round that looks at nothing"
                if verd != "zero":
                    return n, "only blanks remain but the result is %s" % (verd,)
                continue
            # end of the common part with no difference
            if not isarr:
                if rtrim:
                    if sgn and not P_.eq(long_, short):
                        return n, "the rest of the longer text is not looked at"
                    if verd not in ("zero",):
                        return n, "equal texts give %s" % (verd,)
                elif verd != ("len" if sgn else "zero"):
                    return n, "texts equal up to the shorter one's length give %s" % (verd,)
    return n, None


def tail_from_short(F, s, idx, short, state, long_):
    """the index of the tail loop starts at or above the shorter length when nothing differed"""
    return bool(idx)
