"""C23: fixed-size buffers."""
import re
from .norm import *
from .frag import Fragments, FragRule
from .. import ir

TECHNIQUE = "capacity analysis of every copy into a fixed-size array or a block sized by a visible expression, from the compiler's intermediate representation: worst-case length of what is written against the size of the destination"
LEVEL_NOTE = "every call of a copying or formatting function in the engine, the utilities and the command line whose destination is a local array, an array member or a block allocated in the same function; any length of input"
EXPLANATION = (
    "For each call that writes text or bytes (strcpy, strcat, strncat, strncpy, sprintf, snprintf, realpath, memcpy, memset, fread, fgets, read ...) the destination is traced to the array or allocation it belongs to. "
    "The largest number of bytes the call can write is computed from its limit argument, from the format string (a %d is at most 11 characters, a %ld 20, a %f 317, a %s as long as the strings that can reach it) or from the length the source is known to have, and must not exceed the room left in the destination. "
    "strncat appends: its destination must have been emptied before. A helper that is handed the destination is judged in each caller. strcat onto an allocated block, whose present content has no visible length, is not judged.")
ASSUMPTIONS = ["int is 32 bits, long 64 bits, double is IEEE 754 binary64", "PATH_MAX (4096) bounds what realpath writes"]

FUNCS = {"strcpy", "stpcpy", "strcat", "strncat", "strncpy", "sprintf", "snprintf", "vsprintf", "vsnprintf", "realpath", "memcpy", "memmove",
         "memset", "fread", "fgets", "gets", "read", "getcwd", "readlink"}
INT_DIGITS = {"": 11, "h": 6, "hh": 4, "l": 20, "ll": 20, "z": 20, "j": 20, "t": 20}
FLOAT = 1 + 309 + 1           # sign, integer digits, point; precision is added
ALLOCS = {"malloc": 0, "calloc": None, "realloc": 1, "alloca": 0}


def ty_size(t):
    """bytes of an array type of the intermediate representation"""
    m = re.match(r"^\[(\d+) x (.*)\]$", t or "")
    if m:
        e = ty_size(m.group(2))
        return None if e is None else int(m.group(1)) * e
    return {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4}.get(t)


def strip_len(e):
    """strlen and load terms without identity, so that equal lengths compare equal"""
    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == "call" and x[1] == "strlen":
            return ("call", "strlen", 0, (go(x[3][0]),))
        return tuple(go(y) for y in x)
    r = go(e)
    if isinstance(r, tuple) and r and r[0] == "L":
        out = const(r[1])
        for a, k in r[2]:
            out = add(out, scale(a, k))
        return out
    return r


def same(a, b):
    """equal up to which of several calls of the same accessor produced them"""
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "call":
                return ("call", x[1], 0, go(x[3]))
            return tuple(go(y) for y in x)
        return x
    return a == b or go(a) == go(b)


class Room:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.bodies = {}

    def split(self, a):
        """destination -> (base, offset)"""
        if a[0] == "L":
            ptr = [(t, k) for t, k in a[2] if k == 1 and (t[0] in ("al", "fld") or t[0] == "call" and t[1] in ALLOCS)]
            if len(ptr) == 1:
                return ptr[0][0], sub(a, ptr[0][0])
        return a, C0

    def capacity(self, fn, base):
        """bytes of the object as a term; None if not of a visible size"""
        if base[0] == "al":
            for i in fn.insts():
                if i.op == "alloca" and i.id == base[1]:
                    if not (i.aty or "").startswith("["):
                        return None
                    n = ty_size(i.aty)
                    return None if n is None else const(n)
        if base[0] == "fld":
            sname, _, m = base[1].rpartition(".")
            s = self.p.structs.get(sname)
            if s:
                for x in s["members"]:
                    if x[0] == m and x[1].endswith("[]"):
                        return const(x[3])
        if base[0] == "call" and base[1] in ALLOCS:
            if base[1] == "calloc":
                return mul(base[3][0], base[3][1])
            return base[3][ALLOCS[base[1]]]
        return None


def run(ctx):
    ctx.rule("C23.room", "what a copying call writes at most fits into the array or block it writes to, and single characters are stored into array members at indexes below their size")
    n = 0
    for unit in ("engine", "cli"):
        p = ctx.prog(unit, inline=False)
        n += judge(ctx, p, unit)
    ctx.need(n, 14, "copies into buffers of a visible size")


def judge(ctx, p, unit):
    todo = [f for f in p.names() if any(i.callee_name() in FUNCS for i in p.fn(f).insts())]
    n = 0
    lifted = set()
    for f in todo:
        k, passed = one(ctx, p, f)
        n += k
        if passed:
            lifted.add(f)
    # helpers given the destination: judged inside their callers
    for _ in range(3):
        if not lifted:
            break
        every = set(p.names())
        q = ctx.prog(unit, keep=sorted(every - lifted))
        users = sorted({g for g in every if any(i.callee_name() in lifted for i in p.fn(g).insts())})
        more = set()
        for g in users:
            if not q.has(g):
                continue
            k, passed = one(ctx, q, g, lifted)
            n += k
            if passed and g not in lifted:
                more.add(g)
        if not more - lifted:
            break
        lifted |= more
    n += elements(ctx, p)
    return n


def elements(ctx, p):
    """single characters stored into array members"""
    names = {(s, m[0]): m[3] for s, d in p.structs.items() for m in d["members"] if m[1] == "char[]" and "/include/" not in d["file"] and d["file"]}
    tags_ = {s + "." + m for s, m in names}
    n = 0
    for f in p.names():
        raw = repr(p._raw[f])
        if not any(t in raw for t in tags_):
            continue
        fn = p.fn(f)
        F = Fragments(ctx, p, f, lambda: FragRule(set(), {"all"}, 400), infer=len(fn.blocks) < 40)
        done = {}
        for o in sum([F.returns(h) + F.arrivals(h) for h in [0] + [h for h in F.headers if h in F.reachable()]], []):
            for e in o.ev:
                if e[0] != "store":
                    continue
                base, off = e[1], C0
                if base[0] == "L":
                    c = [t for t, k in base[2] if t[0] == "fld" and t[1] in tags_ and k == 1]
                    if len(c) != 1:
                        continue
                    base, off = c[0], sub(e[1], c[0])
                if base[0] != "fld" or base[1] not in tags_:
                    continue
                sname, _, m = base[1].rpartition(".")
                lo, hi = o.an.interval(o.st, off)[:2]
                size = names[(sname, m)]
                # an index carried through a loop without an inferred limit is not judged
                ok = hi < size and (lo >= 0 or lo < -2**63) or hi >= 2**62 and bool(F.headers)
                if e[3] not in done or not ok:
                    done[e[3]] = (ok, o, lo, hi, base[1])
        for key, (ok, o, lo, hi, b) in sorted(done.items()):
            n += 1
            inst = [i for i in fn.insts() if i.id == key]
            ctx.ob("%s: %s" % (f, b), ok, fn.loc(inst[0]) if inst else o.where(), "" if ok else "stores at an index that is not below the size of the array (%s to %s)" % (lo, hi), o.trail() if not ok else None)
    return n


def one(ctx, p, fname, only=None):
    """obligations of one function; returns (how many, destination comes from a parameter)"""
    room = Room(ctx, p)
    fn = p.fn(fname)
    calls = {i.id: i for i in fn.insts() if i.callee_name() in FUNCS}
    if not calls:
        return 0, False
    try:
        F = Fragments(ctx, p, fname, lambda: FragRule(FUNCS | {"strlen"}, {"all"}, 400), infer=len(fn.blocks) < 40)
    except AnalysisError as e:
        if only is not None:
            return 0, False
        raise
    passed = False
    done = {}
    for o in sum([F.returns(h) + F.arrivals(h) for h in [0] + [h for h in F.headers if h in F.reachable()]], []):
        for k, e in enumerate(o.ev):
            if e[0] != "call" or e[1] not in FUNCS:
                continue
            dst = e[2][{"realpath": 1, "getcwd": 0, "read": 1, "readlink": 1}.get(e[1], 0)]
            base, off = room.split(dst)
            if base[0] == "arg":
                passed = True
                continue
            cap = room.capacity(fn, base)
            if e[1] == "strcat" and base[0] == "call":
                continue
            if cap is None or e[1] in ("snprintf", "vsnprintf") and dst == C0:
                continue
            why = judge_call(ctx, p, fn, o, k, e, base, off, cap)
            key = e[3]
            if key not in done or why and not done[key][1]:
                done[key] = (e, why, o)
    for key, (e, why, o) in sorted(done.items()):
        ctx.ob("%s: %s" % (fname, e[1]), why is None, fn.loc(calls[key]) if key in calls else o.where(), why or "", o.trail() if why else None)
    return len(done), passed


def judge_call(ctx, p, fn, o, k, e, base, off, cap):
    need = needed(ctx, p, fn, o, k, e, base)
    if isinstance(need, str):
        return need
    left = sub(sub(cap, off), need)
    if max(o.an.interval(o.st, left)[0], o.an.interval(o.st, strip_len(left))[0]) >= 0:
        return None
    if is_c(cap) and is_c(need) and is_c(off):
        return "%s can write %d bytes into a buffer of %d" % (e[1], need[1] + off[1], cap[1])
    return "%s can write %s bytes where there is room for %s" % (e[1], show(need), show(sub(cap, off)))


def length(ctx, p, fn, o, src):
    """longest the string src can be, as a term; None when unknown"""
    if src[0] == "str":
        return const(len(src[1].encode("utf-8", "surrogateescape")))
    if src[0] == "sel":
        a, b = length(ctx, p, fn, o, src[2]), length(ctx, p, fn, o, src[3])
        if a is not None and b is not None and is_c(a) and is_c(b):
            return const(max(a[1], b[1]))
        return None
    if src[0] == "arg":
        got = constants_at(ctx, p, fn.name, src[1])
        if got:
            return const(max(got))
    for x in reversed(o.ev):
        if x[0] == "call" and x[1] == "strlen" and x[2][0] == src and x[4] is not None:
            return x[4]
    return ("call", "strlen", 0, (src,))


def constants_at(ctx, p, fname, i):
    """lengths of the constants every caller passes, None unless all are constants"""
    out = []
    for g in p.names():
        for c in p.fn(g).insts():
            if c.callee_name() != fname:
                continue
            for t in strings_of(p, p.fn(g), c.a[i]):
                if t is None:
                    return None
                out.append(t)
    return out


def strings_of(p, f, v, seen=()):
    """lengths of the string constants an operand can be; None for anything else"""
    if isinstance(v, list) and v and v[0] == "s":
        return [len(v[1].encode("utf-8", "surrogateescape"))]
    if isinstance(v, list) and v and v[0] in ("null", "zero"):
        return []
    if isinstance(v, int) and v not in seen:
        for i in f.insts():
            if i.id == v and i.op == "phi":
                return [n for x in i.a for n in strings_of(p, f, x[2], seen + (v,))]
            if i.id == v and i.op == "select":
                return [n for x in i.a[1:] for n in strings_of(p, f, x, seen + (v,))]
    if isinstance(v, int) and v in seen:
        return []
    return [None]


def needed(ctx, p, fn, o, k, e, base):
    n, a = e[1], e[2]
    if n in ("strcpy", "stpcpy"):
        s = length(ctx, p, fn, o, a[1])
        return add(s, C1)
    if n == "strcat":
        return "strcat into a buffer of a fixed size has no limit"
    if n == "strncat":
        before = [x for x in o.ev[:k] if x[0] == "store" and same(x[1], a[0]) or x[0] == "call" and x[1] in FUNCS and same(x[2][0], a[0])]
        if not before or before[-1][0] != "store" or before[-1][2] != C0:
            return "strncat into a buffer that was not emptied before"
        return add(a[2], C1)
    if n in ("strncpy", "memcpy", "memmove"):
        return a[2]
    if n == "memset":
        return a[2]
    if n in ("snprintf", "vsnprintf", "fgets", "getcwd"):
        return a[1]
    if n in ("read", "readlink"):
        return a[2]
    if n == "fread":
        return mul(a[1], a[2])
    if n == "realpath":
        return const(4096)
    if n == "sprintf":
        return formatted(ctx, p, fn, o, a)
    return "%s has no limit" % n


CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diuxXocsfFeEgGp%])")


def formatted(ctx, p, fn, o, a):
    f = a[1]
    if f[0] != "str":
        return "sprintf with a format that is not a constant"
    total = const(len(CONV.sub("", f[1])) + 1)
    i = 2
    for m in CONV.finditer(f[1]):
        flags, width, prec, size, c = m.groups()
        if c == "%":
            total = add(total, C1)
            continue
        if width == "*" or prec == "*":
            return "sprintf with a width given at run time"
        w = int(width or 0)
        if c in "di":
            w = max(w, INT_DIGITS[size or ""], int(prec or 0) + 1)
        elif c in "uxXo":
            w = max(w, 24, int(prec or 0) + 2)
        elif c == "c":
            w = max(w, 1)
        elif c == "p":
            w = max(w, 20)
        elif c in "fF":
            w = max(w, FLOAT + (6 if prec is None else int(prec)))
        elif c in "eEgG":
            w = max(w, 16 + (6 if prec is None else int(prec)))
        elif c == "s":
            s = length(ctx, p, fn, o, a[i])
            if prec is not None:
                w = max(w, int(prec))
            else:
                total = add(total, s)
        total = add(total, const(w))
        i += 1
    return total
